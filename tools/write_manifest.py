"""Writes MANIFEST.json: python3 tools/write_manifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    PROPS = [json.loads(line)['id'] for line in f]

REF = 'reference-model runtime monitor'
TECH = {
    'C01': ('invariant monitor over every constructed schedule',
            'structural invariants and accessor agreement decided on every session of every constructed calendar'),
    'C02': (REF + ' over generated definitions', 'membership of every date of the window decided by an independent model of the definition'),
    'C03': (REF + ' over generated definitions', 'every session time decided by per-session zone conversion; trusts pytz'),
    'C04': (REF + ' over generated definitions, metamorphic mutants', 'every special date decided by the model; rejected definitions must fail'),
    'C05': ('metamorphic monitor over pairs of windows', 'tables of overlapping windows compared date by date'),
    'C06': (REF + ' over all trading minutes', 'every minute of the monitored calendars and every boundary minute decided'),
    'C07': (REF + ' over recorded queries', 'each answer decided by bisection on the minute/open/close lists'),
    'C08': (REF + ' over recorded query histories', 'each answer decided by interval search; histories random'),
    'C09': (REF + ' over recorded queries', 'each answer decided by list slicing'),
    'C10': (REF + ' over recorded queries', 'each answer decided by list slicing'),
    'C11': ('trace monitor with injected preemption and thread stress',
            'answers of histories and interleavings compared with answers of calendars built and queried alone in fresh processes; '
            'preemption at every traced source line of one query, threads beyond that are sampled'),
    'C12': ('state-machine monitor over registry histories, injected preemption and threads',
            'every operation and the whole registry state after it decided by a model of the map; histories random'),
    'C13': ('exhaustive monitor of the name table', 'all names; trusts the hand-written table of names, exchanges and zones'),
    'C14': ('output-parsing monitor over command runs', 'every printed cell decided from the session set; argument shapes sampled'),
    'C15': ('reference-almanac monitor over every date', 'every date of the range decided; the almanac\'s rules are a transcription '
            'of the rules declared at the pinned commit (feasts computed independently), so it pins rather than proves them'),
    'C16': ('reference-almanac monitor over every session', 'every session of the range decided; the almanac\'s hours are a '
            'transcription of those declared at the pinned commit, zone arithmetic is independent'),
    'C17': (REF + ' around table limits', 'windows around both limits of every table and of generated tables decided by the limits'),
    'C18': ('astronomical and arithmetic reference monitor', 'every feast of every covered year decided by calendar arithmetic'),
    'C19': ('inclusion monitor over sessions and minutes', 'all sessions 2000-2050, boundary and sampled minutes'),
    'C20': ('lifecycle monitor: alteration, copies, weak references',
            'answers after alteration/copy of another instance compared with recorded answers; leaks visible to Python only'),
    'C21': ('monitor under an injected clock', 'default construction in child processes at sampled clock readings 2021-2040'),
    'C22': ('metamorphic monitor over representations', 'answers for one instant in many representations compared'),
    'C23': (REF + ' of the offset', 'offset arithmetic decided by position in the session list'),
    'C24': (REF + ' of the holiday builders', 'every year of every builder and sampled argument combinations decided by own date arithmetic; '
            'generated rules in random orders of evaluation'),
    'C25': (REF + ' of the conversion helpers', 'every result decided by pytz conversion date by date; inputs sampled around clock changes'),
    'C26': ('monitor over refused labels', 'every session query asked about sampled non-sessions of every kind and about sessions'),
    'C27': (REF + ' over whole windows', 'every date and minute of sampled windows decided by date arithmetic'),
    'C28': ('process-state monitor with audit events', 'snapshots of process-wide settings, arguments and declarations around every operation; '
            'effects invisible to the snapshot and to audit events are not seen'),
    'C29': ('fault injection at every source line with a ' + REF, 'exceptions injected at sampled and enumerated lines of operations; later answers '
            'decided by the model of the uninterrupted table; points inside pandas are not reached'),
    'C30': ('differential monitor over process environments', 'answers in child processes under sampled environments compared with a reference process'),
    'C31': ('reachable-data monitor over long query histories', 'elements reachable from calendars and modules counted between batches; caches with '
            'a bound of a few thousand entries are accepted'),
    'C32': ('output monitor over script runs', 'every line written by a copy of the script in a scratch directory compared with the calendar; exchanges sampled'),
}

checks, missing = [], []
for p in PROPS:
    if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
        tech, note = TECH[p]
        checks.append({
            'property': p, 'quick_cmd': 'bash run.sh ' + p, 'thorough_cmd': 'bash run.sh ' + p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': 'exploration', 'level_note': note,
        })
    else:
        missing.append({'property': p, 'reason': 'check not built yet'})

with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'All checks run the working tree of /repo with /opt/venv/bin/python; nothing is hooked into /repo. '
                 'Known and fixed findings are in known_findings.txt.',
    }, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not claimed')
