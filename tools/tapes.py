"""The check of delivery and failures of the input (C19)."""
import vp
from parts import typed

KINDS = ('header', 'index', 'charset', 'encoding', 'select', 'number', 'sid', 'dict', 'offset', 'text')
WAYS = 38  # the kinds of errors of the tape, as it counts them
SWEEPS = [
    {'once': 1, 'ways': WAYS}, {'once': 0}, {'chunk': 1, 'once': 1}, {'intr': 2, 'once': 1},
    {'chunk': 1, 'intr': 2, 'once': 0}, {'chunk': 2, 'intr': 3, 'once': 1}, {'chunk': 3, 'once': 1},
]


def check(session):
    random = session.random
    cases = session.enumerate('Tape', {'Length': str(session.pick(6, 8))})
    scripts = sorted({tuple(case['script']) for case in cases})
    session.stage('schedules of the model', schedules=len(scripts), mismatches=0)
    # The parts: every kind, and small font sets.
    parts = []
    for family in KINDS:
        found = session.enumerate('PartEnum', {'Family': '"%s"' % family, 'Deep': 'FALSE'})
        found += typed(random, found, 300)
        found = [case for case in found if len(case['b']) < 60]
        by_kind = {}
        for case in found:
            by_kind.setdefault((case['kind'], case.get('e')), []).append(case)
        for group in by_kind.values():
            parts += random.sample(group, min(len(group), session.pick(6, 60)))
    fonts = session.simulate('FontGen', {'Profile': '"mixed"'}, session.pick(60, 1000), depth=500)
    fonts += session.simulate('FontGen', {'Profile': '"keyed"'}, session.pick(60, 1000), depth=500)
    fonts = [case for case in fonts if len(case['b']) < session.pick(600, 1500)]
    # Schedules of the model, with the tape's operations.
    session.mark = 0
    cases = []
    for part in parts:
        at = random.choice([0, 0, 3])
        some = random.sample(scripts, min(len(scripts), session.pick(60, 1000)))
        cases.append({'kind': part['kind'], 'b': [7] * at + part['b'], 'at': at, 'n': part.get('n', 0),
                      'plans': [{'script': list(script), 'error': (i + len(cases)) % WAYS} for i, script in enumerate(some)]})
    for font in fonts[:session.pick(24, 300)]:
        some = random.sample(scripts, session.pick(20, 60))
        cases.append({'kind': random.choice(['font', 'font', 'count']), 'b': font['b'], 'at': font['at'], 'n': 0,
                      'plans': [{'script': list(script), 'error': (i + len(cases)) % WAYS} for i, script in enumerate(some)]})
    run(session, 'schedules of the model on the readers', cases)
    # Every operation of the tape failing in turn.
    cases = []
    for part in parts:
        cases.append({'kind': part['kind'], 'b': part['b'], 'at': 0, 'n': part.get('n', 0), 'sweeps': SWEEPS})
    for i, font in enumerate(fonts):
        sweeps = [dict(SWEEPS[0], ways=2, salt=5 * i), dict(SWEEPS[i % len(SWEEPS)], ways=1, salt=11 * i), {'chunk': 1 + i % 5, 'intr': i % 4, 'step': 100000}]
        cases.append({'kind': 'font', 'b': font['b'], 'at': font['at'], 'n': 0, 'sweeps': sweeps})
        if i % 8 == 0:
            cases.append({'kind': 'count', 'b': font['b'], 'at': font['at'], 'n': 0, 'sweeps': SWEEPS})
    run(session, 'every operation failing', cases)
    return session.finish(fault_points=session.points)


def run(session, name, cases):
    records = session.record('tape', cases)
    for record in records:
        record.pop('plans', None)
        record.pop('sweeps', None)
    session.points = getattr(session, 'points', 0) + sum(
        len(record['r']['runs']) if isinstance(record['r'], dict) and 'runs' in record['r'] else 0 for record in records)
    session.validate(name, records, 'TapeTrace', 'tape')
