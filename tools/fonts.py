"""The checks of whole font sets (C16, C17, C22, and part of C21)."""
import os
import vp
from charstrings import FIXTURES

PLAN = {
    # property: what is compared, simulated profiles with their quick numbers, share of changed ones
    'C16': dict(compared='all', profiles={'mixed': 1100, 'flawed': 1100, 'crowded': 160, 'distant': 64}, changed=2000, fixtures=True),
    'C17': dict(compared='keyed', families=['select', 'bulkselect'], profiles={'keyed': 1500, 'wrong': 800, 'crowded': 160, 'vast': 12, 'distant': 40}, changed=1200),
    'C22': dict(compared='shift', profiles={'shift': 1500, 'keyed': 400, 'crowded': 80, 'distant': 40}, changed=800),
}
BASES = [1 << 16, 1 << 17, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 62]
EDGE = [0, 1, 2, 3, 4, 5, 12, 15, 16, 17, 18, 19, 28, 29, 30, 31, 36, 37, 127, 128, 129, 139, 140, 247, 251, 254, 255]


def mutated(random, case):
    """A font set like the given one, mostly changed in its first parts."""
    case = {'kind': 'font', 'b': list(case['b']), 'at': case['at'], 'end': 0}
    data = case['b']
    for _ in range(random.choice([1, 1, 1, 2, 4])):
        if len(data) <= case['at']:
            break
        way = random.randrange(5)
        span = len(data) - case['at']
        at = case['at'] + random.randrange(min(span, random.choice([8, 40, 120, span])))
        byte = random.choice(EDGE) if random.random() < 0.6 else random.randrange(256)
        if way == 0:
            data[at] = byte
        elif way == 1:
            data[at] = (data[at] + random.choice([-1, 1, 128])) % 256
        elif way == 2:
            data[at] ^= 1 << random.randrange(8)
        elif way == 3 and random.random() < 0.3:
            del data[at:]
        elif way == 3:
            del data[at]
        else:
            data.insert(at, byte)
    return case


def moved(session, cases):
    """Every font set where it lies and by itself, and the number of its fonts."""
    alone = []
    for case in cases:
        data = case['b'][case['at']:]
        # What follows may be left out only if the font set ends before it.
        alone.append({'kind': 'font', 'b': data, 'at': 0})
    here = session.record('part', cases)
    there = session.record('part', alone)
    count_here = session.record('part', [dict(case, kind='count') for case in cases])
    count_there = session.record('part', [dict(case, kind='count') for case in alone])
    result = []
    for record, twin, one, other in zip(here, there, count_here, count_there):
        result.append(dict(record, d=one['r'], twin={'at': 0, 'b': twin['b'], 'r': twin['r'], 'd': other['r']}))
    return result


def lengthened(random, cases):
    """Font sets that read well, followed by different bytes."""
    return [dict(case, b=case['b'] + [random.randrange(256) for _ in range(random.randrange(1, 30))])
            if case.get('end') and case.get('how') == 'done' else case for case in cases]


def judge(session, name, cases, compared):
    if compared == 'shift':
        records = moved(session, cases)
        # The same bytes, shifted again and followed by others: the second reading is of those.
        longer = lengthened(session.random, cases)
        others = session.record('part', longer)
        counts = session.record('part', [dict(case, kind='count') for case in longer])
        for record, other, count in zip(records, others, counts):
            record['longer'] = {'at': other['at'], 'b': other['b'], 'r': other['r'], 'd': count['r']}
        # Far from the beginning of the input, where positions take more than 16, 31, and 32 bits.
        distant = [dict(case, tape={'base': session.random.choice(BASES) - session.random.choice([0, 0, 1, 9, 40])})
                   for case in cases]
        others = session.record('part', distant)
        counts = session.record('part', [dict(case, kind='count') for case in distant])
        for record, other, count in zip(records, others, counts):
            record['distant'] = {'base': str(other['tape']['base']), 'r': other['r'], 'd': count['r']}
    else:
        records = session.record('part', cases)
    session.validate(name, records, 'FontTrace', 'part', {'Compared': '"%s"' % compared})


def explore(session, profile, number, compared=None):
    """Font sets written by the specification, read by the crate."""
    cases = session.simulate('FontGen', {'Profile': '"%s"' % profile}, number, depth=2000)
    judge(session, 'font sets, profile ' + profile, cases, compared or profile)
    return cases


def fixtures():
    """The font sets of the files among the fixtures."""
    result = []
    for name, at in FIXTURES:
        with open(os.path.join(vp.REPO, 'tests', 'fixtures', name), 'rb') as handle:
            result.append({'kind': 'font', 'b': list(handle.read()[at:]), 'at': 0, 'end': 0})
    return result


def check(session):
    plan = PLAN[session.property]
    if plan.get('families'):
        import parts
        parts.families(session, plan['families'], plan)
    pool = []
    for profile, number in plan['profiles'].items():
        pool += explore(session, profile, session.pick(number, number * 25), plan['compared'])
    number = session.pick(plan['changed'], plan['changed'] * 25)
    cases = [mutated(session.random, session.random.choice(pool)) for _ in range(number)]
    session.mark = 0
    judge(session, 'changed font sets', cases, plan['compared'])
    if plan.get('fixtures'):
        session.mark = 0
        judge(session, 'the font sets of the fixtures', fixtures(), plan['compared'])
    return session.finish()
