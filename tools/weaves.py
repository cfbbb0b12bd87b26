"""The check that programs and readings do not affect each other (C23)."""
import vp
import charstrings
import parts as readings

KINDS = ('index', 'charset', 'encoding', 'select', 'number', 'nibble', 'dict', 'dicts', 'text', 'string', 'get')


def run(session, name, cases):
    """Go through schedules; validate what the crate did as one record each."""
    if not cases:
        return
    records = []
    for record in session.record('weave', cases):
        threads = len(record['schedules'])
        objects = [record['objects'][i] for _ in range(threads) for i in range(len(record['objects']))]
        log = []
        for event in record['r']:
            if isinstance(event, dict):         # the driver did not get through
                log.append([0, event])
            elif isinstance(event[1], list):    # a program of its own
                objects.append(objects[event[0]])
                log += [[len(objects) - 1, answer] for answer in event[1]]
            else:
                log.append(event)
        records.append({'objects': objects, 'log': log, 'schedules': record['schedules'], 'early': record['early'],
                        'requests': sum(map(len, record['schedules']))})
    session.validate(name, records, 'WeaveTrace', 'weave')


def alone(session, fonts):
    """What reading a font set comes to in a process of its own."""
    result = []
    for font in fonts:
        record = vp.drive(session.binary, 'part', [font], 'r')[0]
        value = record['r'] if isinstance(record['r'], dict) else record['r'][0]
        result.append(dict(font, alone={key: value[key] for key in ('k', 'v') if key in value}))
    return result


def check(session):
    random = session.random
    # Every schedule of pairs, and some of triples.
    for name, constants, share in (('pairs', {'Together': 2, 'Requests': session.pick(4, 5), 'Chosen': 1}, 1),
                                   ('triples', {'Together': 3, 'Requests': session.pick(2, 3), 'Chosen': session.pick(11, 7)}, 1)):
        cases = session.enumerate('Weave', {key: str(value) for key, value in constants.items()})
        cases = [{'objects': case['objects'], 'schedules': [case['schedule']], 'early': i % 2} for i, case in enumerate(cases)]
        run(session, 'every schedule of ' + name, cases)
    # Programs and parts of all kinds, in turns, within each other, and on threads.
    programs, parts, fonts = [], [], []
    for profile in ('mixed', 'masks', 'calls', 'width', 'calc', 'ends'):
        programs += session.simulate('CharStringGen', {'Profile': '"%s"' % profile}, session.pick(80, 1000))
    programs = [charstrings.strip(case) for case in programs if len(case['code']) < 300]
    for family in KINDS:
        found = session.enumerate('PartEnum', {'Family': '"%s"' % family, 'Deep': 'FALSE'})
        found = [case for case in found if len(case['b']) < 60]
        for case in random.sample(found, min(len(found), session.pick(80, 1000))):
            parts.append({'kind': case['kind'], 'b': case['b'], 'at': 0, 'n': case['n'], 'sids': case.get('sids', [])})
    for profile in ('mixed', 'keyed', 'flawed'):
        fonts += session.simulate('FontGen', {'Profile': '"%s"' % profile}, session.pick(40, 400), depth=500)
    for family in ('reals', 'dictionaries', 'indices'):
        made = [case for case in readings.made(family, random, session.pick(80, 1000)) if len(case['b']) < 100]
        parts += [{'kind': case['kind'], 'b': case['b'], 'at': 0, 'n': case['n'], 'sids': case.get('sids', [])} for case in made]
    # What is much like another one, or fails, is where something kept of it would show.
    parts += [readings.mutated(random, case) for case in parts]
    programs += [charstrings.mutated(random, case) for case in programs]
    fonts = alone(session, [{'kind': 'font', 'b': case['b'], 'at': case['at'], 'n': 0}
                            for case in fonts if len(case['b']) < 700])

    def like(item):
        """Another one that has much in common with the given one."""
        if 'code' in item:
            return charstrings.mutated(random, item)
        return item if 'alone' in item else readings.mutated(random, item)

    def part_of(objects):
        """A program whose sets are beginnings of those of another one."""
        i = random.randrange(len(objects))
        if 'code' not in objects[i] or 'of' in objects[i]:
            return objects[i]
        sets = {}
        for kind in 'lg':
            given = objects[i][kind]
            bounds = [n for n in (0, 1, 107, 1239, 1240, given['n'] - 1, given['n']) if 0 <= n <= given['n']]
            count = random.choice(bounds)
            sets[kind] = {'n': count, 's': [pair for pair in given['s'] if pair[0] < count]}
        return dict(objects[i], of=i, **sets)

    def choose(number):
        objects = []
        while len(objects) < number:
            way = random.randrange(4) if objects else 0
            if way == 1:
                objects.append(like(random.choice(objects)))
            elif way == 2:
                objects.append(part_of(objects))
            else:
                objects.append(random.choice(random.choice([programs, programs, parts, fonts])))
        return objects

    cases = []
    for _ in range(session.pick(240, 6000)):
        objects = choose(random.choice([2, 3, 4, 6]))
        schedule = [random.randrange(len(objects)) for _ in range(random.choice([6, 20, 40]))]
        cases.append({'objects': objects, 'schedules': [schedule], 'early': random.randrange(2)})
    run(session, 'in turns', cases)
    cases = []
    for _ in range(session.pick(240, 6000)):
        objects = choose(5)
        whole = [i for i, item in enumerate(objects) if 'kind' in item]
        if whole:
            schedule = []
            for _ in range(8):
                if random.randrange(2):
                    schedule.append([random.choice(whole)] + [random.randrange(len(objects)) for _ in range(random.randrange(1, 6))])
                else:
                    schedule.append(random.randrange(len(objects)))
            cases.append({'objects': objects, 'schedules': [schedule], 'early': random.randrange(2)})
    run(session, 'within each other', cases)
    cases = []
    for _ in range(session.pick(160, 4000)):
        objects = choose(random.choice([1, 2, 4]))
        schedules = [[random.randrange(len(objects)) for _ in range(20)] for _ in range(random.choice([2, 4]))]
        cases.append({'objects': objects, 'schedules': schedules, 'early': random.randrange(2)})
    run(session, 'on threads', cases)
    return session.finish()
