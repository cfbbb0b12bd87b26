"""The checks of the charstring interpreter (C01 to C08)."""
import os
import vp

FIXTURES = (('SourceSerifPro-Regular.otf', 17732), ('Hirakatana-Regular.otf', 1524))

PLAN = {
    # property: projection, exhaustive families, simulated profiles with their quick numbers
    'C01': ('ops', ['codes', 'pairs', 'large', 'shown'], {'mixed': 1600, 'counts': 400, 'calls': 400}),
    'C02': ('counts', ['counts', 'codes', 'large'], {'counts': 1600}),
    'C03': ('ops', ['calc', 'far'], {'calc': 1600}),
    'C04': ('ops', ['calls', 'nesting', 'recursion', 'shown'], {'calls': 1600}),
    'C05': ('width', ['width', 'large', 'shown'], {'width': 1600, 'mixed': 400}),
    'C06': ('names', ['masks'], {'masks': 1600}),
    'C07': ('kinds', ['ends', 'nesting', 'recursion'], {'ends': 2400}),
    'C08': ('ops', ['numbers'], {'numbers': 800}),
}


def strip(case):
    return {key: case[key] for key in ('code', 'l', 'g')}


def mutated(random, case):
    """A program like the given one."""
    case = {'code': list(case['code']),
            'l': {'n': case['l']['n'], 's': [[i, list(b)] for i, b in case['l']['s']]},
            'g': {'n': case['g']['n'], 's': [[i, list(b)] for i, b in case['g']['s']]}}
    codes = [case['code']] + [b for _, b in case['l']['s']] + [b for _, b in case['g']['s']]
    interesting = [0, 1, 3, 5, 6, 8, 10, 11, 12, 14, 18, 19, 20, 21, 22, 23, 24, 27, 28, 29, 30, 31, 32,
                   139, 140, 246, 247, 250, 251, 254, 255]
    for _ in range(random.choice([1, 1, 1, 2, 3, 6])):
        code = random.choice(codes)
        way = random.randrange(6)
        at = random.randrange(len(code) + 1)
        byte = random.choice(interesting) if random.random() < 0.6 else random.randrange(256)
        if way == 0:
            code.insert(at, byte)
        elif way == 1 and code:
            del code[at % len(code)]
        elif way == 2 and code:
            code[at % len(code)] = byte
        elif way == 3 and code:
            code[at % len(code)] ^= 1 << random.randrange(8)
        elif way == 4:
            del code[at:]
        elif way == 5:
            other = random.choice(codes)
            start = random.randrange(len(other) + 1)
            code[at:at] = other[start:start + random.randrange(1, 12)]
    return case


def referenced(codes, set_):
    """The subroutines of a set that may be called from any of the codes."""
    n = len(set_)
    bias = 107 if n < 1240 else 1131 if n < 33900 else 32768
    result = set()
    for code in codes:
        for i, byte in enumerate(code):
            if byte in (10, 29):
                candidates = []
                if i >= 1 and 32 <= code[i - 1] <= 246:
                    candidates.append(code[i - 1] - 139)
                if i >= 2 and 247 <= code[i - 2] <= 250:
                    candidates.append((code[i - 2] - 247) * 256 + code[i - 1] + 108)
                if i >= 2 and 251 <= code[i - 2] <= 254:
                    candidates.append(-(code[i - 2] - 251) * 256 - code[i - 1] - 108)
                if i >= 3 and code[i - 3] == 28:
                    value = code[i - 2] * 256 + code[i - 1]
                    candidates.append(value - 65536 if value > 32767 else value)
                result |= {value + bias for value in candidates if 0 <= value + bias < n}
    return result


def programs(binary):
    """The programs of the fonts among the fixtures, with the subroutines they may call."""
    cases = []
    for name, at in FIXTURES:
        path = os.path.join(vp.REPO, 'tests', 'fixtures', name)
        with open(path, 'rb') as handle:
            data = list(handle.read())
        result = vp.drive(binary, 'part', [{'kind': 'font', 'b': data, 'at': at}], 'r')[0]['r']
        if not isinstance(result, dict) or result['k'] != 'ok':
            continue
        font = result['v']
        glob = font['subroutines'][3]
        for record, strings in zip(font['records'], font['charstrings']):
            if record[0] != 'name':
                continue
            local = record[2][3]
            for code in strings[3]:
                known_l, known_g, codes = set(), set(), [code]
                while True:
                    more_l = referenced(codes, local) - known_l
                    more_g = referenced(codes, glob) - known_g
                    if not more_l and not more_g:
                        break
                    known_l |= more_l
                    known_g |= more_g
                    codes = [local[i] for i in more_l] + [glob[i] for i in more_g]
                cases.append({'code': code, 'l': {'n': len(local), 's': [[i, local[i]] for i in sorted(known_l)]},
                              'g': {'n': len(glob), 's': [[i, glob[i]] for i in sorted(known_g)]}})
    return cases


def lengthy(property, random):
    """Programs whose bytes, operands or stems take more than 16 bits to count."""
    none = {'n': 0, 's': []}

    def row(number):
        return [random.randrange(32, 247)] * (number - 3) + [140, 141, 142]

    def alone(code):
        return {'code': code, 'l': none, 'g': none}

    few = [139, 22]
    if property in ('C05', 'C07'):
        for left in (65533, 65534, 65600, 131072):
            yield alone(few + [14] + [random.randrange(256) for _ in range(left)])
    if property in ('C01', 'C02', 'C05'):
        for count, codes in ((65536, [6]), (65537, [7]), (70000, [5]), (65539, [24]), (65542, [25]), (65536, [8]),
                             (65537, [26]), (65540, [27]), (65544, [30]), (65537, [31]), (65539, [1]), (65540, [20] + [14] * 4096)):
            yield alone((few if random.randrange(2) else []) + row(count) + codes + [141, 22, 14])
    if property == 'C03':
        yield alone(few + row(65536) + [12, 18, 12, 18, 12, 27, 7, 14])
        yield alone(few + row(65538) + [28, 127, 255, 12, 29, 139, 12, 29, 7, 14])
        yield alone(few + row(65538) + [28, 127, 255, 140, 12, 30, 7, 14])
    if property == 'C06':
        for count in (65536, 65538, 131072, 131074, 131088):
            after = random.choice([[], [140, 141]])
            size = ((count + len(after)) // 2 + 7) // 8
            yield alone(row(count) + [18] + after + [19] + [14] * size + [141, 22, 14])
            yield alone(row(count) + [18, 20] + [11] * ((count // 2 + 7) // 8 - 1))
    if property in ('C04', 'C07'):
        routine = row(40000) + [6] + row(30000) + [7]
        for end in ([11], [14], []):
            yield {'code': [32, 10, 143, 22, 14], 'l': {'n': 1, 's': [[0, routine + end]]}, 'g': none}
        for count in (65530, 65535):
            for end in ([11], [14]):
                yield {'code': row(count) + [6] + [32, 29, 143, 22, 14], 'l': none, 'g': {'n': 1, 's': [[0, [141, 7] + end]]}}


def check(session):
    projection, families, profiles = PLAN[session.property]
    for family in families:
        cases = session.enumerate('CharStringEnum', {'Family': '"%s"' % family,
                                                     'Deep': 'TRUE' if session.deep else 'FALSE'})
        session.replay('exhaustive family ' + family, cases, projection)
    if session.property == 'C04':
        cases = session.enumerate('CharStringInline', {'Deep': 'TRUE' if session.deep else 'FALSE'})
        session.replay('calls against inlined code', cases, projection)
    pool = []
    for profile, num in profiles.items():
        cases = session.simulate('CharStringGen', {'Profile': '"%s"' % profile}, session.pick(num, num * 25))
        session.replay('simulated profile ' + profile, cases, projection)
        pool += cases
    # Programs like the generated ones, and those of real fonts.
    session.mark = 0
    cases = [mutated(session.random, session.random.choice(pool)) for _ in range(session.pick(1200, 40000))]
    records = session.record('cs', cases)
    session.validate('traces of changed programs', records, 'CharStringTrace', 'cs',
                     {'Projection': '"%s"' % projection})
    cases = list(lengthy(session.property, session.random))
    records = session.record('cs', cases)
    session.validate('traces of very long programs', records, 'CharStringTrace', 'cs',
                     {'Projection': '"%s"' % projection})
    cases = programs(session.binary)
    session.random.shuffle(cases)
    cases = cases[:session.pick(150, 100000)]
    records = session.record('cs', cases)
    session.validate('traces of real glyphs', records, 'CharStringTrace', 'cs',
                     {'Projection': '"%s"' % projection})
    return session.finish()
