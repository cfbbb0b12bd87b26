"""The check that nothing crashes (C18)."""
import vp
import charstrings, fonts, parts

EXTREMES = [
    [255, 127, 255, 255, 255], [255, 128, 0, 0, 0], [255, 0, 0, 0, 1], [255, 255, 255, 255, 255],
    [28, 127, 255], [28, 128, 0], [139], [138], [140], [246], [255, 0, 0, 128, 0],
    [28, 127, 255, 12, 27, 12, 24],                                  # 2^30
    [28, 127, 255, 12, 27, 12, 24, 12, 27, 12, 24],                  # 2^60
    [28, 127, 255] + [12, 27, 12, 24] * 4,                           # infinite
    [28, 128, 1] + [12, 27, 12, 24] * 4 + [12, 14],                  # minus infinite
    [139, 139, 12, 12],                                              # not a number
    [255, 0, 0, 0, 1] + [12, 27, 12, 24] * 4,                        # 0 below all others
    [28, 127, 255, 28, 2, 0, 12, 24],                                # 2^24 and so on
    [28, 1, 0, 28, 128, 0, 12, 24, 28, 1, 0, 12, 24],                # -2^31
    [28, 1, 0, 28, 64, 0, 12, 24, 28, 2, 0, 12, 24],                 # 2^31
]
CODES = [[i] for i in range(28) if i != 12] + [[12, i] for i in range(40)] + [[29], [30], [31]]


def program(code, local=None, glob=None):
    local, glob = local or [], glob or []
    make = lambda given: given if isinstance(given, dict) else {'n': len(given), 's': [[i, x] for i, x in enumerate(given)]}
    return {'code': code, 'l': make(local), 'g': make(glob)}


def operands(session):
    """Every operator on extreme operands, with every other below, in sets of extreme sizes."""
    cases = []
    sizes = [0, 1, 107, 1239, 1240, 33899, 33900, 65535, 65536, 70000]
    for code in CODES:
        for one in EXTREMES:
            cases.append(program(one + code + [139, 21]))
            for other in EXTREMES if session.deep or code in ([12, 29], [12, 30], [12, 22], [12, 12]) else EXTREMES[::4]:
                cases.append(program([140, 141, 142, 143] + other + one + code + [139, 22]))
    for one in EXTREMES:
        for n in sizes:
            for op in (10, 29):
                cases.append(program(one + [op], {'n': n, 's': []}, {'n': n, 's': []}))
    return cases


def lengthy(session):
    """Programs with long runs of everything, each ended in several ways."""
    n = session.pick(70000, 400000)
    cases = []
    neutral = [[12, 9], [12, 14], [12, 26], [12, 27, 12, 18], [139, 12, 18], [139, 12, 10], [12, 27, 12, 28, 12, 18]]
    for piece in neutral:
        cases.append(program([140] + piece * (n // len(piece)) + [22]))
    cases.append(program([139] * n + [21]))
    cases.append(program([139] * n))
    cases.append(program([140] + [12, 27] * (n // 2) + [12, 30]))
    for op in ([1], [3], [18], [23], [19, 0], [20, 0]):
        cases.append(program([139, 139] * (n // 2) + op + [0] * (n // 8)))
        cases.append(program(([139, 139] + op) * (n // 8) + [19] + [0] * 40000))
    for op in ([5], [6], [7], [8], [24], [25], [26], [27], [30], [31], [14], [12, 35]):
        cases.append(program([139] * n + op))
    # Calls without end, in depth and in number.
    bias = 32
    for op in (10, 29):
        call = [bias, op]
        sets = lambda body: ([body], []) if op == 10 else ([], [body])
        cases.append(program(call, *sets(call)))
        cases.append(program(call, *sets([139] + call + [11])))
        cases.append(program(call * (n // 4), *sets([11])))
        cases.append(program(call * (n // 4), *sets([])))
        cases.append(program(call * (n // 4) + [139, 139, 21], *sets([139, 12, 18, 11])))
        chain = [[33 + i, op] for i in range(200)] + [[11]]
        cases.append(program(call, *((chain, []) if op == 10 else ([], chain))))
        cases.append(program([11] * n))
    cases.append(program([14] * n, [], []))
    cases.append(program([32, 10], [[14] * n]))
    for case in cases:
        case['limit'] = 3000
    return cases


def extents(session):
    """Parts that claim much, or have much."""
    cases = []
    n = session.pick(70000, 300000)

    def add(kind, data, parameter=0):
        cases.append({'kind': kind, 'b': data, 'n': parameter, 'at': 0})
    for size in range(0, 256, 1 if session.deep else 17):
        for value in ([0] * 8, [255] * 8, [127] + [255] * 7, [128] + [0] * 7):
            add('offset', value, size)
    for kind in ('index', 'names', 'strings', 'subroutines', 'dictindex', 'charstrings', 'dicts', 'namelist', 'lookupsum'):
        for count in (1, 2, 255, 65534, 65535):
            for size in (1, 2, 3, 4):
                for value in (1, 255, 2 ** 16 - 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
                    offsets = [1] + [value % 256 ** size] * min(count, 40)
                    data = [count >> 8, count & 255, size]
                    for offset in offsets:
                        data += list(offset.to_bytes(size, 'big'))
                    add(kind, data, 2)
                    add(kind, data + [65] * 300, 2)
        add(kind, [255, 255, 1] + [1] * 65536, 2)
        add(kind, [255, 255, 2] + [0, 1] * 65535 + [1, 1] + [65] * 256, 2)
    for kind in ('charset', 'charsetget', 'charset0', 'charset1', 'charset2'):
        for glyphs in (0, 1, 2, 3, 255, 256, 257, 65535, 65536, 70000):
            for data in ([0] * 4, [1] + [255, 255, 255] * 300, [2] + [255] * 40, [1] + [0, 1, 0] * 30, [2] + [0, 1, 255, 254] * 3,
                         [1, 255, 255, 0] * 9, [0] + [255] * 140000):
                add(kind, data, glyphs)
    for format in (0, 1, 2, 127, 128, 129, 130, 255):
        for count in (0, 1, 255):
            for rest in (0, 1, 254, 255, 256, 510, 511, 512, 766, 1300):
                for kind in ('encoding', 'encodingget', 'encoding0', 'encoding1', 'encodings'):
                    add(kind, [format, count] + [255] * rest)
    for glyphs in (0, 1, 65535):
        for data in ([0] * 3, [0] * 65536, [3, 255, 255] + [255] * 40, [3, 255, 255] + [1] * 196607, [3, 0, 0, 0, 0], [3, 0, 0, 255]):
            for kind in ('select', 'select0', 'select3'):
                add(kind, data, glyphs)
    for kind in ('operations', 'gets', 'number', 'sid'):
        add(kind, [139] * n)
        add(kind, [139] * n + [17])
        add(kind, [17] * n)
        add(kind, [29] + [255] * 4 + [30] + [0x99] * n)
        add(kind, [30] + [0x99] * n + [0xff, 17])
        add(kind, [30, 0xa1] + [0x00] * n + [0xff, 17])
        add(kind, [30, 0x1b] + [0x99] * n + [0xff, 17])
        add(kind, [30, 0x1c] + [0x99] * n + [0xff, 17])
        add(kind, [30] + [0xee] * 30 + [0xff, 17])
        add(kind, [30] + [0xbb] * 30 + [0xff, 17])
        add(kind, [12] * n)
    # Font sets whose header, counts and dictionaries claim much.
    values = [-2 ** 31, -1, 0, 1, 2, 3, 5, 40, 255, 65535, 2 ** 24, 2 ** 31 - 2, 2 ** 31 - 1]
    put = lambda value: [29] + list((value % 2 ** 32).to_bytes(4, 'big'))

    def font(top, header=4, private=()):
        data = [1, 0, header, 1] + [0] * (header - 4) + parts.put_index([[65]], 1) + parts.put_index([top], 1) + [0, 0] + [0, 0]
        cases.append({'kind': 'font', 'b': data + list(private), 'n': 0, 'at': 0})
        return len(data)
    for one in values:
        for two in values:
            font(put(one) + [17] + put(two) + [15])
            font(put(one) + [17] + put(two) + [16])
            font(put(17) + [17] + put(one) + put(two) + [18])
            font(put(13) + [17] + put(one) + put(two) + [18])
            font([139, 139, 139, 12, 30] + put(13) + [17] + put(one) + [12, 37] + put(two) + [12, 36])
            font(put(13) + [17] + put(one) + [12, 6] + put(two) + [15])
            # A private dictionary at hand whose subroutines are nowhere.
            size = font(put(13) + [17] + put(6) + put(0) + [18])
            font(put(size - 2) + [17] + put(6) + put(size) + [18], private=put(one) + [19])
            font(put(size - 2) + [17] + put(12) + put(size) + [18], private=put(one) + [20] + put(two) + [19])
    for header in list(range(256)):
        cases.append({'kind': 'font', 'b': [1, 0, header, 1] + [0] * 300, 'n': 0, 'at': 0})
        cases.append({'kind': 'count', 'b': [1, 0, header, 1] + [255] * 40, 'n': 0, 'at': 0})
    many = parts.put_index([[139, 17]] * 3000, 2)
    cases.append({'kind': 'font', 'b': [1, 0, 4, 1, 0, 0] + many + [0, 0, 0, 0], 'n': 0, 'at': 0})
    top = parts.put_index([put(13) + [17] + [139, 139, 18]] * 3000, 3)
    cases.append({'kind': 'font', 'b': [1, 0, 4, 1, 0, 0] + top + [0, 0, 0, 0], 'n': 0, 'at': 0})
    # Beyond the end, and next to the largest place there is.
    for kind in ('header', 'index', 'number', 'operations', 'encoding', 'font', 'count'):
        for at in (1, 5, 2 ** 31, 2 ** 62):
            cases.append({'kind': kind, 'b': [1, 0, 4, 1], 'n': 0, 'at': at})
    for case in cases:
        if case['kind'] == 'lookups':
            case['sids'] = [0, 390, 391, 65535]
    return cases


def judge(session, name, driver, cases, keep=('k',)):
    records = [record for record in session.record(driver, cases) if vp.known(record)]
    small = []
    # Only outcomes count; what was read is left out of the trace.
    for record in records:
        record = dict(record)
        if 'count' in record:
            small.append({'count': record['count'], 'seed': record['seed'], 'r': record['r'], 'id': len(small)})
        elif 'ev' in record:
            small.append({'ev': [{'k': e['k']} for e in record['ev']], 'limit': record.get('limit', 4000), 'id': len(small)})
        else:
            small.append({'kind': record['kind'], 'r': {'k': record['r'][0]['k'] if isinstance(record['r'], list) else record['r']['k']},
                          'id': len(small)})
    def original(record):
        odd = record['r'].get('odd') if 'count' in record and isinstance(record['r'], dict) else None
        return odd[0] if odd else records[record['id']]
    session.validate(name, small, 'OutcomeTrace', driver, original=original)
    return records


def check(session):
    random = session.random
    judge(session, 'extreme operands', 'cs', operands(session))
    judge(session, 'long programs', 'cs', lengthy(session))
    judge(session, 'extents', 'part', extents(session))
    programs, readings = [], []
    for family in ('calls', 'nesting', 'ends', 'masks', 'pairs') + (('calc', 'counts', 'codes', 'width') if session.deep else ()):
        programs += session.enumerate('CharStringEnum', {'Family': '"%s"' % family, 'Deep': 'FALSE'})
    for profile in ('mixed', 'calc', 'calls', 'masks', 'ends'):
        programs += session.simulate('CharStringGen', {'Profile': '"%s"' % profile}, session.pick(160, 2000))
    for family in ('index', 'charset', 'encoding', 'select', 'number', 'dict', 'dicts', 'text', 'string'):
        found = session.enumerate('PartEnum', {'Family': '"%s"' % family, 'Deep': 'FALSE'})
        readings += found + parts.typed(random, found, 400)
    for profile in ('mixed', 'keyed', 'flawed'):
        readings += session.simulate('FontGen', {'Profile': '"%s"' % profile}, session.pick(160, 2000), depth=500)
    programs = [dict(charstrings.strip(case)) for case in programs if len(case['code']) < 400]
    readings = [dict(case, at=case.get('at', 0)) for case in readings if len(case['b']) < 1500]
    total = 0
    seeds = []
    chosen = random.sample(programs, min(len(programs), session.pick(1200, 20000)))
    fonts_ = [case for case in readings if case['kind'] == 'font']
    others = [case for case in readings if case['kind'] != 'font']
    chosen += fonts_ + random.sample(others, min(len(others), session.pick(1000, 10000)))
    random.shuffle(chosen)
    for i, case in enumerate(chosen):
        case = dict(case, count=session.pick(500, 4000), seed=session.seed * 100000 + i, limit=400)
        for key in ('want', 'ev', 'r', 'e', 'mistake', 'how', 'end'):
            case.pop(key, None)
        total += case['count']
        seeds.append(case)
    judge(session, 'changed programs and parts', 'many', seeds)
    return session.finish(changed_inputs=total)
