"""The checks of the readers of parts and of the tables (C09 to C15, C20, C21)."""
from fractions import Fraction
import vp
import fonts

PLAN = {
    # property: families, kinds to read each family's cases as, numbers of changed and made cases
    'C09': dict(families=['number', 'words', 'nibble'], changed=1500, made='reals'),
    'C10': dict(families=['dict', 'dicts'], changed=2500, made='dictionaries', tables=['Operators']),
    'C11': dict(families=['index', 'bulkindex'], changed=3000, made='indices'),
    'C12': dict(families=['text', 'string', 'many', 'sid'], changed=600, made='strings'),
    'C13': dict(families=[], tables=['Standard', 'ExpertEncoding', 'ISOAdobe', 'Expert', 'ExpertSubset']),
    'C14': dict(families=['charset', 'bulkcharset'], changed=3000),
    'C15': dict(families=['encoding'], changed=3000),
    'C20': dict(families=['header', 'offset', 'index', 'charset', 'encoding', 'select', 'number', 'sid', 'seq', 'bulkcharset', 'bulkselect', 'bulkindex'],
                changed=2000, ends=True),
    'C21': dict(families=['get'], changed=400, tables=['Operators'], fonts='defaults'),
}

EDGE = [0, 1, 2, 3, 4, 5, 12, 14, 15, 17, 18, 28, 29, 30, 31, 127, 128, 129, 139, 246, 247, 254, 255]


def mutated(random, case):
    case = dict(case, b=list(case['b']))
    data = case['b']
    for _ in range(random.choice([1, 1, 1, 2, 3])):
        way, at = random.randrange(7), random.randrange(len(data) + 1)
        byte = random.choice(EDGE) if random.random() < 0.6 else random.randrange(256)
        if way == 0:
            data.insert(at, byte)
        elif way == 1 and data:
            del data[at % len(data)]
        elif way == 2 and data:
            data[at % len(data)] = byte
        elif way == 3 and data:
            data[at % len(data)] ^= 1 << random.randrange(8)
        elif way == 4:
            del data[at:]
        elif way == 5 and case['kind'] in ('charset', 'select', 'charstrings', 'offset', 'charset0', 'charset1', 'charset2', 'select0'):
            case['n'] = max(0, case['n'] + random.choice([-1, 1, 2]))
        elif way == 6 and data and at < 8:
            data[at % len(data)] = (data[at % len(data)] + random.choice([-1, 1])) % 256
    return case


def nibbles(text):
    table = {'.': [10], 'e': [11], 'E': [12], '-': [14]}
    result = []
    for character in text.replace('e-', 'E'):
        result += table.get(character) or [int(character)]
    result.append(15)
    if len(result) % 2:
        result.append(15)
    return [30] + [result[i] * 16 + result[i + 1] for i in range(0, len(result), 2)]


def notation(value, digits):
    """A positive fraction as decimal digits cut to a length, and the power of ten of the last."""
    power = 0
    while value >= 1:
        value, power = value / 10, power + 1
    while value < Fraction(1, 10):
        value, power = value * 10, power - 1
    number = value * 10 ** digits
    return number.numerator // number.denominator, power - digits


def written(random, digits, power):
    """One of the ways to write digits times a power of ten."""
    digits = str(digits)
    way = random.randrange(4)
    if way == 0 and -12 < power <= 0:
        if len(digits) > -power:
            text = digits[:len(digits) + power] + '.' + digits[len(digits) + power:]
        else:
            text = random.choice(['', '0']) + '.' + '0' * (-power - len(digits)) + digits
    elif way == 1:
        at = random.randrange(len(digits) + 1)
        power += len(digits) - at
        text = digits[:at] + '.' + digits[at:] + 'e%d' % power
    elif way == 2 and 0 <= power < 20:
        text = digits + '0' * power
    else:
        text = digits + 'e%d' % power
    return random.choice(['', '', '-']) + random.choice(['', '', '0']) + text


def reals(random, number):
    """Numbers near the middle between two neighbours, and other ones."""
    cases = []
    for length in (100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 513, 800, 1023, 1026, 2050):
        # Notations of great length: zeros and digits before and behind the point, and in the exponent.
        value = random.randrange(1, 1 << 24)
        digit = str(random.randrange(1, 10))
        for text in ('0' * length + '%d' % value, '0' * length + '.%d' % value, '%d' % value + '.' + '0' * length,
                     '.' + '0' * length + '%de%d' % (value, length), digit + '0' * length + 'e-%d' % length,
                     '1.5e' + '0' * length + '1', '-2.5e-' + '0' * length + '3', '16777217.' + '0' * length + '1',
                     '16777217.' + '0' * length, '-' + digit * length + 'e-%d' % (length - random.randrange(40)),
                     '.' + '0' * (length // 2) + '1' * (length // 2), digit * length):
            text = text[:-1] if random.random() < 0.3 and text[-2] not in '.e-' else text
            cases.append({'kind': 'number', 'n': 0, 'b': nibbles(text)})
    for _ in range(number):
        way = random.randrange(8)
        if way < 4:
            exponent = random.choice([0, 1, 2, 23, 24, 100, 120, 126, 127, 128, 150, 151, 253, 254, random.randrange(255)])
            fraction = random.choice([0, 1, 2, 0x7fffff, 0x7ffffe, random.randrange(1 << 23), random.randrange(1 << 23)])
            mantissa = fraction + (1 << 23 if exponent else 0)
            scale = Fraction(2) ** (max(exponent, 1) - 150)
            value = (mantissa + random.choice([Fraction(1, 2), Fraction(1, 2), Fraction(0), Fraction(1, 4)])) * scale
            if value == 0:
                continue
            if way == 0:
                digits, power = notation(value, 160)
                while digits % 10 == 0:
                    digits, power = digits // 10, power + 1
            else:
                digits, power = notation(value, random.choice([6, 7, 8, 9, 10, 12, 17, 20, 25, 40]))
            digits += random.choice([0, 0, 1, -1]) if way else random.choice([0, 0, 0, 1, -1])
            if digits <= 0:
                digits = 1
        elif way == 4:
            digits, power = random.randrange(1000), random.randrange(-60, 50)
        elif way == 5:
            digits, power = random.randrange(10 ** random.randrange(1, 30)), random.randrange(-50, 40)
        elif way == 6:
            digits, power = random.randrange(10 ** random.randrange(1, 9)), random.randrange(-9, 4)
        else:
            digits, power = random.choice([(0, 0), (0, 99999), (1, 39), (1, 38), (34028235, 31), (34028236, 31), (1, -45),
                                           (7, -46), (8, -46), (1, 99999), (1, -99999), (11754944, -45), (1, 2147483648),
                                           (1, -2147483648), (9, 4294967296), (10 ** 50, -50), (0, -2147483649)])
        cases.append({'kind': 'number', 'n': 0, 'b': nibbles(written(random, digits, power))})
    return cases


def number_of(random):
    way = random.randrange(7)
    if way < 3:
        return [random.randrange(32, 247)]
    if way == 3:
        return [random.randrange(247, 255), random.randrange(256)]
    if way == 4:
        return [28, random.randrange(256), random.randrange(256)]
    if way == 5:
        return [29] + [random.choice(EDGE) if random.random() < 0.5 else random.randrange(256) for _ in range(4)]
    return nibbles(written(random, random.randrange(10 ** random.randrange(1, 8)), random.randrange(-9, 4)))


CODES = [[i] for i in range(22) if i != 12] + [[12, i] for i in range(39) if i not in range(24, 30) and i not in (15, 16)]


def dictionary(random):
    result = []
    pool = random.sample(CODES, random.choice([1, 2, 3, 8, 20]))
    for _ in range(random.choice([1, 2, 3, 8, 30])):
        for _ in range(random.choice([0, 1, 1, 2, 3, 6, 20])):
            result += number_of(random)
        result += random.choice(pool)
    return result


def put_index(objects, size):
    result = [len(objects) >> 8, len(objects) & 255]
    if objects:
        result.append(size)
        offset = 1
        for chunk in [[]] + objects:
            offset += len(chunk)
            result += list(offset.to_bytes(size, 'big'))
        for chunk in objects:
            result += chunk
    return result


def made(what, random, number):
    if what == 'reals':
        return reals(random, number)
    if what == 'dictionaries':
        # Dictionaries with very many operands of one operator, and with very many entries.
        many = []
        for count in (47, 48, 49, 127, 128, 192, 255, 256, 257, 512, 513, 514, 1023, 1025, 2000):
            for value in (lambda: [random.randrange(32, 247)], lambda: number_of(random)):
                operands = sum((value() for _ in range(count)), [])
                many.append(operands + random.choice(CODES) + [139] + random.choice(CODES))
            many.append(sum(([random.randrange(32, 247)] + random.choice(CODES) for _ in range(count)), []))
        return [{'kind': kind, 'n': 0, 'b': data} for kind in ('operations', 'gets') for data in many] + [
            {'kind': 'operations', 'n': 0, 'b': dictionary(random)} for _ in range(number // 2)] + [
            {'kind': 'dicts', 'n': 0, 'b': put_index([dictionary(random) for _ in range(random.randrange(4))], 2)}
            for _ in range(number // 6)]
    if what == 'indices':
        result = []
        for _ in range(number // 4):
            objects = [[random.randrange(256) for _ in range(random.choice([0, 0, 1, 2, 5, 30]))]
                       for _ in range(random.choice([0, 1, 2, 3, 10, 40]))]
            size = 2 + random.randrange(3) if sum(map(len, objects)) > 254 else 1 + random.randrange(4)
            kind, n = random.choice([('index', 0), ('names', 0), ('strings', 0), ('subroutines', 0), ('dictindex', 0),
                                     ('charstrings', 2)])
            result.append({'kind': kind, 'n': n, 'b': put_index(objects, size)})
        # Large ones, every offset size at and beyond its bound.
        for count, size, each in ((600, 2, 100), (3, 2, 21844), (2, 3, 40000), (1, 4, 66000), (5000, 2, 1)):
            objects = [[(i + j) % 256 for j in range(each)] for i in range(count)]
            result.append({'kind': 'index', 'n': 0, 'b': put_index(objects, size)})
        return result
    if what == 'strings':
        result = []
        pieces = [[65], [0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80], [0xff], [0xc3], [0xe2, 0x82],
                  [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xc0, 0x80], [0xf0, 0x9f], [0x80], [0]]
        for length in (1, 63, 64, 126, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 4096, 32768, 65536):
            # Long strings: every one complete, and one with a wrong byte at its very end.
            objects = [[65 + i % 26 for i in range(length)]]
            if length < 4000:
                objects += [(pieces[1] * length)[:length], [67] * (length - 1) + [0xff]]
            size = 2 if length < 20000 else 3
            for kind in ('lookups', 'namelist'):
                result.append({'kind': kind, 'n': 0, 'b': put_index(objects, size), 'sids': [390, 391, 392, 393, 394]})
        for _ in range(number // 8):
            objects = [sum((random.choice(pieces) for _ in range(random.randrange(9))), [])
                       for _ in range(random.randrange(20))]
            n = len(objects)
            result.append({'kind': 'lookups', 'n': 0, 'b': put_index(objects, 2),
                           'sids': sorted({random.randrange(391) for _ in range(5)} | set(range(388, 393 + n)) |
                                          {65535, 391 + n + random.randrange(60000)})})
            result.append({'kind': 'namelist', 'n': 0, 'b': put_index(objects, 2)})
        return result
    raise vp.ToolError(what)


def tables(session, names):
    session.mark = 0
    cases = []
    for name in names:
        top = 4095 if name == 'Operators' else 65535
        step = 8192
        cases += [{'table': name, 'from': i, 'to': min(i + step - 1, top)} for i in range(0, top + 1, step)]
    records = session.record('table', cases)
    session.validate('lookups of every argument in ' + ', '.join(names), records, 'PartTrace', 'table',
                     {'Compared': '"values"'})


def placed(session, cases, twins):
    """Give the cases a place in the input."""
    result = []
    for i, case in enumerate(cases):
        case = dict(case, at=0)
        if i % 3 == 1:
            case['at'] = 2
            case['b'] = [3, 255] + case['b']
        if i % 3 == 2:
            case['b'] = case['b'] + [0, 255, 139, 11]
        result.append(case)
    return result


def with_twins(session, cases):
    """Read every part twice, among different bytes; one record of both."""
    random = session.random
    pairs = []
    for case in cases:
        after = lambda: [random.choice(EDGE + [random.randrange(256)]) for _ in range(random.randrange(6))]
        before = [random.randrange(256) for _ in range(random.randrange(1, 5))]
        # Only bytes beyond a complete part may be added to it.
        extra = after() if case.get('e') == 'ok' else []
        pairs.append((dict(case, at=0), dict(case, at=len(before), b=before + case['b'] + extra)))
    one = session.record('part', [pair[0] for pair in pairs])
    other = session.record('part', [pair[1] for pair in pairs])
    for record, twin in zip(one, other):
        record['twin'] = {'at': twin['at'], 'b': twin['b'], 'r': twin['r']}
    return one


def followed(session, pool):
    """Small complete parts, each followed by every byte there is."""
    random = session.random
    groups = {}
    for case in pool + [dict(case, e='ok') for case in reals(random, 200)]:
        if case.get('e') == 'ok' and len(case['b']) < 40:
            number = case['kind'] in ('number', 'sid')
            shape = (case['b'][0] if number and case['b'][0] < 32 else number, case['b'][-1:] == [255], len(case['b']) > 5)
            groups.setdefault((case['kind'], shape), []).append(case)
    result = []
    for key in sorted(groups, key=str):
        group = groups[key]
        number = session.pick(4 if key[0] in ('number', 'sid') else 1, 40)
        for case in random.sample(group, min(len(group), number)):
            result += [dict(case, at=0, b=case['b'] + [byte]) for byte in range(256)]
    return result


FORMATS = {
    'charset': {0: 'charset0', 1: 'charset1', 2: 'charset2'},
    'encoding': {0: 'encoding0', 1: 'encoding1', 128: 'encodings', 129: 'encodings'},
    'select': {0: 'select0', 3: 'select3'},
}


def typed(random, cases, number):
    """Tables to be read by the readers of one format, mostly their own."""
    cases = [case for case in cases if case['kind'] in FORMATS and len(case['b']) < 2000]
    result = []
    for case in random.sample(cases, min(len(cases), number)):
        formats = FORMATS[case['kind']]
        kind = formats.get(case['b'][0] if case['b'] else 0)
        if not kind or random.random() < 0.25:
            kind = random.choice(list(formats.values()))
        result.append(dict(case, kind=kind))
    return result


def families(session, names, plan):
    """Families enumerated by the specification, read by the crate; return the smaller parts."""
    compared = {'Compared': '"ends"' if plan.get('ends') else '"values"'}
    pool = []
    for family in names:
        cases = session.enumerate('PartEnum', {'Family': '"%s"' % family, 'Deep': 'TRUE' if session.deep else 'FALSE'})
        if family == 'seq':
            cases = [{'steps': case['n'], 'b': case['b'] + [139, 0], 'at': 0} for case in cases]
            records = session.record('seq', cases)
            session.validate('parts one after another', records, 'PartTrace', 'seq', compared)
            continue
        if family == 'charset' and not plan.get('ends'):
            cases += [dict(case, kind='charsetget') for case in cases[::7]]
        if family == 'encoding' and not plan.get('ends'):
            cases += [dict(case, kind='encodingget') for case in cases[::7]]
        cases += typed(session.random, cases, session.pick(500, 20000))
        if plan.get('ends'):
            records = with_twins(session, cases)
        else:
            records = session.record('part', placed(session, cases, False))
        session.validate('exhaustive family ' + family, records, 'PartTrace', 'part', compared)
        pool += [case for case in cases if len(case['b']) < 400]
    return pool


def check(session):
    plan = PLAN[session.property]
    compared = {'Compared': '"ends"' if plan.get('ends') else '"values"'}
    pool = families(session, plan['families'], plan)
    if plan.get('tables'):
        tables(session, plan['tables'])
    if plan.get('changed'):
        session.mark = 0
        number = session.pick(plan['changed'], plan['changed'] * 20)
        cases = [mutated(session.random, session.random.choice(pool)) for _ in range(number)]
        for case in cases:
            case.pop('e', None)
        if plan.get('ends'):
            records = with_twins(session, cases)
        else:
            records = session.record('part', placed(session, cases, False))
        session.validate('changed encodings', records, 'PartTrace', 'part', compared)
    if plan.get('ends'):
        session.mark = 0
        records = session.record('part', followed(session, pool))
        session.validate('parts followed by every byte', records, 'PartTrace', 'part', compared)
    if plan.get('made'):
        cases = made(plan['made'], session.random, session.pick(2000, 40000))
        records = session.record('part', placed(session, cases, False))
        session.validate('made encodings of ' + plan['made'], records, 'PartTrace', 'part', compared)
    if plan.get('fonts'):
        fonts.explore(session, plan['fonts'], session.pick(300, 6000))
    return session.finish(**({'exhaustive': True} if session.property == 'C13' else {}))
