#!/usr/bin/env python3
"""mutate.py FILE PROPERTY... [--every N] [--from LINE] [--to LINE] [--skip K]: small changes to a file of the crate, and
which checks notice them.

Not a check.  Works in a copy of both trees.  Each change that compiles and passes the tests of the crate is given to
the checks of the properties, in their order, until one notices it.  Those that none notices are to be looked into:
they are either no bugs (the behaviour is the same) or gaps.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import time

import catch

WAYS = [
    (r'==', ['!=']), (r'!=', ['==']), (r'<=', ['<', '>=']), (r'>=', ['>', '<=']),
    (r'(?<![<-])<(?![<=A-Za-z\'])', ['<=', '>']), (r'(?<![-=>])>(?![>=,;)(: ]\S*[{;,(]|[(:>])', ['>=', '<']),
    (r'(?<=\w|\)|\]) \+ (?=\S)', [' - ']), (r'(?<=\w|\)|\]) - (?=\S)', [' + ']), (r' \* (?=\S)', [' + ']), (r' / ', [' * ']),
    (r' % ', [' / ']), (r'<<', ['>>']), (r'>> (?=\d)', ['<< ']), (r'&&', ['||']), (r'\|\|', ['&&']), (r' & ', [' | ']),
    (r'\+=', ['=', '-=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[a-z(])(?<![a-z]!)', ['']),
    (r'\bas usize\b', ['as u8 as usize', 'as u16 as usize']), (r'\bas i32\b', ['as i16 as i32', 'as u8 as i32']),
    (r'\bas u64\b', ['as u16 as u64']), (r'\bu16\b', ['u8', 'i16']), (r'\bi16\b', ['u16']), (r'\bu32\b', ['u16']), (r'\bu8\b', ['i8']),
    (r'\bmin\b', ['max']), (r'\bsaturating_add\b', ['wrapping_add']), (r'\bis_none\(\)', ['is_some()']),
    (r'\bOk\(Some\(None\)\)', ['Ok(None)']), (r'\.rev\(\)', ['']), (r'rotate_right', ['rotate_left']),
    (r'\bequal\(', ['maybe_equal(', 'modulo(']), (r'\bmaybe_equal\(', ['equal(']), (r'\bmodulo\(', ['maybe_modulo(', 'equal(']),
    (r'\bmaybe_modulo\(', ['modulo(']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\byes\b', ['no']),
    (r'\.unwrap_or\([^)]*\)', ['.unwrap()']), (r'\.saturating_sub\(1\)', ['']), (r'Default::default\(\)', []),
]


def numbers(text):
    for match in re.finditer(r'(?<![\w.#])(0x[0-9a-fA-F]+|\d+(?:\.\d+)?)(?![\w.]|"#)|(?<=\.\.=)(0x[0-9a-fA-F]+|\d+)|(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=\.\.)',
                             text):
        whole = match.group(0)
        if '.' in whole:
            yield match.span(), [whole + '5']
        elif whole.startswith('0x'):
            value = int(whole, 16)
            yield match.span(), ['0x%02x' % v for v in (value + 1, value - 1) if v >= 0]
        else:
            yield match.span(), [str(v) for v in (int(whole) + 1, int(whole) - 1) if v >= 0]


def changes(lines, first, last):
    """Every change: the number of the line, the new line, and a word about it."""
    for i, line in enumerate(lines):
        if i + 1 < first or i + 1 > last:
            continue
        code = line.split('//')[0].rstrip('\n')
        if not code.strip() or code.strip().startswith(('use ', '#', 'pub mod', 'mod ')):
            continue
        for pattern, others in WAYS:
            for match in re.finditer(pattern, code):
                for other in others:
                    yield i, code[:match.start()] + other + code[match.end():] + '\n'
        for (start, end), others in numbers(code):
            for other in others:
                yield i, code[:start] + other + code[end:] + '\n'
        stripped = code.strip()
        if stripped.endswith(';') and not stripped.startswith(('let ', 'return', '}', 'type ', 'pub ', 'const ')) and stripped.count('(') == stripped.count(')'):
            yield i, '\n'
        if re.match(r'\s*(0x|\d+ =>|_ =>)', code) is None and re.search(r'=> .*,$', code) and 'raise' in code:
            yield i, code.split('=>')[0] + '=> unreachable!(),\n'


def survives():
    """Whether the tests of the crate that pass without the change pass with it."""
    environment = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    try:
        done = subprocess.run(['cargo', 'test', '--offline', '--no-fail-fast'], cwd=catch.REPO, capture_output=True, text=True,
                              env=environment, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    passed = set(re.findall(r'^test (\S+) \.\.\. ok', done.stdout, re.M))
    return all(name.split('::', 1)[1] in passed for name in json.load(open('/opt/vp/BASELINE.json'))['stable'])


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('file')
    parser.add_argument('properties', nargs='+')
    parser.add_argument('--every', type=int, default=1)
    parser.add_argument('--skip', type=int, default=0)
    parser.add_argument('--from', type=int, default=1, dest='first')
    parser.add_argument('--to', type=int, default=10 ** 6, dest='last')
    options = parser.parse_args()
    catch.prepare()
    path = os.path.join(catch.REPO, options.file)
    lines = open(path).readlines()
    tests = [i for i, line in enumerate(lines) if '#[cfg(test)]' in line]
    last = min([options.last] + tests[:1])
    killed = survived = noticed = 0
    for k, (i, new) in enumerate(changes(lines, options.first, last)):
        if k < options.skip or k % options.every or new == lines[i]:
            continue
        with open(path, 'w') as handle:
            handle.writelines(lines[:i] + [new] + lines[i + 1:])
        if not survives():
            killed += 1
            continue
        start = time.time()
        result = 'SURVIVES'
        for property in options.properties:
            done = subprocess.run(['python3', 'tools/check.py', property], cwd=catch.COPY, text=True, capture_output=True)
            if done.returncode == 1 and 'VIOLATION property=' + property in done.stdout:
                result = property
                break
            if done.returncode != 0:
                result = 'ERROR ' + property + done.stdout[-500:] + done.stderr[-500:]
                break
        survived += result == 'SURVIVES'
        noticed += result != 'SURVIVES'
        print('%d %s:%d %-9s %4ds | %s' % (k, options.file, i + 1, result, time.time() - start, new.strip() or 'deleted: ' + lines[i].strip()), flush=True)
    print('%s: %d fail the tests or do not compile, %d noticed, %d survive' % (options.file, killed, noticed, survived), flush=True)
    with open(path, 'w') as handle:
        handle.writelines(lines)


main()
