"""Common machinery: building the driver, running it, running TLC, reporting."""
import hashlib, json, os, re, resource, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
WORK = os.path.join(VERIF, '.work')
CORES = os.cpu_count() or 4
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def environment():
    env = dict(os.environ)
    env.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
               CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
               CARGO_INCREMENTAL='0')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    env.pop('CARGO_TARGET_DIR', None)
    return env


def tree_hash():
    """A digest of everything the driver is built from."""
    digest = hashlib.sha256()
    roots = [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'src'),
             os.path.join(VERIF, 'harness', 'Cargo.toml'), os.path.join(VERIF, 'harness', 'src')]
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(base, name) for base, _, names in os.walk(root) for name in names)
        for path in files:
            digest.update(path.encode())
            with open(path, 'rb') as handle:
                digest.update(handle.read())
    return digest.hexdigest()[:16]


def build():
    """Build the driver from the working tree of the repository, with the checks of a debug build and without;
    return the paths of both."""
    key = tree_hash()
    place = os.path.join(BUILD, key)
    binaries = [os.path.join(place, profile, 'harness') for profile in ('debug', 'release')]
    if os.path.exists(os.path.join(place, 'done')):
        return binaries
    os.makedirs(BUILD, exist_ok=True)
    for name in os.listdir(BUILD):
        if name != key and name != 'jsc':
            shutil.rmtree(os.path.join(BUILD, name), ignore_errors=True)
    for profile in ([], ['--release']):
        result = subprocess.run(
            ['cargo', 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml'),
             '--target-dir', place, *profile], env=environment(), capture_output=True, text=True, timeout=600)
        if result.returncode != 0:
            raise ToolError('the driver does not build:\n' + result.stderr[-3000:])
    open(os.path.join(place, 'done'), 'w').close()
    return binaries


def dumps(value):
    return json.dumps(value, separators=(',', ':'))


OPEN = {'k': 'open'}


def known(case):
    """Whether what there is to observe was."""
    return all(value != [OPEN] and (not isinstance(value, dict) or known(value)) for value in case.values())


def limited():
    """Before a driver runs: no more memory than is left for each of those that run at once."""
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))


def attempt(binary, kind, cases, patience):
    """Run a driver; return what it wrote, whether it stopped writing, its status, and its messages."""
    with tempfile.TemporaryFile('w+', encoding='utf-8') as source, tempfile.TemporaryFile('w+') as errors:
        for case in cases:
            source.write(dumps(case) + '\n')
        source.seek(0)
        process = subprocess.Popen([binary, kind], stdin=source, stdout=subprocess.PIPE, stderr=errors,
                                   text=True, encoding='utf-8', preexec_fn=limited)
        lines, last = [], [time.time()]

        def collect():
            for line in process.stdout:
                if line.endswith('\n'):
                    lines.append(line)
                last[0] = time.time()
        thread = threading.Thread(target=collect)
        thread.start()
        stuck = False
        while thread.is_alive():
            thread.join(0.5)
            if thread.is_alive() and time.time() - last[0] > patience:
                stuck = True
                process.kill()
                thread.join()
        process.wait()
        errors.seek(0)
        return [json.loads(line) for line in lines], stuck, process.returncode, errors.read()


def drive(binary, kind, cases, observation='ev', jobs=CORES, patience=60):
    """Run the cases; a crash or hang of the driver becomes the observation of its case.

    After a few of those, the observation of the cases that remain is left open."""
    if not cases:
        return []
    chunks = [list(range(i, len(cases), jobs)) for i in range(jobs)]

    def one(chunk):
        done, odd = [], 0
        while len(done) < len(chunk):
            if odd == 3:
                done += [dict(cases[i], **{observation: [OPEN]}) for i in chunk[len(done):]]
                break
            lines, stuck, status, errors = attempt(
                binary, kind, [cases[i] for i in chunk[len(done):]], patience if odd == 0 else 10)
            done += lines
            if len(done) < len(chunk):
                if status == 101 or "thread 'main' panicked" in errors:
                    raise ToolError('the driver failed: ' + errors[-2000:])
                done.append(dict(cases[chunk[len(done)]], **{observation: [{'k': 'hang' if stuck else 'abort'}]}))
                odd += 1
        return list(zip(chunk, done))

    with ThreadPoolExecutor(jobs) as pool:
        parts = list(pool.map(one, chunks))
    return [case for _, case in sorted((pair for part in parts for pair in part), key=lambda pair: pair[0])]


class Run:
    """The outcome of a TLC run."""
    def __init__(self, text, code, wall):
        lines = text.split('\n')
        self.cases = [json.loads(json.loads(line)[5:]) for line in lines if line.startswith('"CASE ')]
        text = '\n'.join(line for line in lines if not line.startswith('"CASE '))
        self.text, self.code, self.wall = text, code, wall
        found = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', text)
        self.generated, self.distinct = (
            (int(found[-1][0].replace(',', '')), int(found[-1][1].replace(',', ''))) if found else (0, 0))
        self.ok = 'Model checking completed. No error has been found.' in text
        self.violated = bool(re.search(r'Error: (Deadlock reached|Invariant .* is violated|Action property .* is violated'
                                       r'|Temporal properties were violated|The postcondition)', text))
        # A record of another shape than any the specification knows cannot be evaluated.
        self.misshapen = (bool(re.search(r'Attempted to |TLC was evaluating', text))
                          and not re.search(r'StackOverflow|OutOfMemory|Parsing or semantic|Could not parse', text))
        found = re.findall(r'The number of states generated: ([\d,]+)', text)
        if found:
            self.generated = int(found[-1].replace(',', ''))

    def tail(self):
        lines = [line for line in self.text.split('\n')
                 if line and not line.startswith(('"CASE', 'Parsing', 'Semantic', 'Linting'))]
        at = next((i for i, line in enumerate(lines) if line.startswith('Error:')), 0)
        return '\n'.join(lines[at:at + 8])[:1500] + '\n...\n' + '\n'.join(lines)[-1500:]


def tlc(module, config=None, env=None, workers=CORES, args=(), timeout=600, heap='4g', name=None, serial=False):
    """Run TLC on a module of the specification."""
    os.makedirs(WORK, exist_ok=True)
    meta = os.path.join(WORK, 'states-%s-%d-%d' % (name or module, os.getpid(), time.monotonic_ns()))
    environ = environment()
    environ.update(env or {})
    command = ['java', *(['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if serial else ['-XX:+UseParallelGC']), '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', config or module + '.cfg', *args, module + '.tla']
    start = time.time()
    try:
        result = subprocess.run(command, cwd=SPEC, env=environ, capture_output=True, text=True, timeout=timeout)
        text, code = result.stdout + result.stderr, result.returncode
    except subprocess.TimeoutExpired as error:
        text = (error.stdout or b'').decode(errors='replace') if isinstance(error.stdout, bytes) else (error.stdout or '')
        code = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Run(text, code, time.time() - start)


def write_trace(path, records):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as handle:
        for record in records:
            handle.write(dumps(record) + '\n')


def tlc_shards(module, records, config=None, env=None, shards=CORES, timeout=600, heap='2g', constants=None):
    """Validate records in parallel TLC runs; return (runs, shards of records)."""
    if constants:
        path = with_constants(config or module + '.cfg', constants)
        try:
            return tlc_shards(module, records, path, env, shards, timeout, heap)
        finally:
            os.remove(path)
    shards = max(1, min(shards, len(records)))
    parts = [records[i::shards] for i in range(shards)]
    tag = '%d-%d' % (os.getpid(), time.monotonic_ns())

    def one(i):
        path = os.path.join(WORK, 'trace-%s-%d.ndjson' % (tag, i))
        write_trace(path, parts[i])
        try:
            return tlc(module, config=config, env=dict(env or {}, TRACE=path), workers=1, timeout=timeout,
                       heap=heap, name='%s-%d' % (module, i), serial=True)
        finally:
            os.remove(path)
    with ThreadPoolExecutor(shards) as pool:
        return list(pool.map(one, range(shards))), parts


def simulate(module, config, num, seed, depth=600, shards=CORES, timeout=300, constants=None):
    """Run a generator in parallel; return its runs and the cases it printed."""
    tag = '%d-%d' % (os.getpid(), time.monotonic_ns())
    path = with_constants(config, constants)

    def one(i):
        share = num // shards + (1 if i < num % shards else 0)
        return tlc(module, config=path, workers=1, timeout=timeout, serial=True, name='%s-%s-%d' % (module, tag, i),
                   args=['-simulate', 'num=%d' % share, '-depth', str(depth), '-seed', str(seed * 1000 + i)])
    try:
        with ThreadPoolExecutor(shards) as pool:
            runs = list(pool.map(one, range(shards)))
    finally:
        os.remove(path)
    cases = []
    for run in runs:
        if run.code != 0:
            raise ToolError('the generator %s failed:\n%s' % (module, run.tail()))
        cases += run.cases
    return runs, cases


def with_constants(config, constants):
    with open(os.path.join(SPEC, config)) as handle:
        text = handle.read()
    for key, value in (constants or {}).items():
        text, hits = re.subn(r'CONSTANT %s = .*' % key, 'CONSTANT %s = %s' % (key, value), text)
        if not hits:
            raise ToolError('no constant %s in %s' % (key, config))
    os.makedirs(WORK, exist_ok=True)
    path = os.path.join(WORK, 'config-%d-%d.cfg' % (os.getpid(), time.monotonic_ns()))
    with open(path, 'w') as handle:
        handle.write(text)
    return path


def enumerate_(module, config, constants=None, timeout=600, workers=CORES):
    """Run a model exhaustively; return the run and the cases it printed."""
    path = with_constants(config, constants)
    try:
        run = tlc(module, config=path, timeout=timeout, workers=workers)
    finally:
        os.remove(path)
    if not run.ok:
        raise ToolError('the model %s failed:\n%s' % (module, run.tail()))
    return run, run.cases
