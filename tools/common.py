"""A check's session: counting, comparing, validating, reporting."""
import json, os, random, re, sys, time
import vp

OUTCOMES = ('op', 'end', 'err')


def agrees(projection, want, seen, i, e):
    """The comparison CharStringTrace makes, for a behaviour written out beforehand."""
    if e['k'] not in OUTCOMES:
        return False
    if projection == 'width':
        return 'err' in (e['k'], want['k']) or e['w'] == want['w']
    if e['k'] != want['k']:
        return False
    if projection == 'kinds':
        return not (i > 0 and e['k'] == 'end' and seen[i - 1]['k'] == 'end') or e['w'] == seen[i - 1]['w']
    if e['k'] != 'op':
        return True
    if projection == 'names':
        return e['op'] == want['op']
    if projection == 'counts':
        return e['op'] == want['op'] and len(e['a']) == len(want['a'])
    return e['op'] == want['op'] and e['a'] == want['a']


def conforms(projection, case):
    """Whether the events seen are those wanted."""
    try:
        return conforms_(projection, list(case['want']), case['ev'])
    except (KeyError, IndexError, TypeError):
        return False        # an outcome of no known shape


def conforms_(projection, want, seen):
    if want[-1]['k'] == 'end':
        want += [want[-1]] * 2
    if any(e['k'] not in OUTCOMES for e in seen):
        return False
    if projection == 'width' and any(e['k'] == 'err' for e in seen[:len(want)]) and want[-1]['k'] != 'err':
        seen = seen[:[e['k'] for e in seen].index('err')]
        want = want[:len(seen)]
    if len(seen) < len(want):
        return projection == 'width'
    if want[-1]['k'] == 'end' and len(seen) != len(want) and projection != 'width':
        return False
    return all(agrees(projection, w, seen, i, e) for i, (w, e) in enumerate(zip(want, seen)))


class Broken(Exception):
    """The property is broken."""


class Session:
    def __init__(self, property):
        self.property = property
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.random = random.Random('%s-%d' % (property, self.seed))
        self.deep = self.tier == 'thorough'
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.stages, self.violations = [], [], []
        self.binary, self.optimized = vp.build()
        self.differing = 0

    def pick(self, quick, thorough):
        return thorough if self.deep else quick

    # -- counting

    def count(self, runs):
        for run in runs:
            self.states += run.distinct or run.generated
            self.transitions += run.generated

    def stage(self, name, **numbers):
        self.stages.append(dict(name=name, wall_s=round(time.time() - self.mark, 1), **numbers))

    def sample(self, cases):
        if cases and len(self.samples) < 6:
            case = cases[self.random.randrange(len(cases))]
            if len(vp.dumps(case)) > 1500:
                small = [case for case in cases[:200] if len(vp.dumps(case)) < 1500]
                case = small[0] if small else {'omitted': 'a case of %d bytes' % len(vp.dumps(case))}
            self.samples.append(case)

    def violation(self, driver, case, note):
        place = os.path.join(vp.VERIF, '.work', 'replay')
        os.makedirs(place, exist_ok=True)
        path = os.path.join(place, '%s-%d.json' % (self.property, len(self.violations)))
        with open(path, 'w') as handle:
            json.dump(dict(property=self.property, driver=driver, note=note, case=case), handle)
        self.violations.append(path)

    # -- sources of behaviours

    def enumerate(self, module, constants, config=None):
        self.mark = time.time()
        run, cases = vp.enumerate_(module, config or module + '.cfg', constants=constants,
                                   timeout=self.pick(800, 7200))
        self.count([run])
        return cases

    def simulate(self, module, constants, num, config=None, depth=600):
        self.mark = time.time()
        runs, cases = vp.simulate(module, config or module + '.cfg', num, self.seed, constants=constants,
                                  depth=depth, timeout=self.pick(800, 7200))
        self.count(runs)
        return cases

    # -- bindings

    def replay(self, name, cases, projection, driver='cs'):
        """Generated behaviours into the real interpreter."""
        mark = self.mark
        seen = [case for case in self.record(driver, cases) if vp.known(case)]
        self.mark = mark
        bad = [case for case in seen if not conforms(projection, case)]
        self.traces += len(seen)
        self.sample(seen)
        for case in bad[:3]:
            self.violation(driver, case, name)
        self.stage(name, behaviours=len(seen), mismatches=len(bad))
        self.decided()
        return seen

    def validate(self, name, records, module, driver, constants=None, original=lambda record: record):
        """Recorded traces against the specification."""
        records = [record for record in records if vp.known(record)]
        if not records:
            return
        runs, parts = vp.tlc_shards(module, records, constants=constants, timeout=self.pick(800, 7200))
        self.count(runs)
        bad = 0
        for run, part in zip(runs, parts):
            if run.violated or (not run.ok and run.misshapen):
                bad += 1
                hit = re.findall(r'/\\ c = (\d+)', run.text)
                self.violation(driver, original(part[int(hit[-1]) - 1] if hit else part[0]), name)
            elif not run.ok:
                raise vp.ToolError('validation of %s failed:\n%s' % (name, run.tail()))
        self.traces += len(records)
        self.sample(records)
        self.stage(name, traces=len(records), mismatches=bad)
        self.decided()

    def decided(self):
        """Once the property is known to be broken, nothing more need be explored."""
        if self.violations:
            raise Broken

    def record(self, driver, cases):
        """What the crate does, built for debugging and optimized; where they differ, the odder of both."""
        self.mark = time.time()
        observation = 'ev' if driver == 'cs' else 'r'
        plain = vp.drive(self.binary, driver, cases, observation)
        fast = vp.drive(self.optimized, driver, cases, observation)
        self.differing += sum(one != other for one, other in zip(plain, fast))
        odd = ('"k":"panic"', '"k":"abort"', '"k":"hang"', '"k":"open"')
        return [one if one == other or any(mark in vp.dumps(one[observation]) for mark in odd) else other
                for one, other in zip(plain, fast)]

    # -- the end

    def finish(self, level='model_checking', **coverage):
        evidence = dict(
            property=self.property, tier=self.tier, seed=self.seed, level=level,
            coverage=dict(states=self.states, transitions=self.transitions,
                          traces_validated_against_impl=self.traces, samples=self.samples,
                          stages=self.stages, differing_builds=self.differing, **coverage),
            assumptions=['TLC and the JSON modules evaluate the specification correctly',
                         'the driver reports what the public interface of the crate returns'],
            wall_s=round(time.time() - self.start, 1), violations=len(self.violations))
        place = os.path.join(vp.VERIF, 'evidence')
        os.makedirs(place, exist_ok=True)
        with open(os.path.join(place, self.property + '.json'), 'w') as handle:
            json.dump(evidence, handle, indent=1)
        for path in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.property, path))
        print('%s %s: %d states, %d transitions, %d behaviours of the crate, %d violations, %.0f s' % (
            self.property, self.tier, self.states, self.transitions, self.traces, len(self.violations),
            time.time() - self.start))
        return 1 if self.violations else 0
