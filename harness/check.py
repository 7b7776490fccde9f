"""check.py PROPERTY quick|thorough      decide one property on /repo's working tree
   check.py --replay FILE                run a recorded violation again
   check.py --setup                      parse the specification

Exit 0: the property held on everything explored; 1: a VIOLATION line was printed;
2: the check itself could not work (the specification was refused by TLC)."""
import json
import os
import shutil
import sys
import tempfile
import time

ENV = dict(PYTHONPATH=os.path.join(os.environ.get('FSC_REPO', '/repo'), 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/opt/vp/nopycache', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def settled():
    """run again in an environment where the library is imported from /repo's working tree"""
    if all(os.environ.get(k) == v for k, v in ENV.items()):
        return
    e = dict(os.environ, **ENV)
    tmp = tempfile.mkdtemp(prefix='fsc-mpl-')
    e['MPLCONFIGDIR'] = '/opt/vp/mplconfig' if os.path.isdir('/opt/vp/mplconfig') else tmp
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    import subprocess
    try:
        sys.exit(subprocess.call([py, '-W', 'ignore'] + sys.argv, env=e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    settled()

import engine                       # noqa: E402
import gen                          # noqa: E402
import plans                        # noqa: E402

MAX_REPORTS = 5


def say(*x):
    print(*x)
    sys.stdout.flush()


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                r.append(l[len('finding:'):].strip())
    return r


def describe(op):
    return json.dumps({k: v for k, v in op.items()})


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='fsc-')
        self.states = self.transitions = self.traces = self.calls = 0
        self.exhaustive = []
        self.randoms = []
        self.not_explored = 0
        self.samples = []
        self.violations = []
        self.kinds = {}
        self.verdicts = {}

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------------ counting
    def note(self, scenarios, outs, cnt):
        gen_, dist = cnt
        self.transitions += gen_
        self.states += dist
        for s, o in zip(scenarios, outs):
            if o is None:
                self.not_explored += 1
                continue
            self.traces += 1
            for op, d in zip(s, o):
                self.verdicts[d['v']] = self.verdicts.get(d['v'], 0) + 1
                if d['v'] in ('do', 'refuse'):
                    self.calls += 1
                    k = op['o'] + (':' + op['n']['k'] if op['o'] == 'node' else '')
                    self.kinds[k] = self.kinds.get(k, 0) + 1

    def compare(self, scenarios, outs, source):
        for k, i, why in engine.replay_all(scenarios, outs):
            self.violations.append(dict(kind='scenario', ops=scenarios[k], out=outs[k], call=i, why=why, source=source))
        if scenarios and len(self.samples) < 3:
            k = min(len(scenarios) - 1, 1)
            self.samples.append(dict(source=source, calls=[describe(op) for op in scenarios[k]][:25]))

    # ------------------------------------------------------------------ cases
    def cases(self, how, module, cases, source):
        """cases of one of the smaller machines: module is its specification, how the module
        of the harness that runs a case on the library"""
        for k in range(0, len(cases), 6000):
            part = cases[k:k + 6000]
            outs, (gen_, dist) = engine.run_spec(part, self.work, module=module)
            self.transitions += gen_
            self.states += dist
            done = [o for o in outs if o is not None]
            self.not_explored += len(outs) - len(done)
            self.traces += len(done)
            for o in done:
                n = o.get('calls', 1)
                self.calls += n
                self.kinds[how] = self.kinds.get(how, 0) + n
            (self.randoms if source.startswith('random') else self.exhaustive).append(len(part))
            for j, i, why in engine.replay_all(part, outs, how=how):
                self.violations.append(dict(kind=how, case=part[j], out=outs[j], why=why, source=source))
            if len(self.samples) < 3:
                self.samples.append(dict(source=source, calls=[describe(part[len(part) // 2])]))

    # ------------------------------------------------------------------ exploring
    def random(self, profile, n, salt):
        sc = [gen.generate('%s/%s' % (self.seed, salt), k, profile) for k in range(n)]
        outs, cnt = engine.run_spec(sc, self.work)
        self.note(sc, outs, cnt)
        self.randoms.append(n)
        self.compare(sc, outs, 'random %s/%s' % (self.seed, salt))

    def spaces(self, spaces, batch=20000):
        if not spaces:
            return
        size = []
        for s in spaces:
            k = 1
            for slot in s:
                k *= len(slot)
            size.append(k)
        todo, cur = [], 0
        groups = []
        for s, k in zip(spaces, size):
            if todo and cur + k > batch:
                groups.append(todo)
                todo, cur = [], 0
            todo.append(s)
            cur += k
        groups.append(todo)
        for g in groups:
            outdir, leaves, cnt = engine.run_spaces(g, self.work)
            sc, outs = [], []
            for _, ops, p in leaves:
                with open(p) as f:
                    outs.append(json.load(f))
                sc.append(ops)
            shutil.rmtree(outdir, ignore_errors=True)
            self.note(sc, outs, cnt)
            self.exhaustive.append(len(sc))
            self.compare(sc, outs, 'exhaustive')

    def run(self):
        p = plans.PLANS[self.prop]
        budget = float(os.environ.get('FSC_BUDGET', 600))
        self.spaces(p['quick' if self.tier == 'quick' else 'thorough']())
        for j, (profile, n) in enumerate(p['random']):
            self.random(profile, n, '%s/%d' % (self.prop, j))
        for f in p['extra']:
            f(self, 0)
        if self.tier == 'thorough':
            k = 0
            while self.elapsed() < budget and len(self.violations) < MAX_REPORTS:
                k += 1
                for j, (profile, n) in enumerate(p['random']):
                    self.random(profile, 4 * n, '%s/%d/%d' % (self.prop, j, k))
                for f in p['extra']:
                    f(self, k)
                if p['broad']:
                    self.random(plans.BROAD, 100, 'broad/%d' % k)
        return self.report()

    # ------------------------------------------------------------------ reporting
    def report(self):
        listed = known_findings()
        new = []
        for v in self.violations:
            hit = [l for l in listed if ('property=%s ' % self.prop) in l and l.split('::')[-1].strip() in v['why']]
            if hit:
                say('KNOWN-FINDING: property=%s %s' % (self.prop, hit[0]))
            else:
                new.append(v)
        evdir = os.path.join(VERIF, 'evidence')
        repdir = os.path.join(evdir, 'replays')
        os.makedirs(repdir, exist_ok=True)
        for k, v in enumerate(new[:MAX_REPORTS]):
            path = os.path.join(repdir, '%s_%d.json' % (self.prop, k))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, **v), f)
            if v['kind'] == 'scenario':
                say('call %d %s: %s' % (v['call'] + 1, describe(v['ops'][v['call']])[:300], v['why'][:600]))
            else:
                say('%s: %s' % (describe(v['case'])[:600], v['why'][:600]))
            say('VIOLATION property=%s replay=%s' % (self.prop, path))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples or ['none'],
                   calls_compared=self.calls, calls_by_kind=self.kinds, verdicts_of_the_specification=self.verdicts, exhaustive_branches=self.exhaustive,
                   random_scenarios=self.randoms, scenarios_beyond_the_specification=self.not_explored,
                   exhaustive='every branch of the listed spaces of calls' if self.exhaustive else 'no',
                   rule='TLC runs the specification over every branch of the spaces and over random scenarios, checking invariants and step properties; every resulting trace is replayed on the library and all observable objects are compared after every call')
        cov.update(getattr(self, 'more', {}))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov, wall_s=round(self.elapsed(), 1),
                  violations=len(new), assumptions=['the harness maps calls of the specification to calls of the public interface', 'amplitudes are compared within 5e-5, states below probability 1e-8 are ignored'])
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        say('%s %s: %d states, %d traces, %d calls compared, %d violations, %.1f s' % (self.prop, self.tier, self.states, self.traces, self.calls, len(new), self.elapsed()))
        return 1 if new else 0


def replay_file(path):
    with open(path) as f:
        v = json.load(f)
    if v['kind'] != 'scenario':
        import importlib
        r = importlib.import_module(v['kind']).replay(v['case'], v['out'])
        say(describe(v['case']))
        if r is not None:
            say('   DISAGREES:', r[1])
            say('VIOLATION property=%s replay=%s' % (v['property'], path))
        return 0 if r is None else 1
    import replay
    r = replay.replay(v['ops'], v['out'])
    for k, op in enumerate(v['ops']):
        say(k + 1, describe(op), '->', v['out'][k]['v'] if k < len(v['out']) else '')
        if r is not None and r[0] == k:
            say('   DISAGREES:', r[1])
            break
    if r is not None:
        say('VIOLATION property=%s replay=%s' % (v['property'], path))
    return 0 if r is None else 1


def setup():
    bad = 0
    for m in ('Trace', 'Explore', 'Temporal', 'Superquantum'):
        import subprocess
        r = subprocess.run(['java', '-cp', engine.JAVA[engine.JAVA.index('-cp') + 1], 'tla2sany.SANY', m + '.tla'], cwd=engine.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or 'rrors' in r.stdout:
            say(r.stdout[-2000:])
            bad = 1
    say('specification parsed' if not bad else 'specification does not parse')
    return bad


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        return setup()
    if len(a) == 2 and a[0] == '--replay':
        return replay_file(a[1])
    prop, tier = a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        return c.run()
    except engine.SpecError as ex:
        say('the specification could not be checked: %s' % ex)
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
