"""Runs scenarios through the specification (TLC) and the real library."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
JAVA = ['java', '-XX:+UseParallelGC', '-Xss16m', '-Xmx6g', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


STALL = 100     # seconds of TLC without the end of a scenario (they take up to a few seconds)


def tlc(module, cfg, work, env=None, workers=8, timeout=600, extra=(), watch=None):
    """run TLC in a private copy of the specification; returns (exit code, output); with
    watch, a folder that fills with results, it is ended when nothing is added for long"""
    d = os.path.join(work, 'spec')
    if not os.path.isdir(d):
        shutil.copytree(SPEC, d)
    meta = tempfile.mkdtemp(prefix='tlc', dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = JAVA + ['-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
    with tempfile.TemporaryFile('w+', dir=work) as log:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT)
        start = fresh = time.time()
        seen = 0
        while True:
            try:
                code = p.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                n = len(os.listdir(watch)) if watch else 0
                if n != seen:
                    seen, fresh = n, now
                if now > start + timeout or watch and now > fresh + STALL:
                    p.kill()
                    p.wait()
                    code = -1
                    break
        log.seek(0)
        out = log.read()
    shutil.rmtree(meta, ignore_errors=True)
    return code, out


def counts(out):
    """(states generated, distinct states) as reported by TLC"""
    gen = dist = 0
    for line in out.splitlines():
        if 'states generated' in line and 'distinct states found' in line and 'Progress' not in line:
            w = line.replace(',', '').split()
            gen, dist = int(w[0]), int(w[3])
    return gen, dist


def digest(text):
    """the lines of TLC's output that say what is wrong"""
    keep = []
    for l in text.splitlines():
        if ('FAILED' in l or 'rror:' in l or l.startswith('/\\ sc =') or (l.startswith('line ') and 'col' in l)) and l not in keep:
            keep.append(l)
    return '\n'.join(keep[:8] + keep[8:][-4:])[:1500]


class SpecError(Exception):
    pass


def run_spec(scenarios, work, workers=8, timeout=800, module='Trace'):
    """outputs of the specification per scenario (None where it could not be run)"""
    n = len(scenarios)
    outdir = tempfile.mkdtemp(prefix='out', dir=work)
    scn = os.path.join(outdir, 'scenarios.json')
    with open(scn, 'w') as f:
        json.dump(scenarios, f)
    code, text = tlc(module, module + '.cfg', work, dict(SCN=scn, OUTDIR=outdir), workers, timeout, watch=outdir)
    res = []
    for k in range(1, n + 1):
        p = os.path.join(outdir, '%d.json' % k)
        try:
            with open(p) as f:
                res.append(json.load(f))
        except (OSError, ValueError):
            res.append(None)
    shutil.rmtree(outdir, ignore_errors=True)
    if code != 0:
        if 'Invariant' in text or 'Parse' in text or 'semantic' in text.lower() or 'FAILED' in text:
            raise SpecError(digest(text))
        missing = [k for k, r in enumerate(res) if r is None]
        if n == 1:
            raise SpecError(digest(text))
        # find the scenarios the model checker cannot handle
        a, b = counts(text)
        half = len(missing) // 2
        for part in (missing[:half], missing[half:]):
            if not part:
                continue
            if len(part) == 1:
                try:
                    r, c = run_spec([scenarios[part[0]]], work, workers, timeout, module=module)
                    res[part[0]] = r[0]
                except SpecError as ex:
                    if os.environ.get('FSC_DEBUG'):
                        print(str(ex)[-1500:])
            else:
                r, c = run_spec([scenarios[k] for k in part], work, workers, timeout, module=module)
                for k, x in zip(part, r):
                    res[k] = x
        return res, (a, b)
    return res, counts(text)


class TooLong(BaseException):
    pass


def _ring(*_):
    raise TooLong()


LIMIT = 30      # seconds of processor time for one scenario (they take milliseconds)
HANG = 240      # seconds without any result from any process


def _one(job):
    import importlib
    import signal
    how, k, ops, out = job
    signal.signal(signal.SIGPROF, _ring)
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    try:
        return k, importlib.import_module(how).replay(ops, out)
    except TooLong:
        return k, (len(ops) - 1 if isinstance(ops, list) else 0, 'the library does not finish within %d s' % LIMIT)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _some(chunk):
    return [_one(j) for j in chunk]


def _init():
    import warnings
    warnings.simplefilter('ignore')
    sys.stdout = open(os.devnull, 'w')


def replay_all(scenarios, outs, procs=8, how='replay'):
    """list of (scenario index, call index, description) of disagreements; how: module with
    the function replay(scenario, output of the specification)"""
    # what the library imports is loaded before the clock of a scenario runs
    import matplotlib.pyplot        # noqa: F401
    import numpy                    # noqa: F401
    jobs = [(how, k, s, o) for k, (s, o) in enumerate(zip(scenarios, outs)) if o is not None]
    bad = []
    late = 0
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, initializer=_init) as pool:
        chunks = [jobs[k:k + 4] for k in range(0, len(jobs), 4)]
        it = pool.imap_unordered(_some, chunks)
        for _ in chunks:
            try:
                got = it.next(timeout=HANG)
            except mp.TimeoutError:
                bad.append((jobs[0][1], 0, 'a process running the library died or hangs'))
                break
            for k, r in got:
                if r is not None:
                    bad.append((k, r[0], r[1]))
                    late += r[1].startswith('the library does not finish')
            if late >= 6:
                break
    return sorted(bad)


def run_spaces(spaces, work, workers=8, timeout=800):
    """explores every choice of the given spaces; yields (space, ops, out) of every complete
    branch, and (states generated, distinct states)"""
    outdir = tempfile.mkdtemp(prefix='out', dir=work)
    scn = os.path.join(outdir, 'spaces.json')
    with open(scn, 'w') as f:
        json.dump(spaces, f)
    code, text = tlc('Explore', 'Explore.cfg', work, dict(SCN=scn, OUTDIR=outdir), workers, timeout)
    if code != 0:
        shutil.rmtree(outdir, ignore_errors=True)
        raise SpecError(digest(text) + (' timeout' if code < 0 else ''))
    leaves = []
    for name in os.listdir(outdir):
        w = name[:-5].split('_')
        if w[0].isdigit():
            leaves.append((int(w[0]), [int(x) for x in w[1:]], os.path.join(outdir, name)))
    leaves.sort()
    return outdir, [(k - 1, [spaces[k - 1][i][b - 1] for i, b in enumerate(br)], p) for k, br, p in leaves], counts(text)
