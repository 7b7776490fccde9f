"""Photons as wave packets (Temporal.tla): the cases that are explored, and their replay on
the library. A case is a circuit, a collection of states and a list of nodes."""
import copy
import itertools
import math
import random

import gen
import replay as R

TOL = 3e-4       # ordinary states lose components below the threshold 1e-4


# ------------------------------------------------------------------------------ replay
def weight(p):
    return math.prod(R.rf(a) / R.rf(b) for a, b in p)


def add(world, c, sh, n, u):
    k = n['k']
    if k == 'delay':
        kw = {} if n['w'] == 1 and u == 1 and n.get('plain') else dict(pulse_width=n['w'] * u)
        c.time_delay_full(list(n['chs']), n['d'] * u, **kw)
    elif k == 'cdelay':
        c.time_delay_classical_control_full(list(n['chs']), n['cc'], pulse_width=n['w'])
    elif k == 'qdelay':
        c.time_delay(affected_channels=list(n['chs']), delay=n['d'] * u, **width(n, u))
    elif k == 'cqdelay':
        c.time_delay_classical_control(affected_channels=list(n['chs']), classical_channel_for_delay=n['cc'], **width(n, 1))
    elif k == 'width':
        if n.get('plain') and len(n['chs']) == sh['NO']:
            c.set_pulse_width(pulse_width=n['w'] * u)
        else:
            c.set_pulse_width(affected_channels=list(n['chs']), pulse_width=n['w'] * u)
    elif k == 'meas' and 'proj' in n:
        c.measure_optical_to_classical(list(n['oc']), list(n['cc']), list_of_projections=[R.name_of(o, sh['L'], sh['left']) for o in n['proj']])
    else:
        world.circs, world.cshape = [c], [sh]
        world.do_node(dict(c=1, n=n))


def width(n, u):
    if n.get('plain') and n['w'] * u == 1:
        return {}
    return dict(bandwidth=1 / (n['w'] * u)) if n.get('bw') else dict(pulse_width=n['w'] * u)


def picture(col):
    return [(s.initial_state, s.cumulative_probability, tuple(s.classical_channel_values), copy.deepcopy(s.optical_components),
             copy.deepcopy(s.measurement_results), repr(s.auxiliary_information)) for s in col]


def key_near(a, b):
    """(init, classical values, records) equal up to rounding"""
    if a[0] != b[0] or len(a[1]) != len(b[1]) or len(a[2]) != len(b[2]):
        return False
    if any(abs(x - y) > 1e-6 for x, y in zip(a[1], b[1])):
        return False
    return all(len(v) == len(w) and all(abs(x - y) < 1e-6 for x, y in zip(v, w)) and abs(p - q) < TOL for (v, p), (w, q) in zip(a[2], b[2]))


def merged(h):
    r = {}
    for init, bars in h.items():
        for b in bars:
            r.setdefault(init, {})
            r[init][b['output_state']] = r[init].get(b['output_state'], 0) + b['probability']
    return r


def near(h, g):
    for i in set(h) | set(g):
        a, b = h.get(i, {}), g.get(i, {})
        for o in set(a) | set(b):
            if abs(a.get(o, 0) - b.get(o, 0)) > TOL:
                return 'initial state %r, outcome %r: probability %.6f, expected %.6f' % (i, o, a.get(o, 0), b.get(o, 0))
    return None


def replay(case, out):
    try:
        return check(case, out)
    except R.Mismatch as ex:
        return 0, str(ex)


def call(what, f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as ex:                                    # noqa: BLE001
        raise R.Mismatch('%s raises %s: %s' % (what, type(ex).__name__, str(ex)[:200]))


def collection(lib, case, c):
    col = lib.CollectionOfStates(c)
    col.clear()
    for k, s in enumerate(case['states']):
        st = lib.State(col)
        total = math.sqrt(sum(abs(R.cf(a)) ** 2 for _, a in s['f']))
        st.optical_components = [(R.name_of(n, case['L'], case['left']), R.cf(a) / total) for n, a in s['f']]
        st.initial_state = s['init']
        st.classical_channel_values = [R.value(v) for v in s['c']]
        st.cumulative_probability = s['p'][0] / s['p'][1]
        col.add_state(st, 'state%d' % k)
    return col


def check(case, out):
    lib = R.LIB or R.Lib()
    R.LIB = lib
    world = R.World(lib)
    sh = dict(L=case['L'], NO=case['NO'], NC=case['NC'], left=case['left'])
    nodes = case['nodes'][:out['upto']]
    new = lambda: lib.FockStateCircuit(case['L'], case['NO'], case['NC'], channel_0_left_in_state_name=case['left'])      # noqa: E731
    first, second, whole = new(), new(), new()
    cut = case.get('cut', 0)
    for k, n in enumerate(nodes):
        call('node %d' % (k + 1), add, world, whole, sh, n, case['u'])
        call('node %d' % (k + 1), add, world, first if k < cut else second, sh, n, case['u'])
    col = collection(lib, case, whole)
    before = picture(col)
    res = call('evaluation', whole.evaluate_circuit, col)
    if picture(col) != before:
        return 0, 'evaluation changes its input'
    # what the specification says
    expected, keys = {}, []
    for g in out['groups']:
        p = weight(g['p'])
        vals = tuple(R.value(v) for v in g['c'])
        name = R.name_of([int(v) % case['L'] for v in vals], case['L'], case['left'])
        expected.setdefault(g['init'], {})
        expected[g['init']][name] = expected[g['init']].get(name, 0) + p
        recs, was = [], None
        for m in g['m']:
            recs.append((tuple(R.value(v) for v in m['c']), (R.rf(m['a'][0]) / R.rf(m['a'][1])) / (R.rf(m['b'][0]) / R.rf(m['b'][1]))))
        keys.append((g['init'], vals, tuple(recs), p))
    h = call('plot', res.plot, histo_output_instead_of_plot=True)
    why = near(merged(h), expected)
    if why:
        return 0, why
    # every state belongs to a group with these values and records, every group has states
    found = set()
    for s in res:
        recs = tuple((tuple(r['measurement_results']), r['probability']) for r in s.measurement_results)
        if s.cumulative_probability * math.prod(p for _, p in recs) < R.NOISE_P:
            continue
        key = (s.initial_state, tuple(s.classical_channel_values), recs)
        hits = [k for k, e in enumerate(keys) if key_near(key, e)]
        if not hits:
            return 0, 'state with initial state %r, classical values %s and records %s is not expected' % (key[0], list(key[1]), recs)
        found.update(hits)
    for k, e in enumerate(keys):
        if k not in found and min([e[3]] + [p for _, p in e[2]]) > 5e-4:
            return 0, 'no state with initial state %r, classical values %s and records %s (probability %.6f)' % e
    # in two steps, and again
    if 0 < cut < len(nodes):
        half = call('evaluation', first.evaluate_circuit, col)
        mid = picture(half)
        two = call('evaluation', second.evaluate_circuit, half)
        why = near(merged(call('plot', two.plot, histo_output_instead_of_plot=True)), expected)
        if why:
            return 0, 'in two steps (after %d nodes): %s' % (cut, why)
        if picture(half) != mid:
            return 0, 'evaluation changes its input (photon resolved)'
    elif case.get('twice'):
        again = call('evaluation', whole.evaluate_circuit, col)
        why = near(merged(call('plot', again.plot, histo_output_instead_of_plot=True)), expected)
        if why:
            return 0, 'evaluated again: %s' % why
    if picture(col) != before:
        return 0, 'evaluation changes its input'
    if near(merged(call('plot', res.plot, histo_output_instead_of_plot=True)), expected):
        return 0, 'the result changes'
    return None


# ------------------------------------------------------------------------------ cases
def num(a, b=0):
    return [[a, 0, 0, 0], [b, 0, 0, 0]]


def case(NO, NC, nodes, states, L=None, left=True, u=1, cut=0, twice=False):
    top = max(sum(n) for s in states for n, _ in s['f'])
    return dict(L=L or max(2, top + 1), NO=NO, NC=NC, left=left, u=u, cut=cut, twice=twice, nodes=list(nodes), states=list(states))


def state(f, init='A', c=(), p=(1, 1)):
    return dict(init=init, f=[[list(n), a] for n, a in f], c=list(c), p=list(p))


def basis(n, NC, init='A', c=None):
    return state([(n, num(1))], init, c if c is not None else [["n", 0]] * NC)


def mix(a, b):
    return dict(k='mix50', a=a, b=b)


def phase(a, p):
    return dict(k='phase', a=a, p=p)


def delay(chs, d, w=1, **kw):
    return dict(k='delay', chs=chs, d=d, w=w, **kw)


def qdelay(chs, d, w=1, **kw):
    return dict(k='qdelay', chs=chs, d=d, w=w, **kw)


def meas(oc, cc=None, proj=None):
    if proj is not None:
        return dict(k='meas', oc=list(oc), cc=list(cc if cc is not None else range(len(oc))), proj=[list(o) for o in proj])
    return dict(k='meas', oc=list(oc), cc=list(cc if cc is not None else range(len(oc))))


def product(slots, make):
    return [make([n for part in combo for n in (part if isinstance(part, list) else [part])]) for combo in itertools.product(*slots)]


def interferometers(left=True):
    """one, two and three photons through a Mach-Zehnder interferometer with a delay in one or both arms"""
    ds = [[delay([0], d, plain=True)] for d in (0, 1, 2, -1, 3, 20)] + [[delay([0, 1], 1)], [delay([1], 4, 2)], [delay([0], 1), delay([1], 1)], [delay([0], 1), delay([0], -1)],
         [delay([0], 1), delay([0], 1)], [delay([], 1)]]
    qs = [[qdelay([0], d, plain=True)] for d in (0, 1, 2, 20)] + [[qdelay([1], 2, 2)], [qdelay([1], 2, 2, bw=True)], [qdelay([0, 1], 1)]]
    r = []
    for f in ([((1, 0), num(1))], [((0, 1), num(1))], [((1, 0), num(1)), ((0, 1), num(0, 1))], [((1, 1), num(1))], [((0, 0), num(1))], [((2, 0), num(1))],
              [((1, 1), num(1)), ((1, 0), num(1))]):
        for p in (0, 4, 6):
            for m in ([meas([0, 1])], [meas([1], [1])], [meas([0, 1]), meas([0, 1])], [meas([0]), meas([1], [1])], [meas([0]), mix(0, 1), meas([0, 1])]):
                for d in ds + qs:
                    if p and len(m) > 1:
                        continue
                    r.append(case(2, 2, [mix(0, 1)] + d + ([phase(1, p)] if p else []) + [mix(0, 1)] + m, [state(f, 'in', [["n", 0]] * 2)], left=left, cut=len(r) % 5, twice=len(r) % 7 == 0))
    return r


def coincidences(left=False):
    """photons that arrive separately and meet in a beam splitter"""
    r = []
    for n in ((1, 1), (2, 1), (1, 2), (2, 0)):
        for d in ([delay([0], 1)], [delay([1], 2)], [delay([0], 3)], [delay([0], 30)], [qdelay([0], 1)], [qdelay([0], 2, 2)], [delay([0], 2, 2)],
                  [delay([0], 5), dict(k='width', chs=[0], w=2)], [delay([0], 5), dict(k='width', chs=[1], w=7)], [dict(k='width', chs=[0, 1], w=2, plain=True), delay([0], 2, 2)],
                  [delay([0], 2), dict(k='width', chs=[0, 1], w=2)], [delay([0], 1), dict(k='width', chs=[], w=7)], [delay([0], 4), delay([1], 3)]):
            for g in ([mix(0, 1)], [dict(k='mixg', a=0, b=1, r=1, t=3, bad=False)], [mix(0, 1), phase(0, 6), mix(0, 1)], [dict(k='wp', a=1, b=0, t=3, p=6)],
                      [dict(k='custopt', a=0, b=1, m=gen.CUSTOM_OPT[0][0], s=gen.CUSTOM_OPT[0][1])]):
                for m in ([meas([0, 1])], [meas([0])], [meas([0, 1]), meas([1, 0])], [meas([1]), mix(0, 1), meas([0, 1])]):
                    r.append(case(2, 2, d + g + m, [basis(n, 2)], left=left, cut=len(r) % 4))
    return r


def controlled():
    """delays read from a classical channel, set beforehand or measured"""
    r = []
    for v in (0, 1, 2, 3, -1):
        for k in ('cdelay', 'cqdelay'):
            d = dict(k=k, chs=[0], cc=1, w=1)
            r.append(case(2, 3, [mix(0, 1), d, mix(0, 1), meas([0, 1], [0, 2])], [basis((1, 0), 3, 'a', [["n", 0], ["n", v], ["n", 0]]), basis((0, 1), 3, 'b', [["n", 0], ["n", 1], ["n", 0]])]))
            r.append(case(2, 3, [dict(k='set', ch=[1], vals=[["n", v]]), d, mix(0, 1), meas([0, 1], [0, 2])], [basis((1, 1), 3, 'a')]))
            r.append(case(3, 3, [mix(0, 1), meas([2], [1]), mix(0, 1), d, mix(0, 1), meas([0, 1], [0, 2])],
                          [state([((1, 0, 0), num(1)), ((1, 0, 1), num(1))], 'a', [["n", 0]] * 3)], L=3))
            r.append(case(3, 3, [mix(1, 2), meas([2], [1]), d, mix(0, 1), meas([0, 1], [0, 2])], [basis((1, 1, 0), 3, 'a')]))
            r.append(case(2, 3, [mix(0, 1), dict(k='cfun', f='add', ch=[1], par=[1]), d, mix(0, 1), meas([0, 1], [0, 2])], [basis((1, 0), 3, 'a', [["n", 0], ["n", v], ["n", 0]])]))
    # every state of a mixture has a delay of its own, also where initial states are the same
    for vs in ((0, 30), (30, 0), (1, 3), (2, 0, 1)):
        for k in ('cdelay', 'cqdelay'):
            d = dict(k=k, chs=[0], cc=1, w=1)
            for n in ((1, 1), (1, 0)):
                for names in ('aaa', 'aba'):
                    st = [state([(n, num(1))], names[j], [["n", 0], ["n", v], ["n", 0]], (1, len(vs))) for j, v in enumerate(vs)]
                    r.append(case(2, 3, [mix(0, 1)] * (2 - sum(n)) + [d, mix(0, 1), meas([0, 1], [0, 2])], st, cut=len(r) % 3))
                    r.append(case(2, 3, [mix(0, 1), meas([1], [1]), mix(0, 1), d, mix(0, 1), meas([0, 1], [0, 2])], st))
    return r


def mixtures():
    """several states of the same and of different initial states"""
    r = []
    for d in ([delay([0], 1)], [qdelay([0], 1)], [delay([0], 2), delay([1], 1)]):
        for p in ((1, 2), (1, 3)):
            st = [state([((1, 0), num(1))], 'x', [["n", 0]] * 2, p), state([((0, 1), num(1))], 'x', [["n", 0]] * 2, (p[1] - p[0], p[1])),
                  state([((1, 1), num(1))], 'y', [["n", 0], ["n", 1]], (1, 1))]
            for m in ([meas([0, 1])], [meas([1], [0])], [meas([0]), meas([1], [1])]):
                r.append(case(2, 2, [mix(0, 1)] + d + [mix(0, 1)] + m, st, cut=2))
                r.append(case(2, 2, d + [mix(0, 1)] + m, st, cut=1))
                r.append(case(2, 2, [mix(0, 1)] + m + d + [mix(0, 1)] + m, st, cut=2))
    return r


def paths():
    """three and four channels: delays in different arms, polarisation, meeting again"""
    r = []
    pbs = dict(k='pbs', a=[0, 1], b=[2, 3])
    hwp = dict(k='hwp225', a=0, b=1)
    for d1, d2 in itertools.product((0, 1, 2), (0, 1, 3)):
        r.append(case(3, 3, [mix(0, 1), mix(1, 2), delay([1], d1), delay([2], d2), mix(0, 1), mix(1, 2), meas([0, 1, 2])], [basis((1, 0, 0), 3)], cut=3))
        r.append(case(3, 3, [mix(0, 1), delay([0], d1), mix(0, 1), delay([1], d2), mix(0, 1), meas([0, 1])], [basis((1, 0, 1), 3)], cut=2, L=3))
        r.append(case(3, 2, [mix(0, 1), delay([0], d1), mix(1, 2), delay([2], d2), mix(0, 2), meas([0, 1])], [basis((1, 1, 0), 2)]))
        r.append(case(4, 4, [hwp, pbs, delay([2, 3], d1), pbs, hwp, delay([0], d2), hwp, meas([0, 1, 2, 3])], [basis((1, 0, 0, 0), 4)], cut=4))
        r.append(case(4, 4, [hwp, pbs, qdelay([0, 1], d1 + 1), pbs, hwp, meas([0, 1])], [basis((1, 0, 1, 0), 4)]))
        r.append(case(3, 3, [delay([0], d1), delay([1], d2), mix(0, 1), mix(1, 2), mix(0, 1), meas([0, 1, 2])], [basis((1, 1, 1), 3)]))
    return r


def projections():
    """measurements that look for some outcomes only"""
    r = []
    for n in ((1, 0), (1, 1), (2, 0)):
        outs = [(a, sum(n) - a) for a in range(sum(n) + 1)]
        for d in ([delay([0], 1)], [delay([0], 0)], [qdelay([0], 1)], [delay([1], 3), delay([0], 1)], []):
            for proj in [c for m in range(1, len(outs) + 1) for c in itertools.combinations(outs, m)] + [outs[::-1], [(0, 0), outs[0]]]:
                for m in ([meas([0, 1], proj=proj)], [meas([1], proj=proj)], [meas([0], [1], proj=proj), mix(0, 1), meas([0, 1], proj=outs)], [meas([], proj=proj), meas([0, 1])]):
                    r.append(case(2, 2, [mix(0, 1)] + d + [mix(0, 1)] + m, [basis(n, 2)], left=len(r) % 2 == 0, cut=len(r) % 5))
    for proj in ([(1, 0, 1), (2, 0, 0)], [(0, 1, 1)], [(1, 1, 0), (1, 0, 1), (0, 1, 1)]):
        for m in ([meas([0, 1, 2], proj=proj)], [meas([2], proj=proj)], [meas([2, 0], [0, 1], proj=proj)]):
            r.append(case(3, 3, [delay([0], 1), mix(0, 1), mix(1, 2)] + m, [basis((1, 1, 0), 3)], left=len(r) % 2 == 0, cut=2))
            r.append(case(3, 3, [delay([0], 1), mix(0, 1), mix(1, 2)] + m, [basis((1, 1, 0), 3, 'a'), basis((0, 1, 1), 3, 'b'), basis((1, 0, 0), 3, 'a')], left=len(r) % 2 == 0, cut=2))
    return r


def scales():
    """only ratios of moments and widths count"""
    r = []
    for u in (0.5, 0.01, 1000):
        for d in ([delay([0], 1)], [delay([1], 4, 2)], [qdelay([0], 2, 2)], [qdelay([0], 1, bw=True)], [delay([0], 1), delay([1], 3)], [delay([0], 5), dict(k='width', chs=[0], w=2)]):
            for n in ((1, 0), (1, 1)):
                r.append(case(2, 2, [mix(0, 1)] * sum(n[1:]) + [mix(0, 1)] + d + [mix(0, 1), meas([0, 1])], [basis(n, 2)], u=u))
    return r


def some(seed, k):
    """a random case"""
    rng = random.Random('%s/%s' % (seed, k))
    NO = rng.choice([2, 2, 2, 3, 3, 4])
    NC = rng.choice([1, 2, 3])
    photons = rng.choice([1, 1, 2, 2, 3])
    left = rng.random() < 0.6

    def occ(m):
        n = [0] * NO
        for _ in range(m):
            n[rng.randrange(NO)] += 1
        return n
    states, total = [], rng.choice([1, 1, 2, 3])
    for i in range(total):
        f = {}
        for _ in range(rng.choice([1, 1, 1, 2])):
            f[tuple(occ(photons if rng.random() < 0.8 else rng.randint(0, photons)))] = rng.choice([num(1), num(0, 1), num(-1), num(1, 1), num(2)])
        if rng.random() < 0.1:
            # amplitude zero: as good as no component
            for _ in range(rng.choice([1, 1, 2])):
                f.setdefault(tuple(occ(rng.randint(0, photons))), num(0))
        states.append(state(list(f.items()), rng.choice(['p', 'q', 'p1']), [["n", rng.choice([0, 0, 1, 2])] for _ in range(NC)], rng.choice([(1, 1), (1, 2), (1, 4), (3, 4)])))
    nodes = []
    quick = rng.random() < 0.35
    budget = {1: 5, 2: 4, 3: 2}[photons]
    delays = meass = 0
    u = rng.choice([1, 1, 1, 0.5])
    for _ in range(rng.randint(3, 9)):
        w = rng.random()
        a, b = rng.sample(range(NO), 2)
        if w < 0.4 and budget:
            budget -= 1
            nodes.append(rng.choice([mix(a, b), mix(a, b), dict(k='mixg', a=a, b=b, r=rng.choice([1, 2, 3]), t=1, bad=False), dict(k='hwp225', a=a, b=b), dict(k='swap', a=a, b=b),
                                     dict(k='wp', a=a, b=b, t=rng.choice([0, 3, 6, 9]), p=rng.choice([6, 12, 18])), dict(k='qwp', a=a, b=b, t=rng.choice([0, 3, 6, 9]))]))
        elif w < 0.5:
            nodes.append(phase(a, rng.choice([3, 6, 12, 18, 4])))
        elif w < 0.75 and delays < 3:
            delays += 1
            chs = rng.sample(range(NO), rng.choice([1, 1, 1, 2]))
            d = rng.choice([0, 1, 1, 2, 3, -1, -2, 4, 25])
            pw = rng.choice([1, 1, 1, 1, 2])
            if rng.random() < (0.25 if total == 1 else 0.5):
                u = 1
                nodes.append(dict(k='cqdelay' if quick else 'cdelay', chs=chs, cc=rng.randrange(NC), w=pw, plain=rng.random() < 0.5, bw=rng.random() < 0.5))
            else:
                nodes.append(dict(k='qdelay' if quick else 'delay', chs=chs, d=d if not quick or pw == 1 else 2 * d, w=pw, plain=rng.random() < 0.5, bw=rng.random() < 0.5))
            if quick and rng.random() < 0.8:
                delays = 3
        elif w < 0.79:
            nodes.append(dict(k='width', chs=rng.choice([list(range(NO)), rng.sample(range(NO), 1), []]), w=rng.choice([1, 2, 7]), plain=rng.random() < 0.5))
        elif w < 0.84:
            nodes.append(dict(k='set', ch=[rng.randrange(NC)], vals=[["n", rng.randint(0, 3)]]))
        elif w < 0.87:
            nodes.append(dict(k='cfun', f='add', ch=[rng.randrange(NC)], par=[rng.randint(1, 2)]))
        elif meass < 2 and nodes:
            meass += 1
            m = rng.randint(1, min(NO, NC))
            nodes.append(meas(rng.sample(range(NO), m), rng.sample(range(NC), m), [occ(photons) for _ in range(rng.randint(1, 4))] if rng.random() < 0.2 else None))
    if meass == 0 or rng.random() < 0.5:
        m = rng.randint(1, min(NO, NC))
        nodes.append(meas(rng.sample(range(NO), m), rng.sample(range(NC), m)))
    if any(n['k'] in ('width', 'delay', 'cdelay') for n in nodes) and any(n['k'] in ('qdelay', 'cqdelay') for n in nodes):
        u = 1
    return case(NO, NC, nodes, states, L=photons + rng.choice([1, 1, 2]), left=left, u=u, cut=rng.randint(0, len(nodes)), twice=rng.random() < 0.2)


def explore(check, k):
    """the part of a check that explores wave packets"""
    if k == 0:
        if check.tier == 'quick':
            fam = interferometers()[::5] + coincidences()[::7] + controlled() + mixtures()[::2] + paths() + scales() + projections()[::3]
        else:
            fam = interferometers() + interferometers(False) + coincidences() + coincidences(True) + controlled() + mixtures() + paths() + scales() + projections()
        check.cases('temporal', 'Temporal', fam, 'exhaustive')
    check.cases('temporal', 'Temporal', [some('%s/%s/%d' % (check.seed, check.prop, k), j) for j in range(300 if k == 0 else 800)], 'random %s/%d' % (check.seed, k))
