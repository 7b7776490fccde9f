"""Photon pairs with Popescu-Rohrlich correlation (Superquantum.tla): the cases that are
explored, and their replay on the library. A case is a circuit, a collection of states and a
list of nodes, for case['direct'] evaluated with the functions for no-signalling boxes."""
import copy
import itertools
import math
import random

import replay as R
import temporal as T

TOL = 2e-4       # photon amplitudes are kept in single precision: |x|^(1/quantumness) amplifies it
SEEN = 1e-5      # states that are less likely may be present or not


# ------------------------------------------------------------------------------ replay
def chance(p, al):
    r = T.weight(p)
    for num, den, qn, qd in al:
        x = R.rf(num) / R.rf(den)
        r *= (1 + math.copysign(abs(x) ** (qd / qn), x)) / 2 if abs(x) > 1e-12 else 0.5
    return r


def boxes(n):
    return [dict(channels_Ah_Av_Bh_Bv=list(b['ch']), quantumness_indicator=b['qn'] if b['qd'] == 1 else b['qn'] / b['qd']) for b in n['bx']]


def add(world, c, sh, n):
    if n['k'] == 'pr':
        c.popescu_rohrlich_correlation_gate(pr_correlation=boxes(n)) if not n.get('ns') else c.create_no_signalling_boxes(ns_boxes=boxes(n))
    else:
        T.add(world, c, sh, n, 1)


def components(v):
    d = math.sqrt(R.rf(v['N']))
    return {tuple(n): R.cf(a) / d for n, a in v['f']}


def expected_states(case, out):
    """(label, values, records, probability, components) of every state"""
    r = []
    for g in out['groups']:
        p = chance(g['p'], g['al'])
        vals = tuple(R.value(v) for v in g['c'])
        recs = tuple((tuple(R.value(v) for v in m['c']), chance(m['p'], m['al'])) for m in g['m'])
        f = components(g['v'])
        n = 2 * g['pairs']
        if n == 0:
            r.append((g['init'], vals, recs, p, f))
        else:
            for b in itertools.product((0, 1), repeat=n):
                part = {o[:-n]: a * math.sqrt(2 ** n) for o, a in f.items() if o[-n:] == b}
                r.append((g['init'], vals, recs, 0.5 ** (n // 2), part))
    return r


def close_components(f, g, case):
    return all(abs(f.get(k, 0) - g.get(k, 0)) < 1e-4 for k in set(f) | set(g))


def state_is(s, e, case, free):
    init, vals, recs, p, f = e
    if s.initial_state != init or abs(s.cumulative_probability - p) > TOL or len(s.classical_channel_values) != len(vals):
        return False
    if any(abs(x - y) > 1e-6 for x, y in zip(s.classical_channel_values, vals)) or len(s.measurement_results or []) != len(recs):
        return False
    for r, (v, q) in zip(s.measurement_results or [], recs):
        if abs(r['probability'] - q) > TOL or len(r['measurement_results']) != len(v) or any(abs(x - y) > 1e-6 for x, y in zip(r['measurement_results'], v)):
            return False
    have = {tuple(s._dict_of_valid_component_names[k]): a['amplitude'] for k, a in s.optical_components.items()}
    if free and have and f:
        k = max(f, key=lambda x: abs(f[x]))
        if abs(have.get(k, 0)) > 1e-3:
            ph = have[k] / f[k] * abs(f[k]) / abs(have[k])
            f = {x: a * ph for x, a in f.items()}
    return close_components(have, f, case)


def show(e, case):
    return 'initial state %r, classical values %s, records %s, probability %.6f, components %s' % (
        e[0], list(e[1]), list(e[2]), e[3], {R.name_of(k, case['L'], case['left']): complex(round(a.real, 4), round(a.imag, 4)) for k, a in e[4].items()})


def match(col, exp, case, pairs):
    """every state of the collection is expected, every expected state is there"""
    todo = list(exp)
    for s in col:
        if min([s.cumulative_probability] + [r['probability'] for r in s.measurement_results or []]) < SEEN:
            continue
        k = min((k for k, e in enumerate(todo) if state_is(s, e, case, False)), key=lambda k: abs(todo[k][3] - s.cumulative_probability), default=None)
        if k is None:
            return 'state not expected: initial state %r, classical values %s, records %s, probability %.6f, components %s' % (
                s.initial_state, list(s.classical_channel_values), s.measurement_results, s.cumulative_probability, {k: v['amplitude'] for k, v in s.optical_components.items()})
        todo.pop(k)
    for e in todo:
        if min([e[3]] + [q for _, q in e[2]]) > 2 * SEEN:
            return 'missing state: ' + show(e, case)
    return None


def replay(case, out):
    try:
        return check(case, out)
    except R.Mismatch as ex:
        return 0, str(ex)


def check(case, out):
    lib = R.LIB or R.Lib()
    R.LIB = lib
    world = R.World(lib)
    sh = dict(L=case['L'], NO=case['NO'], NC=case['NC'], left=case['left'])
    nodes = case['nodes'][:out['upto']]
    new = lambda: lib.FockStateCircuit(case['L'], case['NO'], case['NC'], channel_0_left_in_state_name=case['left'])      # noqa: E731
    if case.get('direct') and len(nodes) == len(case['nodes']):
        return direct(lib, world, case, out, sh, new)
    first, second, whole = new(), new(), new()
    cut = case.get('cut', 0)
    for k, n in enumerate(nodes):
        T.call('node %d' % (k + 1), add, world, whole, sh, n)
        T.call('node %d' % (k + 1), add, world, first if k < cut else second, sh, n)
    col = T.collection(lib, case, whole)
    before = T.picture(col)
    res = T.call('evaluation', whole.evaluate_circuit, col)
    if T.picture(col) != before:
        return 0, 'evaluation changes its input'
    exp = expected_states(case, out)
    pairs = out['groups'][0]['pairs']
    why = match(res, exp, case, pairs)
    if why:
        return 0, why
    if not pairs:
        h = T.merged(T.call('plot', res.plot, histo_output_instead_of_plot=True))
        want = {}
        for init, vals, recs, p, f in exp:
            name = R.name_of([int(v) % case['L'] for v in vals], case['L'], case['left'])
            want.setdefault(init, {})
            want[init][name] = want[init].get(name, 0) + p
        why = T.near(h, want)
        if why:
            return 0, 'plot: ' + why
    if 0 < cut < len(nodes):
        half = T.call('evaluation', first.evaluate_circuit, col)
        mid = T.picture(half)
        two = T.call('evaluation', second.evaluate_circuit, half)
        why = match(two, exp, case, pairs)
        if why:
            return 0, 'in two steps (after %d nodes): %s' % (cut, why)
        if T.picture(half) != mid:
            return 0, 'evaluation of the second half changes its input'
        if T.picture(col) != before:
            return 0, 'evaluation changes its input'
    elif case.get('twice'):
        again = T.call('evaluation', whole.evaluate_circuit, col)
        why = match(again, exp, case, pairs)
        if why:
            return 0, 'evaluated again: %s' % why
    return None


def direct(lib, world, case, out, sh, new):
    """the same experiment with the functions for no-signalling boxes"""
    import fock_state_circuit as fsc
    c = new()
    for k, n in enumerate(case['nodes'][1:-1]):
        T.call('node %d' % (k + 2), add, world, c, sh, n)
    col = T.collection(lib, case, c)
    before = T.picture(col)
    state = list(col)[0]
    start = T.call('create_collection_with_NS_boxes', fsc.create_collection_with_NS_boxes, state, boxes(case['nodes'][0]))
    res = T.call('evaluation', c.evaluate_circuit, start) if len(case['nodes']) > 2 else start
    mid = T.picture(res)
    histo = T.call('measure_collection_with_NS_boxes', fsc.measure_collection_with_NS_boxes, res)
    want = {}
    for init, vals, recs, p, f in expected_states(case, out):
        (o, _), = f.items()
        want[o] = want.get(o, 0) + p
    have = {}
    for b in histo:
        o = tuple(state._dict_of_valid_component_names[b['output_state']])
        have[o] = have.get(o, 0) + b['probability']
    for o in set(have) | set(want):
        if abs(have.get(o, 0) - want.get(o, 0)) > TOL:
            return 0, 'outcome %s: probability %.6f, expected %.6f' % (o, have.get(o, 0), want.get(o, 0))
    pairs = list(itertools.combinations(range(case['NO']), 2))
    corr = T.call('correlations_from_measured_collection_with_NS_boxes', fsc.correlations_from_measured_collection_with_NS_boxes, histo, pairs, state)
    total = sum(want.values())
    for (a, b), x in zip(pairs, corr):
        y = sum(p if o[a] == o[b] else -p for o, p in want.items()) / total
        if abs(x - y) > 5 * TOL:
            return 0, 'correlation of channels %d and %d is %.6f, expected %.6f' % (a, b, x, y)
    if T.picture(res) != mid:
        return 0, 'the measurement changes the collection'
    if T.picture(col) != before:
        return 0, 'the input is changed'
    return None


# ------------------------------------------------------------------------------ cases
def box(ch=(0, 1, 2, 3), q=1, qd=1):
    return dict(ch=list(ch), qn=q, qd=qd)


def pr(*bx, ns=False):
    return dict(k='pr', bx=list(bx), ns=ns)


def hwp(ch, t):
    return dict(k='hwp', a=ch[0], b=ch[1], t=t)


def wp(ch, t, p):
    return dict(k='wp', a=ch[0], b=ch[1], t=t, p=p)


def case(NO, NC, nodes, states, L=None, left=True, cut=0, twice=False, direct=False):
    top = max(sum(n) for s in states for n, _ in s['f'])
    return dict(L=L or max(2, top + 1), NO=NO, NC=NC, left=left, cut=cut, twice=twice, direct=direct, nodes=list(nodes), states=list(states))


def vac(NO, NC, init='A', c=None, p=(1, 1)):
    return T.state([([0] * NO, T.num(1))], init, c if c is not None else [["n", 0]] * NC, p)


QS = ((1, 1), (2, 1), (3, 1), (10, 1), (1000, 1), (1, 2))


def all4(NC=4):
    return T.meas(range(4), range(4))


def polarizers(step=1, qs=QS):
    """one pair, every combination of settings of half-wave plates"""
    r = []
    for q, qd in qs:
        for t1 in range(0, 12, step):
            for t2 in range(12):
                n = len(r)
                r.append(case(4, 4, [pr(box(q=q, qd=qd)), hwp((0, 1), t1), hwp((2, 3), t2), all4()], [vac(4, 4)], left=n % 2 == 0, cut=n % 4, direct=n % 3 == 0))
    return r


CH = ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2), (0, 2, 1, 3))


def orders():
    """channels in other orders, other nodes before and after the gate"""
    r = []
    for ch in CH:
        for q in (1, 10):
            for left in (True, False):
                for t1, t2 in ((0, 1), (3, 0), (2, 5), (1, 8), (7, 11)):
                    a, b = ch[:2], ch[2:]
                    m = [T.meas(ch), T.meas([ch[0], ch[2]], [1, 0]), T.meas([3, 2, 1, 0], [0, 1, 2, 3])][len(r) % 3]
                    r.append(case(4, 4, [pr(box(ch, q), ns=len(r) % 5 == 0), hwp(a, t1), hwp(b, t2), m], [vac(4, 4)], left=left, cut=1 + len(r) % 3, L=2 + len(r) % 2))
                    r.append(case(4, 4, [hwp(a, t2), dict(k='set', ch=[1, 3], vals=[["a", t1], ["a", 12]]), pr(box(ch, q)),
                                         dict(k='cwp', a=a[0], b=a[1], ct=1, cp=3), hwp(b[::-1], t2), m], [vac(4, 4)], left=left, cut=len(r) % 6))
    return r


def retarders():
    """quarter-wave plates and other phases"""
    r = []
    for q in (1, 3):
        for t1, p1, t2, p2 in itertools.product((0, 3, 2, 7), (6, 12, 8), (0, 1, 5, 6), (6, 4)):
            if q == 1 or (t1 + t2) % 3 == 0:
                r.append(case(4, 4, [pr(box(q=q)), wp((0, 1), t1, p1), wp((3, 2), t2, p2), all4()], [vac(4, 4)], cut=len(r) % 4, direct=len(r) % 4 == 0))
    for t in range(4):
        r.append(case(4, 4, [pr(box()), dict(k='phase', a=1, p=3 * t), hwp((0, 1), 3), hwp((2, 3), 3), dict(k='phase', a=2, p=5), all4()], [vac(4, 4)], cut=2))
        r.append(case(4, 4, [pr(box()), dict(k='set', ch=[0], vals=[["a", 6 * t]]), dict(k='cphase', a=3, cp=0), hwp((0, 1), 3), hwp((2, 3), 3), all4()], [vac(4, 4)], cut=3))
    return r


def rotate(ch, c, s, r):
    """a polarisation turned by the angle with cosine c/r and sine s/r"""
    return dict(k='custopt', a=ch[0], b=ch[1], m=[[T.num(c), T.num(s)], [T.num(-s), T.num(c)]], s=[r, 0, 0, 0])


def near():
    """polarisations that are nearly parallel or nearly perpendicular to each other"""
    r = []
    for q, qd in ((1, 1), (3, 1), (10, 1), (1000, 1), (1, 2)):
        for c, s, h in ((3, 4, 5), (20, 21, 29), (119, 120, 169), (696, 697, 985), (40, 9, 41), (84, 13, 85), (180, 19, 181)):
            for t in (0, 3, 6):
                for left in (True, False):
                    a, b = ((0, 1), (2, 3)) if len(r) % 2 else ((2, 3), (0, 1))
                    r.append(case(4, 4, [pr(box(q=q, qd=qd)), rotate(a, c, s, h)] + ([hwp(b, t)] if t else []) + [all4()], [vac(4, 4)], left=left, cut=len(r) % 4, direct=len(r) % 5 == 0))
    return r


def spread():
    """outcomes in more than two detectors per side, photons that cross and meet other photons"""
    r = []
    for q in (1, 2):
        for n in range(4):
            t = 1 + 2 * n
            r.append(case(6, 6, [pr(box(q=1)), hwp((0, 1), t), T.mix(0, 4), hwp((2, 3), 2), T.mix(3, 5), T.meas(range(6), range(6))], [vac(6, 6)], L=3, cut=3))
            r.append(case(6, 3, [pr(box(q=q)), hwp((0, 1), t), dict(k='swap', a=0, b=4), dict(k='swap', a=3, b=5), hwp((2, 5), 3), T.meas([4, 1, 5], [0, 1, 2])], [vac(6, 3)], cut=2))
            r.append(case(5, 5, [pr(box(q=q)), hwp((0, 1), t), hwp((2, 3), 1), T.meas(range(5), range(5))],
                          [T.state([((0, 0, 0, 0, n % 3), T.num(1))], 'extra', [["n", 0]] * 5)], L=3, left=n % 2 == 0, cut=1))
            r.append(case(6, 6, [T.mix(4, 5), pr(box(q=q)), hwp((0, 1), t), T.mix(4, 5), dict(k='phase', a=5, p=n * 3), T.meas(range(6), range(6))],
                          [T.state([((0, 0, 0, 0, 1, 0), T.num(1)), ((0, 0, 0, 0, 0, 1), T.num(0, 1))], 'two', [["n", 0]] * 6)], L=2 + n % 2, cut=2 + n % 2))
            r.append(case(5, 5, [pr(box(q=1)), hwp((0, 1), t), T.mix(0, 4), hwp((2, 3), n), T.meas(range(5), range(5))],
                          [T.state([((0, 0, 0, 0, 1), T.num(1))], 'meets', [["n", 0]] * 5)], L=3, cut=2))
            r.append(case(4, 4, [pr(box(q=q)), hwp((0, 1), t), T.mix(0, 2), all4()], [vac(4, 4)], L=3))
    return r


def mixtures():
    """several states in the collection"""
    r = []
    for q in (1, 10):
        for left in (True, False):
            st = [vac(4, 4, 'x', p=(1, 3)), T.state([((1, 1, 1, 1), T.num(1))], 'x', [["n", 0]] * 4, (2, 3)),
                  T.state([((2, 1, 0, 1), T.num(0, 1))], 'y', [["n", 1], ["a", 3], ["n", 0], ["n", 2]], (1, 1))]
            for m in (all4(), T.meas([0, 2], [1, 3]), T.meas([3], [0])):
                for nodes in ([pr(box(q=q)), hwp((0, 1), 1), hwp((2, 3), 4), m],
                              [pr(box(q=q)), dict(k='set', ch=[2], vals=[["a", 2]]), dict(k='cfun', f='add', ch=[0], par=[2]), hwp((0, 1), 5), m, dict(k='cfun', f='rev', ch=[], par=[])],
                              [T.meas([0], [3]), pr(box(q=q)), hwp((0, 1), 1), m, T.meas([2, 1], [2, 1])],
                              [pr(box(q=q)), hwp((0, 1), 1), m, hwp((2, 3), 3), T.meas([2], [0])],
                              [pr(box(q=q)), hwp((0, 1), 1), m, pr(box((2, 1, 3, 0), q)), hwp((2, 1), 2), T.meas([1, 2, 3], [1, 2, 3])]):
                    if len(r) % 7 == 0:     # names of two digits (matrices of optical nodes would be too large)
                        r.append(case(4, 4, [n for n in nodes if n['k'] != 'hwp'], st, L=11, left=left, cut=1))
                        continue
                    r.append(case(4, 4, nodes, st, left=left, cut=1 + len(r) % 4))
            # a measured state gives several states, all of which get a pair
            for t in (1, 3):
                s1 = T.state([((0, 0, 0, 0, 1, 0), T.num(1))], 's', [["n", 0]] * 4)
                r.append(case(6, 4, [dict(k='hwp', a=4, b=5, t=t), T.meas([4, 5], [0, 1]), pr(box(q=q)), hwp((0, 1), t), T.meas([0, 2], [2, 3])], [s1], left=left, cut=2 + t))
                r.append(case(6, 4, [dict(k='hwp', a=4, b=5, t=t), T.meas([4], [0]), pr(box((4, 1, 2, 3), q)), dict(k='cwp', a=2, b=3, ct=0, cp=1), hwp((1, 4), t), T.meas([0, 4], [2, 3])], [s1], left=left))
    return r


def two(step):
    """two pairs"""
    r = []
    B1, B2 = (0, 1, 2, 3), (4, 5, 6, 7)
    k = 0
    for (q1, q2) in ((1, 1), (1, 10), (1000, 2)):
        for t in itertools.product((0, 1, 3), (2, 3), (0, 5), (1, 6)):
            k += 1
            if k % step:
                continue
            r.append(case(8, 8, [pr(box(B1, q1), box(B2, q2)), hwp((0, 1), t[0]), hwp((2, 3), t[1]), hwp((4, 5), t[2]), hwp((6, 7), t[3]), T.meas(range(8), range(8))],
                          [vac(8, 8)], L=2, left=k % 2 == 0, cut=k % 5, direct=k % 3 == 0))
            r.append(case(8, 4, [pr(box((7, 2, 0, 1), q1), box((4, 5, 6, 3), q2)), hwp((7, 2), t[0]), hwp((0, 1), t[1]), hwp((6, 3), t[2]), T.meas([7, 0, 4, 3])],
                          [vac(8, 4)], L=2, left=k % 3 == 0, cut=1))
    return r


def some(seed, k):
    """a random case"""
    rng = random.Random('%s/%s' % (seed, k))
    NO = rng.choice([4, 4, 5, 6])
    NC = rng.choice([1, 2, 3, 4])
    left = rng.random() < 0.5
    L = rng.choice([2, 2, 3, 3, 4])
    states = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        f = {}
        base = [rng.randrange(L) if rng.random() < 0.2 else 0 for _ in range(NO)]
        f[tuple(base)] = T.num(1)
        if NO > 4 and rng.random() < 0.3:
            c = rng.randrange(4, NO)
            base = list(base)
            base[c] = (base[c] + 1) % L
            f[tuple(base)] = rng.choice([T.num(1), T.num(0, 1), T.num(-1), T.num(1, 1)])
        if rng.random() < 0.1:
            z = list(base)
            z[-1] = (z[-1] + 1) % L
            f.setdefault(tuple(z), T.num(0))
        states.append(T.state(list(f.items()), rng.choice(['p', 'q', 'p1']), [rng.choice([["n", 0], ["n", 1], ["a", 2], ["a", 6]]) for _ in range(NC)], rng.choice([(1, 1), (1, 2), (1, 4), (3, 4)])))
    ch = rng.sample(range(4), 4) if rng.random() < 0.7 or NO == 4 else rng.sample(range(NO), 4)
    q = rng.choice(QS)
    nodes, held, n = [], False, rng.randint(3, 8)

    def plate(pair):
        w = rng.random()
        pair = list(pair)
        rng.shuffle(pair)
        if w < 0.5:
            return hwp(pair, rng.randint(0, 23))
        if w < 0.65:
            return wp(pair, rng.randint(0, 11), rng.choice([4, 6, 12, 18]))
        if w < 0.75:
            return dict(k='phase', a=pair[0], p=rng.randint(1, 23))
        if w < 0.85:
            return dict(k='qwp', a=pair[0], b=pair[1], t=rng.randint(0, 11))
        return dict(k='cwp', a=pair[0], b=pair[1], ct=rng.randrange(NC), cp=rng.randrange(NC)) if w < 0.95 else dict(k='cphase', a=pair[0], cp=rng.randrange(NC))
    for _ in range(n):
        w = rng.random()
        if not held and w < 0.35:
            held = True
            nodes.append(pr(box(ch, *q), ns=len(states) == 1 and rng.random() < 0.1 and not any(x['k'] == 'meas' for x in nodes)))
        elif w < 0.75:
            nodes.append(plate(rng.choice([ch[:2], ch[2:]])))
        elif w < 0.82:
            nodes.append(dict(k='set', ch=[rng.randrange(NC)], vals=[rng.choice([["a", rng.randint(0, 12)], ["n", rng.randint(0, 3)]])]))
        elif w < 0.86:
            nodes.append(dict(k='cfun', f='add', ch=[rng.randrange(NC)], par=[1]))
        elif w < 0.9 and NO > 4:
            nodes.append(T.mix(*rng.sample(range(4, NO), 2)) if NO > 5 else dict(k='swap', a=rng.randrange(4), b=4))
        else:
            held = False
            m = rng.randint(1, min(NO, NC))
            nodes.append(T.meas(rng.sample(range(NO), m), rng.sample(range(NC), m)))
    if not any(x['k'] == 'pr' for x in nodes):
        nodes.insert(0, pr(box(ch, *q)))
    if rng.random() < 0.85:
        m = rng.randint(1, min(NO, NC))
        nodes.append(T.meas(rng.sample(range(NO), m), rng.sample(range(NC), m)))
    return case(NO, NC, nodes, states, L=L, left=left, cut=rng.randint(0, len(nodes)), twice=rng.random() < 0.3)


def explore(check, k):
    """the part of a check that explores pairs with Popescu-Rohrlich correlation"""
    if k == 0:
        if check.tier == 'quick':
            fam = polarizers(2, QS[:1] + QS[3:5]) + orders()[::3] + retarders()[::5] + near()[::4] + spread()[::2] + mixtures()[::2] + two(4)
        else:
            fam = polarizers() + orders() + retarders() + near() + spread() + mixtures() + two(1)
        check.cases('superquantum', 'Superquantum', fam, 'exhaustive')
    check.cases('superquantum', 'Superquantum', [some('%s/%s/%d' % (check.seed, check.prop, k), j) for j in range(150 if k == 0 else 500)], 'random %s/%d' % (check.seed, k))
