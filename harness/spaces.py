"""Finite spaces of calls for exhaustive exploration by Explore.tla: a space is a list
of slots, a slot a list of alternative calls."""
import itertools

from gen import cint, ring, CUSTOM_OPT

N = lambda k: ["n", k]
A = lambda k: ["a", k]


def circ(L, NO, NC, left=True, td=10000, full=False):
    return dict(o='circ', L=L, NO=NO, NC=NC, left=left, tn=1, td=td, full=full)


def node(k, c=1, **kw):
    return dict(o='node', c=c, n=dict(k=k, **kw))


def coll(c=1, empty=True):
    return dict(o='coll', c=c, empty=empty)


def comps(w, f, how='list'):
    """f: list of (occupation, (re, im))"""
    return dict(o='comps', w=w, f=[[list(n), cint(*q)] for n, q in f], N=ring(sum(a * a + b * b for _, (a, b) in f)), how=how, wrong="")


def state(h, i, f, init=None, p=None, c=None, id='', add=True):
    r = [dict(o='state', i=i), comps(["h", h], f)]
    if init is not None:
        r.append(dict(o='init', w=["h", h], s=init))
    if p is not None:
        r.append(dict(o='prob', w=["h", h], num=p[0], den=p[1]))
    if c is not None:
        r.append(dict(o='cls', w=["h", h], c=c))
    if add:
        r.append(dict(o='add', i=i, w=["h", h], id=id))
    return [[x] for x in r]


def sdict(i, f=(), s='', p=(0, 0), c=None, wrong=''):
    return dict(o='dstate', i=i, f=[[list(n), cint(*q)] for n, q in f], N=ring(sum(a * a + b * b for _, (a, b) in f) or 1), s=s, num=p[0], den=p[1], hasc=c is not None, c=c or [], wrong=wrong)


def ev(c=1, i=1, ix=None):
    return dict(o='eval', c=c, i=i, all=ix is None, ix=ix or [])


def clean(i, s='', pos=0, f=(), N=1):
    """f, N: components given to state pos just before, with this sum of squares"""
    return dict(o='clean', i=i, s=s, pos=pos, f=[[list(n), cint(*q)] for n, q in f], N=ring(N))


def one(*ops):
    return [[x] for x in ops]


def pairs(NO):
    return list(itertools.permutations(range(NO), 2))


def lists(n, lo, hi):
    return [list(x) for m in range(lo, hi + 1) for x in itertools.permutations(range(n), m)]


def optical_nodes(NO, rich=True):
    r = []
    for a, b in pairs(NO):
        for k in ('hwp45', 'hwp225', 'qwp45', 'qwp225', 'swap', 'mix50'):
            r.append(node(k, a=a, b=b))
        r.append(node('wp', a=a, b=b, t=6, p=6))
        r.append(node('wp', a=a, b=b, t=3, p=4))
        r.append(node('hwp', a=a, b=b, t=4))
        r.append(node('qwp', a=a, b=b, t=8))
        r.append(node('mixg', a=a, b=b, r=1, t=2, bad=False))
        r.append(node('mixg', a=a, b=b, r=3, t=1, bad=False))
        m, s = CUSTOM_OPT[1]
        r.append(node('custopt', a=a, b=b, m=m, s=s))
        m, s = CUSTOM_OPT[2]
        r.append(node('custopt', a=a, b=b, m=m, s=s))
    for a in range(NO):
        r += [node('phase', a=a, p=6), node('phase', a=a, p=8)]
    if NO >= 4:
        for q in itertools.permutations(range(NO), 4):
            r.append(node('pbs', a=list(q[:2]), b=list(q[2:]), r=1, t=1, bad=False))
        for q in list(itertools.permutations(range(NO), 4))[::5]:
            r.append(node('npbs50', a=list(q[:2]), b=list(q[2:]), r=1, t=1, bad=False))
            r.append(node('npbs', a=list(q[:2]), b=list(q[2:]), r=1, t=2, bad=False))
    return r


# superpositions over three channels with at most two photons per channel
THREE = [([1, 1, 0], (1, 0)), ([0, 2, 1], (0, 1)), ([2, 0, 0], (1, 1)), ([0, 0, 1], (1, 0))]
TWO = [([1, 1], (1, 0)), ([0, 1], (0, 1)), ([1, 0], (1, 1))]


def single_node(L, NO, left, full=False, some=None):
    """every library optical node on every choice of channels, on the full basis"""
    ns = optical_nodes(NO)
    if some:
        ns = ns[::some]
    return one(circ(L, NO, 0, left, 10000, full)) + [ns] + one(coll(empty=False), ev())


def node_pairs(left, full, step, some=5):
    """two optical nodes in a row: all at once, one by one, other way around"""
    ns = optical_nodes(3)
    return (one(circ(3, 3, 0, left, 10000, full)) + [ns[step % some::some], ns[(step // some) % some::some * 2]] + one(coll())
            + state(1, 1, THREE[:3]) + one(ev(), ev(ix=[0]), ev(ix=[1]), ev(i=3, ix=[1]), ev(ix=[1, 0])))


def aliasing(depth, how, some=1):
    """every short sequence of calls on a collection, its copy and its result"""
    base = one(circ(2, 2, 1, how % 2 == 0), node('meas', oc=[0], cc=[0]), node('set', ch=[0], vals=[N(3)]), coll()) \
        + state(1, 1, TWO, init='A', p=(1, 2), c=[N(2)], id='p') + state(2, 1, TWO[:1], init='B', c=[N(1)], id='q')
    first = [[ev()], [dict(o='copy', i=1, empty=False)], [dict(o='scopy', w=["h", 1])]][how % 3]
    menu = [ev(), ev(i=2), ev(ix=[0]), dict(o='copy', i=1, empty=False), dict(o='copy', i=2, empty=False), dict(o='scopy', w=["e", 2, 1]),
            dict(o='pokerec', w=["e", 2, 1], k=7), dict(o='pokerec', w=["h", 1], k=6), dict(o='pokecls', w=["e", 1, 1], k=8),
            dict(o='pokecls', w=["e", 2, 2], k=9), dict(o='pokeaux', w=["e", 1, 1], k=3), dict(o='pokeaux', w=["e", 2, 1], k=4),
            dict(o='pokeamp', w=["e", 1, 1]), dict(o='pokeamp', w=["e", 2, 1]), comps(["h", 1], [([0, 0], (1, 0)), ([1, 1], (0, 1))]),
            dict(o='init', w=["e", 2, 1], s='zz'), dict(o='prob', w=["e", 1, 2], num=1, den=4),
            dict(o='del', i=2, by='pos', k=1, s=''), dict(o='filt', i=1, by='init', s=['B'], ch=[], vals=[]), dict(o='clear', i=2),
            dict(o='add', i=2, w=["h", 1], id='x'), dict(o='mix', i=1, ws=[["h", 2], ["e", 2, 1]], wt=[1, 2], den=3),
            dict(o='reduce', i=1, ko=[1, 0], kc=[], kcall=True), dict(o='reduce', i=2, ko=[], kc=[], kcall=False),
            dict(o='extend', i=1, eo=1, ec=1, dist=[]), dict(o='extend', i=2, eo=1, ec=0, dist=[1, 1]),
            dict(o='adjust', i=1, L=3), dict(o='adjust', i=2, L=12), clean(2)]
    return base + [first] + [menu[k % some::some] for k in range(depth)]


def classical(depth):
    nodes = [node('set', ch=ch, vals=[N(5 + k) for k in range(len(ch))]) for ch in lists(3, 1, 3)] \
        + [node('cfun', f=f, ch=ch, par=[1, 2][:len(ch)]) for f in ('add', 'copyto', 'rev', 'inplace', 'notlist') for ch in lists(3, 2, 2)[:3]] \
        + [node('meas', oc=[0], cc=[2])]
    return one(circ(2, 2, 3)) + [nodes] * depth + one(coll()) + state(1, 1, TWO, init='A', c=[N(1), N(2), A(6)]) \
        + state(2, 1, TWO[:2], init='A', c=[N(0), N(4), N(3)], p=(1, 2)) + one(ev(), ev(ix=[depth - 1] * 2 + [0]))


def measure(NO, NC, m, second, left=True):
    ms = [node('meas', oc=oc, cc=cc) for k in m for oc in lists(NO, k, k) for cc in lists(NC, k, k)]
    sp = one(circ(3, NO, NC, left)) + [ms]
    if second:
        sp += [[node('meas', oc=oc, cc=cc) for oc, cc in (([0], [0]), ([1, 2], [0, 1]), ([2, 0, 1], [1, 2, 0]))
                if max(oc) < NO and max(cc) < NC] + [node('mix50', a=1, b=0), node('set', ch=[0], vals=[N(4)])]]
        sp += [[node('meas', oc=[0], cc=[0]), node('cfun', f='inplace', ch=[0], par=[3])]]
    return sp + one(coll()) + state(1, 1, [(n[:NO] if NO <= 3 else n + [0] * (NO - 3), q) for n, q in THREE], init='A', p=(1, 3), c=[N(2)] * NC) \
        + state(2, 1, [([1] * NO, (1, 0)), ([0] * NO, (0, 2))], init='B', c=[N(1)] * NC) + one(ev(), ev(i=2))


def containers(depth):
    menu = [dict(o='add', i=1, w=["h", h], id=id) for h, id in ((1, 'p'), (2, 'p'), (1, ''), (2, 'r'))] \
        + [dict(o='dcoll', c=1, es=es) for es in ([["p", ["h", 2], "state"]], [["pq", ["h", 1], "dict"], ["p", ["e", 1, 1], "state"]])] + [dict(o='fromd', i=1, es=es) for es in ([], [["q", ["h", 2], "state"], ["p", ["h", 1], "state"]])] \
        + [dict(o='report', what='keys', i=1)] + [dict(o='get', i=1, by='id', k=1, s=s) for s in ('p', 'q')] + [dict(o='get', i=1, by='init', k=1, s=s) for s in ('A', 'AB')] \
        + [dict(o='get', i=1, by='pos', k=2, s='')] \
        + [dict(o='del', i=1, by='id', k=1, s=s) for s in ('p', 'pq', 'nope')] + [dict(o='del', i=1, by='init', k=1, s=s) for s in ('A', 'AB', 'C')] \
        + [dict(o='filt', i=1, by='init', s=s, ch=[], vals=[]) for s in (['A'], ['AB'], ['B'], ['AB', 'A'], ['C'])] \
        + [dict(o='filt', i=1, by='id', s=s, ch=[], vals=[]) for s in (['p'], ['pq'], ['pq', 'r'])] \
        + [dict(o='filt', i=1, by='cls', s=[], ch=ch, vals=v) for ch, v in (([0], [N(1)]), ([1], [N(1)]), ([1, 0], [N(2), N(1)]))] \
        + [dict(o='clear', i=1), dict(o='default', i=1)]
    return one(circ(2, 2, 2), coll()) + state(1, 1, TWO, init='A', c=[N(1), N(2)], id='p') + state(2, 1, TWO[:2], init='AB', c=[N(2), N(1)], id='pq') + [menu] * depth


def reductions(left, rich=False):
    red = [dict(o='reduce', i=1, ko=ko, kc=kc, kcall=kcall) for ko in [[]] + lists(3, 2, 3) for kc, kcall in [([], True)] + [(x, False) for x in lists(2, 0, 2)]]
    return one(circ(3, 3, 2, left), node('meas', oc=[1], cc=[0]), node('mix50', a=0, b=2), coll()) \
        + state(1, 1, THREE, init='A', p=(1, 2), c=[N(3), N(4)], id='p') + state(2, 1, [([1, 0, 1], (1, 0)), ([0, 1, 1], (1, 0))], init='A', p=(1, 4), c=[N(1), N(2)]) \
        + state(3, 1, [([2, 2, 0], (1, 0)), ([0, 1, 2], (0, 0))], init='B', c=[N(1), A(6)]) + [[ev(), dict(o='copy', i=1, empty=False)]] + [red] + one(dict(o='density', i=1), ev(i=2))


def extensions(left):
    ext = [dict(o='extend', i=1, eo=eo, ec=ec, dist=dist) for eo in (0, 1, 2) for ec in (0, 1, 2) for dist in ([], [1, 0], [0, 1], [1, 1], [3, 1]) if eo or dist == []]
    after = [dict(o='reduce', i=1, ko=[0, 1], kc=[0], kcall=False), dict(o='density', i=1), dict(o='extend', i=1, eo=1, ec=0, dist=[1, 3]), dict(o='adjust', i=1, L=11)]
    return one(circ(2, 2, 1, left), node('meas', oc=[0], cc=[0]), coll()) + state(1, 1, TWO, init='A', p=(1, 2), c=[N(3)], id='p') \
        + state(2, 1, TWO[:2], init='B', c=[A(6)]) + [[ev(), dict(o='report', what='str', i=1)]] + [ext] + [after]


def wide_extensions(left, Ls=(11, 12)):
    """photon numbers of two digits in the new channels"""
    r = []
    for L in Ls:
        def dist(d, L=L):
            return [d.get(k, 0) for k in range(L)]
        ext = [dict(o='extend', i=1, eo=eo, ec=ec, dist=dist(d)) for eo in (1, 2) for ec in (0, 1) for d in ({1: 1, L - 1: 1}, {0: 3, 10: 1}, {10: 1}, {0: 1, 1: 2, 10: 1})]
        after = [dict(o='adjust', i=1, L=x) for x in (2, 10, 13)] + [dict(o='extend', i=1, eo=0, ec=1, dist=[])]
        r.append(one(circ(L, 2, 1, left), coll()) + state(1, 1, [([1, 10], (1, 0)), ([10, 1], (0, 1)), ([0, 0], (1, 0))], init='A', p=(1, 2), c=[N(3)], id='p')
                 + state(2, 1, [([1, 1], (1, 0))], init='B', c=[N(4)], p=(1, 4)) + [ext] + [after])
    return r


def adjustments(left):
    adj = [dict(o='adjust', i=1, L=L) for L in (1, 2, 3, 4, 10, 11, 12)]
    return one(circ(3, 2, 1, left), coll()) + state(1, 1, [([2, 1], (1, 0)), ([0, 2], (0, 1)), ([1, 0], (2, 0))], init='A', p=(1, 2), c=[N(3)], id='p') \
        + state(2, 1, [([1, 1], (1, 0)), ([0, 0], (-1, 0)), ([2, 2], (0, 0))], init='B', c=[N(1)]) + [adj] + [adj + [dict(o='reduce', i=1, ko=[1, 0], kc=[], kcall=True), dict(o='extend', i=1, eo=0, ec=1, dist=[])]]


def cleanups(n, inits):
    vs = [[([0, 1], (1, 0)), ([1, 0], (1, 0))], [([0, 1], (1, 0)), ([1, 0], (0, 1))], [([1, 0], (1, 0)), ([0, 1], (1, 0))], [([1, 1], (1, 0))], [([0, 1], (0, 2)), ([1, 0], (0, 2))]]
    sp = one(circ(2, 2, 1), coll())
    for k in range(1, n + 1):
        sp += one(dict(o='state', i=1)) + [[comps(["h", k], v) for v in vs]] + [[dict(o='init', w=["h", k], s=s) for s in (inits if k > 1 else ['A'])]] \
            + one(dict(o='prob', w=["h", k], num=1, den=2 + k), dict(o='cls', w=["h", k], c=[N(k)]), dict(o='add', i=1, w=["h", k], id=''))
    half = [clean(1, '', k, [([0, 1], (1, 0)), ([1, 0], q)][:m], N) for k in (1, n) for m in (1, 2) for q in ((1, 0), (0, 1)) for N in (1, 2, 3, 8) if m == 2 or q == (1, 0)]
    return sp + [[clean(1), clean(1, 'A'), clean(1, 'A', 1, [([1, 1], (2, 0))], 9), dict(o='density', i=1)] + half] + one(clean(1))


def mixtures(top=3):
    ws = [["h", 1], ["h", 2], ["h", 3], ["e", 1, 1]]
    mixes = [dict(o='mix', i=i, ws=list(x), wt=wt, den=4) for m in range(1, top + 1) for x in itertools.product(ws, repeat=m) for i in (1,)
             for wt in ([[4]] if m == 1 else [[1, 3], [0, 4]] if m == 2 else [[1, 1, 2]] if m == 3 else [[1, 0, 2, 1]])]
    return one(circ(2, 2, 1), coll()) + state(1, 1, TWO, init='A', c=[N(1)], id='p') + state(2, 1, TWO[:2], init='B', c=[N(2)], p=(1, 2)) \
        + state(3, 1, [([0, 1], (1, 0)), ([1, 1], (0, -1))], init='A', p=(1, 4)) + [mixes] + [[dict(o='density', i=1), clean(1)]]


def bridges(left, shapes, compound=False):
    sps = []
    for sh in shapes:
        for sh2 in shapes:
            if sh == sh2 and compound:
                continue
            nodes = []
            for c, (L, NO, NC) in ((1, sh), (2, sh2)):
                nodes += one(node('mix50', c=c, a=0, b=NO - 1))
                if NC:
                    nodes += one(node('meas', c=c, oc=[0], cc=[NC - 1]))
            L, NO, NC = sh
            f = [([1] + [0] * (NO - 1), (1, 0)), ([0] * (NO - 1) + [1], (0, 1))]
            if L > 2 or NO > 2:
                f += [([1] + [0] * (NO - 2) + [L - 1], (1, 1)), ([0, 1] + [0] * (NO - 3) + [L - 1] if NO > 2 else [0, L - 1], (2, 0))]
            sp = one(circ(*sh, left), circ(*sh2, left)) + nodes
            sp += one(dict(o='comp', m=[1, 2])) if compound else one(node('bridge', next=2))
            sp += one(coll()) + state(1, 1, f, init='A', p=(1, 2), c=[N(k + 1) for k in range(NC)]) \
                + one(dict(o='ceval', k=1, i=1) if compound else ev(), dict(o='density', i=2), ev(c=2, i=2))
            sps.append(sp)
    return sps


def bridge_first(left, shapes):
    """a bridge as first node, from any shape to any other"""
    sps = []
    for sh in shapes:
        for sh2 in shapes:
            if sh == sh2:
                continue
            L, NO, NC = sh
            f = [([0] * (NO - 1) + [L - 1], (1, 0)), ([1] + [0] * (NO - 1), (0, 1)), ([1] * NO, (1, 0))]
            sps.append(one(circ(*sh, left), circ(*sh2, left), node('bridge', next=2)) + [[node('mix50', c=2, a=0, b=1), node('meas', c=2, oc=[1], cc=[0])] if sh2[2] else [node('mix50', c=2, a=0, b=1)]]
                       + one(coll()) + state(1, 1, f, init='A', p=(1, 2), c=[N(k + 1) for k in range(NC)])
                       + [[ev(), ev(ix=[0])], [ev(), ev(c=2, i=2), ev(c=1, i=2), dict(o='pokeamp', w=["e", 1, 1])]])
    return sps


def outcomes(left):
    """measurements with more outcomes than there are letters"""
    sps = []
    for L, NO, oc in ((3, 3, [2, 0, 1]), (6, 2, [0, 1]), (2, 5, [4, 1, 0, 3, 2])):
        f = [(list(n), [(1, 0), (0, 1), (1, 1)][k % 3]) for k, n in enumerate(itertools.product(range(L), repeat=NO))]
        NC = len(oc)
        sps.append(one(circ(L, NO, NC, left), node('meas', oc=oc, cc=list(range(NC))), node('meas', oc=oc[1:], cc=list(range(NC))[:-1]), coll()) + state(1, 1, f, init='A', p=(1, 2), id='p')
                   + state(2, 1, f[::2], init='A') + [[ev(), ev(ix=[1, 0])]] + one(dict(o='histo', i=2, ch=[])))
    return sps


def wide_reductions(left):
    """channels whose photon numbers have one or two digits"""
    f = [([1, 11, 0, 2], (1, 0)), ([11, 1, 0, 2], (1, 0)), ([11, 1, 1, 0], (0, 1)), ([1, 11, 2, 0], (1, 0)), ([0, 1, 1, 11], (1, 0)), ([0, 1, 11, 1], (1, 0))]
    red = [dict(o='reduce', i=1, ko=ko, kc=[0], kcall=False) for ko in lists(4, 2, 3)]
    return one(circ(12, 4, 1, left), coll()) + state(1, 1, f, init='A', p=(1, 2), c=[N(3)]) + state(2, 1, f[:3], init='B') + [red] + one(clean(1))


def shifts(left, direct):
    d = 'd' if direct else ''
    ns = [node('shift' + d, tg=tg, sh=[(k + 1 + x) % 4 for x in range(len(tg))]) for tg in lists(3, 1, 3) for k in (0, 1)] \
        + [node('shift' + d, tg=[a, a], sh=[1, 1]) for a in range(3)] \
        + [node('cshift' + d, ctl=[a for a, _ in ps], tg=[b for _, b in ps]) for m in (1, 2) for ps in itertools.product(pairs(3), repeat=m)] \
        + [node('coupl', ctl=[a], tg=[b], w=w, d=dd) for a, b in pairs(3) for w, dd in ((0, 1), (1, 1), (1, 2), (1, 4))]
    return one(circ(3, 3, 1, left)) + [ns] + one(coll()) + state(1, 1, THREE, init='A', p=(1, 2), c=[N(3)]) + state(2, 1, [([2, 1, 2], (1, 0))], init='B') + one(ev())


def hamiltonians(left):
    ns = [node('ham', chs=list(ch), gs=[dict(h=h, a=a, b=1 - a, t=t)]) for ch in pairs(3) for h in ('rot', 'bs', 'ph0', 'ph1') for a in (0, 1) for t in (2, 3, 6)] \
        + [node('wph', a=a, b=b, t=t, p=p) for a, b in pairs(3) for t in (3, 6, 8) for p in (3, 6, 12)] \
        + [node('ham', chs=list(ch), gs=[dict(h='rot', a=0, b=1, t=3), dict(h='ph0', a=0, b=1, t=6), dict(h='bs', a=1, b=2, t=3)]) for ch in itertools.permutations(range(3), 3)] \
        + [node('ham', chs=list(ch), lay=lay, gs=[dict(h=h, a=a, b=1 - a, t=t)]) for ch in ([0, 1], [2, 1]) for h in ('kerr', 'kself', 'anti', 'both', 'hop') for a in (0, 1) for t in (2, 3) for lay in (False, True)] \
        + [node('ham', chs=list(ch), lay=2, gs=[dict(h=h, a=a, b=1 - a, t=2), dict(h=g, a=0, b=1, t=3), dict(h='ph0', a=b, b=1 - b, t=3)]) for ch in ([0, 1], [2, 1]) for h in ('rot', 'ph0') for g in ('rot', 'ph1') for a in (0, 1) for b in (0, 1)] \
        + [node('ham', chs=list(ch), lay=2, gs=[dict(h='rot', a=0, b=1, t=3), dict(h='ph0', a=2, b=1, t=6), dict(h='bs', a=1, b=2, t=3)]) for ch in itertools.permutations(range(3), 3)] \
        + [node('ham', chs=list(ch), gs=[dict(h='split', a=0, b=1, c=2, t=2), dict(h='kerr', a=0, b=1, t=3), dict(h='hop', a=a, b=2, t=3)]) for ch in itertools.permutations(range(3), 3) for a in (0, 1)]
    return one(circ(3, 3, 1, left)) + [ns] + one(coll()) + state(1, 1, [([1, 1, 0], (1, 0)), ([0, 1, 1], (0, 1)), ([0, 0, 2], (1, 1))], init='A', p=(1, 2), c=[N(3)]) + one(ev())


def controlled(left, some=1):
    vals = [N(0), A(6), A(12), A(16), A(4)]
    ns = [node('cwp', a=a, b=b, ct=ct, cp=cp) for a, b in pairs(3) for ct in (0, 1) for cp in (0, 1)] + [node('cphase', a=a, cp=cp) for a in range(3) for cp in (0, 1)]
    sp = one(circ(3, 3, 2, left)) + [ns[::some]] + one(coll())
    f = [([1, 1, 0], (1, 0)), ([0, 1, 1], (0, 1)), ([0, 0, 2], (1, 1))]
    sp += one(dict(o='state', i=1), comps(["h", 1], f)) + [[dict(o='cls', w=["h", 1], c=[x, y]) for x in vals for y in vals[:4]]] + one(dict(o='add', i=1, w=["h", 1], id='p'))
    return sp + state(2, 1, f[:2], init='B', c=[A(8), A(18)]) + one(ev(), node('set', ch=[0, 1], vals=[A(6), A(12)]), ev(ix=[1, 0]))


def invalid_nodes(NO, NC):
    """every node with channels from one below to one above the circuit's"""
    oc = list(range(-1, NO + 1))
    cc = list(range(-1, NC + 1))
    ns = []
    for a, b in itertools.product(oc, repeat=2):
        for k in ('hwp45', 'hwp225', 'qwp45', 'qwp225', 'swap', 'mix50'):
            ns.append(node(k, a=a, b=b))
        ns += [node('wp', a=a, b=b, t=6, p=6), node('hwp', a=a, b=b, t=4), node('qwp', a=a, b=b, t=8), node('wph', a=a, b=b, t=6, p=6),
               node('mixg', a=a, b=b, r=1, t=2, bad=False), node('mixg', a=a, b=b, r=1, t=2, bad=True),
               node('cshift', ctl=[a], tg=[b]), node('cshiftd', ctl=[a], tg=[b]), node('coupl', ctl=[a], tg=[b], w=1, d=2),
               node('ham', chs=[a, b], gs=[dict(h='rot', a=0, b=1, t=3)])]
        for ct, cp in itertools.product(cc, repeat=2):
            if (a, b) in ((0, 1), (1, 0), (-1, 1), (NO, 0)) or (ct, cp) == (0, 0):
                ns.append(node('cwp', a=a, b=b, ct=ct, cp=cp))
                ns.append(node('cwph', a=a, b=b, ct=ct, cp=cp))
        for k in cc:
            ns.append(node('meas', oc=[a, b], cc=[0, k]))
        ns.append(node('meas', oc=[a, b], cc=[0]))
        ns.append(node('shift', tg=[a, b], sh=[1, 1]))
        ns.append(node('shiftd', tg=[a, b], sh=[1, 1]))
        ns.append(node('shift', tg=[a], sh=[1, b]))
        ns.append(node('shiftd', tg=[a], sh=[1, b]))
        ns.append(node('cshift', ctl=[a, b], tg=[b]))
        ns.append(node('cshiftd', ctl=[a, b], tg=[b]))
        ns.append(node('coupl', ctl=[a], tg=[a, b], w=1, d=2))
    for a in oc:
        ns.append(node('phase', a=a, p=6))
        for k in cc:
            ns.append(node('cphase', a=a, cp=k))
            ns.append(node('meas', oc=[a], cc=[k]))
    for k, k2 in itertools.product(cc, repeat=2):
        ns.append(node('set', ch=[k, k2], vals=[N(1), N(2)]))
        ns.append(node('set', ch=[k], vals=[N(1), N(2)]))
    return one(circ(2, NO, NC), node('phase', a=0, p=6)) + [ns] + one(dict(o='report', what='basis', i=1), coll()) + state(1, 1, [([1] + [0] * (NO - 1), (1, 0)), ([0] * NO, (1, 0))]) + one(ev(ix=[0]))


def invalid_beamsplitters(some=1):
    ch = list(range(-1, 5))
    ns = [node(k, a=[a, b], b=[c, d], r=1, t=1, bad=False) for k in ('npbs50', 'pbs') for a, b, c, d in itertools.product(ch, repeat=4)
          if sum(x in (-1, 4) for x in (a, b, c, d)) <= 1 and len({a, b, c, d}) >= 3]
    return one(circ(2, 4, 0)) + [ns[::some]] + one(dict(o='report', what='basis', i=1))


def invalid_calls(L=2):
    menu = [dict(o='circ', L=L, NO=NO, NC=NC, left=True, tn=1, td=10000, full=False) for L in (-1, 0, 1, 2) for NO in (0, 1, 2) for NC in (0, 1)] \
        + [ev(ix=ix) for ix in ([2], [-1], [0, 5], [5, 0], [1, -1, 0])] \
        + [dict(o='prob', w=["h", 1], num=a, den=b) for a, b in ((-1, 2), (3, 2), (0, 1), (1, 1))] \
        + [dict(o='cls', w=["h", 1], c=[N(1)] * k) for k in (0, 1, 2, 3)] \
        + [dict(o='comps', w=["h", 1], f=[[[0, 0], cint(1)]], N=ring(1), how='list', wrong=x) for x in ('name', 'type', 'dict', 'wide', 'short')] \
        + [dict(o='reduce', i=1, ko=ko, kc=kc, kcall=False) for ko in ([0], [0, 2], [-1, 0], [0, 1]) for kc in ([0], [2], [-1], [])] \
        + [dict(o='extend', i=1, eo=eo, ec=ec, dist=d) for eo in (-1, 1) for ec in (-1, 0) for d in ([], [1], [1, 0, 0])] \
        + [dict(o='adjust', i=1, L=L) for L in (-1, 0, 2)] \
        + [dict(o='mix', i=1, ws=[["h", 1], ["h", 1]], wt=wt, den=2) for wt in ([3, 0], [1, -1], [1, 1])] \
        + [dict(o='badset', w=w, what=x) for w in (["h", 1], ["e", 1, 1]) for x in ('cls', 'rec', 'aux', 'item')] \
        + [sdict(1, wrong=x) for x in ('label', 'ptype', 'comps', 'amp', 'compprob', 'compname')] \
        + [sdict(1, TWO, p=p) for p in ((-1, 2), (3, 2), (0, 1), (1, 1))] + [sdict(1, TWO, c=[N(1)] * k) for k in (0, 1, 2, 3)] \
        + [node('custbad', a=a, b=b, sz=sz) for a, b in ((0, 1), (1, 0)) for sz in ('2x3', '3x2', '3x3', '1x1', 'one', 'three')]
    return one(circ(L, 2, 2), node('mix50', a=0, b=1), node('meas', oc=[0], cc=[1]), coll()) + state(1, 1, TWO, init='A', p=(1, 2), c=[N(3), N(4)], id='p') + [menu] + [[ev(), dict(o='density', i=1)]]


def products(left, some=1):
    vs = [TWO, [([0, 1], (1, 0))], [([1, 0], (0, 1)), ([0, 1], (1, -1))], [([1, 1], (-1, 2)), ([0, 0], (1, 0))]]
    sp = one(circ(2, 2, 0, left), coll())
    for k in (1, 2):
        sp += one(dict(o='state', i=1)) + [[comps(["h", k], v, how) for v in vs for how in ('list', 'dict', 'vector')][k % some::some]] + one(dict(o='add', i=1, w=["h", k], id=''))
    return sp + [[dict(o=o, w=["h", a], u=["h", b]) for o in ('inner', 'outer', 'tensor') for a, b in ((1, 2), (2, 1))]]


def distributions(left, some=1):
    obs = [dict(o='histo', i=i, ch=ch) for i in (1, 2) for ch in [[]] + lists(2, 1, 2)] + [dict(o='corr', i=i, pairs=ps) for i in (1, 2) for ps in ([[0, 1]], [[1, 0]], [[0, 1], [1, 0]])] \
        + [dict(o='density', i=i) for i in (1, 2)] + [dict(o='histo', i=2, ch=[1, 0], bars=1), dict(o='corr', i=2, pairs=[[0, 1]], bars=1)]
    nodes = [node(k, a=a, b=b) for k in ('mix50', 'hwp225') for a, b in pairs(3)] + [node('swap', a=0, b=2)]
    return one(circ(3, 3, 2, left)) + [nodes] + [[node('meas', oc=oc, cc=[0, 1]) for oc in lists(3, 2, 2)][::some]] + [[node('set', ch=[1], vals=[N(5)]), node('set', ch=[0], vals=[N(-1)]), node('phase', a=0, p=6)]] + one(coll()) \
        + state(1, 1, [([1, 1, 0], (1, 0)), ([0, 1, 1], (0, 1))], init='A', p=(1, 2)) + state(2, 1, [([0, 2, 0], (1, 0)), ([1, 0, 1], (2, 0))], init='A', p=(1, 4), c=[N(1), N(2)]) \
        + state(3, 1, [([0, 0, 0], (1, 0))], init='B') + one(ev()) + [obs]


def matrices(left, full, some=1):
    ns = optical_nodes(2)[::some]
    return one(circ(3, 2, 0, left, 10000, full)) + [ns] + [ns[::7]] + [[dict(o='matrix', c=1, ix=ix) for ix in ([0], [1], [0, 1], [1, 0], [])]]


def basis(left):
    """the basis in standard order, whatever names were used before"""
    shapes = [(L, NO, 0) for L in (1, 2, 3, 10, 11, 12) for NO in (2, 3) if L ** NO <= 150] + [(2, 4, 1), (2, 5, 0), (3, 4, 0), (2, 6, 0)]
    sp = [[circ(*sh, left) for sh in shapes]]
    sp += one(coll()) + one(dict(o='state', i=1))
    sp += [[dict(o='report', what='cstr', i=1), comps(["h", 1], [([0, 0], (1, 0)), ([1, 0], (0, 1))]), comps(["h", 1], [([0, 9], (1, 0)), ([9, 1], (0, 1))]), comps(["h", 1], [([0, 10], (1, 0)), ([10, 3], (0, 1))])]
           + [dict(o='lookup', w=["c", 1], n=n, by=by) for n, by in (([1, 1], 'short'), ([-1, 0], 'values'), ([1, 0, 1], 'odd'), ([0, 11], 'in'), ([1, 1], 'items'))]]
    sp += [[node('phase', a=1, p=6), node('swap', a=1, b=0), node('cshift', ctl=[0], tg=[1])]]
    sp += [[dict(o='lookup', w=["k", 1], n=n, by=by) for n, by in (([1, 1], 'values'), ([10, 1], 'index'))]]
    return sp + one(dict(o='report', what='basis', i=1), ev(), dict(o='report', what='basis', i=1), coll(empty=False), ev(i=3))


def groups(left):
    """several states: result for each alone, in any order of nodes, repeated nodes"""
    ns = [node('mix50', a=1, b=0), node('meas', oc=[0], cc=[1]), node('set', ch=[1], vals=[N(2)]), node('cphase', a=1, cp=0), node('cshift', ctl=[0], tg=[1]), node('cfun', f='rev', ch=[0, 1], par=[1, 2])]
    sp = one(circ(2, 2, 2, left)) + [ns, ns] + one(coll())
    sp += state(1, 1, TWO, init='A', c=[A(6), N(1)], p=(1, 2)) + state(2, 1, TWO[:2], init='B', c=[A(8), N(0)]) + state(3, 1, [([0, 1], (1, 0))], init='A', c=[N(1), N(1)], p=(1, 4))
    return sp + [[ev(), ev(ix=[0]), ev(ix=[1, 0]), ev(ix=[1, 0, 1]), ev(ix=[0, 0])]] + [[ev(), ev(i=2, ix=[1]), ev(ix=[0, 1]), dict(o='del', i=1, by='pos', k=2, s='')]] + one(ev(ix=[1]))


def records(depth):
    """a measurement, then everything that may touch the record, then another one"""
    base = one(circ(2, 3, 2), node('meas', oc=[0], cc=[0]), node('meas', oc=[1, 2], cc=[1, 0]), node('set', ch=[0], vals=[N(5)]), node('cfun', f='inplace', ch=[1], par=[3]), coll())
    base += state(1, 1, [([1, 1, 0], (1, 0)), ([0, 1, 1], (0, 1)), ([0, 0, 1], (1, 1))], init='A', p=(1, 2), c=[N(2), N(3)], id='p')
    menu = [ev(i=2, ix=ix) for ix in ([0], [1], [2], [3], [2, 0], [3, 1])] + [dict(o='cls', w=["e", 2, 1], c=[N(7), N(8)]), dict(o='pokecls', w=["e", 2, 1], k=6), dict(o='copy', i=2, empty=False),
            dict(o='scopy', w=["e", 2, 2]), dict(o='reduce', i=2, ko=[1, 0], kc=[1], kcall=False), dict(o='reduce', i=2, ko=[2, 0, 1], kc=[], kcall=True), dict(o='extend', i=2, eo=1, ec=1, dist=[]),
            dict(o='adjust', i=2, L=3), clean(2), dict(o='report', what='str', i=2), dict(o='mix', i=2, ws=[["e", 2, 1], ["e", 2, 2]], wt=[1, 2], den=3),
            dict(o='init', w=["e", 2, 1], s='zz'), dict(o='prob', w=["e", 2, 1], num=1, den=4)]
    after = [ev(i=2, ix=[0]), ev(i=2, ix=[2, 1]), ev(i=3, ix=[1]), dict(o='pokerec', w=["e", 2, 1], k=9), dict(o='pokecls', w=["e", 2, 1], k=9), dict(o='pokerec', w=["e", 3, 1], k=4)]
    return base + one(ev(ix=[0])) + [menu] * depth + [after]


def reports(left):
    rep = [dict(o='report', what=w, i=1) for w in ('str', 'repr', 'plot', 'cstr', 'draw', 'basis')] + [dict(o='histo', i=1, ch=[]), dict(o='histo', i=2, ch=[1, 0]), dict(o='corr', i=2, pairs=[[0, 1]]),
           dict(o='density', i=1), dict(o='density', i=2), dict(o='matrix', c=1, ix=[0]), dict(o='report', what='plot', i=2), dict(o='report', what='str', i=2)]
    return one(circ(2, 2, 2, left), node('mix50', a=1, b=0), node('meas', oc=[1, 0], cc=[0, 1]), node('set', ch=[0], vals=[N(1)]), coll()) \
        + state(1, 1, TWO, init='A', c=[N(1), N(0)], p=(1, 2)) + state(2, 1, TWO[:2], init='B', c=[N(0), N(0)]) + one(ev()) + [rep, rep[:6]] + one(ev())


def defaults():
    shapes = [(L, NO, NC) for L in (1, 2, 3, 4) for NO in (2, 3) for NC in (0, 2) if L ** NO <= 27] + [(2, 4, 1), (10, 2, 0), (11, 2, 1)]
    return [[circ(*sh, left) for sh in shapes for left in (True, False)]] + one(coll(empty=False)) + [[dict(o='clear', i=1), dict(o='get', i=1, by='init', k=1, s='00'), dict(o='copy', i=1, empty=True)]] + one(dict(o='default', i=1))


def small(n):
    """components and states around the threshold"""
    vs = [[([0, 1], (1000, 0)), ([1, 0], (1, 0))], [([0, 1], (50, 0)), ([1, 0], (0, 1))], [([0, 1], (1, 0))], [([0, 1], (1000, 0)), ([1, 1], (9, 0)), ([1, 0], (0, 12))]]
    sp = [[circ(2, 2, 1, True, td) for td in (10000, 1000)]] + one(coll())
    for k in range(1, n + 1):
        sp += one(dict(o='state', i=1)) + [[comps(["h", k], v) for v in vs]] + one(dict(o='init', w=["h", k], s='A')) \
            + [[dict(o='prob', w=["h", k], num=1, den=d) for d in (2, 2000, 20000)][:3 if k < 3 else 1]] + one(dict(o='add', i=1, w=["h", k], id=''))
    return sp + one(clean(1))


def compounds(left):
    """members used alone, extended and refreshed between evaluations of the compound"""
    acts = [node('mix50', c=1, a=0, b=1), node('meas', c=2, oc=[1], cc=[0]), node('set', c=1, ch=[0], vals=[N(6)]), dict(o='refresh', k=1), ev(c=1), ev(c=2, i=1), dict(o='ceval', k=1, i=1),
            dict(o='report', what='draw', i=1), dict(o='matrix', c=1, ix=[0]), dict(o='cedit', k=1, m=[2, 1], way='list'), dict(o='cclear', k=1), dict(o='cedit', k=1, m=[2], way='place')]
    return one(circ(2, 2, 1, left), circ(2, 2, 1, left), node('hwp225', c=1, a=0, b=1), node('phase', c=2, a=1, p=6)) + [[dict(o='comp', m=m) for m in ([1, 2], [2, 1], [1], [1, 1, 2], [2, 1, 2, 1])]] + one(coll()) \
        + state(1, 1, TWO, init='A', p=(1, 2), c=[N(3)]) + [acts, acts[:5], acts[3:8]] + one(dict(o='ceval', k=1, i=1), ev(c=1), ev(c=2))


def compound_lists(left):
    """lists of circuits changed by their owner, two compounds next to each other"""
    mk = [dict(o='comp', m=m) for m in ([], [1], [2, 1])]
    acts = [[dict(o='cedit', k=k, m=m, way=way) for m, way in (([1], 'append'), ([1, 2], 'append'), ([2, 1, 2], 'append'), ([2], 'place'), ([1, 2], 'list'), ([], 'place'))] + [dict(o=o, k=k) for o in ('cclear', 'refresh')] for k in (1, 2)]
    return one(circ(2, 2, 1, left), circ(2, 2, 1, left), node('hwp225', c=1, a=0, b=1), node('phase', c=2, a=1, p=6), node('meas', c=2, oc=[1], cc=[0])) + [mk, mk] + one(coll()) \
        + state(1, 1, TWO, init='A', p=(1, 2), c=[N(3)]) + acts + [[dict(o='ceval', k=k, i=1) for k in (1, 2)]] + one(dict(o='refresh', k=1), dict(o='refresh', k=2), dict(o='ceval', k=1, i=1), dict(o='ceval', k=2, i=1))


def vectors(left):
    shapes = [(2, 2, 0), (3, 2, 0), (2, 3, 0), (11, 2, 0)]
    f2 = [[([0, 1], (1, 0)), ([0, 1], (1, 0)), ([1, 0], (0, 2))], [([1, 1], (1, 0)), ([1, 1], (-1, 0)), ([0, 0], (3, 4))], [([1, 0], (100, 0)), ([0, 1], (0, 1))], [([1, 0], (30, 40)), ([0, 1], (-1, 2)), ([1, 1], (7, -9))]]
    return [[circ(*sh, left) for sh in shapes]] + one(coll(), dict(o='state', i=1)) + [[comps(["h", 1], f, how) for f in f2 + [[(n + [0], q) for n, q in f] for f in f2] for how in ('list', 'dict', 'vector') if how != 'dict' or f[0][0] != f[1][0]]] \
        + [[dict(o='scopy', w=["h", 1]), dict(o='screate', w=["h", 1]), sdict(1, [([0, 0], (1, 1)), ([1, 0], (1, 0))]), sdict(1, [([0, 0, 1], (1, 0))])]] + one(dict(o='photons', w=["h", 1])) + [[dict(o='inner', w=["h", 1], u=["h", 2]), dict(o='outer', w=["h", 1], u=["h", 1])]]


def every_node(NO=3, NC=2):
    """one node of every kind and every role of channels"""
    ns = optical_nodes(NO)[::3] + [node('meas', oc=[2, 0], cc=[1, 0]), node('meas', oc=[1], cc=[1]), node('set', ch=[1, 0], vals=[N(1), N(2)]), node('cfun', f='add', ch=[1], par=[2]),
          node('cwp', a=2, b=0, ct=1, cp=0), node('cphase', a=1, cp=1), node('cwph', a=2, b=0, ct=1, cp=0), node('wph', a=1, b=0, t=6, p=6), node('ham', chs=[2, 0], gs=[dict(h='rot', a=0, b=1, t=3)]),
          node('shift', tg=[1, 2], sh=[1, 1]), node('shiftd', tg=[0], sh=[1]), node('cshift', ctl=[0, 1], tg=[2, 0]), node('cshiftd', ctl=[2], tg=[0]), node('coupl', ctl=[1], tg=[2], w=1, d=2),
          node('gen', f='ident', ch=[], par=[], s='')]
    return ns


def sketches(left, n=3, some=1):
    """circuits of n nodes, beamsplitters drawn as one among them, on lines of one, two, three and ten nodes, and for stations"""
    kinds = [node('npbs50', a=[0, 1], b=[2, 3], r=1, t=1, bad=False), node('npbs', a=[3, 0], b=[1, 2], r=1, t=2, bad=False), node('phase', a=1, p=6), node('swap', a=3, b=2), node('meas', oc=[0, 2], cc=[0, 1]), node('cfun', f='rev', ch=[0], par=[2], bare=True)][::some]
    st = [dict(o=[2, 0], c=[]), dict(o=[1, 3], c=[0])]
    pics = [dict(o='sketch', what='circ', i=1, st=s, sd=sd, list=True, npl=npl, lab=0) for s, npl, sd in (([], 1, []), ([], 2, []), ([], 3, []), ([], 0, []), (st, 2, []), (st[:1], 0, []), (st, 0, [2]))]
    return one(circ(2, 4, 2, left)) + [[dict(k, n=dict(k['n'], tag=j + 1)) for k in kinds] for j in range(n)] + [pics]


def sketched_bridges(left, n=2):
    """a chain of circuits of n nodes each, as bridge or as compound"""
    kinds = [node('npbs50', a=[0, 1], b=[2, 3], r=1, t=1, bad=False), node('phase', a=1, p=6), node('cfun', f='rev', ch=[0], par=[2], bare=True)]
    st = [dict(o=[2, 0], c=[]), dict(o=[1, 3], c=[0])]
    q = [[dict(k, c=c, n=dict(k['n'], tag=4 * c + j)) for k in kinds] for c in (1, 2) for j in range(n)]
    join = [node('bridge', c=1, next=2), dict(o='comp', m=[1, 2])]
    return one(circ(2, 4, 1, left), circ(2, 4, 2, left)) + q + [join] + [[dict(o='sketch', what=w, i=1, st=s, sd=[], npl=npl, lab=0) for w in ('circ', 'comp') for s, npl in (([], 2), ([], 3), (st, 2))]]


def drawings(left, some=9):
    ns = every_node()
    rep = [dict(o='report', what=w, i=1) for w in ('draw', 'station', 'cstr', 'kdraw', 'kstr', 'kstation')]
    return one(circ(3, 3, 2, left), circ(3, 3, 2, left), node('phase', a=0, p=6), node('meas', c=2, oc=[0, 1, 2][:2], cc=[1, 0])) + [ns] + [ns[::some]] + one(dict(o='comp', m=[1, 2]), coll()) \
        + state(1, 1, THREE[:2], init='A', c=[A(6), N(0)], p=(1, 2)) + [rep] + one(ev(), dict(o='ceval', k=1, i=1))
