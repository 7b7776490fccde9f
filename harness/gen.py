"""Random scenarios (sequences of library calls) for the specification Trace.tla.

A scenario is a list of dicts, one per call, with the argument encoding of FSC.tla.
The generator keeps a rough shadow of shapes so that most calls make sense; what a
call means is decided by the specification alone."""
import math
import random

R1 = [1, 0, 0, 0]
Z = [0, 0, 0, 0]


def ring(a, b=0, c=0, d=0):
    return [a, b, c, d]


def cint(re, im=0):
    return [ring(re), ring(im)]


def pick(rng, weights):
    ks = sorted(weights)
    return rng.choices(ks, [weights[k] for k in ks])[0]


OPTICAL = {'wp': 3, 'hwp': 2, 'hwp45': 1, 'hwp225': 2, 'qwp': 2, 'qwp45': 1, 'qwp225': 1, 'phase': 3, 'swap': 2,
           'mix50': 3, 'mixg': 2, 'npbs': 1, 'npbs50': 1, 'pbs': 1, 'custopt': 1}


class Gen:
    def __init__(self, rng, profile):
        self.rng = rng
        self.pr = profile
        self.ops = []
        self.circs = []   # dict L NO NC left tn td nodes(list of kinds)
        self.colls = []   # dict shape + n estimate
        self.nh = 0
        self.hshape = []
        self.comps, self.active = [], []
        self.fresh = 0

    # ------------------------------------------------------------------ helpers
    def emit(self, o, **kw):
        self.ops.append(dict(o=o, **kw))

    def opt(self, name, default):
        return self.pr.get(name, default)

    def chan(self, n):
        return self.rng.randrange(n)

    def chans(self, n, k):
        return self.rng.sample(range(n), k)

    # ------------------------------------------------------------------ circuits
    def new_circuit(self, like=None, shape=None):
        rng = self.rng
        if shape is None:
            shape = rng.choice(self.opt('shapes', [(2, 2, 1), (2, 3, 2), (2, 4, 2), (3, 2, 2), (3, 3, 1), (4, 2, 1), (2, 4, 0), (3, 3, 3), (5, 2, 2), (3, 4, 2)]))
        if like is not None:
            left, td = like['left'], like['td']
        else:
            left = rng.random() < 0.6
            td = rng.choice([10000, 10000, 10000, 1000, 100000])
        c = dict(L=shape[0], NO=shape[1], NC=shape[2], left=left, tn=1, td=td, full=rng.random() < 0.2 and shape[0] <= 4, nodes=[])
        self.emit('circ', **{k: c[k] for k in ('L', 'NO', 'NC', 'left', 'tn', 'td', 'full')})
        self.circs.append(c)
        return len(self.circs)

    def bad_circuit(self):
        rng = self.rng
        L, NO, NC = rng.choice([(0, 2, 1), (2, 1, 1), (2, 0, 0), (-1, 2, 0), (3, 1, 2)])
        self.emit('circ', L=L, NO=NO, NC=NC, left=True, tn=1, td=10000, full=False)

    def invalid_chan(self, n):
        return self.rng.choice([-1, n, n + 1])

    def node(self, ci, kind=None, invalid=False):
        rng = self.rng
        c = self.circs[ci - 1]
        NO, NC, L = c['NO'], c['NC'], c['L']
        kinds = dict(self.opt('nodes', {'opt': 6, 'meas': 2, 'set': 1, 'cfun': 1, 'cphase': 1, 'cwp': 1, 'shift': 1,
                                        'shiftd': 1, 'cshift': 1, 'cshiftd': 1, 'coupl': 1, 'fock': 1, 'gen': 1}))
        if NC == 0:
            for k in ('set', 'cfun', 'cphase', 'cwp', 'meas', 'cwph'):
                kinds.pop(k, None)
        if NO < 2:
            kinds = {'phase': 1}
        if not kinds:
            kinds = {'opt': 1}
        k = kind or pick(rng, kinds)
        if k == 'opt':
            ok = dict(self.opt('optical', OPTICAL))
            if NO < 4:
                for q in ('npbs', 'npbs50', 'pbs'):
                    ok.pop(q, None)
            k = pick(rng, ok)
        n = dict(k=k)
        if k in ('wp', 'hwp', 'hwp45', 'hwp225', 'qwp', 'qwp45', 'qwp225', 'swap', 'mix50', 'mixg', 'custopt', 'wph', 'cwp', 'cwph'):
            n['a'], n['b'] = self.chans(NO, 2)
            if k in ('wp', 'wph'):
                simple = rng.random() < self.opt('simple_angles', 0.6)
                n['t'] = rng.choice([0, 3, 6, 9, 12, 4, 8] if simple else list(range(0, 24)))
                n['p'] = rng.choice([0, 6, 12, 18, 4, 8] if simple else list(range(0, 24)))
                if k == 'wph':
                    n['p'] = min(n['p'], 12)
            if k in ('hwp', 'qwp'):
                n['t'] = rng.choice([0, 3, 6, 9, 12, 4, 8, 16, 20] + list(range(24)))
            if k == 'mixg':
                n['r'], n['t'] = rng.choice([(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 0), (0, 1), (2, 4), (3, 6), (1, 8), (4, 2), (8, 1)])
                n['bad'] = False
            if k == 'custopt':
                n['m'], n['s'] = rng.choice(CUSTOM_OPT)
                if invalid and rng.random() < 0.6:
                    n = dict(k='custbad', a=n['a'], b=n['b'], sz=rng.choice(['2x3', '3x2', '3x3', '1x1', 'one', 'three']))
                    invalid = None
            if k in ('cwp', 'cwph'):
                n['ct'], n['cp'] = self.chan(NC), self.chan(NC)
            if k == 'custopt' and invalid is None:
                invalid = True
            elif invalid:
                how = rng.randrange(3)
                if k == 'mixg' and how == 0:
                    n['bad'] = True
                elif k in ('cwp', 'cwph') and how == 0:
                    n[rng.choice(['ct', 'cp'])] = self.invalid_chan(NC)
                elif how == 1:
                    n['b'] = n['a']
                else:
                    n[rng.choice('ab')] = self.invalid_chan(NO)
        elif k in ('npbs', 'npbs50', 'pbs'):
            n['a'], n['b'] = [], []
            if NO < 4:        # too few channels: such a circuit refuses every beamsplitter with two modes
                q = [0, 1, 1, 0]
            elif rng.random() < 0.7:
                q = self.chans(NO, 4)
            else:
                q = list(range(4)) if rng.random() < 0.5 else self.chans(NO, 4)
            n['a'], n['b'] = [q[0], q[1]], [q[2], q[3]]
            n['r'], n['t'] = rng.choice([(1, 1), (1, 2), (3, 1), (2, 1), (1, 0), (0, 1)]) if k == 'npbs' else (1, 1)
            n['bad'] = False
            if invalid:
                how = rng.randrange(3)
                if k == 'npbs' and how == 0:
                    n['bad'] = True
                elif how == 1:
                    i = rng.randrange(2)
                    n['b'][i] = n['a'][i]
                else:
                    n[rng.choice('ab')][rng.randrange(2)] = self.invalid_chan(NO)
        elif k == 'phase':
            n['a'] = self.chan(NO) if not invalid else self.invalid_chan(NO)
            n['p'] = rng.choice(list(range(1, 24)) if rng.random() < 0.5 else [3, 6, 12, 18, 8, 4])
        elif k == 'cphase':
            n['a'], n['cp'] = self.chan(NO), self.chan(NC)
            if invalid:
                if rng.random() < 0.5:
                    n['a'] = self.invalid_chan(NO)
                else:
                    n['cp'] = self.invalid_chan(NC)
        elif k == 'set':
            ch = self.chans(NC, rng.randint(1, NC))
            if len(ch) > 1 and rng.random() < 0.1:
                ch[-1] = ch[0]
            n['ch'], n['vals'] = ch, [self.cval() for _ in ch]
            if invalid:
                if rng.random() < 0.5:
                    n['vals'] = n['vals'] + [["n", 1]]
                else:
                    n['ch'][rng.randrange(len(ch))] = self.invalid_chan(NC)
        elif k == 'cfun':
            n['f'] = rng.choice(['add', 'rev', 'copyto', 'inplace', 'notlist'])
            n['ch'] = [self.chan(NC), self.chan(NC)]
            if n['f'] == 'add':
                n['ch'] = self.chans(NC, rng.randint(1, NC))
            n['par'] = [rng.randint(1, 3) for _ in n['ch']]
            if n['f'] == 'rev' and rng.random() < 0.5:
                n['bare'] = True
        elif k == 'meas':
            m = rng.randint(1, min(NO, NC, self.opt('max_measured', 3)))
            n['oc'], n['cc'] = self.chans(NO, m), self.chans(NC, m)
            if m > 1 and rng.random() < 0.12:
                x = n[rng.choice(['oc', 'cc'])]
                x[rng.randrange(1, m)] = x[0]
            if invalid:
                how = rng.randrange(3)
                if how == 0:
                    n['oc'][rng.randrange(m)] = self.invalid_chan(NO)
                elif how == 1:
                    n['cc'][rng.randrange(m)] = self.invalid_chan(NC)
                else:
                    n['cc'] = n['cc'] + [0]
        elif k in ('shift', 'shiftd'):
            m = rng.randint(1, min(NO, 3))
            n['tg'], n['sh'] = self.chans(NO, m), [rng.randint(0, L + 1) for _ in range(m)]
            if m > 1 and rng.random() < 0.2:
                n['tg'][1] = n['tg'][0]
            if k == 'shiftd' and rng.random() < 0.3:
                n['sh'][0] = -rng.randint(1, L)
            if invalid:
                if rng.random() < 0.5:
                    n['tg'][rng.randrange(m)] = self.invalid_chan(NO)
                else:
                    n['sh'] = n['sh'] + [1]
        elif k in ('cshift', 'cshiftd', 'coupl'):
            m = rng.randint(1, min(NO, 3)) if k != 'coupl' else rng.choice([1, 1, 2])
            n['ctl'], n['tg'] = [], []
            for _ in range(m):
                a, b = self.chans(NO, 2)
                n['ctl'].append(a)
                n['tg'].append(b)
            if rng.random() < 0.15:
                n['int'] = True
            if k == 'coupl':
                n['w'], n['d'] = rng.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 3), (2, 3)])
            if invalid:
                how = rng.randrange(3)
                if how == 0:
                    n[rng.choice(['ctl', 'tg'])][rng.randrange(m)] = self.invalid_chan(NO)
                elif how == 1:
                    n['tg'] = n['tg'] + [0]
                else:
                    n['tg'][0] = n['ctl'][0]
        elif k == 'fock':
            n.update(self.fock_matrix(c))
        elif k == 'ham':
            n.update(self.hams(NO))
            if invalid:
                if rng.random() < 0.5:
                    n['chs'][1] = n['chs'][0]
                else:
                    n['chs'][0] = self.invalid_chan(NO)
        elif k == 'gen':
            n['f'] = rng.choice(['ident', 'half', 'keepinit'] + (['setc'] if NC else []))
            n['ch'], n['par'] = [self.chan(NC)] if NC else [], [rng.randint(1, 4)]
            n['s'] = rng.choice(self.labels(c))
        elif k == 'bridge':
            n['next'] = rng.choice([i for i in range(1, len(self.circs) + 1) if i != ci])
        self.emit('node', c=ci, n=n)
        if not invalid:
            c['nodes'] += [k] * (2 if k in ('npbs', 'npbs50') else 1)

    def hams(self, NO):
        rng, n = self.rng, {}
        m = rng.choice([2, 2, 3]) if NO >= 3 else 2
        n['chs'] = self.chans(NO, m)
        n['gs'] = []
        for _ in range(rng.randint(1, 3)):
            a, b = rng.sample(range(m), 2)
            g = dict(h=rng.choice(['rot', 'bs', 'ph0', 'ph1', 'rot', 'bs', 'kerr', 'kself', 'anti', 'both', 'hop'] + ['split', 'split'] * (m == 3)), a=a, b=b, t=rng.choice([2, 3, 3, 4, 6]))
            if m == 3:
                g['c'] = 3 - a - b
            n['gs'].append(g)
        n['lay'] = rng.choice([0, 0, 1, 2])
        return n

    def drawing(self):
        """circuits with tagged nodes, and drawings of them"""
        rng = self.rng
        shapes = [(2, rng.choice([2, 3, 4, 5, 6, 8]), rng.choice([0, 1, 2, 3, 4])) for _ in range(3)]
        same = rng.random() < 0.5
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            self.new_circuit(like=self.circs[0] if self.circs else None, shape=shapes[0] if same else shapes[j])
        tag = 0
        for rnd in range(rng.choice([1, 1, 2])):
            for ci in range(1, len(self.circs) + 1):
                for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12, 22])):
                    tag += 1
                    self.tagged(ci, tag)
            if len(self.circs) > 1 and rng.random() < 0.5:
                m = rng.sample(range(1, len(self.circs) + 1), rng.randint(1, len(self.circs)))
                if rng.random() < 0.25:
                    m.insert(rng.randint(0, len(m)), rng.choice(m))
                if not any('bridge' in self.circs[x - 1]['nodes'] for x in m):
                    self.emit('comp', m=m)
                    self.comps.append(m)
            for _ in range(rng.choice([1, 2, 3])):
                self.sketch()
            if len(self.circs) > 1 and rng.random() < 0.4:
                a, b = rng.sample(range(1, len(self.circs) + 1), 2)
                if 'bridge' not in self.circs[a - 1]['nodes']:
                    self.emit('node', c=a, n=dict(k='bridge', next=b))
                    self.circs[a - 1]['nodes'].append('bridge')
                    self.sketch()
        return self.ops

    def sketch(self):
        rng = self.rng
        comp = self.comps and rng.random() < 0.5
        i = rng.randint(1, len(self.comps)) if comp else rng.randint(1, len(self.circs))
        c = self.circs[self.comps[i - 1][0] - 1] if comp else self.circs[i - 1]
        st = []
        if rng.random() < 0.4:
            o, q = rng.sample(range(c['NO']), c['NO']), rng.sample(range(c['NC']), c['NC'])
            st = [dict(o=[], c=[]) for _ in range(rng.choice([1, 2, 2, 3]))]
            for x in o:
                rng.choice(st)['o'].append(x)
            for x in q:
                rng.choice(st)['c'].append(x)
            st = [s for s in st if s['o'] + s['c']]
            if len(st) > 1 and rng.random() < 0.2:
                st.pop()
        self.emit('sketch', what='comp' if comp else 'circ', i=i, st=st, sd=rng.choice([[], [], rng.sample(range(1, len(st) + 1), rng.randint(1, len(st)))]) if st else [], list=rng.random() < 0.5, npl=rng.choice([0, 0, 0, 2, 3, 5, 20]), lab=rng.choice([0, 0, 8]))

    def tagged(self, ci, tag):
        rng, c = self.rng, self.circs[ci - 1]
        if rng.random() < 0.12:
            k = rng.choice(['delay', 'cdelay', 'width', 'pairs', 'boxes', 'gen'])
            if k in ('pairs', 'boxes') and c['NO'] < 4 or k == 'cdelay' and not c['NC']:
                k = 'width'
            chs = self.chans(c['NO'], rng.randint(1, c['NO'])) if k not in ('pairs', 'boxes') else self.chans(c['NO'], 4 * rng.randint(1, c['NO'] // 4))
            n = dict(k=k, chs=chs, quick=rng.random() < 0.5)
            if k == 'cdelay':
                n['cp'] = self.chan(c['NC'])
            if k == 'gen':
                n.update(f='ident', ch=[], par=[], s='', own=rng.random() < 0.7, ao=chs, ac=self.chans(c['NC'], rng.randint(0, c['NC'])))
            self.emit('node', c=ci, n=n)
        else:
            self.pr = dict(self.pr, nodes={'opt': 8, 'meas': 2, 'set': 1, 'cfun': 1, 'cphase': 1, 'cwp': 1, 'wph': 0.5, 'cwph': 0.5, 'ham': 1, 'shift': 1, 'shiftd': 1, 'cshift': 0.6 if c['NO'] < 6 else 0, 'cshiftd': 1, 'coupl': 0.4 if c['NO'] < 5 else 0, 'fock': 0.3 if c['NO'] < 5 else 0}, invalid=0)
            self.node(ci)
        self.ops[-1]['n']['tag'] = tag
        if self.ops[-1]['n']['k'] == 'gen':
            self.ops[-1]['n'].setdefault('own', False)

    def many(self):
        """many photons in few channels: a circuit, a state and a measurement of their own"""
        rng = self.rng
        total = rng.choice([4, 5, 5, 6, 6, 7, 8, 9])
        NO = rng.choice([2, 2, 3, 4]) if total < 7 else rng.choice([2, 2, 3])
        L = total + rng.choice([1, 1, 2, 3]) if rng.random() < 0.7 else rng.randint(max(3, total // NO + 1), total)
        crowd = rng.random() < 0.25
        if crowd:
            # ten photons and more: in nodes that do not mix them, or where they pass through
            total, NO, L = rng.choice([10, 11, 12, 13]), 2, rng.choice([7, 8, 9, 11])
        while L ** NO > 800:
            L -= 1
        q = dict(L=L, NO=NO, NC=0, nodes=[], left=rng.random() < 0.5)
        keep, self.ops, self.circs = (self.ops, self.circs), [], [q]
        for _ in range(rng.choice([1, 1, 2, 3])):
            ok = dict(self.opt('optical', OPTICAL))
            if NO < 4:
                for x in ('npbs', 'npbs50', 'pbs'):
                    ok.pop(x, None)
            if crowd and (L > total or rng.random() < 0.5):
                ok = {'phase': 2, 'swap': 1, 'mix50': 0.5}
            self.node(1, kind=pick(rng, ok))
        nodes = [op['n'] for op in self.ops]
        self.ops, self.circs = keep
        occs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = [0] * NO
            for _ in range(total - (rng.random() < 0.2) if not occs or rng.random() < 0.6 else rng.randint(0, min(3, total))):
                free = [k for k in range(NO) if n[k] < L - 1]
                if free:
                    n[rng.choice(free)] += 1
            if n not in occs:
                occs.append(n)
        # integers that give all components a norm of the same order
        size = [math.prod(math.factorial(x) for x in n) for n in occs]
        weights = [math.isqrt(max(size) // x) for x in size]
        oc = self.chans(NO, rng.randint(1, NO)) if rng.random() < 0.4 else []
        self.emit('many', L=L, NO=NO, left=q['left'], full=rng.random() < 0.3, nodes=nodes, oc=oc,
                  f=[[n, cint(*[x * w for x in rng.choice([(1, 0), (0, 1), (1, -1), (-1, 0)])])] for n, w in zip(occs, weights)])

    def fock_matrix(self, c):
        rng = self.rng
        NO, L = c['NO'], c['L']
        occ = lambda: [rng.randrange(min(L, 3)) for _ in range(NO)]
        x, y = occ(), occ()
        while y == x:
            y = occ()
        kind = rng.randrange(4)
        if kind == 0:    # phases
            ent = [[x, x, cint(0, 1)], [y, y, cint(-1)]]
            return dict(ent=ent, s=ring(1), idrest=True)
        if kind == 1:    # rotation of two levels, columns are inputs
            ent = [[x, x, cint(1)], [y, x, cint(1)], [x, y, cint(-1)], [y, y, cint(1)]]
            return dict(ent=ent, s=ring(0, 1), idrest=True)
        if kind == 2:    # one-way permutation
            z = occ()
            ent = [[y, x, cint(1)], [x, y, cint(0, -1)]]
            return dict(ent=ent, s=ring(1), idrest=True)
        ent = [[x, x, cint(3)], [y, x, cint(0, 4)], [x, y, cint(4)], [y, y, cint(0, -3)]]
        return dict(ent=ent, s=ring(5), idrest=True)

    def cval(self):
        rng = self.rng
        if rng.random() < self.opt('angles', 0.4):
            return ["a", 2 * rng.randint(1, 11)] if rng.random() < 0.8 else ["a", rng.randint(1, 23)]
        return ["n", rng.randint(0, self.opt('max_value', 4))]

    # ------------------------------------------------------------------ states
    def new_coll(self, ci, empty=None):
        c = self.circs[ci - 1]
        if empty is None:
            empty = c['L'] ** c['NO'] > self.opt('max_default', 16) or self.rng.random() < 0.5
        self.emit('coll', c=ci, empty=empty)
        self.colls.append(dict(L=c['L'], NO=c['NO'], NC=c['NC'], left=c['left'], td=c['td'], n=0 if empty else c['L'] ** c['NO'], inits=[] if empty else self.names(c)))
        return len(self.colls)

    def name(self, n, c):
        w = len(str(c['L'] - 1))
        ds = [str(k).zfill(w) for k in n]
        return ''.join(ds if c['left'] else ds[::-1])

    def names(self, c):
        return [self.name(self.occ_of(i, c), c) for i in range(min(c['L'] ** c['NO'], 30))]

    def labels(self, c):
        """initial state labels worth naming: those in use for this shape"""
        used = [s for q in self.colls if q['NO'] == c['NO'] and q['L'] == c['L'] for s in q['inits']]
        return sorted(set(used)) or self.names(c)

    def occ_of(self, i, c):
        return [(i // c['L'] ** k) % c['L'] for k in range(c['NO'])]

    def occ(self, c, maxph):
        rng = self.rng
        if c['L'] > 10 and rng.random() < 0.3:
            n = [0] * c['NO']
            n[rng.randrange(c['NO'])] = rng.randint(9, c['L'] - 1)
            n[rng.randrange(c['NO'])] += 0 if max(n) == c['L'] - 1 else 1
            return n
        for _ in range(20):
            n = [rng.randrange(min(c['L'], maxph + 1)) for _ in range(c['NO'])]
            if sum(n) <= maxph:
                return n
        return [0] * c['NO']

    def components(self, w, c):
        """a superposition with a handful of components and nice coefficients"""
        rng = self.rng
        k = rng.choice(self.opt('ncomp', [1, 2, 2, 3, 4]))
        maxph = rng.choice(self.opt('maxphotons', [2, 3, 3, 4]))
        fixed = rng.random() < self.opt('fixed_number', 0.4)
        occs = []
        base = self.occ(c, maxph)
        occs.append(base)
        for _ in range(40):
            if len(occs) >= k:
                break
            n = self.occ(c, maxph)
            if fixed and rng.random() < 0.9:
                n = base[:]
                rng.shuffle(n)
                if n in occs:
                    fixed = False
            if n not in occs:
                occs.append(n)
        cs = [rng.choice([(1, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (2, 0), (0, 2), (2, 1), (-1, 2), (3, 0)]) for _ in occs]
        if rng.random() < 0.3:
            cs = [(1, 0)] * len(occs)
        how = rng.choice(['list', 'dict', 'vector', 'list'])
        f = [[n, cint(*q)] for n, q in zip(occs, cs)]
        N = sum(a * a + b * b for a, b in cs)
        if how == 'list' and rng.random() < 0.25 and len(f) > 1:
            # repeated name: the two parts add up
            n, q = occs[0], cs[0]
            f = f + [[n, cint(-q[0] + 1, -q[1])]]
            N = N - q[0] ** 2 - q[1] ** 2 + 1
        if rng.random() < self.opt('zeros', 0.08):
            # a component with amplitude zero is as good as none
            n = self.occ(c, maxph)
            if n not in occs:
                f.insert(rng.randint(0, len(f)), [n, cint(0)])
        self.emit('comps', w=w, f=f, N=ring(N), how=how, wrong="")

    def bad_components(self, w, c):
        wrong = self.rng.choice(['name', 'type', 'dict', 'wide', 'short'])
        self.emit('comps', w=w, f=[[self.occ(c, 2), cint(1)]], N=ring(1), how='list', wrong=wrong)

    def state(self, i):
        """new state for collection i, prepared and (mostly) added"""
        rng = self.rng
        q = self.colls[i - 1]
        self.emit('state', i=i)
        self.nh += 1
        self.hshape.append(dict(q))
        w = ["h", self.nh]
        if rng.random() < 0.9:
            self.components(w, q)
        if rng.random() < self.opt('label', 0.7):
            s = rng.choice(['A', 'B', 'AB', 'alpha', 'alp', self.names(q)[0]])
            self.emit('init', w=w, s=s)
            lab = s
        else:
            lab = self.names(q)[0]
        if rng.random() < self.opt('weights', 0.5):
            num, den = rng.choice([(1, 2), (1, 4), (1, 3), (1, 8), (3, 8), (1, 5)])
            self.emit('prob', w=w, num=num, den=den)
        if q['NC'] and rng.random() < 0.6:
            self.emit('cls', w=w, c=[self.cval() for _ in range(q['NC'])])
        if rng.random() < self.opt('aux', 0.2):
            self.emit('pokeaux', w=w, k=rng.randint(1, 3))
        self.add(i, w, lab)
        return w

    def state_dict(self, q, bad):
        rng = self.rng
        op = dict(f=[], N=ring(1), s='', num=0, den=0, hasc=False, c=[], wrong='', refused=bad)
        if rng.random() < 0.7:
            occs = []
            for _ in range(rng.randint(1, 3)):
                n = self.occ(q, 3)
                if n not in occs:
                    occs.append(n)
            cs = [rng.choice([(1, 0), (0, 1), (1, -1), (2, 0)]) for _ in occs]
            op.update(f=[[n, cint(*z)] for n, z in zip(occs, cs)], N=ring(sum(a * a + b * b for a, b in cs)))
        if rng.random() < 0.6:
            op['s'] = rng.choice(['A', 'B', 'AB', 'zz'])
        if rng.random() < 0.5:
            op['num'], op['den'] = rng.choice([(1, 2), (1, 3), (0, 1), (1, 1)])
        if rng.random() < 0.5:
            op.update(hasc=True, c=[self.cval() for _ in range(q['NC'])])
        if bad:
            how = rng.randrange(4)
            if how == 0:
                op.update(hasc=True, c=[self.cval() for _ in range(q['NC'] + 1)])
            elif how == 1:
                op.update(num=rng.choice([-1, 5]), den=2)
            else:
                op['wrong'] = rng.choice(['label', 'ptype', 'comps', 'amp', 'compprob', 'compname'])
        return op

    def add(self, i, w, lab=None):
        rng = self.rng
        q = self.colls[i - 1]
        id = '' if rng.random() < 0.4 else rng.choice(['p', 'q', 'r', 'pq', 'x', 'state-1'])
        self.emit('add', i=i, w=w, id=id)
        q['n'] += 1
        if lab:
            q['inits'] = q['inits'] + [lab]

    def prepare(self, ci, n=None):
        rng = self.rng
        i = self.new_coll(ci)
        if self.colls[i - 1]['n'] == 0 or rng.random() < 0.3:
            for _ in range(n or rng.choice(self.opt('nstates', [1, 2, 2, 3]))):
                self.state(i)
        return i

    def ref(self, i=None):
        """address of a state, preferably in collection i"""
        rng = self.rng
        if i is None or (self.nh and rng.random() < 0.4):
            if self.nh and rng.random() < 0.6:
                return ["h", rng.randint(1, self.nh)]
        if i is None:
            i = rng.randint(1, len(self.colls)) if self.colls else 1
        n = self.colls[i - 1]['n'] if self.colls else 1
        return ["e", i, rng.randint(1, max(1, n))]

    def shape_of_ref(self, w):
        return self.hshape[w[1] - 1] if w[0] == 'h' else self.colls[w[1] - 1]

    # ------------------------------------------------------------------ steps
    def eval(self, ci=None, i=None, how=None):
        rng = self.rng
        if ci is None:
            ci = rng.randint(1, len(self.circs))
        c = self.circs[ci - 1]
        if i is None:
            fits = [j + 1 for j, q in enumerate(self.colls) if (q['L'], q['NO'], q['NC'], q['left']) == (c['L'], c['NO'], c['NC'], c['left'])]
            if not fits:
                fits = [self.prepare(ci)]
            i = rng.choice(fits)
            if rng.random() < 0.06 and c['L'] ** c['NO'] <= self.opt('max_default', 16):
                i = 0
        n = len(c['nodes'])
        how = how or rng.random()
        if how < self.opt('eval_all', 0.6):
            self.emit('eval', c=ci, i=i, all=True, ix=[])
        elif how < 0.92 and n:
            ix = [rng.randrange(n) for _ in range(rng.randint(1, n + 1))]
            if rng.random() < 0.6:
                ix = sorted(set(ix))
            self.emit('eval', c=ci, i=i, all=False, ix=ix)
        elif n:
            ix = [rng.randrange(n) for _ in range(rng.randint(1, n))]
            ix[rng.randrange(len(ix))] = rng.choice([-1, n, n + 2])
            self.emit('eval', c=ci, i=i, all=False, ix=ix)
            return
        else:
            self.emit('eval', c=ci, i=i, all=True, ix=[])
        base = self.colls[i - 1] if i else dict(L=c['L'], NO=c['NO'], NC=c['NC'], left=c['left'], td=c['td'], n=c['L'] ** c['NO'], inits=self.names(c))
        out = dict(base)
        last = c
        seen = set()
        while 'bridge' in last['nodes'] and (last is c) and how < self.opt('eval_all', 0.6) and id(last) not in seen:
            seen.add(id(last))
            nxt = [o['n']['next'] for o in self.ops if o['o'] == 'node' and o['c'] == ci and o['n']['k'] == 'bridge'][0]
            last = self.circs[nxt - 1]
        out.update(L=last['L'], NO=last['NO'], NC=last['NC'])
        if 'meas' in c['nodes']:
            out['n'] += 1
        self.colls.append(out)

    def step(self):
        rng = self.rng
        o = pick(rng, self.opt('steps', {'node': 3, 'eval': 4, 'prep': 1, 'state': 1}))
        ci = rng.randint(1, len(self.circs))
        i = rng.randint(1, len(self.colls)) if self.colls else 0
        if o not in ('node', 'eval', 'prep', 'badnode', 'circ', 'badcirc', 'matrix', 'comp', 'refresh', 'ceval', 'cedit', 'cclear', 'many') and not self.colls:
            i = self.prepare(ci)
        q = self.colls[i - 1] if i else None
        if o == 'node':
            if len(self.circs[ci - 1]['nodes']) < self.opt('max_nodes', 6):
                self.node(ci)
        elif o == 'many':
            self.many()
        elif o == 'badnode':
            kinds = ['wp', 'hwp', 'hwp45', 'hwp225', 'qwp', 'qwp45', 'qwp225', 'phase', 'swap', 'mix50', 'mixg', 'custopt', 'wph', 'shift', 'shiftd', 'cshift', 'cshiftd', 'coupl', 'ham']
            kinds += ['npbs', 'npbs50', 'pbs'] * (2 if self.circs[ci - 1]['NO'] >= 4 else 1)
            if self.circs[ci - 1]['NC']:
                kinds += ['meas', 'meas', 'set', 'cphase', 'cwp', 'cwph']
            self.node(ci, kind=rng.choice(kinds), invalid=True)
        elif o == 'circ':
            self.new_circuit(like=self.circs[ci - 1])
        elif o == 'badcirc':
            self.bad_circuit()
        elif o == 'eval':
            self.eval()
        elif o == 'prep':
            self.prepare(ci)
        elif o == 'state':
            self.state(i)
        elif o == 'readd':
            self.add(i, self.ref(i))
        elif o == 'comps':
            w = self.ref(i)
            if rng.random() < self.opt('invalid', 0.1):
                self.bad_components(w, self.shape_of_ref(w))
            else:
                self.components(w, self.shape_of_ref(w))
        elif o == 'cls':
            w = self.ref(i)
            n = self.shape_of_ref(w)['NC'] + (rng.choice([-1, 1]) if rng.random() < self.opt('invalid', 0.1) else 0)
            self.emit('cls', w=w, c=[self.cval() for _ in range(max(0, n))])
        elif o == 'init':
            self.emit('init', w=self.ref(i), s=rng.choice(['A', 'B', 'AB', 'zz', '00']))
        elif o == 'prob':
            num, den = rng.choice([(1, 2), (1, 3), (0, 1), (1, 1), (2, 5), (-1, 4), (5, 4)] if rng.random() < self.opt('invalid', 0.1) * 3 else [(1, 2), (1, 3), (1, 4), (1, 1)])
            self.emit('prob', w=self.ref(i), num=num, den=den)
        elif o in ('pokerec', 'pokecls', 'pokeaux'):
            self.emit(o, w=self.ref(i), k=rng.randint(5, 9))
        elif o == 'pokeamp':
            self.emit(o, w=self.ref(i))
        elif o == 'scopy':
            w = self.ref(i)
            self.emit('scopy', w=w)
            self.nh += 1
            self.hshape.append(dict(self.shape_of_ref(w)))
        elif o in ('get', 'del'):
            by = rng.choice(['pos', 'pos', 'id', 'init'])
            op = dict(i=i, by=by, k=rng.randint(1, max(1, q['n'])), s='')
            if by == 'id':
                op['s'] = rng.choice(['p', 'q', 'r', 'pq', 'nope', 'state-1'])
            if by == 'init':
                op['s'] = rng.choice((q['inits'] or ['A']) + ['nope'])
            self.emit(o, **op)
            if o == 'get':
                self.nh += 1     # approximate: no handle when nothing is found
                self.hshape.append(dict(q))
                if by != 'pos':
                    self.nh -= 1
                    self.hshape.pop()
        elif o == 'filt':
            by = rng.choice(['init', 'init', 'id', 'cls'] if q['NC'] else ['init', 'id'])
            op = dict(i=i, by=by, s=[], ch=[], vals=[])
            if by == 'init':
                op['s'] = [rng.choice((q['inits'] or ['A']) + ['nope']) for _ in range(rng.randint(1, 3))]
            elif by == 'id':
                op['s'] = [rng.choice(['p', 'q', 'r', 'pq', 'x', 'state', 'identifier_00', 'identifier_01']) for _ in range(rng.randint(1, 4))]
            else:
                ch = self.chans(q['NC'], rng.randint(1, min(2, q['NC'])))
                op['ch'], op['vals'] = ch, [["n", rng.randint(0, 2)] for _ in ch]
            self.emit('filt', **op)
        elif o == 'copy':
            e = rng.random() < 0.15
            self.emit('copy', i=i, empty=e)
            self.colls.append(dict(q, n=0 if e else q['n']))
        elif o == 'qop':
            if rng.random() < 0.5:
                self.emit('qop', i=i, w=[], n=dict(self.hams(q['NO']), k='ham'))
                self.colls.append(dict(q))
            else:
                w = self.ref(i)
                sh = self.shape_of_ref(w)
                self.emit('qop', i=0, w=w, n=dict(self.hams(sh['NO']), k='ham'))
                self.nh += 1
                self.hshape.append(dict(sh))
        elif o == 'clear':
            self.emit('clear', i=i)
            q['n'] = 0
        elif o == 'default':
            if q['L'] ** q['NO'] <= self.opt('max_default', 16):
                self.emit('default', i=i)
                q['n'] = q['L'] ** q['NO']
                q['inits'] = self.names(q)
        elif o == 'mix':
            m = rng.randint(1, 4)
            ws = [self.ref(i) for _ in range(m)]
            wt = [rng.randint(0 if rng.random() < 0.2 else 1, 3) for _ in range(m)]
            den = max(1, sum(wt))
            if rng.random() < self.opt('invalid', 0.1):
                wt[0] = den + 1
            self.emit('mix', i=i, ws=ws, wt=wt, den=den)
            if wt[0] <= den:
                q['n'] = m
        elif o == 'reduce':
            bad = rng.random() < self.opt('invalid', 0.1)
            ko = [] if rng.random() < 0.2 else self.chans(q['NO'], rng.randint(2, q['NO']))
            if rng.random() < 0.3:
                ko = sorted(ko)
            kcall = rng.random() < 0.5
            kc = [] if kcall or not q['NC'] else self.chans(q['NC'], rng.randint(0, q['NC']))
            if bad:
                if rng.random() < 0.5:
                    ko = ko + [self.invalid_chan(q['NO'])]
                elif not kcall:
                    kc = kc + [self.invalid_chan(q['NC'])]
            self.emit('reduce', i=i, ko=ko, kc=kc, kcall=kcall)
            if all(0 <= x < q['NO'] for x in ko) and all(0 <= x < q['NC'] for x in kc):
                q['NO'] = len(ko) or q['NO']
                q['NC'] = q['NC'] if kcall else len(kc)
        elif o == 'extend':
            bad = rng.random() < self.opt('invalid', 0.1)
            eo = rng.choice([0, 1, 1, 2]) if q['L'] ** (q['NO'] + 1) <= 81 else 0
            if q['L'] ** (q['NO'] + eo) > 128:
                eo = 1
            ec = rng.choice([0, 1, 2])
            dist = [] if rng.random() < 0.4 else [rng.choice([0, 1, 1, 2, 3]) for _ in range(q['L'])]
            if dist and sum(dist) == 0:
                dist[0] = 1
            if bad:
                if rng.random() < 0.5:
                    dist = dist + [1] if dist else [1]
                else:
                    eo = -1
            self.emit('extend', i=i, eo=eo, ec=ec, dist=dist)
            if eo >= 0 and len(dist) in (0, q['L']):
                q['NO'] += eo
                q['NC'] += ec
                q['n'] *= max(1, len([x for x in dist if x])) ** eo
        elif o == 'adjust':
            L = rng.choice([1, 2, 3, 4, 5, 11, 12]) if q['NO'] <= 2 else rng.choice([1, 2, 3, 4])
            if rng.random() < self.opt('invalid', 0.1):
                L = rng.choice([-1, -3])
            if rng.random() < 0.7:
                L = max(L, q['L'])
            if L ** q['NO'] <= 200:
                self.emit('adjust', i=i, L=L)
                if L >= 1:
                    q['L'] = L
        elif o == 'clean':
            s = '' if rng.random() < 0.6 else rng.choice((q['inits'] or ['A']))
            op = dict(i=i, s=s, pos=0, f=[], N=ring(1))
            if rng.random() < self.opt('unnormalised', 0.2) and q['n']:
                occs = []
                for _ in range(rng.randint(1, 3)):
                    n = self.occ(q, 2)
                    if n not in occs:
                        occs.append(n)
                cs = [rng.choice([(1, 0), (0, 1), (1, -1), (2, 0)]) for _ in occs]
                op.update(pos=rng.randint(1, q['n']), f=[[n, cint(*z)] for n, z in zip(occs, cs)], N=ring(rng.choice([1, 2, 3, 5, 9])))
            self.emit('clean', **op)
        elif o in ('sinit', 'norecs'):
            self.emit(o, w=self.ref(i))
        elif o == 'setaux':
            self.emit(o, w=self.ref(i), k=rng.randint(1, 4))
        elif o == 'badset':
            self.emit(o, w=self.ref(i), what=rng.choice(['cls', 'rec', 'aux', 'item']))
        elif o == 'lookup':
            w, q = (["c", ci], self.circs[ci - 1]) if rng.random() < 0.5 else (["k", i], q)
            n = self.occ(q, rng.choice([2, 30]))
            bad = rng.random()
            if bad < 0.15:
                n = n[:-1] + [-1]
            elif bad < 0.25:
                n = n[1:] + [q['L']]
            elif bad < 0.35:
                n = n + [0]
            elif bad < 0.4:
                n = n[1:]
            self.emit(o, w=w, n=n, by=rng.choice(['name', 'values', 'in', 'index', 'short', 'items', 'odd']))
        elif o == 'photons':
            self.emit(o, w=self.ref(i))
        elif o == 'screate':
            w = self.ref(i)
            self.emit(o, w=w)
            self.nh += 1
            self.hshape.append(dict(self.shape_of_ref(w)))
        elif o == 'dstate':
            self.emit(o, i=i, **self.state_dict(q, rng.random() < self.opt('invalid', 0.1)))
            if not self.ops[-1].pop('refused'):
                self.nh += 1
                self.hshape.append(dict(q))
                if rng.random() < 0.6:
                    self.add(i, ["h", self.nh])
        elif o == 'dcoll':
            es = [[id, self.ref(i), rng.choice(['state', 'dict'])] for id in rng.sample(['p', 'q', 'r', 'pq', 'x'], rng.randint(1, 3))]
            fits = [k + 1 for k, c in enumerate(self.circs) if (c['L'], c['NO'], c['NC'], c['left']) == (q['L'], q['NO'], q['NC'], q['left'])] or [ci]
            self.emit(o, c=rng.choice(fits), es=es)
            self.colls.append(dict(q, n=len(es)))
        elif o == 'fromd':
            es = [[id, self.ref(i), 'state'] for id in rng.sample(['p', 'q', 'r', 'pq', 'x'], rng.randint(0, 3))]
            self.emit(o, i=i, es=es)
            q['n'] = len(es)
        elif o == 'bridge':
            if len(self.circs) < 2 or 'bridge' in self.circs[ci - 1]['nodes']:
                return self.new_circuit(like=self.circs[0])
            self.node(ci, kind='bridge')
        elif o == 'comp':
            k = rng.randint(1, min(3, max(1, len(self.circs))))
            m = [rng.randint(1, len(self.circs)) for _ in range(k)]
            if rng.random() < 0.7:
                m = list(dict.fromkeys(m))
            elif rng.random() < 0.5:
                m += [rng.randint(1, len(self.circs))]
            if any('bridge' in self.circs[x - 1]['nodes'] for x in m):
                return
            if rng.random() < 0.25:
                m = []
            self.emit('comp', m=m)
            self.comps.append(m)
            self.active.append(m)
        elif o == 'cedit':
            if not self.comps:
                return
            k = rng.randint(1, len(self.comps))
            x = rng.randint(1, len(self.circs))
            way = rng.choice(['list', 'append', 'append', 'place'])
            m = self.comps[k - 1] + [x] if way == 'append' else rng.sample(range(1, len(self.circs) + 1), rng.randint(1, len(self.circs)))
            if any('bridge' in self.circs[x - 1]['nodes'] for x in m) or len(m) > 3:
                return
            self.emit('cedit', k=k, m=m, way=way)
            self.comps[k - 1] = m
            if rng.random() < 0.6:
                self.emit('refresh', k=k)
                self.active[k - 1] = m
        elif o == 'cclear':
            if self.comps:
                k = rng.randint(1, len(self.comps))
                self.emit('cclear', k=k)
                if rng.random() < 0.8:
                    self.emit('refresh', k=k)
                    self.active[k - 1] = self.comps[k - 1]
        elif o == 'refresh':
            if self.comps:
                k = rng.randint(1, len(self.comps))
                self.emit('refresh', k=k)
                self.active[k - 1] = self.comps[k - 1]
        elif o == 'ceval':
            if not self.comps:
                return
            k = rng.randint(1, len(self.comps))
            m = self.active[k - 1]
            if not m:
                return
            c = self.circs[m[0] - 1]
            if any(self.circs[x - 1]['left'] != c['left'] or self.circs[x - 1]['td'] != c['td'] for x in m):
                return
            fits = [j + 1 for j, x in enumerate(self.colls) if (x['L'], x['NO'], x['NC'], x['left']) == (c['L'], c['NO'], c['NC'], c['left'])]
            if not fits:
                fits = [self.prepare(m[0])]
            i = rng.choice(fits)
            self.emit('ceval', k=k, i=i)
            z = self.circs[m[-1] - 1]
            self.colls.append(dict(self.colls[i - 1], L=z['L'], NO=z['NO'], NC=z['NC'], n=self.colls[i - 1]['n'] + 1))
        elif o == 'density':
            if q['L'] ** q['NO'] <= 81:
                self.emit('density', i=i)
        elif o == 'histo':
            if q['NC']:
                self.emit('histo', i=i, ch=[] if rng.random() < 0.5 else self.chans(q['NC'], rng.randint(1, q['NC'])), bars=rng.choice([0, 0, 0, 0, 1, 2]))
        elif o == 'corr':
            if q['NC'] >= 2:
                self.emit('corr', i=i, pairs=[self.chans(q['NC'], 2) for _ in range(rng.randint(1, 2))], bars=rng.choice([0, 0, 0, 1]))
        elif o in ('inner', 'outer', 'tensor'):
            w, u = self.ref(i), self.ref(i)
            self.emit(o, w=w, u=u)
        elif o == 'matrix':
            n = self.circs[ci - 1]['nodes']
            if n and self.circs[ci - 1]['L'] ** self.circs[ci - 1]['NO'] <= 30 and self.circs[ci - 1]['L'] <= 3:
                opt = [j for j, k in enumerate(n) if k in OPTICAL]
                ix = [rng.choice(opt) for _ in range(rng.randint(1, 2))] if opt and rng.random() < 0.9 else [rng.randrange(len(n))]
                if len(n) <= 3 and rng.random() < 0.3:
                    ix = []
                self.emit('matrix', c=ci, ix=ix)
        elif o == 'report':
            what = rng.choice(self.opt('reports', ['str', 'repr', 'cstr', 'basis', 'str']))
            self.emit('report', what=what, i=i if what in ('str', 'plot', 'repr', 'keys') else rng.randint(1, max(1, len(self.comps))) if what in ('kdraw', 'kstr', 'kstation') else ci)

    def scenario(self):
        rng = self.rng
        for _ in range(self.opt('circuits', 1)):
            self.new_circuit(like=self.circs[0] if self.circs else None)
        lo, hi = self.opt('nnodes', (2, 5))
        for ci in range(1, len(self.circs) + 1):
            for _ in range(rng.randint(lo, hi)):
                self.node(ci)
        for f in self.opt('start', []):
            self.forced(f)
        self.prepare(1)
        lo, hi = self.opt('nsteps', (4, 9))
        for _ in range(rng.randint(lo, hi)):
            self.step()
        for f in self.opt('finish', []):
            self.forced(f)
        return self.ops

    def forced(self, f):
        saved = self.pr
        self.pr = dict(self.pr, steps={f: 1})
        self.step()
        self.pr = saved


def one(a, b=0, c=0, d=0):
    return [ring(a, b, c, d), Z]


def imag(a, b=0, c=0, d=0):
    return [Z, ring(a, b, c, d)]


# matrices over the ring, with common denominator; all unitary
CUSTOM_OPT = [
    ([[one(1), imag(1)], [imag(1), one(1)]], ring(0, 1)),
    ([[one(1), one(1)], [one(-1), one(1)]], ring(0, 1)),
    ([[one(3), imag(4)], [imag(4), one(3)]], ring(5)),
    ([[one(0, 1), imag(1)], [one(1), imag(0, -1)]], ring(0, 0, 1)),
    ([[imag(1), one(0)], [one(0), one(-1)]], ring(1)),
    ([[one(0), one(1)], [imag(1), one(0)]], ring(1)),
]


def generate(seed, index, profile):
    rng = random.Random('%s/%s' % (seed, index))
    g = Gen(rng, profile)
    return g.drawing() if profile.get('drawing') else g.scenario()
