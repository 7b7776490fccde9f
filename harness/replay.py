"""Replays what the specification did on the real library and compares every object
after every call. Only the public interface of the library is used."""
import copy
import math
import os
import sys
import traceback
import itertools

import numpy as np

R2, R3, R6 = math.sqrt(2), math.sqrt(3), math.sqrt(6)
TOL_AMP = 5e-5
TOL_P = 5e-5
NOISE_P = 1e-8
DEG = math.pi / 24          # unit of angle: 7.5 degrees


class Mismatch(Exception):
    pass


def rf(r):
    return r[0] + r[1] * R2 + r[2] * R3 + r[3] * R6


def cf(c):
    return complex(rf(c[0]), rf(c[1]))


def prob(p):
    return sum(math.prod(rf(a) / rf(b) for a, b in term) for term in p)


def value(c):
    return c[1] if c[0] == 'n' else c[1] * DEG


def digits(L):
    return len(str(L - 1))


def root_factorials(n):
    return math.sqrt(math.prod(math.factorial(k) for k in n))


def name_of(n, L, left):
    w = digits(L)
    ds = [str(k).zfill(w) for k in n]
    return ''.join(ds if left else ds[::-1])


def occ_of(name, sh):
    w = digits(sh['L'])
    if len(name) != w * sh['NO'] or not name.isdigit():
        raise Mismatch('component name %r in a state of %d channels with %d digits' % (name, sh['NO'], w))
    n = tuple(int(name[i:i + w]) for i in range(0, len(name), w))
    if max(n) >= sh['L']:
        raise Mismatch('component %r beyond length %d' % (name, sh['L']))
    return n if sh['left'] else n[::-1]


def vec(v):
    s = math.sqrt(rf(v['N']))
    return {tuple(n): cf(c) / s for n, c in v['f']}


def index_of(n, L):
    return sum(k * L ** i for i, k in enumerate(n))


def dense(d, L, NO):
    out = np.zeros(L ** NO, dtype=complex)
    for n, a in d.items():
        out[index_of(n, L)] += a
    return out


def near(a, b, tol):
    return abs(a - b) <= tol


class World:
    def __init__(self, lib):
        self.lib = lib
        self.circs, self.colls, self.comps, self.members, self.active = [], [], [], [], []
        self.cshape = []
        self.cells = []       # real state per cell of the specification
        self.heap = []        # content of the cell in the specification
        self.shape = []
        self.hs = []
        self.es = []          # per collection: specification entries
        self.ids = []         # per collection: real identifier per entry
        self.bind = {}        # unknown label -> real label
        self.loose = set()    # states dropped by cleaning up: no claim about what is left of them

    # ------------------------------------------------------------ comparison
    def state_problem(self, real, st, sh, tentative):
        init = real.initial_state
        if st['init'][0] == 's':
            if init != st['init'][1]:
                return 'initial state %r, expected %r' % (init, st['init'][1])
        else:
            k = st['init'][1]
            known = tentative.get(k, self.bind.get(k))
            if known is None:
                if not isinstance(init, str) or init in self.bind.values() or any(c['init'] == ['s', init] for c in self.heap if c):
                    return 'label %r is not new' % (init,)
                tentative[k] = init
            elif known != init:
                return 'initial state %r, expected %r' % (init, known)
        p = prob(st['p'])
        if not near(float(real.cumulative_probability), p, TOL_P * max(p, 0.02)):
            return 'cumulative probability %r, expected %r' % (real.cumulative_probability, p)
        want = vec(st['v'])
        got = {}
        for nm, ap in real.optical_components.items():
            n = occ_of(nm, sh)
            a = complex(ap['amplitude'])
            if not near(abs(a) ** 2, float(ap['probability']), 1e-5):
                return 'component %s has amplitude %r but probability %r' % (nm, a, ap['probability'])
            if abs(a) > 1e-5 or n in want:
                got[n] = a
        for n in set(want) | set(got):
            if n not in got or n not in want or not near(want[n], got[n], TOL_AMP):
                return 'amplitude of %s is %s, expected %s' % (name_of(n, sh['L'], sh['left']), got.get(n), want.get(n))
        c = list(real.classical_channel_values)
        if len(c) != len(st['c']):
            return '%d classical values, expected %d' % (len(c), len(st['c']))
        for j, (x, y) in enumerate(zip(c, st['c'])):
            if not near(x, value(y), 1e-6):
                return 'classical channel %d is %r, expected %r' % (j, x, value(y))
        m = real.measurement_results
        if len(m) != len(st['m']):
            return '%d measurement records, expected %d' % (len(m), len(st['m']))
        for j, (x, y) in enumerate(zip(m, st['m'])):
            vals = list(x['measurement_results'])
            if len(vals) != len(y['c']) or any(not near(a, value(b), 1e-6) for a, b in zip(vals, y['c'])):
                return 'record %d holds %r, expected %r' % (j, vals, [value(b) for b in y['c']])
            q = rf(y['p'][0]) / rf(y['p'][1])
            if not near(float(x['probability']), q, TOL_P):
                return 'record %d has probability %r, expected %r' % (j, x['probability'], q)
        aux = real.auxiliary_information
        mark = aux.get('mark', [0])[0] if aux else 0
        if mark != st['x']:
            return 'auxiliary information %r, expected mark %r' % (aux, st['x'])
        return None

    def id_problem(self, real, pat):
        if pat[0] == 'eq' and real != pat[1]:
            return 'identifier %r, expected %r' % (real, pat[1])
        if pat[0] == 'pre' and not str(real).startswith(pat[1]):
            return 'identifier %r, expected to start with %r' % (real, pat[1])
        return None

    def bind_cell(self, r, real, what):
        for k, other in enumerate(self.cells):
            if other is real and k != r - 1:
                raise Mismatch('%s: state shared with another collection or handle' % what)
        while len(self.cells) < r:
            self.cells.append(None)
        self.cells[r - 1] = real

    def match(self, i):
        """entries of collection i of the specification against the real collection"""
        what = 'collection %d' % i
        real = self.colls[i - 1]
        spec = self.es[i - 1]
        items = list(real.items())
        if len(items) != len(real):
            raise Mismatch('%s: len() is %r with %d items' % (what, len(real), len(items)))
        negligible = [k for k, (id, s) in enumerate(items) if float(s.cumulative_probability) < NOISE_P]
        ids = [None] * len(spec['es'])
        used = set()
        if spec['ord']:
            keep = items if len(items) == len(spec['es']) else [x for k, x in enumerate(items) if k not in negligible]
            if len(keep) != len(spec['es']):
                raise Mismatch('%s: %d states %r, expected %d' % (what, len(items), [(a, s.initial_state, float(s.cumulative_probability)) for a, s in items][:12], len(spec['es'])))
            for k, (e, (id, s)) in enumerate(zip(spec['es'], keep)):
                self.entry(what, k, e, id, s)
                ids[k] = id
        else:
            # unordered: assign by content
            todo = list(range(len(items)))
            edges = []
            for e in spec['es']:
                r = e['r']
                row = []
                for k in todo:
                    id, s = items[k]
                    if self.id_problem(id, e['id']):
                        continue
                    if r <= len(self.cells) and self.cells[r - 1] is not None:
                        ok = self.cells[r - 1] is s
                    else:
                        ok = self.state_problem(s, self.heap[r - 1], self.shape[r - 1], {}) is None
                    if ok:
                        row.append(k)
                edges.append(row)
            owner = {}

            def place(a, seen):
                for k in edges[a]:     # equal states in the order in which they are found
                    if k not in seen and k not in owner:
                        owner[k] = a
                        return True
                for k in edges[a]:
                    if k not in seen:
                        seen.add(k)
                        if k not in owner or place(owner[k], seen):
                            owner[k] = a
                            return True
                return False
            for a in range(len(edges)):
                if not place(a, set()):
                    e = spec['es'][a]
                    raise Mismatch('%s: no state with identifier %r, initial state %r, p=%.4g, %r, classical %r, records %d, among %r' % (
                        what, e['id'], self.heap[e['r'] - 1]['init'], prob(self.heap[e['r'] - 1]['p']), vec(self.heap[e['r'] - 1]['v']),
                        self.heap[e['r'] - 1]['c'], len(self.heap[e['r'] - 1]['m']),
                        [(id, s.initial_state, float(s.cumulative_probability), s.optical_components, s.classical_channel_values) for id, s in items][:6]))
            for k in todo:
                if k not in owner and k not in negligible:
                    raise Mismatch('%s: unexpected state %r' % (what, items[k][0]))
            for k, a in owner.items():
                self.entry(what, a, spec['es'][a], items[k][0], items[k][1])
                ids[a] = items[k][0]
        self.ids[i - 1] = ids

    def entry(self, what, k, e, id, s):
        why = self.id_problem(id, e['id'])
        if why:
            raise Mismatch('%s, state %d: %s' % (what, k + 1, why))
        r = e['r']
        if r <= len(self.cells) and self.cells[r - 1] is not None:
            if self.cells[r - 1] is not s:
                raise Mismatch('%s, state %d: not the state that was put in' % (what, k + 1))
        else:
            tent = {}
            why = self.state_problem(s, self.heap[r - 1], self.shape[r - 1], tent)
            if why:
                raise Mismatch('%s, state %d (%s): %s' % (what, k + 1, id, why))
            self.bind.update(tent)
            self.bind_cell(r, s, '%s, state %d' % (what, k + 1))

    def check_all(self):
        live = {r: 'handle %d' % (k + 1) for k, r in enumerate(self.hs)}
        for i, c in enumerate(self.es):
            for k, e in enumerate(c['es']):
                live.setdefault(e['r'], 'collection %d, state %d' % (i + 1, k + 1))
        for r, what in live.items():
            if r in self.loose:
                continue
            why = self.state_problem(self.cells[r - 1], self.heap[r - 1], self.shape[r - 1], self.bind)
            if why:
                raise Mismatch('%s: %s' % (what, why))
        for i, c in enumerate(self.es):
            items = list(self.colls[i].items())
            mine = [x for x in items if float(x[1].cumulative_probability) >= NOISE_P or x[0] in self.ids[i]]
            if len(mine) != len(c['es']):
                raise Mismatch('collection %d: %d states, expected %d' % (i + 1, len(mine), len(c['es'])))
            if c['ord']:
                if [x[0] for x in mine] != self.ids[i]:
                    raise Mismatch('collection %d: identifiers %r, were %r' % (i + 1, [x[0] for x in mine], self.ids[i]))
            d = dict(items)
            for e, id in zip(c['es'], self.ids[i]):
                if d.get(id) is not self.cells[e['r'] - 1]:
                    raise Mismatch('collection %d: state %r is not the one put in' % (i + 1, id))
                if self.colls[i].get_state(identifier=id) is not d.get(id):
                    raise Mismatch('collection %d: get_state(%r) gives another state' % (i + 1, id))

    # ------------------------------------------------------------ one step
    def step(self, op, d):
        v = d['v']
        if v == 'skip' or v == 'stop':
            return
        before = len(self.hs)
        try:
            got = getattr(self, 'do_' + op['o'])(op)
            raised = None
        except Mismatch:
            raise
        except Exception as ex:                                # noqa: BLE001
            raised = ex
            tb = traceback.extract_tb(ex.__traceback__)
        if v == 'refuse':
            if raised is None:
                if op['o'] == 'circ':
                    self.circs.pop()
                raise Mismatch('call is accepted, expected it to be refused')
        elif raised is not None:
            last = [f for f in tb if 'fock_state_circuit' in f.filename]
            where = '%s:%s' % (os.path.basename(last[-1].filename), last[-1].name) if last else ''
            raise Mismatch('call raises %s: %s %s' % (type(raised).__name__, str(raised)[:200], where))
        for h in d['heap']:
            while len(self.heap) < h['r']:
                self.heap.append(None)
                self.shape.append(None)
            self.heap[h['r'] - 1] = h['st']
            self.shape[h['r'] - 1] = h['sh']
        if op['o'] == 'clean' and v == 'do':
            for c in d['colls']:
                old = self.es[c['i'] - 1]['es'] if c['i'] <= len(self.es) else []
                self.loose |= {e['r'] for e in old} - {e['r'] for e in c['c']['es']}
        for c in d['colls']:
            while len(self.es) < c['i']:
                self.es.append(None)
                self.ids.append(None)
            self.es[c['i'] - 1] = c['c']
        self.hs = d['hs']
        while len(self.cells) < len(self.heap):
            self.cells.append(None)
        if v == 'do' and len(self.hs) > before:
            r = self.hs[-1]
            if self.cells[r - 1] is None:
                why = self.state_problem(got, self.heap[r - 1], self.shape[r - 1], self.bind)
                if why:
                    raise Mismatch('new state: %s' % why)
                self.bind_cell(r, got, 'new state')
            elif self.cells[r - 1] is not got:
                raise Mismatch('the state returned is not the one asked for')
        for c in d['colls']:
            self.match(c['i'])
        self.check_all()
        if v == 'do' and hasattr(self, 'see_' + op['o']):
            getattr(self, 'see_' + op['o'])(op, got, d['obs'])
            self.check_all()
        for k, (comp, m) in enumerate(zip(self.comps, self.members)):
            have = comp.list_of_circuits
            if len(have) != len(m) or any(x is not self.circs[j - 1] for x, j in zip(have, m)):
                raise Mismatch('list of circuits of compound %d is not the one given' % (k + 1))
        for i, n in enumerate(d['nodes']):
            have = len(self.circs[i].node_list)
            if have != n:
                raise Mismatch('circuit %d has %d nodes, expected %d' % (i + 1, have, n))

    def state(self, w):
        if w[0] == 'h':
            return self.cells[self.hs[w[1] - 1] - 1]
        return self.cells[self.es[w[1] - 1]['es'][w[2] - 1]['r'] - 1]

    def cell(self, w):
        r = self.hs[w[1] - 1] if w[0] == 'h' else self.es[w[1] - 1]['es'][w[2] - 1]['r']
        return self.heap[r - 1], self.shape[r - 1]

    # ------------------------------------------------------------ calls
    def do_circ(self, op):
        c = self.lib.FockStateCircuit(length_of_fock_state=op['L'], no_of_optical_channels=op['NO'], no_of_classical_channels=op['NC'],
                                      channel_0_left_in_state_name=op['left'], threshold_probability_for_setting_to_zero=op['tn'] / op['td'],
                                      use_full_fock_matrix=op['full'], circuit_name='circuit %d' % len(self.circs))
        self.circs.append(c)
        self.cshape.append(op)
        return c

    def hams(self, n):
        hs = []
        m = len(n['chs'])
        full = list(range(m)) * 4 if n.get('lay') else [i for i in range(m) for _ in range(4)]

        def word(*letters):
            w = ['0'] * len(chs)
            for q, s in letters:
                for j, x in zip([j for j, ch in enumerate(chs) if ch == q], s):
                    w[j] = x
            return ''.join(w)

        def ladder(up, down):
            return word((up, '-+')) if up == down else word((up, '+'), (down, '-'))
        for i, g in enumerate(n['gs']):
            th = g['t'] * 2 * DEG
            chs = full
            if n.get('lay') == 2:       # every Hamiltonian names its own channels, in its own order
                chs = full[::-1] if i == len(n['gs']) - 1 else [ch for ch in sorted({g['a'], g['b'], g.get('c', g['b'])}, reverse=i % 2 == 0) for _ in range(4)]
            a, b, d = g['a'], g['b'], g.get('c', 0)
            if g['h'] == 'rot':
                ops = [(ladder(a, b), th), (ladder(b, a), -th)]
            elif g['h'] == 'bs':
                ops = [(ladder(a, b), 1j * th), (ladder(b, a), 1j * th)]
            elif g['h'] == 'kerr':
                ops = [(word((a, '-+'), (b, '-+')), 1j * th)]
            elif g['h'] == 'kself':
                ops = [(word((a, '--++')), 1j * th)]
            elif g['h'] == 'anti':
                ops = [(word((a, '+-')), 1j * th)]
            elif g['h'] == 'both':
                ops = [(ladder(a, a), 1j * th), (ladder(b, b), 2j * th)]
            elif g['h'] == 'hop':
                ops = [(word((a, '++'), (b, '--')), th), (word((a, '--'), (b, '++')), -th)]
            elif g['h'] == 'split':
                ops = [(word((a, '+'), (b, '+'), (d, '-')), th), (word((a, '-'), (b, '-'), (d, '+')), -th)]
            else:
                q = a if g['h'] == 'ph0' else b
                ops = [(ladder(q, q), 1j * th)]
            hs.append(self.lib.Hamiltonian(ops, chs))
        return hs

    def do_node(self, op):
        c, n, sh = self.circs[op['c'] - 1], op['n'], self.cshape[op['c'] - 1]
        if 'tag' in n:
            c = Tagged(c, n['tag'])
        k = n['k']
        if k == 'wp':
            c.wave_plate(n['a'], n['b'], theta=n['t'] * DEG, phi=n['p'] * 2 * DEG)
        elif k == 'hwp':
            c.half_wave_plate(n['a'], n['b'], angle=n['t'] * DEG)
        elif k == 'hwp45':
            c.half_wave_plate_45(n['a'], n['b'])
        elif k == 'hwp225':
            c.half_wave_plate_225(n['a'], n['b'])
        elif k == 'qwp':
            c.quarter_wave_plate(n['a'], n['b'], angle=n['t'] * DEG)
        elif k == 'qwp45':
            c.quarter_wave_plate_45(n['a'], n['b'])
        elif k == 'qwp225':
            c.quarter_wave_plate_225(n['a'], n['b'])
        elif k == 'phase':
            c.phase_shift_single_channel(n['a'], n['p'] * 2 * DEG)
        elif k == 'swap':
            c.swap(n['a'], n['b'])
        elif k == 'mix50':
            c.mix_50_50(n['a'], n['b'])
        elif k in ('mixg', 'npbs'):
            w = n['r'] + n['t']
            r, t = n['r'] / w, n['t'] / w
            if n['bad']:
                t = t * 0.5 + 0.05
            if k == 'mixg':
                c.mix_generic_refl_transm(n['a'], n['b'], reflection=r, transmission=t)
            else:
                c.non_polarizing_beamsplitter(input_channels_a=tuple(n['a']), input_channels_b=tuple(n['b']), reflection=r, transmission=t)
        elif k == 'npbs50':
            c.non_polarizing_50_50_beamsplitter(input_channels_a=tuple(n['a']), input_channels_b=tuple(n['b']))
        elif k == 'pbs':
            c.polarizing_beamsplitter(input_channels_a=tuple(n['a']), input_channels_b=tuple(n['b']))
        elif k == 'custopt':
            s = rf(n['s'])
            c.custom_optical_node(np.array([[cf(x) / s for x in row] for row in n['m']]), optical_channels=[n['a'], n['b']])
        elif k == 'custbad':
            size = {'2x3': (2, 3), '3x2': (3, 2), '3x3': (3, 3), '1x1': (1, 1)}.get(n['sz'], (2, 2))
            chs = {'one': [n['a']], 'three': [n['a'], n['b'], 0]}.get(n['sz'], [n['a'], n['b']])
            c.custom_optical_node(np.eye(*size, dtype=complex), optical_channels=chs)
        elif k == 'wph':
            c.wave_plate_from_hamiltonian(n['a'], n['b'], theta=n['t'] * DEG, phi=n['p'] * 2 * DEG)
        elif k == 'cwph':
            c.wave_plate_from_hamiltonian_classical_control(n['a'], n['b'], classical_channel_for_orientation=n['ct'], classical_channel_for_phase_shift=n['cp'])
        elif k == 'cphase':
            c.phase_shift_single_channel_classical_control(n['a'], n['cp'])
        elif k == 'cwp':
            c.wave_plate_classical_control(n['a'], n['b'], classical_channel_for_orientation=n['ct'], classical_channel_for_phase_shift=n['cp'])
        elif k == 'set':
            c.set_classical_channels(list_of_values_for_classical_channels=[value(x) for x in n['vals']], list_of_classical_channel_numbers=list(n['ch']))
        elif k == 'cfun':
            if n.get('bare'):
                return c.classical_channel_function(CFUN[n['f']])
            c.classical_channel_function(CFUN[n['f']], affected_channels=list(n['ch']), new_input_values=list(n['par']))
        elif k == 'meas':
            c.measure_optical_to_classical(optical_channels_to_be_measured=list(n['oc']), classical_channels_to_be_written=list(n['cc']))
        elif k == 'shift':
            c.shift(target_channels=list(n['tg']), shift_per_channel=list(n['sh']))
        elif k == 'shiftd':
            c.shift_direct(target_channels=list(n['tg']), shift_per_channel=list(n['sh']))
        elif k == 'cshift':
            if n.get('int') and len(n['ctl']) == len(n['tg']) == 1:
                return c.c_shift(control_channels=n['ctl'][0], target_channels=n['tg'][0])
            c.c_shift(control_channels=list(n['ctl']), target_channels=list(n['tg']))
        elif k == 'cshiftd':
            c.c_shift_direct(control_channels=list(n['ctl']), target_channels=list(n['tg']))
        elif k == 'coupl':
            c.channel_coupling(control_channels=list(n['ctl']), target_channels=list(n['tg']), coupling_strength=n['w'] / n['d'])
        elif k == 'fock':
            L, size = sh['L'], sh['L'] ** sh['NO']
            m = np.identity(size, dtype=complex) if n['idrest'] else np.zeros((size, size), dtype=complex)
            for o, i, a in n['ent']:
                m[:, index_of(i, L)] = 0
            for o, i, a in n['ent']:
                m[index_of(o, L), index_of(i, L)] += cf(a) / rf(n['s'])
            c.custom_fock_state_node(custom_fock_matrix=m)
        elif k == 'ham':
            hs = self.hams(n)
            c.hamiltonian_operator_gate(list(n['chs']), hs if len(hs) > 1 else hs[0])
        elif k == 'gen':
            own = dict(affected_optical_channels=list(n['ao']), affected_classical_channels=list(n['ac'])) if n.get('own') else {}
            c.generic_function_on_collection(GFUN[n['f']], parameters=n, **own)
        elif k == 'delay':
            (c.time_delay if n['quick'] else c.time_delay_full)(affected_channels=list(n['chs']), delay=1, pulse_width=1)
        elif k == 'cdelay':
            (c.time_delay_classical_control if n['quick'] else c.time_delay_classical_control_full)(affected_channels=list(n['chs']), classical_channel_for_delay=n['cp'], pulse_width=1)
        elif k == 'width':
            c.set_pulse_width(affected_channels=list(n['chs']), pulse_width=2)
        elif k in ('pairs', 'boxes'):
            boxes = [dict(channels_Ah_Av_Bh_Bv=list(n['chs'][j:j + 4]), quantumness_indicator=1) for j in range(0, len(n['chs']), 4)]
            (c.popescu_rohrlich_correlation_gate if k == 'pairs' else c.create_no_signalling_boxes)(boxes)
        elif k == 'bridge':
            c.bridge(self.circs[n['next'] - 1])
        else:
            raise KeyError(k)

    def do_coll(self, op):
        c = self.circs[op['c'] - 1]
        x = self.lib.CollectionOfStates(c, input_collection_as_a_dict=dict()) if op['empty'] else self.lib.CollectionOfStates(c)
        self.colls.append(x)

    def do_state(self, op):
        return self.lib.State(self.colls[op['i'] - 1])

    def do_comps(self, op):
        s = self.state(op['w'])
        _, sh = self.cell(op['w'])
        N = math.sqrt(rf(op['N']))
        f = [(name_of(n, sh['L'], sh['left']), cf(a) / N) for n, a in op['f']]
        w = op['wrong']
        if w == 'name':
            f.append((name_of([sh['L'] + 7] + [0] * (sh['NO'] - 1), 200, True), 0.5))
        if w == 'short':
            f.append((f[0][0][1:], 0.5))
        if w == 'wide':
            f.append((f[0][0] + '0' * digits(sh['L']), 0.5))
        if w == 'type':
            s.optical_components = tuple(f)
        elif w == 'dict':
            s.optical_components = {f[0][0]: {'amplitude': 1.0}}
        elif op['how'] == 'list':
            given = list(f)
            s.optical_components = f
            if f != given:
                raise Mismatch('setting the components changed the list of the caller')
        elif op['how'] == 'dict':
            s.optical_components = {n: {'amplitude': a, 'probability': abs(a) ** 2} for n, a in f}
        else:
            v = [0j] * sh['L'] ** sh['NO']
            for (n, a), (_, z) in zip(op['f'], f):
                v[index_of(n, sh['L'])] += z
            given = list(v)
            s.set_state_components_from_vector(v)
            if v != given:
                raise Mismatch('setting the components changed the vector of the caller')
            back, basis = s.translate_state_components_to_vector()
            if list(basis) != [name_of([(i // sh['L'] ** k) % sh['L'] for k in range(sh['NO'])], sh['L'], sh['left']) for i in range(sh['L'] ** sh['NO'])]:
                raise Mismatch('basis %r is not in standard order' % (list(basis)[:6],))
            want = [z if abs(z) ** 2 >= 1.2e-5 else 0 for z in v]
            if any(abs(a - b) > 0.011 or (abs(b) ** 2 > 1.2e-3 and abs(a - b) > 1e-9) for a, b in zip(back, want)):
                raise Mismatch('vector read back differs from the vector set')

    def do_cls(self, op):
        self.state(op['w']).classical_channel_values = [value(x) for x in op['c']]

    def do_init(self, op):
        self.state(op['w']).initial_state = op['s']

    def do_prob(self, op):
        self.state(op['w']).cumulative_probability = op['num'] / op['den']

    def do_sinit(self, op):
        self.state(op['w']).initialize_this_state()

    def do_setaux(self, op):
        self.state(op['w']).auxiliary_information = {'mark': [op['k']], 'note': 'x'}

    def do_norecs(self, op):
        self.state(op['w']).measurement_results = []

    def do_badset(self, op):
        s = self.state(op['w'])
        if op['what'] == 'cls':
            s.classical_channel_values = tuple(s.classical_channel_values)
        elif op['what'] == 'rec':
            s.measurement_results = {'measurement_results': [0], 'probability': 1.0}
        elif op['what'] == 'aux':
            s.auxiliary_information = [('mark', [3])]
        else:
            s['cumulative_probability'] = 1.25

    def do_screate(self, op):
        return self.state(op['w']).create_initialized_state()

    def do_dstate(self, op):
        q = self.es[op['i'] - 1]
        N, d, w = math.sqrt(rf(op['N'])), {}, op['wrong']
        if op['f']:
            zs = [(name_of(n, q['L'], q['left']), cf(a) / N) for n, a in op['f']]
            d['optical_components'] = {n: {'amplitude': z, 'probability': abs(z) ** 2} for n, z in zs}
        if op['s']:
            d['initial_state'] = op['s']
        if op['den']:
            d['cumulative_probability'] = op['num'] / op['den']
        if op['hasc']:
            d['classical_channel_values'] = [value(x) for x in op['c']]
        first = name_of([0] * q['NO'], q['L'], q['left'])
        if w == 'label':
            d['initial_state'] = 7
        elif w == 'ptype':
            d['cumulative_probability'] = 'high'
        elif w == 'comps':
            d['optical_components'] = [(first, 1.0)]
        elif w == 'amp':
            d['optical_components'] = {first: {'probability': 1.0}}
        elif w == 'compprob':
            d['optical_components'] = {first: {'amplitude': 1.5, 'probability': 2.25}}
        elif w == 'compname':
            d['optical_components'] = {17: {'amplitude': 1.0, 'probability': 1.0}}
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            return self.lib.State(self.colls[op['i'] - 1], input_state_as_a_dict=d)

    def entries_for_dict(self, es):
        r = {}
        for id, w, how in es:
            s = self.state(w)
            r[id] = s if how == 'state' else copy.deepcopy({k: s[k] for k in (
                'initial_state', 'cumulative_probability', 'optical_components', 'measurement_results', 'classical_channel_values', 'auxiliary_information')})
        return r

    def do_dcoll(self, op):
        self.colls.append(self.lib.CollectionOfStates(self.circs[op['c'] - 1], input_collection_as_a_dict=self.entries_for_dict(op['es'])))

    def do_fromd(self, op):
        self.colls[op['i'] - 1].collection_from_dict(self.entries_for_dict(op['es']))

    def do_photons(self, op):
        s = self.state(op['w'])
        return s.photon_number(), int(s), bool(s), [k for k in range(200) if s == k], len([a for a in s.optical_components.values() if abs(a['amplitude']) ** 2 > 1e-9]) == len(s.optical_components)

    def see_photons(self, op, got, obs):
        (k, all), n, valid, eq, exact = got
        if exact and ((k, all) != (obs['max'], obs['all']) or n != obs['max'] or eq != [obs['max']]):
            raise Mismatch('photon number is %r, int %r, equal to %r; expected %r' % ((k, all), n, eq, obs))
        if valid is not True:
            raise Mismatch('state counts as invalid')

    def do_pokerec(self, op):
        self.state(op['w']).measurement_results[-1]['measurement_results'][0] = op['k']

    def do_pokecls(self, op):
        self.state(op['w']).classical_channel_values[0] = op['k']

    def do_pokeaux(self, op):
        aux = self.state(op['w']).auxiliary_information
        aux.setdefault('mark', [0])[0] += op['k']

    def do_pokeamp(self, op):
        for ap in self.state(op['w']).optical_components.values():
            ap['amplitude'] = -ap['amplitude']

    def do_scopy(self, op):
        return self.state(op['w']).copy()

    def do_add(self, op):
        if op['id']:
            self.colls[op['i'] - 1].add_state(state=self.state(op['w']), identifier=op['id'])
        else:
            self.colls[op['i'] - 1].add_state(state=self.state(op['w']))

    def key(self, op):
        if op['by'] == 'pos':
            return dict(identifier=self.ids[op['i'] - 1][op['k'] - 1])
        return dict(identifier=op['s']) if op['by'] == 'id' else dict(initial_state=op['s'])

    def do_get(self, op):
        got = self.colls[op['i'] - 1].get_state(**self.key(op))
        return got

    def see_get(self, op, got, obs):
        if obs == 'none' and got is not None:
            raise Mismatch('get_state finds a state that is not in the collection')

    def do_del(self, op):
        self.colls[op['i'] - 1].delete_state(**self.key(op))

    def do_filt(self, op):
        c = self.colls[op['i'] - 1]
        one = lambda s: s[0] if len(s) == 1 else list(s)
        if op['by'] == 'init':
            c.filter_on_initial_state(one(op['s']))
        elif op['by'] == 'id':
            c.filter_on_identifier(one(op['s']))
        else:
            c.filter_on_classical_channel(classical_channel_numbers=list(op['ch']), values_to_filter=[value(x) for x in op['vals']])

    def do_copy(self, op):
        self.colls.append(self.colls[op['i'] - 1].copy(empty_template=True) if op['empty'] else self.colls[op['i'] - 1].copy())

    def do_clear(self, op):
        self.colls[op['i'] - 1].clear()

    def do_default(self, op):
        self.colls[op['i'] - 1].initialize_to_default()

    def do_mix(self, op):
        self.colls[op['i'] - 1].set_collection_as_statistical_mixture([(self.state(w), k / op['den']) for w, k in zip(op['ws'], op['wt'])])

    def do_reduce(self, op):
        kw = {} if op['kcall'] else dict(classical_channels_to_keep=list(op['kc']))
        self.colls[op['i'] - 1].reduce(optical_channels_to_keep=list(op['ko']), **kw)

    def do_extend(self, op):
        kw = {}
        if op['dist']:
            w = sum(op['dist'])
            kw = dict(statistical_distribution=[x / w for x in op['dist']])
        self.colls[op['i'] - 1].extend(extra_optical_channels=op['eo'], extra_classical_channels=op['ec'], **kw)

    def do_adjust(self, op):
        self.colls[op['i'] - 1].adjust_length_of_fock_state(op['L'])

    def do_clean(self, op):
        if op['pos']:
            s, q = self.cells[self.es[op['i'] - 1]['es'][op['pos'] - 1]['r'] - 1], self.es[op['i'] - 1]
            s.optical_components = [(name_of(n, q['L'], q['left']), cf(a) / math.sqrt(rf(op['N']))) for n, a in op['f']]
        if op['s']:
            self.colls[op['i'] - 1].clean_up(initial_state=op['s'])
        else:
            self.colls[op['i'] - 1].clean_up()

    def do_eval(self, op):
        kw = {} if op['all'] else dict(nodes_to_be_evaluated=list(op['ix']))
        if op['i']:
            kw['collection_of_states_input'] = self.colls[op['i'] - 1]
        out = self.circs[op['c'] - 1].evaluate_circuit(**kw)
        self.new_coll(out)

    def new_coll(self, out):
        if any(out is c for c in self.colls):
            raise Mismatch('evaluation returns its input collection')
        self.colls.append(out)

    def do_qop(self, op):
        n = op['n']
        q = self.es[op['i'] - 1] if op['i'] else self.cell(op['w'])[1]
        operator = self.lib.QuantumOperator(self.hams(n), q['L'])
        if op['i']:
            self.new_coll(operator.apply_operator_to_collection(self.colls[op['i'] - 1], list(n['chs'])))
        else:
            return operator.apply_operator_to_state(self.state(op['w']), list(n['chs']))

    def do_comp(self, op):
        self.comps.append(self.lib.CompoundFockStateCircuit([self.circs[j - 1] for j in op['m']], compound_circuit_name='compound') if op['m'] else self.lib.CompoundFockStateCircuit())
        self.members.append(op['m'])
        self.active.append(op['m'])

    def do_cedit(self, op):
        k, new = op['k'] - 1, [self.circs[j - 1] for j in op['m']]
        if op['way'] == 'list':
            self.comps[k].list_of_circuits = new
        elif op['way'] == 'append' and self.members[k] == op['m'][:-1]:
            self.comps[k].list_of_circuits.append(new[-1])
        else:
            self.comps[k].list_of_circuits[:] = new
        self.members[k] = op['m']

    def do_cclear(self, op):
        self.comps[op['k'] - 1].clear()

    def do_refresh(self, op):
        self.comps[op['k'] - 1].refresh()
        self.active[op['k'] - 1] = self.members[op['k'] - 1]

    def do_ceval(self, op):
        kw = dict(collection_of_states_input=self.colls[op['i'] - 1]) if op['i'] else {}
        self.new_coll(self.comps[op['k'] - 1].evaluate_circuit(**kw))

    # ------------------------------------------------------------ drawings
    def do_sketch(self, op):
        import matplotlib.pyplot as plt
        plt.close('all')
        obj = self.comps[op['i'] - 1] if op['what'] == 'comp' else self.circs[op['i'] - 1]
        conf = {}
        if op['npl']:
            conf['number_of_nodes_on_a_line'] = op['npl']
        if op['lab']:
            conf['channel_labels_optical'] = ['o-%d' % k for k in range(op['lab'])]
            conf['channel_labels_classical'] = ['c-%d' % k for k in range(op['lab'])]
        kw = dict(settings_for_drawing_circuit=conf) if conf else {}
        try:
            if op['st']:
                names = ['st%d' % k for k in range(len(op['st']))]
                st = dict(station_channels={x: dict(([('optical_channels', list(s['o']))] if s['o'] or k % 2 else []) + ([('classical_channels', list(s['c']))] if s['c'] or k % 2 else []))
                                            for k, (x, s) in enumerate(zip(names, op['st']))})
                if op['sd']:
                    which = [names[k - 1] for k in op['sd']]
                    st['station_to_draw'] = which if len(which) > 1 or op.get('list') else which[0]
                obj.draw_station(stations=st, **kw)
            else:
                obj.draw(**kw)
            return [picture(plt.figure(k)) for k in plt.get_fignums()]
        finally:
            plt.close('all')

    def see_sketch(self, op, got, obs):
        if len(got) != len(obs['pics']):
            raise Mismatch('%d figures, expected %d' % (len(got), len(obs['pics'])))
        ds = obs['ds']
        for j, (pic, want) in enumerate(zip(got, obs['pics'])):
            def bad(text, *args):
                raise Mismatch('drawing %d: %s' % (j, text % args))
            if op['st']:
                j0 = op['sd'][j] - 1 if op['sd'] else j
                if any('st%d' % k in t for t in pic['titles'] for k in range(len(op['st'])) if k != j0) or not all('st%d' % j0 in t for t in pic['titles']):
                    bad('titles %r for station st%d', pic['titles'], j0)
            o, c = want['o'], want['c']
            if len(pic['ys']) != len(o) + len(c):
                bad('%d channel lines, expected %d', len(pic['ys']), len(o) + len(c))
            if op['lab']:
                names = ['o-%d' % k for k in o] + ['c-%d' % k for k in c]
            elif op['st']:
                names = ['st%d, Opt.%d' % (j0, k) for k in range(len(o))] + ['st%d, Clas.%d' % (j0, k) for k in range(len(c))]
            else:
                names = ['optical %d' % k for k in o] + ['classical %d' % k for k in c]
            seen = [None] * len(names)
            for page, x, y, text in pic['texts']:
                if text in names:
                    k = names.index(text)
                    seen[k] = page
                    if abs(y - pic['ys'][k]) > 1e-6:
                        bad('label %r is not on its line', text)
            if None in seen and obs['lab']:
                bad('label %r is missing', names[seen.index(None)])
            rows = [[] for _ in names]
            cols = {}
            for page, x, y, text, hidden in sorted(pic['marks'], key=lambda m: (m[0], m[1])):
                k = min(range(len(names)), key=lambda k: abs(pic['ys'][k] - y))
                if abs(pic['ys'][k] - y) > 1e-6:
                    bad('marker %s is on no line', text)
                tag, pos = [int(x) for x in text.strip('$').split('.')]
                if hidden:
                    bad('marker of node %d on channel %s is hidden', tag, names[k])
                if not rows[k] or rows[k][-1][:3] != (page, x, tag):
                    rows[k].append((page, x, tag))
                cols.setdefault((page, round(x, 6)), {}).setdefault(tag, []).append(k)
                if not op['st'] and k < len(o):
                    ch = o[k]
                    if not any(d['t'] == tag and (not d['r'] or pos < len(d['o']) and d['o'][pos] == ch) for d in ds):
                        bad('marker %d of node %d is on channel %s', pos, tag, names[k])
            for k, row in enumerate(rows):
                tags = (want['sk']['o'] + want['sk']['c'])[k]
                if [t for _, _, t in row] != tags:
                    bad('channel %s shows nodes %r, expected %r', names[k], [t for _, _, t in row], tags)
            if op['st']:
                places = {}
                for (page, x), tags in cols.items():
                    for t in tags:
                        places.setdefault(t, []).append((page, x))
                texts = {}
                for page, x, y, text in pic['texts']:
                    if text.startswith('To station'):
                        at = max((q for p, q in cols if p == page and q < x), default=None)
                        texts.setdefault((page, at), []).append(sorted(text.split('\n', 1)[1].split(',')))
                due = {}
                for t in seq_of(want['links']):
                    exp = [sorted('st%d' % (m - 1) for m in ms) for u, ms in want['links'] if u == t]
                    if len(places.get(t, [])) != len(exp):
                        bad('node %d is drawn in %d places, expected %d', t, len(places.get(t, [])), len(exp))
                    for at, e in zip(sorted(places[t]), exp):
                        if e:
                            due.setdefault(at, []).append(e)
                for at in set(due) | set(texts):
                    if sorted(due.get(at, [])) != sorted(texts.get(at, [])):
                        bad('nodes %r show connections to stations %r, expected %r', sorted(cols.get(at, [])), texts.get(at, []), due.get(at, []))
            gap = min((p - q for p, q in zip(pic['ys'], pic['ys'][1:])), default=0)
            seq = [d['t'] for d in ds]
            whole = {t for t in seq if seq.count(t) == 1}
            for (page, x), tags in cols.items():
                for t in set(tags) & whole if gap else ():
                    at = [(tx - x, ty - pic['ys'][min(tags[t])]) for tp, tx, ty, text in pic['texts'] if text == 'node %d' % t and tp == page]
                    if len(at) != 1 or not -gap < at[0][0] < 0 < at[0][1] < gap:
                        bad('caption of node %d is at %r from the node', t, at)
                spans = sorted((min(ks), max(ks), t) for t, ks in tags.items())
                for p, q in zip(spans, spans[1:]):
                    if q[0] <= p[1]:
                        bad('nodes %d and %d overlap', p[2], q[2])

    # ------------------------------------------------------------ observations
    def label(self, l):
        return l[1] if l[0] == 's' else self.bind.get(l[1])

    def do_density(self, op):
        return self.colls[op['i'] - 1].density_matrix(decimal_places_for_trace=5)

    def see_density(self, op, got, obs):
        q = self.es[op['i'] - 1]
        L, NO = q['L'], q['NO']
        want = {}
        for s in obs:
            v = dense(vec(s['v']), L, NO)
            lab = self.label(s['init'])
            want[lab] = want.get(lab, 0) + prob(s['p']) * np.outer(np.conj(v), v)
        noise = set(got) - set(want)
        for lab in noise:
            if np.abs(got[lab]['density_matrix']).max() > 1e-6:
                raise Mismatch('density matrix for initial state %r that is not in the collection' % lab)
        for lab, m in want.items():
            if lab not in got:
                raise Mismatch('no density matrix for %r' % lab)
            g = np.array(got[lab]['density_matrix'])
            if g.shape != m.shape or np.abs(g - m).max() > 1e-4:
                raise Mismatch('density matrix of %r differs by %g' % (lab, np.abs(g - m).max() if g.shape == m.shape else -1))
            if not near(float(got[lab]['trace']), abs(np.trace(m)), 2e-4) or not near(float(got[lab]['trace_dm_squared']), abs(np.trace(m @ m)), 3e-4):
                raise Mismatch('traces of %r are %r and %r, expected %g and %g' % (lab, got[lab]['trace'], got[lab]['trace_dm_squared'], abs(np.trace(m)), abs(np.trace(m @ m))))
        if want:
            lab = sorted(want)[0]
            one = self.colls[op['i'] - 1].density_matrix(initial_state=lab)
            if list(one) != [lab] or np.abs(np.array(one[lab]['density_matrix']) - want[lab]).max() > 1e-4:
                raise Mismatch('density matrix of the named initial state %r differs' % lab)

    def do_histo(self, op):
        return self.colls[op['i'] - 1].plot(classical_channels=list(op['ch']), histo_output_instead_of_plot=True)

    def see_histo(self, op, got, obs):
        want = {}
        for s in obs:
            d = want.setdefault(self.label(s['init']), {})
            d[s['name']] = d.get(s['name'], 0) + prob(s['p'])
        names = set(n for d in want.values() for n in d)
        for lab in set(got) | set(want):
            rows = got.get(lab, [])
            have = {}
            for r in rows:
                if r['output_state'] in have:
                    raise Mismatch('histogram of %r lists %r twice' % (lab, r['output_state']))
                have[r['output_state']] = float(r['probability'])
            w = want.get(lab, {})
            for n in set(have) | set(w):
                if not near(have.get(n, 0), w.get(n, 0), TOL_P):
                    raise Mismatch('histogram of %r has %s with %r, expected %r' % (lab, n, have.get(n), w.get(n)))
            if lab in want and set(w) - set(have):
                raise Mismatch('histogram of %r misses outcomes' % lab)
        if want:
            lab = sorted(want)[0]
            one = self.colls[op['i'] - 1].plot(classical_channels=list(op['ch']), initial_states=[lab], histo_output_instead_of_plot=True)
            have = {r['output_state']: float(r['probability']) for r in one.get(lab, [])}
            if set(one) != {lab} or any(not near(have.get(n, 0), want[lab].get(n, 0), TOL_P) for n in set(have) | set(want[lab])):
                raise Mismatch('histogram of the selected initial state %r is %r, expected %r' % (lab, one, want[lab]))

        if op.get('bars'):
            self.compare_bars({l: {n: w.get(n, 0) for n in names} for l, w in want.items()}, lambda: self.colls[op['i'] - 1].plot(classical_channels=list(op['ch'])))
            if names:
                from fock_state_circuit.visualization.plot import plot_correlations_from_dict
                from fock_state_circuit.popescu_rohrlich_correlation_functionality.popescu_rohrlich_correlations import plot_correlations_for_NS_boxes
                for f in (plot_correlations_from_dict, plot_correlations_for_NS_boxes):
                    self.compare_bars({l: {n: w.get(n, 0) for n in names} for l, w in want.items()}, lambda: f(
                        {l: [{'output_state': n, 'correlation' if op['bars'] > 1 else 'probability': w.get(n, 0)} for n in sorted(names)] for l, w in want.items()}))

    def compare_bars(self, want, draw):
        """what a bar plot shows: per tick and colour of the legend the bar drawn last"""
        import contextlib
        import io
        import warnings
        import matplotlib.colors
        import matplotlib.pyplot as plt
        plt.close('all')
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            draw()
        try:
            ax = plt.gcf().axes[0]
            ticks = [(float(x), t.get_text()) for x, t in zip(ax.get_xticks(), ax.get_xticklabels())]
            leg = ax.get_legend()
            colours = [matplotlib.colors.to_rgba(h.get_color()) for h in leg.get_lines()] if leg else []
            names = [t.get_text() for t in leg.get_texts()] if leg else []
            bars = {}
            for b in ax.patches:
                bars[round(b.get_x() + b.get_width() / 2, 6)] = (b.get_height(), matplotlib.colors.to_rgba(b.get_facecolor()))
            if len(ticks) != len(want) or len(set(t for _, t in ticks)) != len(want):
                raise Mismatch('plot has ticks %r for initial states %r' % (ticks, sorted(want)))
            for x, lab in ticks:
                shown = [h for _, h in sorted((p, h) for p, h in bars.items() if abs(p - x) <= 0.5)]
                here = sorted((p, h) for p, h in bars.items() if abs(p - x) <= 0.5)
                if lab not in want or len(here) != len(want[lab]) or sorted(want[lab]) != sorted(names):
                    raise Mismatch('plot shows %d bars for %r with legend %r, expected %r' % (len(shown), lab, names, want.get(lab)))
                for k, (_, (height, colour)) in enumerate(here):
                    if len(set(colours)) == len(colours):
                        k = colours.index(colour)
                    if not near(height, want[lab][names[k]], 1e-3):
                        raise Mismatch('plot shows %r for %s of %r, expected %r' % (height, names[k], lab, want[lab]))
        finally:
            plt.close('all')

    def do_corr(self, op):
        return self.colls[op['i'] - 1].plot_correlations(channel_combis_for_correlation=[tuple(p) for p in op['pairs']], correlation_output_instead_of_plot=True)

    def see_corr(self, op, got, obs):
        want = {}
        for s in obs:
            d = want.setdefault(self.label(s['init']), [[0.0, 0.0] for _ in op['pairs']])
            for acc, eq in zip(d, s['eq']):
                acc[0] += prob(s['p']) * (1 if eq else -1)
                acc[1] += prob(s['p'])
        for lab, accs in want.items():
            if accs[0][1] < 1e-3:
                continue
            w = [a / b for a, b in accs]
            if lab not in got or len(got[lab]) != len(w) or any(not near(float(a), b, 1e-3) for a, b in zip(got[lab], w)):
                raise Mismatch('correlations of %r are %r, expected %r' % (lab, got.get(lab), w))
        if set(got) != set(want):
            raise Mismatch('correlations are given for %r, expected %r' % (sorted(got), sorted(want)))
        if want and all(a[0][1] >= 1e-3 for a in want.values()):
            c = self.colls[op['i'] - 1]
            pairs = [tuple(p) for p in op['pairs']]
            lab = sorted(want)[-1]
            one = c.plot_correlations(channel_combis_for_correlation=pairs, correlation_output_instead_of_plot=True, initial_states_to_assess=[lab])
            if set(one) != {lab} or any(not near(float(a), b, 1e-9) for a, b in zip(one[lab], got[lab])):
                raise Mismatch('correlations of the selected initial state %r are %r, expected %r' % (lab, one, got[lab]))
            if op.get('bars') and len(set(pairs)) == len(pairs):
                for sel in ([], [lab]):
                    self.compare_bars({l: {str(p): a / b for p, (a, b) in zip(pairs, want[l])} for l in (sel or want)}, lambda: c.plot_correlations(channel_combis_for_correlation=pairs, initial_states_to_assess=sel))

    def do_inner(self, op):
        return self.state(op['w']).inner(self.state(op['u']))

    def see_inner(self, op, got, obs):
        w = cf(obs['c']) / math.sqrt(rf(obs['N1']) * rf(obs['N2']))
        if not near(complex(got), w, 1e-4):
            raise Mismatch('inner product is %r, expected %r' % (got, w))

    def do_outer(self, op):
        return self.state(op['w']).outer(self.state(op['u']))

    def see_outer(self, op, got, obs):
        _, sh = self.cell(op['w'])
        L, n = sh['L'], sh['L'] ** sh['NO']
        s = math.sqrt(rf(obs['N1']) * rf(obs['N2']))
        m = np.zeros((n, n), dtype=complex)
        for x, y, a in obs['e']:
            m[index_of(x, L), index_of(y, L)] = cf(a) / s
        got = np.array(got)
        if got.shape != m.shape or np.abs(got - m).max() > 1e-4:
            raise Mismatch('outer product differs')

    def do_tensor(self, op):
        a, b = self.state(op['w']), self.state(op['u'])
        r = a.tensor(b)
        alt = a.tensor([(n, x['amplitude']) for n, x in b.optical_components.items()])
        alt2 = a.tensor(b.optical_components)
        return r, alt, alt2

    def see_tensor(self, op, got, obs):
        _, sh = self.cell(op['w'])
        _, sh2 = self.cell(op['u'])
        s = math.sqrt(rf(obs['N1']) * rf(obs['N2']))
        want = {tuple(n): cf(a) / s for n, a in obs['e']}
        for g in got:
            have = {occ_of(n, dict(sh, NO=sh['NO'] + sh2['NO'])): x for n, x in g.items()}
            for n in set(have) | set(want):
                x = have.get(n, {'amplitude': 0, 'probability': 0})
                if not near(complex(x['amplitude']), want.get(n, 0), 1e-4) or not near(float(x['probability']), abs(want.get(n, 0)) ** 2, 1e-4):
                    raise Mismatch('tensor product has %r for %r, expected %r' % (x, n, want.get(n)))

    def do_matrix(self, op):
        c = self.circs[op['c'] - 1]
        return c.get_fock_state_matrix(nodes_to_be_evaluated=list(op['ix'])) if op['ix'] else c.get_fock_state_matrix()

    def see_matrix(self, op, got, obs):
        sh = self.cshape[op['c'] - 1]
        m = np.array([dense(vec(v), sh['L'], sh['NO']) for v in obs]).T
        got = np.array(got)
        if got.shape != m.shape or np.abs(got - m).max() > 1e-4:
            raise Mismatch('matrix of nodes %r differs from the transformation of the basis states' % (op['ix'],))

    def do_many(self, op):
        L, NO, oc = op['L'], op['NO'], op['oc']
        c = self.lib.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=NO, no_of_classical_channels=max(1, len(oc)),
                                      channel_0_left_in_state_name=op['left'], threshold_probability_for_setting_to_zero=1e-6,
                                      use_full_fock_matrix=op['full'])
        w = World(self.lib)
        w.circs, w.cshape = [c], [dict(L=L, NO=NO, NC=max(1, len(oc)), left=op['left'])]
        for n in op['nodes']:
            w.do_node(dict(c=1, n=n))
        if oc:
            c.measure_optical_to_classical(list(oc), list(range(len(oc))))
        col = self.lib.CollectionOfStates(c, input_collection_as_a_dict=dict())
        s = self.lib.State(col)
        amps = [(n, cf(a) * root_factorials(n)) for n, a in op['f']]
        N = math.sqrt(sum(abs(a) ** 2 for n, a in amps))
        s.optical_components = [(name_of(n, L, op['left']), a / N) for n, a in amps]
        s.initial_state = 'A'
        col.add_state(s)
        return c.evaluate_circuit(col)

    def see_many(self, op, got, obs):
        want = {tuple(o): {name_of(n, op['L'], op['left']): cf(a) * root_factorials(n) for n, a in comps} for o, comps in obs}
        norm = {o: sum(abs(a) ** 2 for a in comps.values()) for o, comps in want.items()}
        total = sum(norm.values())
        seen = set()
        for s in got:
            o = tuple(s.classical_channel_values[:len(op['oc'])])
            if o not in want:
                if s.cumulative_probability < NOISE_P:
                    continue
                raise Mismatch('outcome %r is impossible' % (o,))
            if o in seen:
                raise Mismatch('outcome %r twice' % (o,))
            seen.add(o)
            if abs(s.cumulative_probability - norm[o] / total) > 1e-5 or s.initial_state != 'A' or len(s.measurement_results) != bool(op['oc']):
                raise Mismatch('outcome %r: probability %r instead of %r (%s, %r)' % (o, s.cumulative_probability, norm[o] / total, s.initial_state, s.measurement_results))
            if norm[o] / total < 1e-4:
                continue
            tol = 4 * TOL_AMP / math.sqrt(norm[o] / total)
            have = {k: x['amplitude'] for k, x in s.optical_components.items()}
            for k in set(have) | set(want[o]):
                y = want[o].get(k, 0) / math.sqrt(norm[o])
                if k not in have and abs(y) ** 2 * norm[o] / total < 1.1e-6:      # below the threshold
                    continue
                if abs(have.get(k, 0) - y) > tol:
                    raise Mismatch('outcome %r: amplitude of %s is %r instead of %r' % (o, k, have.get(k, 0), y))
        for o in want:
            if norm[o] / total > 1e-6 and o not in seen:
                raise Mismatch('outcome %r (probability %r) is missing' % (o, norm[o] / total))

    def do_lookup(self, op):
        x = (self.circs if op['w'][0] == 'c' else self.colls)[op['w'][1] - 1]
        return x._dict_of_valid_component_names, x._dict_of_optical_values

    def see_lookup(self, op, got, obs):
        names, values = got
        n, by, L, NO, left, name, index = op['n'], op['by'], obs['L'], obs['NO'], obs['left'], obs['name'], obs['index']

        def expect(what, x, y):
            if x != y:
                raise Mismatch('%s for %r (length %d, channel 0 left %s) is %r instead of %r' % (what, n, L, left, x, y))

        def quiet(f, *a):
            try:
                return f(*a)
            except Exception:
                return None
        if by == 'items':
            want = [[(j // L ** k) % L for k in range(NO)] for j in range(L ** NO)]
            strs = [name_of(w, L, left) for w in want]
            expect('list of names', list(names), strs)
            expect('names()', (list(names.keys()), len(names)), (strs, len(strs)))
            expect('names and values', [(a, list(b)) for a, b in names.items()], list(zip(strs, want)))
            expect('values of names', [list(b) for b in names.values()], want)
            expect('list of values', [list(b) for b in values], want)
            expect('values()', ([list(b) for b in values.keys()], len(values)), (want, len(want)))
            expect('values and names', [(list(b), a) for b, a in values.items()], list(zip(want, strs)))
            expect('names of values', list(values.values()), strs)
        elif by == 'short':
            # other spellings of the same numbers are not names
            w = digits(L)
            base = name_of(n, L, left) if min(n) >= 0 else '0' * (w * NO)
            for x in {base[1:], base[:-1], '0' + base, base + '0', '+' + base[1:]} - {base}:
                if len(x) != w * NO or not x.isdigit():
                    expect('name %r is valid' % x, bool(quiet(names.__contains__, x)), False)
        elif obs['valid']:
            if by in ('name', 'odd'):
                r = names[name]
                expect('values of name', list(r), n)
                if isinstance(r, list):
                    r[0] = 77
            elif by == 'values':
                expect('name of values', (values[tuple(n)], values[list(n)]), (name, name))
            elif by == 'in':
                expect('membership', (name in names, tuple(n) in values, list(n) in values), (True, True, True))
            else:
                expect('index', (names.index_of(name), values.index_of(n), values.index_of(tuple(n))), (index, index, index))
                expect('entry at index', (names.at_index(index), list(values.at_index(index))), (name, n))
        else:
            # no claim for what is not in the basis, other than that it is not a member
            w = digits(L)
            name = ''.join(str(k).zfill(w) for k in (n if left else n[::-1]))
            if by == 'name':
                quiet(names.__getitem__, name)
            elif by == 'values':
                quiet(values.__getitem__, tuple(n))
            elif by == 'in':
                expect('membership of name', bool(quiet(names.__contains__, name)) and len(n) == NO, False)
                expect('membership of values', bool(quiet(values.__contains__, tuple(n))), False)
            elif by == 'index':
                quiet(names.index_of, name)

    def do_report(self, op):
        import contextlib
        import io
        import matplotlib.pyplot as plt
        what, i = op['what'], op['i']
        with contextlib.redirect_stdout(io.StringIO()):
            if what == 'str':
                str(self.colls[i - 1])
                for s in self.colls[i - 1].values():
                    str(s)
                    s.print_optical_components()
                    s.photon_number()
            elif what == 'repr':
                repr(self.colls[i - 1])
                self.colls[i - 1].initial_states_as_list()
                self.colls[i - 1].state_identifiers_as_list()
                bool(self.colls[i - 1])
            elif what == 'keys':
                c = self.colls[i - 1]
                ids = c.state_identifiers_as_list()
                if list(c.keys()) != ids or [k for k, _ in c.items()] != ids or list(c.collection_as_dict()) != ids or len(c) != len(ids):
                    raise Mismatch('identifiers of collection %d are listed as %r, %r, %r' % (i, ids, list(c.keys()), [k for k, _ in c.items()]))
                vs = list(c.values())
                if any(c[k] is not s or c[j] is not s or c.get_state(identifier=k) is not s for j, (k, s) in enumerate(zip(ids, vs))) or [s.initial_state for s in vs] != c.initial_states_as_list():
                    raise Mismatch('states of collection %d by identifier and by position differ' % i)
                if c['no such identifier'] is not None or c.get_state(identifier='no such identifier') is not None:
                    raise Mismatch('collection %d has a state for an identifier it does not hold' % i)
                if [c.generate_allowed_components_names_as_list_of_strings()] != [[name_of(
                        [(j // self.es[i - 1]['L'] ** k) % self.es[i - 1]['L'] for k in range(self.es[i - 1]['NO'])], self.es[i - 1]['L'], self.es[i - 1]['left'])
                        for j in range(self.es[i - 1]['L'] ** self.es[i - 1]['NO'])]]:
                    raise Mismatch('basis of collection %d is not in standard order' % i)
            elif what == 'plot':
                self.colls[i - 1].plot()
                plt.close('all')
            elif what == 'cstr':
                str(self.circs[i - 1])
            elif what == 'draw':
                self.circs[i - 1].draw()
                plt.close('all')
            elif what == 'station':
                sh = self.cshape[i - 1]
                self.circs[i - 1].draw_station(stations={'station_channels': {
                    'alice': {'optical_channels': list(range(sh['NO'])), 'classical_channels': list(range(sh['NC']))}}})
                plt.close('all')
            elif what == 'kdraw':
                self.comps[i - 1].draw()
                plt.close('all')
            elif what == 'kstation':
                sh = self.cshape[self.active[i - 1][0] - 1]
                self.comps[i - 1].draw_station(stations={'station_channels': {
                    'alice': {'optical_channels': list(range(sh['NO'])), 'classical_channels': list(range(sh['NC']))}}})
                plt.close('all')
            elif what == 'kstr':
                str(self.comps[i - 1])
            elif what == 'basis':
                b = self.circs[i - 1].basis()
                sh = self.cshape[i - 1]
                want = [[(j // sh['L'] ** k) % sh['L'] for k in range(sh['NO'])] for j in range(sh['L'] ** sh['NO'])]
                if [list(b[n]) for n in b.keys()] != want or list(b.keys()) != [name_of(w, sh['L'], sh['left']) for w in want]:
                    raise Mismatch('basis of circuit %d is not in standard order' % i)


def _is_number(x):
    return float(x).is_integer()


def _add(cur, new, aff):
    out = list(cur)
    for v, c in zip(new, aff):
        if _is_number(out[c]):
            out[c] = out[c] + v
    return out


def _copyto(cur, new, aff):
    out = list(cur)
    out[aff[1]] = out[aff[0]]
    return out


def _inplace(cur, new, aff):
    cur[aff[0]] = new[0]
    return cur


def _not(cur, new, aff):
    out = list(cur)
    out[aff[0]] = 1 if out[aff[0]] == 0 else 0
    return out


CFUN = {'add': _add, 'rev': lambda cur, new, aff: list(cur)[::-1], 'copyto': _copyto, 'inplace': _inplace, 'notlist': _not}


def _setc(coll, par):
    for s in coll:
        s.classical_channel_values[par['ch'][0]] = par['par'][0]
    return coll


def _keep(coll, par):
    coll.filter_on_initial_state(par['s'])
    return coll


def _half(coll, par):
    for s in coll:
        s.cumulative_probability = s.cumulative_probability * 0.5
    return coll


class Tagged:
    """a circuit whose nodes get a text on their markers"""
    def __init__(self, circuit, tag):
        self.circuit, self.info = circuit, {'marker_text': ['$%d.%d$' % (tag, k) for k in range(14)], 'classical_marker_text': ['$%d.%d$' % (tag, k) for k in range(14)], 'label': 'node %d' % tag}

    def __getattr__(self, name):
        return lambda *a, **k: getattr(self.circuit, name)(*a, node_info=dict(self.info), **k)


def seq_of(links):
    r = []
    for t, _ in links:
        if t not in r:
            r.append(t)
    return r


def picture(fig):
    """what there is to see in the drawing of a circuit"""
    from matplotlib.lines import Line2D
    from matplotlib.patches import Rectangle
    from matplotlib.text import Text
    out = dict(titles=[], texts=[], marks=[])
    ys = []
    for page, ax in enumerate(fig.axes):
        things = ax.get_children()
        white = [(i, t) for i, t in enumerate(things) if isinstance(t, Rectangle) and t is not ax.patch and t.get_fill() and t.get_visible()]
        empty = True
        for i, t in enumerate(things):
            if isinstance(t, Line2D):
                x, y = list(t.get_xdata()), list(t.get_ydata())
                m = t.get_marker()
                if len(x) == 2 and x[0] < x[1] and y[0] == y[1] and t.get_linestyle() not in ('None', 'none', ' ', ''):
                    if not any(abs(y[0] - q) < 1e-6 for q in ys):
                        ys.append(y[0])
                elif len(x) == 1 and isinstance(m, str) and m.startswith('$') and '.' in m:
                    hidden = any(j > i and w.get_zorder() >= t.get_zorder() and w.get_x() < x[0] < w.get_x() + w.get_width() and w.get_y() < y[0] < w.get_y() + w.get_height() for j, w in white)
                    out['marks'].append((page, x[0], y[0], m, hidden or not t.get_visible()))
                    empty = False
            elif isinstance(t, Text) and t.get_text():
                out['texts'].append((page,) + tuple(t.get_position()) + (t.get_text(),))
        if not empty:
            out['titles'].append(ax.get_title())
    out['ys'] = sorted(ys, reverse=True)
    return out


GFUN = {'ident': lambda coll, par: coll, 'setc': _setc, 'keepinit': _keep, 'half': _half}


class Lib:
    def __init__(self):
        import fock_state_circuit as f
        from fock_state_circuit.quantum_operator_functionality.quantum_operators import Hamiltonian, QuantumOperator
        self.FockStateCircuit = f.FockStateCircuit
        self.CollectionOfStates = f.CollectionOfStates
        self.State = f.State
        self.CompoundFockStateCircuit = f.CompoundFockStateCircuit
        self.Hamiltonian = Hamiltonian
        self.QuantumOperator = QuantumOperator


LIB = None


def replay(ops, out):
    """None, or (index of the call, description)"""
    global LIB
    if LIB is None:
        LIB = Lib()
    w = World(LIB)
    for k, (op, d) in enumerate(zip(ops, out)):
        try:
            w.step(op, d)
        except Mismatch as ex:
            return k, str(ex)
        except Exception as ex:                              # noqa: BLE001
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            return k, 'comparison fails: %s %s (%s:%d)' % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno)
    return None
