"""What each property's check explores: random profiles for Trace.tla (with the number of
scenarios in a quick run) and exhaustive spaces for Explore.tla."""
import spaces as S
import superquantum
import temporal

OPT_SHAPES = [(2, 2, 0), (3, 2, 0), (4, 2, 0), (5, 2, 0), (2, 3, 0), (3, 3, 0), (2, 4, 0), (3, 4, 0), (4, 3, 0), (2, 5, 0)]
ALL_NODES = {'opt': 6, 'meas': 2, 'set': 1, 'cfun': 1, 'cphase': 1, 'cwp': 1, 'shift': 1, 'shiftd': 1, 'cshift': 1, 'cshiftd': 1, 'coupl': 1, 'fock': 1, 'gen': 1,
             'wph': 1, 'cwph': 0.5, 'ham': 1}
POKES = {'pokerec': 1, 'pokecls': 1, 'pokeaux': 1, 'pokeamp': 1, 'comps': 1, 'cls': 1, 'init': 1, 'prob': 1, 'sinit': 0.3, 'setaux': 0.4, 'norecs': 0.2}
OBJECTS = {'screate': 0.4, 'dstate': 0.7, 'dcoll': 0.7, 'fromd': 0.4, 'photons': 0.6, 'badset': 0.3, 'lookup': 0.5}
SHAPERS = {'reduce': 1, 'extend': 1, 'adjust': 1, 'clean': 1, 'mix': 1, 'filt': 1, 'del': 1, 'clear': 0.3, 'default': 0.3}
EVERYTHING = {"node": 2, "badnode": 1, "circ": 0.5, "badcirc": 0.2, "eval": 6, "prep": 1, "state": 1, "readd": 1, "scopy": 1, "get": 1, "copy": 1, "bridge": 0.7,
              "comp": 1, "refresh": 0.5, "ceval": 1.5, "cedit": 0.5, "cclear": 0.2, "qop": 0.3, "density": 1, "histo": 1, "corr": 1, "inner": 1, "outer": 0.5, "tensor": 0.5, "matrix": 1, "report": 0.5, "many": 0.3}
EVERYTHING.update(POKES)
EVERYTHING.update(OBJECTS)
EVERYTHING.update(SHAPERS)


# many photons in few channels
MANY = dict(shapes=[(2, 2, 0)], steps={'many': 1}, nsteps=(8, 12), nstates=[1], nnodes=(1, 1))


def pf(**kw):
    return kw


# the same calls on larger circuits: many channels, many photons, many states, many nodes
LARGE = [(2, 7, 3), (6, 2, 2), (11, 2, 1), (3, 5, 4), (2, 6, 5), (7, 3, 2), (2, 8, 4), (13, 2, 3)]


def large(p):
    return dict(p, shapes=LARGE, nstates=[4, 6, 9, 12] if not set(p['nodes']) & {'cphase', 'wph', 'ham'} and 'clean' not in p['steps'] else [3, 4, 6], nnodes=(1, 4), max_nodes=10, max_default=130, maxphotons=[2, 3, 4, 6], max_measured=5)


def plan(random, quick, thorough=None, extra=(), broad=True):
    """random: list of (profile, scenarios in a quick run); quick, thorough: functions that
    return lists of spaces; extra: functions of the check; broad: whole interface as well"""
    random = random + [(large(p), max(10, n // 4)) for p, n in random if p is not MANY and 'drawing' not in p]
    return dict(random=random, quick=quick, thorough=thorough if thorough is not None else quick, extra=extra, broad=broad)


def flat(*xs):
    r = []
    for x in xs:
        if x and not isinstance(x[0][0], list):
            r.append(x)
        else:
            r.extend(x)
    return r


LR = (True, False)
BR = [(2, 2, 0), (2, 2, 1), (3, 2, 0), (2, 3, 2), (3, 3, 1), (2, 2, 3), (4, 2, 2)]

FIRST = [(2, 2, 1), (3, 2, 2), (2, 2, 2), (2, 3, 1)]

PLANS = {
    'C01': plan([(pf(nodes={'opt': 3, 'meas': 1}, shapes=[(2, 2, 1), (10, 2, 0), (11, 2, 1), (12, 2, 0), (2, 5, 0), (3, 3, 0), (2, 6, 1), (4, 3, 0), (13, 2, 0)], max_default=64,
                     reports=['basis', 'basis', 'str', 'cstr'], steps={'eval': 2, 'report': 4, 'circ': 2, 'prep': 2, 'comps': 3, 'state': 2, 'adjust': 2, 'extend': 1, 'reduce': 1, 'default': 2, 'clear': 1, 'tensor': 1, 'lookup': 7},
                     nnodes=(1, 2)), 90)],
                lambda: [S.basis(left) for left in LR] + [S.adjustments(left) for left in LR]),
    'C02': plan([(pf(nodes={'opt': 1}, shapes=OPT_SHAPES, steps={'eval': 4, 'node': 1, 'state': 1, 'prep': 1}, simple_angles=0.3), 80), (MANY, 24),
                 (pf(nodes={'opt': 8, 'meas': 1, 'set': 1}, steps={'eval': 4, 'node': 1, 'state': 1, 'prep': 1}), 40)],
                lambda: [S.single_node(2, 3, True), S.single_node(3, 2, False), S.single_node(3, 3, False, False, 3), S.single_node(2, 4, True, True, 3)],
                lambda: [S.single_node(L, NO, left, full) for L, NO in ((2, 3), (3, 3), (2, 4), (4, 2)) for left in LR for full in LR if not full or L < 4]),
    'C03': plan([(pf(nodes={'opt': 1}, shapes=OPT_SHAPES, steps={'eval': 4, 'node': 1, 'state': 1, 'inner': 1, 'matrix': 3}, maxphotons=[3, 5, 8], fixed_number=0.2), 100), (MANY, 24)],
                lambda: [S.single_node(3, 2, True), S.single_node(2, 3, False, False, 2), S.matrices(True, True, 3)],
                lambda: [S.matrices(left, full) for left in LR for full in LR] + [S.single_node(3, 3, left) for left in LR]),
    'C04': plan([(pf(nodes=ALL_NODES, eval_all=0.25, steps={'eval': 8, 'node': 1, 'state': 1, 'readd': 1, 'prep': 1, 'copy': 0.5}, nstates=[1, 2, 3, 4]), 110)],
                lambda: [S.node_pairs(True, False, 0), S.node_pairs(False, True, 7), S.groups(True)],
                lambda: [S.node_pairs(k % 2 == 0, k % 3 == 0, k) for k in range(0, 25, 3)] + [S.groups(left) for left in LR]),
    'C05': plan([(pf(zeros=0.3, nodes={'opt': 3, 'meas': 4}, steps={'eval': 6, 'node': 1, 'state': 1, 'prep': 1}, nstates=[1, 2, 3]), 120), (MANY, 24)],
                lambda: [S.measure(3, 2, (1, 2), False), S.measure(3, 3, (2,), True, False), S.measure(2, 1, (1,), True)] + S.outcomes(True),
                lambda: [S.measure(NO, NC, (1, 2, 3), True, left) for NO, NC in ((3, 3), (2, 2), (4, 2)) for left in LR] + S.outcomes(False)),
    'C06': plan([(pf(nodes={'opt': 2, 'meas': 4, 'set': 2, 'cfun': 2}, steps=dict({'eval': 6, 'node': 1, 'state': 1, 'copy': 1, 'scopy': 1, 'report': 0.5, 'reduce': 1, 'extend': 1, 'adjust': 0.5}, **POKES), nsteps=(5, 10)), 110)],
                lambda: [S.records(1), S.measure(3, 2, (1,), True), S.aliasing(1, 0), S.aliasing(1, 2)],
                lambda: [S.records(2)] + [S.measure(3, 3, (1, 2, 3), True)] + [S.aliasing(2, k) for k in range(6)]),
    'C07': plan([(pf(nodes={'opt': 1, 'meas': 1, 'set': 4, 'cfun': 4}, shapes=[(2, 2, 1), (2, 2, 2), (2, 2, 3), (2, 3, 4), (3, 2, 2)], steps={'eval': 6, 'node': 1, 'state': 1, 'prep': 1, 'cls': 1, 'copy': 0.5}), 110)],
                lambda: [S.classical(1), S.classical(2)],
                lambda: [S.classical(k) for k in (1, 2, 3)]),
    'C08': plan([(pf(nodes={'opt': 1, 'meas': 1, 'set': 2, 'cfun': 1, 'cphase': 4, 'cwp': 4, 'cwph': 1}, angles=0.8, shapes=[(2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 3), (3, 3, 1)],
                     steps={'eval': 6, 'node': 1, 'state': 1, 'prep': 1, 'cls': 1}, nstates=[1, 2, 3]), 110)],
                lambda: [S.controlled(True, 2)],
                lambda: [S.controlled(left) for left in LR]),
    'C09': plan([(pf(nodes=ALL_NODES, reports=['str', 'repr', 'cstr', 'basis', 'plot', 'draw', 'station'], steps=dict({'eval': 8, 'node': 1, 'state': 1, 'readd': 1, 'density': 1, 'histo': 1, 'corr': 1, 'matrix': 1, 'report': 2,
                     'comp': 1, 'ceval': 2, 'clear': 0.5, 'filt': 0.5, 'del': 0.5}, **POKES), nsteps=(6, 12)), 100)],
                lambda: [S.aliasing(1, 0), S.aliasing(2, 3, 3), S.reports(True), S.drawings(False, 40)] + S.bridge_first(True, FIRST[:3]),
                lambda: [S.aliasing(2, 0), S.aliasing(2, 3), S.aliasing(3, 0, 4), S.reports(True), S.reports(False), S.drawings(True), S.drawings(False)] + S.bridge_first(False, FIRST)),
    'C10': plan([(pf(nodes={'opt': 3, 'meas': 2, 'set': 1, 'cfun': 1}, steps=dict({'eval': 2, 'copy': 4, 'scopy': 3, 'readd': 2, 'get': 1, 'state': 1}, **dict(POKES, **SHAPERS, **OBJECTS)), nsteps=(7, 13)), 120)],
                lambda: [S.aliasing(1, 1), S.aliasing(1, 2), S.aliasing(2, 4, 3), S.aliasing(2, 5, 3)],
                lambda: [S.aliasing(2, k) for k in (1, 2, 4, 5)] + [S.aliasing(3, k, 4) for k in (1, 2)]),
    'C11': plan([(pf(nodes={'opt': 1, 'meas': 1}, reports=['keys', 'keys', 'str', 'repr'], steps={'dcoll': 1.5, 'fromd': 1, 'dstate': 0.5, 'screate': 0.3, 'report': 2, 'state': 3, 'readd': 3, 'get': 3, 'del': 3, 'filt': 3, 'copy': 1, 'scopy': 1, 'init': 1, 'cls': 1, 'prep': 1, 'clear': 0.4, 'default': 0.6, 'eval': 1}, nsteps=(6, 12), max_default=27), 120)],
                lambda: [S.containers(2), S.defaults()],
                lambda: [S.containers(3), S.defaults()]),
    'C12': plan([(pf(zeros=0.3, nodes={'opt': 2, 'meas': 1}, steps={'reduce': 5, 'density': 2, 'eval': 2, 'state': 1, 'prep': 1, 'copy': 1}, shapes=[(2, 3, 1), (2, 3, 2), (2, 4, 2), (3, 3, 1), (3, 3, 3), (2, 5, 1), (4, 3, 1), (12, 3, 1), (11, 3, 2)]), 110)],
                lambda: [S.reductions(True), S.reductions(False), S.wide_reductions(True)],
                lambda: [S.reductions(left, True) for left in LR] + [S.wide_reductions(left) for left in LR]),
    'C13': plan([(pf(zeros=0.3, nodes={'opt': 2, 'meas': 1}, steps={'extend': 4, 'adjust': 4, 'reduce': 1, 'density': 1, 'eval': 2, 'state': 1, 'prep': 1, 'copy': 1}, shapes=[(2, 2, 0), (2, 2, 1), (3, 2, 2), (2, 3, 2), (4, 2, 1)]), 110)],
                lambda: [S.extensions(True), S.adjustments(True), S.adjustments(False)] + S.wide_extensions(True, (12,)),
                lambda: [S.extensions(left) for left in LR] + [S.adjustments(left) for left in LR] + flat(S.wide_extensions(True), S.wide_extensions(False))),
    'C14': plan([(pf(nodes={'opt': 2, 'meas': 2}, unnormalised=0.5, steps={'clean': 5, 'density': 1, 'eval': 2, 'state': 2, 'readd': 1, 'comps': 1, 'prob': 1, 'init': 1}, shapes=[(2, 2, 1), (2, 3, 1), (3, 2, 1)], ncomp=[1, 1, 2], maxphotons=[1, 2], nstates=[2, 3, 4]), 110)],
                lambda: [S.cleanups(2, ['A', 'B']), S.small(2)],
                lambda: [S.cleanups(3, ['A', 'B']), S.cleanups(4, ['A']), S.small(2), S.small(3)]),
    'C15': plan([(pf(nodes={'opt': 2, 'meas': 1}, steps={'mix': 4, 'density': 5, 'eval': 2, 'state': 2, 'copy': 1, 'clean': 1, 'prep': 1}, shapes=[(2, 2, 0), (2, 2, 1), (2, 3, 1), (3, 2, 1), (4, 2, 0)], nstates=[2, 3, 4]), 110)],
                lambda: [S.mixtures()],
                lambda: [S.mixtures(), S.mixtures(4)]),
    'C16': plan([(pf(circuits=2, nodes=dict(ALL_NODES, ham=0, wph=0, cwph=0), nnodes=(0, 3), steps={'eval': 3, 'bridge': 2, 'comp': 2, 'refresh': 1, 'ceval': 4, 'cedit': 1, 'cclear': 0.3, 'node': 2, 'state': 1, 'circ': 1}, nsteps=(6, 11)), 100)],
                lambda: flat(S.bridges(True, BR[:4]), S.bridges(False, [(3, 3, 1), (2, 2, 1)]), S.bridges(False, BR[1:4], True), S.compounds(True), S.compound_lists(False), S.bridge_first(False, FIRST)),
                lambda: flat(S.bridges(True, BR), S.bridges(False, BR), S.bridges(True, BR, True), S.bridges(False, BR, True), S.compounds(True), S.compounds(False), S.compound_lists(True), S.bridge_first(True, BR))),
    'C17': plan([(pf(nodes={'opt': 1, 'meas': 0.5, 'shift': 2, 'shiftd': 2, 'cshift': 2, 'cshiftd': 2, 'coupl': 2, 'fock': 2, 'gen': 3}, steps={'eval': 6, 'node': 1, 'state': 1, 'prep': 1}, shapes=[(2, 2, 1), (2, 3, 1), (3, 2, 1), (3, 3, 1), (4, 2, 1)]), 110)],
                lambda: [S.shifts(True, False), S.shifts(False, True)],
                lambda: [S.shifts(left, d) for left in LR for d in LR]),
    'C18': plan([(pf(nodes={'opt': 1, 'meas': 0.5, 'set': 0.5, 'wph': 4, 'cwph': 3, 'ham': 5}, angles=0.7, steps={'eval': 6, 'qop': 1.5, 'node': 1, 'state': 1, 'prep': 1, 'cls': 0.5}, shapes=[(2, 2, 1), (2, 3, 1), (3, 2, 2), (3, 3, 1), (4, 2, 1), (5, 2, 1)], maxphotons=[1, 2, 2, 3]), 110)],
                lambda: [S.hamiltonians(True)],
                lambda: [S.hamiltonians(left) for left in LR]),
    'C19': plan([], lambda: [], extra=[temporal.explore], broad=False),
    'C20': plan([], lambda: [], extra=[superquantum.explore], broad=False),
    'C21': plan([(pf(nodes={'opt': 3, 'meas': 3, 'set': 1}, steps={'histo': 5, 'corr': 4, 'eval': 3, 'state': 2, 'prep': 1, 'node': 1}, shapes=[(2, 2, 2), (3, 3, 2), (2, 4, 2), (3, 3, 3), (11, 2, 2), (4, 2, 2)], angles=0.0, max_value=5), 110)],
                lambda: [S.distributions(True, 2), S.distributions(False, 3)],
                lambda: [S.distributions(left) for left in LR]),
    'C22': plan([(pf(nodes=ALL_NODES, invalid=0.5, steps=dict({'badnode': 8, 'badcirc': 2, 'badset': 1.5, 'dstate': 2, 'eval': 3, 'node': 1, 'state': 1, 'bridge': 0.3}, **dict(POKES, reduce=2, extend=2, adjust=2, mix=2)), nsteps=(8, 16)), 100)],
                lambda: [S.invalid_nodes(2, 2), S.invalid_beamsplitters(4), S.invalid_calls(), S.invalid_calls(11)],
                lambda: [S.invalid_nodes(2, 2), S.invalid_nodes(3, 1), S.invalid_nodes(2, 3), S.invalid_beamsplitters(), S.invalid_calls(), S.invalid_calls(11), S.invalid_calls(3)]),
    'C23': plan([(pf(nodes={'opt': 1}, invalid=0.3, steps={'dstate': 2, 'photons': 2, 'screate': 0.5, 'comps': 5, 'inner': 3, 'outer': 3, 'tensor': 3, 'eval': 1, 'state': 2, 'prep': 1}, shapes=[(2, 2, 0), (2, 3, 0), (3, 2, 1), (3, 3, 0), (4, 2, 0), (2, 4, 0)], ncomp=[1, 2, 3, 4, 6]), 110)],
                lambda: [S.products(True, 3), S.vectors(False)],
                lambda: [S.products(left) for left in LR] + [S.vectors(left) for left in LR]),
    'C24': plan([(pf(drawing=True), 110)],
                lambda: [S.sketches(True), S.sketched_bridges(False, 1)],
                lambda: [S.sketches(left) for left in LR] + [S.sketches(True, 4, 2)] + [S.sketched_bridges(left) for left in LR]),
}

# every plan is followed, in a thorough run, by scenarios over the whole interface
BROAD = pf(nodes=ALL_NODES, steps=EVERYTHING, nsteps=(6, 14))
