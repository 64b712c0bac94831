"""C20: stateful stream operators (accumulators, counters, pulses, predicates) under valid gaps and back-pressure"""
from checks import c19

PID = 'C20'
RULE = ('a case is a random stream graph with accumulators (ReduceAdd/Sub/Max/Min/Custom and their Valid forms), Counter, Pulse, '
        'Predicate/Reg, RandXorshift, ring buffers and scratchpads (read at once or some stages later), mixed with ordinary operators, with size/interval/initval/enable/reset, driven with valid gaps '
        'and back-pressure; every cycle every output is compared with a model that folds exactly the valid items, once each; '
        'distinct = operator multiset and handshake form')
ASSUMPTIONS = c19.ASSUMPTIONS + ['a disabled item leaves the accumulator unchanged; a reset item restarts from initval before it is folded']
MIN_EVENTS = {'outputs': 5000, 'items': 1000, 'stalled_outputs': 300}
K = ['Reduce'] * 6 + ['Counter'] * 2 + ['Pulse', 'Predicate', 'Predicate', 'Rand', 'ReduceV', 'RingRead', 'RingRead', 'PadRead', 'Plus', 'Minus', 'prev', 'Mux', 'Pointer', 'Slice', 'cmp', 'Times', 'Cast']


def counts(tier):
    return 200 if tier == 'quick' else 6000


def gen(rng, i, tier):
    return c19.gen1(rng, i, tier, K, True)


run = c19.run
