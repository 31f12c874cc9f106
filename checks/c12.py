from shmaplib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ protocol model with process death and signals; crash- and signal-injected histories of the real code validated by TLC'
NOTE = 'Death at every shared-memory access and IPC call, signals at every wait, combined with preemptions; survivors must finish and what they see must be explained by ShmMap.tla, in which a process may die at any phase. ShmMapMC checks lock and chain structure with a death at every store.'
def run(ctx):
    ctx.design('ShmMapOpsMC', min_states=10000)
    ctx.design('ShmMapMC', min_states=100000)
    if ctx.thorough:
        ctx.design('ShmMapMC', 'ShmMapMCbig', min_states=500000)
        ctx.design('ShmMapMC', 'ShmMapMCdeep', min_states=10**6, timeout=1500)
    s = Script(ctx); r = ctx.rng
    C = lambda ob: ['c %d 0' % ob]
    for pre in (0, 1):
        s.add([['i 0 1 10'], ['i 1 3 30', 'r 1 1', 's 1']], pre, die=1)
        s.add([['i 0 1 10', 'i 0 3 30', 'e 0 1'], ['i 1 5 50', 'r 1 3', 'e 1 3', 't 1']], pre, die=1)
        s.add([['i 0 1 10', 'i 0 3 30', 'e 0 3', 'i 0 5 50', 'e 0 1'], ['i 1 7 70', 'r 1 9', 'e 1 1', 'i 1 9 90', 'r 1 11', 's 1', 't 1']], pre, die=1, g=7)
        s.add([['i 0 1 10', 'z 0'], ['i 1 3 30', 'r 1 5', 's 1']], pre, die=1, g=7)
        s.add([['i 0 1 10', 'i 0 2 20', 'z 0'], ['i 1 3 30', 'r 1 5', 'i 1 4 40', 'i 1 5 50', 'r 1 6', 'z 1', 'i 1 4 40', 't 1']], pre, die=1)
        s.add([['i 0 1 10', 'z 0', 'i 0 2 20'], ['i 1 1 11', 'I 1 3 2 20 4 40 6 60', 'r 1 2', 'E 1 2 2 4', 't 1']], pre, die=1)
        s.add([['i 0 1 10', 'e 0 1', 'z 0'], ['i 1 1 11', 'i 1 3 30', 'i 1 5 50', 'i 1 7 70', 'e 1 1', 'e 1 3', 'e 1 5', 'r 1 9', 'z 1', 'i 1 1 1', 's 1']], pre, die=1, g=7)
        s.add([['w 0', 'j 0 1 11', 'W 0'], ['l 1', 'q 1 1', 'L 1'], ['w 2', 'j 2 1 12', 'W 2']], pre, die=1)
        s.add([['l 0', 'q 0 1', 'L 0'], ['i 1 1 5', 'r 1 1'], ['e 2 1']], pre, die=1)
        s.add([C(0) + ['i 0 1 10'], C(1) + ['i 1 2 20', 'r 1 2', 's 1']], pre, die=1, pc=0)
        s.add([['I 0 3 1 10 2 20 3 30', 'E 0 2 1 3'], ['r 1 2', 's 1', 'I 1 2 5 50 7 70', 't 1']], pre, die=1)
    s.add([['i 0 1 10', 'r 0 1'], ['i 1 3 30'], ['r 2 1', 's 2']], 1, intr=2)
    s.add([['w 0', 'q 0 1', 'j 0 1 11', 'W 0'], ['w 1', 'q 1 1', 'j 1 1 12', 'W 1']], 2, intr=1)
    s.add([['w 0', 'j 0 1 11', 'W 0'], ['l 1', 'q 1 1', 'q 1 1', 'L 1'], ['l 2', 'q 2 1', 'L 2']], 1, intr=1)
    s.add([C(0) + ['i 0 1 10'], C(1) + ['i 1 2 20', 'r 1 1'], C(2) + ['i 2 1 30']], 1, intr=1, pc=0)
    s.add([C(0) + ['w 0', 'j 0 1 1', 'q 0 1', 'W 0', 'A'], C(1) + C(1) + ['w 1', 'q 1 1', 'j 1 1 2', 'W 1', 'A']], 1, intr=2, pc=0)
    s.add([C(0) + ['s 0'], C(1) + ['s 1']], 2, intr=1, pc=0, ex=ctx.n(4000, 60000), rand=ctx.n(500, 10000))
    s.add([C(0) + ['s 0'], C(1) + ['i 1 1 1'], C(2)], 2, intr=1, pc=0, ex=ctx.n(1500, 40000), rand=ctx.n(1500, 10000))
    for _ in range(ctx.n(30, 400)):
        g = r.choice([1, 2, 5, 7, 9]); kinds = r.choice(['iiirreezstIELW', 'iiee', 'iiez', 'IE', 'WLir'])
        s.add([ops(r, g, r.randint(1, 5), (p,), kinds) for p in range(r.randint(2, 4))], 1, g=g, geos=[g] * 4, die=r.randint(0, 2), intr=r.randint(0, 2), ex=ctx.n(60, 600), rand=ctx.n(60, 600))
    s.go('hist')
