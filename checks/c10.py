from shmaplib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ map specification with a read/write lock; systematically explored interleavings of the real code validated by TLC'
NOTE = 'Bounded-preemption DFS and random interleavings of 2-4 processes over the real code compiled against an emulated System V IPC; every history must be linearizable against ShmMap.tla, in which explicitly locked sections exclude others. ShmMapMC checks the lock protocol (exclusion, counts, termination) with deaths and signals at each step.'
def run(ctx):
    ctx.design('ShmMapOpsMC', min_states=10000)
    ctx.design('ShmMapMC', min_states=100000)
    if ctx.thorough: ctx.design('ShmMapMC', 'ShmMapMCdeep', min_states=10**6, timeout=1500)
    s = Script(ctx); r = ctx.rng
    s.add([['i 0 1 10'], ['r 1 1']], 3)
    s.add([['i 0 1 10', 'i 0 1 20'], ['r 1 1', 'r 1 1']], 2)
    s.add([['i 0 1 10'], ['i 1 3 30'], ['r 2 1', 'r 2 3']], 1)
    s.add([['i 0 1 10', 'e 0 1'], ['i 1 3 30', 'e 1 3'], ['s 2']], 1)
    s.add([['I 0 2 1 10 3 30'], ['t 1', 's 1']], 2)
    s.add([['I 0 2 1 10 2 20', 'E 0 2 1 2'], ['r 1 2', 'r 1 1', 't 1']], 1)
    s.add([['i 0 1 10', 'z 0'], ['r 1 1', 's 1'], ['i 2 2 20']], 1)
    s.add([['w 0', 'q 0 1', 'j 0 1 11', 'W 0'], ['w 1', 'q 1 1', 'j 1 1 12', 'W 1']], 2)
    s.add([['w 0', 'j 0 1 11', 'W 0'], ['l 1', 'q 1 1', 'q 1 1', 'L 1'], ['l 2', 'q 2 1', 'L 2']], 1)
    s.add([['l 0', 'q 0 1', 'L 0', 'e 0 1'], ['i 1 1 5'], ['l 2', 'T 2', 'L 2']], 1)
    for g, n in [(5, 3), (5, 4), (5, 8), (8, 20), (8, 70)]:         # long batches, against one look at the whole and one at the ends
        ks = r.sample(range(1, 400), n); I = 'I 0 %d %s' % (n, ' '.join('%d %d' % (k, k) for k in ks)); E = 'E 0 %d %s' % (n, ' '.join(str(k) for k in ks))
        ex = ctx.n(200 if n < 20 else 120, 4000)
        s.add([[I, E], ['s 1']], 1, g=g, ex=ex, rand=ctx.n(60, 600))
        s.add([[I, E], ['r 1 %d' % ks[-1], 'r 1 %d' % ks[0]]], 1, g=g, ex=ex, rand=ctx.n(60, 600))
        if n < 20: s.add([[I], ['i 1 %d 5' % ks[n // 2], 't 1']], 1, g=g, ex=ex, rand=ctx.n(60, 600))
    for _ in range(ctx.n(40, 600)):
        g = r.choice([1, 2, 5, 7, 9])
        s.add([ops(r, g, r.randint(1, 4), (p,), 'iiirreezstIELW') for p in range(r.randint(2, 4))], 1, g=g, geos=[g] * 4, ex=ctx.n(30, 300), rand=ctx.n(60, 600))
    s.go('hist')
