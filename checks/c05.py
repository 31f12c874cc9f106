from shmqlib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of the shared queue, protocol model-checked; histories of the real code under a controlled scheduler with emulated System V IPC checked for linearizability by TLC'
NOTE = 'Every interleaving at shared-memory accesses, halves of block copies and IPC calls of small scenarios with up to 3 preemptions, larger ones sampled. ShmQueue.tla splits a delivery into reserving (count) and taking (ring head); ShmQueueMC is the ring protocol at one shared access per step. IPC is emulated (own mapping per attach); sequentially consistent interleavings only.'
def run(ctx):
    ctx.design('ShmQueueMC', min_states=20000)
    if ctx.thorough: ctx.design('ShmQueueMC', 'ShmQueueMCbig', min_states=10**6)
    s = Script(ctx); r = ctx.rng
    s.add([W(0, [1]), U(1)], 3)
    s.add([W(0, [1, 2]), U(1, 2)], 2, n=2)
    s.add([W(0, [1, 2]), U(1, 2)])
    s.add([W(0, [1]), W(1, [2]), U(2, 2)])
    s.add([W(0, [1, 2]), U(1), U(2)])
    s.add([W(0, [1]), W(1, [2]), U(2), U(3)])
    s.add([W(0, [1, 2, 3, 4, 5]), U(1, 5)])
    s.add([W(0, [1]), W(1, [2]), U(2, 1) + ['b 2'] + U(2)], 2, n=2)
    s.add([['p 0 1 4', 'p 0 2 4', 'p 0 3 8', 'p 0 4 2', 'f 0'], U(1, 3)])
    for _ in range(ctx.n(30, 400)):
        procs, v = [], [0]
        n, bs = r.randint(2, 5), r.randint(4, 24)
        for p in range(r.randint(2, 4)):
            ops = []
            for _ in range(r.randint(1, 5)):
                if p % 2 == 0:
                    v[0] += 1; ops.append('p %d %d %d' % (2 * p, v[0], r.randint(2, bs)))
                    if r.random() < .7: ops.append('f %d' % (2 * p))
                else:
                    ops += U(2 * p + 1, 1, r.random() < .3)
            procs.append(ops)
        s.add(procs, 1, n=n, bs=bs, nob=10, early=1, ex=ctx.n(30, 300), rand=ctx.n(60, 600))
    s.go('hist')
