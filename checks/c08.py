from shmqlib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ protocol model with process death; crash- and signal-injected histories of the real code validated by TLC'
NOTE = 'Death at every shared-memory access, half block copy and IPC call, signals at every wait, combined with one or two preemptions; survivors must finish and every box they read must be explained by ShmQueue.tla, in which a process may die in any phase. ShmQueueMC checks the protocol with deaths at every step.'
def run(ctx):
    ctx.design('ShmQueueMC', min_states=20000)
    if ctx.thorough: ctx.design('ShmQueueMC', 'ShmQueueMCbig', min_states=10**6)
    s = Script(ctx); r = ctx.rng
    C = lambda ob, bs=8, n=3: ['c %d %d %d 0' % (ob, bs, n)]
    # death anywhere
    for pre in (0, 1):
        s.add([W(0, [1, 2]), U(1, 3)], pre, die=1)
        s.add([W(0, [1]), W(1, [2]), U(2, 3)], pre, die=1)
        s.add([W(0, [1, 2], 8), U(1, 2), U(2, 2)], pre, die=1)
        s.add([W(0, [1, 2, 3, 4], 8), U(1, 2), U(2, 3)], pre, die=1, n=3)
        s.add([['S 0 0 5', 'G 0 1'], ['S 1 0 6', 'G 1 0'], W(2, [1])], pre, die=1)
        s.add([C(0) + W(0, [1]), C(1) + U(1)], pre, die=1, pc=0)
        s.add([W(0, [1]) + ['d 0'], W(1, [2]), U(2, 3)], pre, die=2)
    # a signal at any wait
    s.add([W(0, [1]), W(1, [2]), U(2, 2)], 1, intr=1)
    s.add([W(0, [1, 2]), U(1, 2), U(2)], 2, intr=1)
    s.add([['S 0 0 5', 'G 0 0'], ['S 1 0 6', 'G 1 0']], 2, intr=2)
    s.add([C(0) + W(0, [1]), C(1) + W(1, [2]), C(2) + U(2, 2)], 1, intr=1, pc=0)
    for _ in range(ctx.n(20, 300)):
        procs, v = [], [0]
        n, bs = r.randint(2, 4), r.randint(4, 24)
        for p in range(r.randint(2, 4)):
            ops = []
            for _ in range(r.randint(1, 4)):
                if p % 2 == 0:
                    v[0] += 1; ops.append('p %d %d %d' % (2 * p, v[0], r.randint(2, bs)))
                    if r.random() < .8: ops.append('f %d' % (2 * p))
                else:
                    ops += U(2 * p + 1, 1, r.random() < .3)
            procs.append(ops)
        s.add(procs, 1, n=n, bs=bs, nob=10, die=r.randint(0, 2), intr=r.randint(0, 2), ex=ctx.n(60, 600), rand=ctx.n(60, 600))
    s.go('hist')
