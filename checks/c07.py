from shmqlib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of the shared queue; recorded lifecycles and systematically explored creation races of the real code validated by TLC'
NOTE = 'Random lifecycles (right, other and equal-sized geometries, missing key file, second connect, registers) and systematic creation races against ShmQueue.tla; attachments of a process are counted.'
def life(s, r, ops):
    bs, n = r.choice([(8, 4), (16, 2), (5, 3), (12, 3)])
    o = []; v = 0
    for _ in range(ops):
        ob = r.randint(0, 3); x = r.random()
        if x < .30:
            g = (bs, n) if r.random() < .6 else r.choice([(n, bs), (bs * 2, n), (bs, n + 1), (bs, n - 1), (bs - 1, n), (bs + 1, n - 1), (2 * bs, n // 2), (bs // 2, 2 * n)])
            o.append('c %d %d %d %d' % (ob, g[0], g[1], r.random() < .12))
        elif x < .40: o.append('%s %d' % (r.choice('dx'), ob))
        elif x < .55: v = v % 250 + 1; o += W(ob, [v], r.randint(2, bs))
        elif x < .65: o += U(ob, 1, 1)
        elif x < .77: o.append('S %d %d %s' % (ob, r.choice([0, 1, 5, 10, 11, 12, 13, 255, r.randint(0, 11)]), r.choice(['0', '1', '4294967295', '2147483648', str(r.randint(0, 2 ** 32 - 1))])))
        elif x < .92: o.append('G %d %d' % (ob, r.choice([0, 1, 5, 10, 11, 12, 13, 255, r.randint(0, 11)])))
        else: o.append(r.choice(['A', 'b %d' % ob, 'N %d' % ob]))
    s.add([o + ['A']], 0, pc=0, nob=4, bs=bs, n=n, ex=1, rand=0)
def run(ctx):
    ctx.design('ShmQueueOpsMC', min_states=1000)
    s = Script(ctx); r = ctx.rng
    for _ in range(ctx.n(200, 5000)): life(s, r, r.randint(4, 40))
    s.go('seq', asan=True)
    if ctx.thorough: s.go('kernel', exe=real(ctx))
    s = Script(ctx)
    C = lambda ob, bs=8, n=3: ['c %d %d %d 0' % (ob, bs, n)]
    s.add([C(0) + W(0, [1]), C(1) + U(1)], 2, pc=0)
    s.add([C(0) + ['S 0 3 77'], C(1) + ['G 1 3']], 2, pc=0)
    s.add([C(0) + W(0, [1]), C(1) + W(1, [2]), C(2) + U(2, 2)], 1, pc=0)
    s.add([C(0) + W(0, [1]) + ['d 0'] + C(0) + U(0, 1), C(1, 8, 4) + C(1) + W(1, [2]) + ['A']], 1, pc=0)
    s.add([C(0) + C(1, 4, 6) + W(0, [1]) + ['A'], C(2) + U(2) + ['x 2'] + C(2) + ['G 2 0']], 1, pc=0)
    s.add([['S 0 1 5', 'G 0 2', 'G 0 1'], ['S 1 1 6', 'S 1 2 7'], W(2, [1])], 1)
    s.go('race')
