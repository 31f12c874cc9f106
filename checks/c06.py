from shmqlib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of the shared queue; recorded histories of the real code over generated geometries validated by TLC'
NOTE = "Random histories of several objects over many geometries against ShmQueue.tla, in an ASan build with a canary behind the segment; timeouts in virtual time must be waited for exactly. Thorough repeats the histories on the kernel's IPC. Queue size below 4 GB."
def seq(s, r, ops, n_max=5, bs_max=40):
    bs, n = r.randint(2, bs_max), r.randint(1, n_max)
    big, o, v = r.random() < .3, [], 0
    for _ in range(ops):
        x = r.random()
        if x < .45:
            v = v % 250 + 1
            size = r.choice([2, 3, bs, bs - 1, bs + 1, bs // 2, r.randint(2, bs + 3)]) if not big else r.randint(2, max(2, bs // 4))
            o.append('p %d %d %d' % (r.randint(0, 1), v, max(2, min(250, size))))
        elif x < .57: o.append('f %d' % r.randint(0, 1))
        elif x < .72: o.append('u %d %d %d' % (r.randint(2, 3), r.randint(0, 1), r.choice([0, 1, 999, 1000, 100000, 999999])))
        elif x < .86: o.append('g %d' % r.randint(2, 3))
        elif x < .95: o.append('%s %d' % (r.choice('bP'), r.randint(0, 3)))
        else: o.append(r.choice(['p 4 7 3', 'f 4', 'u 4 0 1000', 'g 4', 'd 4']))
    o = ['c %d %d %d 0' % (i, bs, n) for i in (0, 1, 2, 3)] + o + ['b 0']
    s.add([o], 0, pc=0, bs=bs, n=n, ex=1, rand=0, nob=5)
def mixed(s, r, ops):
    'the same objects write and read, all objects of one size'
    sz = r.randint(2, 6); bs, n, o, v = sz * r.randint(1, 5) + r.randint(0, 1), r.randint(2, 4), [], 0
    for _ in range(ops):
        x, ob = r.random(), r.randint(0, 1)
        if x < .4: v = v % 250 + 1; o.append('p %d %d %d' % (ob, v, sz))
        elif x < .55: o.append('f %d' % ob)
        elif x < .7: o.append('u %d 1 0' % ob)
        elif x < .8: o.append('U %d 1 0' % ob)
        elif x < .97: o.append('g %d' % ob)
        else: o.append('b %d' % ob)
    s.add([['c %d %d %d 0' % (i, bs, n) for i in (0, 1)] + o + ['b 0']], 0, pc=0, bs=bs, n=n, ex=1, rand=0, nob=2)
def run(ctx):
    ctx.design('ShmQueueOpsMC', min_states=1000)
    s = Script(ctx); r = ctx.rng
    for _ in range(ctx.n(120, 3000)): seq(s, r, r.randint(5, 60))
    for _ in range(ctx.n(30, 400)): seq(s, r, 40, 3, 12)
    for _ in range(ctx.n(80, 1500)): mixed(s, r, r.randint(10, 60))
    for _ in range(ctx.n(4, 40)): seq(s, r, 400, 60, 255)
    for us in (0, 1, 999999, 1000000, 1000001, 2500000, 100000): s.add([U(0, 1, 0, us) + W(0, [1]) + U(1, 2, 0, us) + U(1, 1, 1, us)], 0, ex=1, rand=0)
    s.go('seq', asan=True)
    if ctx.thorough:
        s.s = [l.replace(' 999999 ', ' 999 ').replace('000000', '00').replace('000001', '01').replace('2500000', '2500').replace('100000', '100') for l in s.s]
        s.go('kernel', exe=real(ctx))
    s = Script(ctx)
    s.add([W(0, [1, 2, 3]) + ['b 0'], ['b 1'] + U(1) + ['b 1']], 1, n=3)
    s.add([W(0, [1, 2, 3]), W(1, [4, 5]), U(2, 2) + ['P 2']], 1, n=3)
    s.add([W(0, [1]) + ['b 0'], W(1, [2]) + ['b 1'], U(2) + ['b 2']], 1, n=2)
    s.go('hist')
