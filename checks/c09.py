from shmaplib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ map specification; long operation sequences of the real code (ASan) validated by TLC'
NOTE = "Random sequences of all map operations over 10 geometries with two objects on one segment, full-map, same-bucket and 64-bit boundary keys, hundreds of entries; every result and every iteration is judged by ShmMap.tla. Thorough also runs them on the kernel's own System V IPC."
def run(ctx):
    ctx.design('ShmMapOpsMC', min_states=10000)
    s = Script(ctx); r = ctx.rng
    for _ in range(ctx.n(220, 6000)):
        g = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10])
        s.add([ops(r, g, r.randint(5, 60), (0, 1), 'iiiirreezstIECLW')], 0, geos=[g, g], ex=1, rand=0)
    for _ in range(ctx.n(3, 30)):    # hundreds of entries
        o = []
        for i in range(310): o.append('i 0 %d %d' % (i * r.choice([1, 7]), i))
        o += ops(r, 8, 60, (0,)) + ['E 0 5 1 2 3 4 5', 's 0', 't 0', 'z 0', 's 0', 't 0'] + ops(r, 8, 30, (0,))
        s.add([o], 0, geos=[8], ex=1, rand=0)
    s.go('seq', asan=True)
    if ctx.thorough: s.go('kernel', exe=real(ctx))
