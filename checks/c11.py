from shmaplib import *
LEVEL = 'model_checking'
TECHNIQUE = "TLA+ specification of the map's life cycle; recorded life cycles and systematically explored creation races validated by TLC"
NOTE = 'Random connect/disconnect/destroy sequences with right and wrong dimensions, missing key file, second connect; systematic creation races of two and three processes; attachments of each process are counted.'
def run(ctx):
    ctx.design('ShmMapOpsMC', min_states=10000)
    if ctx.thorough: ctx.design('ShmMapOpsMC', 'ShmMapOpsMCbig', min_states=100000)
    s = Script(ctx); r = ctx.rng
    for _ in range(ctx.n(200, 5000)):
        g = r.choice([0, 1, 2, 3, 5, 6, 7, 9, 10]); geos = [g, g, g, r.choice(sorted(DIMS)), r.choice(sorted(DIMS))]; o = []
        if r.random() < .3: r.shuffle(geos)
        for _ in range(r.randint(4, 40)):
            ob, x = r.randint(0, 4), r.random()
            if x < .35: o.append('c %d %d' % (ob, r.random() < .12))
            elif x < .5: o.append('%s %d' % (r.choice('dx'), ob))
            elif x < .62: o.append(r.choice(['A', 'k %d' % ob]))
            else: o += ops(r, g, 1, (ob,), 'iiirrest')
        s.add([o + ['A']], 0, geos=geos, pc=0, ex=1, rand=0)
    s.go('seq', asan=True)
    if ctx.thorough: s.go('kernel', exe=real(ctx))
    s = Script(ctx)
    C = lambda ob: ['c %d 0' % ob]
    for pre in (1, 2):
        s.add([C(0) + ['i 0 1 10'], C(1) + ['r 1 1', 'i 1 2 20']], pre, pc=0)
        s.add([C(0) + ['i 0 1 10', 'd 0'] + C(0) + ['r 0 1', 'A'], C(1) + ['s 1', 'x 1', 'A']], pre, pc=0)
    s.add([C(0) + ['i 0 1 10', 's 0'], C(1) + ['i 1 2 20'], C(2) + ['i 2 1 30']], 1, pc=0)
    s.add([C(0) + ['i 0 1 10', 's 0'], C(1) + ['s 1', 'A'], C(2) + ['i 2 1 30']], 1, geos=[2, 5, 2], pc=0)
    s.add([C(0) + ['i 0 1 10', 's 0'], C(1) + ['s 1', 'A'], C(2) + ['i 2 1 30', 'A']], 1, geos=[2, 6, 0], pc=0)
    s.add([C(0) + ['w 0', 'j 0 1 1', 'q 0 1', 'W 0'], C(1) + ['w 1', 'q 1 1', 'j 1 1 2', 'W 1']], 1, pc=0)
    s.go('race')
