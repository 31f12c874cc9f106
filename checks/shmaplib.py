from shmqlib import FLAGS, WRAP, CRASH
DIMS = {0: (1, 1), 1: (2, 1), 2: (3, 2), 3: (4, 8), 4: (2, 5), 5: (8, 3), 6: (3, 2), 7: (3, 1), 8: (300, 7), 9: (2, 2), 10: (3, 300)}
def build(ctx, asan=False):
    if asan:
        return ctx.build('shmap-asan', 'shmap.cpp', asan=True, lib=True, libs=WRAP)
    return ctx.build('shmap', 'shmap.cpp', flags=FLAGS, asan=False, lib=True, opt='-O0', libs=WRAP)
def real(ctx):
    return ctx.build('shmap-real', 'shmap.cpp', asan=True, lib=True, defs=['REAL'])
class Script:
    def __init__(self, ctx):
        self.ctx, self.r, self.s = ctx, ctx.rng, []
    def add(self, procs, pre=1, geos=None, g=2, pc=1, die=0, intr=0, early=0, ex=None, rand=None):
        if geos is None:
            geos = [g] * (1 + max(int(o.split()[1]) for p in procs for o in p if o != 'A'))
        ex = self.ctx.n(1500, 40000) if ex is None else ex
        rand = self.ctx.n(60, 3000) if rand is None else rand
        self.s.append(' '.join(str(x) for x in [ex, pre, rand, self.r.randint(1, 10 ** 6), die, intr, early, len(geos), pc] + geos + [len(procs)]) + ' ' +
                      ' '.join('%d %s' % (len(o), ' '.join(o)) for o in procs))
    def go(self, name, asan=False, exe=None):
        ctx = self.ctx
        tr = ctx.drive(exe or build(ctx, asan), self.s, name, timeout=ctx.n(200, 3000), crash_line=CRASH)
        ctx.validate('ShmMapTrace', tr, what='shared map history', timeout=ctx.n(400, 3000))
def rkey(r, g, spread=None):
    n, h = DIMS[g]
    x = r.random()
    if x < .55: return r.randint(0, min(n + 2, 320))
    if x < .85: return h * r.randint(0, n + 1)                      # one bucket
    return r.choice([2 ** 64 - 1, 2 ** 63, 2 ** 32, 2 ** 32 + h, 2 ** 64 - 1 - h, 2 ** 31, 10 ** 19, 4294967295])
def ops(r, g, n, ob=(0,), kinds='iiiirreezstIEC'):
    o = []
    for _ in range(n):
        c, b = r.choice(kinds), r.choice(ob)
        k = lambda: rkey(r, g)
        v = lambda: r.randint(1, 10 ** 6)
        if c == 'z' and r.random() < .6: c = 's'
        if c == 'i': o.append('i %d %d %d' % (b, k(), v()))
        elif c in 're': o.append('%s %d %d' % (c, b, k()))
        elif c == 'I': l = r.randint(0, 4); o.append('I %d %d %s' % (b, l, ' '.join('%d %d' % (k(), v()) for _ in range(l))))
        elif c == 'E': l = r.randint(0, 4); o.append('E %d %d %s' % (b, l, ' '.join('%d' % k() for _ in range(l))))
        elif c == 'L': o += ['l %d' % b] + ['%s %d' % (x, b) if x == 'T' else 'q %d %d' % (b, k()) for x in r.choice(['q', 'T', 'qT', 'qq'])] + ['L %d' % b]
        elif c == 'W': o += ['w %d' % b] + [{'T': 'T %d' % b, 'q': 'q %d %d' % (b, k()), 'j': 'j %d %d %d' % (b, k(), v()), 'h': 'h %d %d' % (b, k())}[x] for x in r.choice(['j', 'jh', 'qjq', 'hT', 'jjT'])] + ['W %d' % b]
        else: o.append('%s %d' % (c, b))
    return o
