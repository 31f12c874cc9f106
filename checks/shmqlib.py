CRASH = lambda r: {'n': 1, 'nob': 1, 'ev': [{'k': 'Crash', 'p': 1, 'why': r['why'], 'cur': r['cur'][:400], 'msg': r['msg']}]}
FLAGS = ['-fsanitize=thread', '-fno-builtin', '-Wno-tsan']
WRAP = ['-Wl,--wrap=memcpy', '-Wl,--wrap=memmove', '-Wl,--wrap=memset']
def build(ctx, asan=False):
    if asan:
        return ctx.build('shmq-asan', 'shmq.cpp', asan=True, lib=True, libs=WRAP)
    return ctx.build('shmq', 'shmq.cpp', flags=FLAGS, asan=False, lib=True, opt='-O0', libs=WRAP)
def real(ctx):
    return ctx.build('shmq-real', 'shmq.cpp', asan=True, lib=True, defs=['REAL'])
def count(ops):
    return len(ops)
class Script:
    def __init__(self, ctx):
        self.ctx, self.r, self.s = ctx, ctx.rng, []
    def add(self, procs, pre=1, nob=None, pc=1, bs=8, n=3, die=0, intr=0, early=0, ex=None, rand=None):
        if nob is None:
            nob = 1 + max(int(o.split()[1]) for p in procs for o in p if o != 'A')
        ex = self.ctx.n(1500, 40000) if ex is None else ex
        rand = self.ctx.n(60, 3000) if rand is None else rand
        self.s.append(' '.join(str(x) for x in [ex, pre, rand, self.r.randint(1, 10 ** 6), die, intr, early, nob, pc, bs, n, len(procs)]) + ' ' +
                      ' '.join('%d %s' % (len(o), ' '.join(o)) for o in procs))
    def go(self, name, asan=False, exe=None):
        ctx = self.ctx
        tr = ctx.drive(exe or build(ctx, asan), self.s, name, timeout=ctx.n(200, 3000), crash_line=CRASH)
        ctx.validate('ShmQueueTrace', tr, what='shared queue history', timeout=ctx.n(400, 3000))
def W(ob, vals, size=3):
    return [x for v in vals for x in ('p %d %d %d' % (ob, v, size), 'f %d' % ob)]
def U(ob, n=1, nowait=0, usec=1000):
    return ['U %d %d %d' % (ob, nowait, usec)] * n
