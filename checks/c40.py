import concurrent.futures, re
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of uses with intermediate data and tables filled on first use, checked exhaustively; pairs of real uses interleaved at chosen points in two threads, results validated by TLC against the uses alone'
NOTE = ('Reentrancy.tla: place of intermediate data (own, locked, shared) and first use (before, locked, marked too soon); the sound disciplines satisfy non-interference and termination, the unsound ones do not. '
        'Real threads running 80+ uses of every part stop before every call the compiler emitted and at accesses to static data; one stops at each of its points while the other runs to its end or to one of its points, in a process where nothing was used before and in one where everything was.')
ASSUMPTIONS = ['at most two preemptions between two threads; points are calls and accesses to static data', 'the C library, libstdc++ and expat are trusted to be reentrant', 'things shared by design (the seeded generator, the log, the signal flags, shared memory) belong to other properties']
def run(ctx):
    from vlib import CheckError, VERIF
    r = ctx.rng
    ctx.design('ReentrancyMC', min_states=2000)
    if ctx.thorough: ctx.design('ReentrancyMC', cfg='ReentrancyMC3', min_states=20000)
    for c in ('ReentrancyShared', 'ReentrancyEarly'):
        rc, out, gen, dist = ctx.tlc('ReentrancyMC', cfg=c)
        if rc != 12: raise CheckError('%s: the unsound discipline was not told apart (TLC %d)\n%s' % (c, rc, out[-1500:]))
    F = ['-fsanitize=thread', '-fno-builtin', '-D_GNU_SOURCE', '-B' + VERIF + '/lib/points/']
    exe = ctx.build('reentrancy', ['reentrancy.cpp', 'points.S'], flags=F, libflags=F, asan=False, libs=['-lexpat'])
    t = open(VERIF + '/drivers/reentrancy.cpp').read()
    names = [n for n in re.findall(r'\bO\((\w+)\)', t[t.index('} ops[] = {'):]) if n != 'n']
    solo = ['solo %s %d' % (n, v) for n in names for v in (0, 1)]
    s = []
    for n in names:
        for v in (0, 1):
            s.append('pair cold %s %d %s %d %d %d' % (n, v, n, 1 - v, ctx.n(100, 2000), r.randint(1, 10**6)))
            s.append('pair warm %s %d %s %d %d %d' % (n, v, n, 1 - v, ctx.n(600, 5000), r.randint(1, 10**6)))
        for m in (names if ctx.thorough else r.sample(names, 16)):
            s.append('pair warm %s %d %s %d %d %d' % (n, r.randint(0, 1), m, r.randint(0, 1), ctx.n(60, 400), r.randint(1, 10**6)))
        for m in r.sample(names, ctx.n(3, 20)):
            s.append('pair cold %s %d %s %d %d %d' % (n, r.randint(0, 1), m, r.randint(0, 1), ctx.n(25, 100), r.randint(1, 10**6)))
    r.shuffle(s)
    W = 6; parts = [solo] + [s[i::W] for i in range(W)]
    with concurrent.futures.ThreadPoolExecutor(W) as ex:
        got = list(ex.map(lambda a: ctx.drive(exe, a[1], 'part%d' % a[0], timeout=ctx.n(200, 3000), args=(ctx.work,)), enumerate(parts)))
    with open(ctx.path('all.ndjson'), 'wb') as o:
        for g in got: o.write(open(g, 'rb').read())
    ctx.validate('ReentrancyTrace', ctx.path('all.ndjson'), what='a use is disturbed by another thread')
