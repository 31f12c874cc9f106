LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of arrays indexed by order of magnitude, laws model-checked; recorded runs of the real template validated by TLC'
NOTE = ('LogArray.tla works on binary digit sequences, so 64-bit numbers are exact; LogArrayMC relates it to repeated halving. Runs over ten element types and nine sizes (and the default one) in prefilled memory, three arrays, '
        'every number around every power of two, writes, reads, exchanges (with itself too); all arrays are read after every step.')
ASSUMPTIONS = ['the number 0 has no order of magnitude and is not looked up']
CRASH = lambda r: {'m': 1, 'ops': [dict(r, f='Crash')]}
def run(ctx):
    ctx.design('LogArrayMC', min_states=1000)
    exe = ctx.build('logarray', 'logarray.cpp', lib=False)
    r = ctx.rng; s = []
    edge = sorted({v for k in range(64) for v in (2**k - 1, 2**k, 2**k + 1, 2**k + 2**k // 2) if 0 < v < 2**64} | {2**64 - 1, 2**64 - 2})
    sizes = [0, 1, 2, 5, 8, 16, 33, 63, 64, 70]
    for m in sizes:
        for t in 'cCsSiIlLfd':
            o = [];
            for j in range(0, len(edge), 40): s.append('%d %s %s' % (m, t, ' '.join('put 1 %d %d look 1 %d look 2 %d' % (v, r.randint(1, 100), v, v) for v in edge[j:j + 40])))
    for _ in range(ctx.n(300, 10000)):
        m = r.choice(sizes); o = []
        for _ in range(r.randint(1, 25)):
            x = r.random(); k = r.randint(1, 3); v = r.choice(edge) if r.random() < .5 else r.randint(1, 2**r.randint(1, 64) - 1)
            o.append('put %d %d %d' % (k, v, r.randint(0, 100)) if x < .4 else 'look %d %d' % (k, v) if x < .65 else 'at %d %d %d' % (k, r.randrange(m or 8), r.randint(0, 100)) if x < .85 else 'swap %d %d' % (k, r.randint(1, 3)))
        s.append('%d %s %s' % (m, r.choice('cCsSiIlLfd'), ' '.join(o)))
    ctx.validate('LogArrayTrace', ctx.drive(exe, s, 'runs', crash_line=CRASH), what='run of log arrays')
