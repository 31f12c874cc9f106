def path_script(paths, cfg, keys, sizes):
    """Every emitted path (a shortest one to each abstract state), extended by every operation, then full probe."""
    out = []
    for p in paths:
        n = [0]
        def tok(o):
            if o['op'] == 't':
                return 't 1'
            if o['op'] == 's':
                n[0] += 1
                return 's %d %d %d %d' % (o['k'], n[0], o['s'], 1 if o['u'] else 0)
            return '%s %d' % (o['op'], o['k'])
        base = ' '.join(tok(o) for o in p)
        nxt = ['t 1'] + ['%s %d' % (c, k) for c in 'gGe' for k in keys] + ['s %d 99 %d %d' % (k, s, u) for k in keys for s in sizes for u in (0, 1)]
        for x in nxt:
            out.append('B %s %s %s %s' % (cfg, base, x, ' '.join('%s %d' % ('gG'[(k + len(p)) % 2], k) for k in keys)))
    return out

def random_runs(rng, n, length, with_time):
    out = []
    for _ in range(n):
        kind = rng.choice('BBBSVIN')
        nk = rng.randint(1, 12)
        base = {'B': 0, 'S': 32, 'V': 24, 'I': 8, 'N': 8}[kind]
        unit = rng.choice([1, 7, 100])
        mx = {'B': rng.randint(0, 12 * unit), 'S': rng.randint(20, 700), 'V': rng.randint(10, 600), 'I': rng.randint(0, 80), 'N': rng.randint(0, 60)}[kind]
        if rng.random() < .1: mx = 10**7
        ttl = rng.choice([0, 1, 2, 5, 60]) if with_time else rng.choice([0, 0, 3])
        ops, v = [], 0
        for _ in range(length):
            x = rng.random()
            k = rng.randint(1, nk)
            if x < .45:
                v += 1
                sz = {'B': rng.choice([0, 1, unit, 2 * unit, 3 * unit, mx, mx + 1, max(0, mx - 1)]), 'S': rng.choice([0, 5, 15, 16, 31, 100, 300]), 'V': rng.randint(1, 40), 'I': 0, 'N': 0}[kind]
                ops.append('s %d %d %d %d' % (k, v, sz, rng.randint(0, 1)))
            elif x < .6: ops.append('g %d' % k)
            elif x < .75: ops.append('G %d' % k)
            elif x < .88: ops.append('e %d' % k)
            elif ttl: ops.append('t %d' % rng.choice([1, 1, ttl, ttl + 1, max(1, ttl - 1)]))
        ops += ['g %d' % k for k in range(1, nk + 1)]
        if kind == 'N': kind = 'N ' + rng.choice('cCsSiIlLqfdDp')
        out.append('%s %d %d %s' % (kind, mx, ttl, ' '.join(ops)))
    return out

def wide_runs(rng, n, length):
    """Sizes and lifetimes beyond 32 bits, clocks past 2038 and 2106 or near 0, set back now and then."""
    out = []
    for _ in range(n):
        unit = rng.choice([1, 2**31, 2**32, 2**32 + 1, 2**33 - 1, 2**40, 2**58])
        span = rng.choice([2000, 86400, 2**31, 2**32, 2**32 + 1, 2**36])
        start = rng.choice([500, 1000000, 2**31 - 2, 2**32 - 2, 2**31 + 5, 2**40])
        mx, nk, ttl = rng.randint(0, 12), rng.randint(1, 6), rng.choice([0, 1, 1, 2, 3, 9, -1])
        ops, v, small, back, spans = [], 0, 0, 0, 0
        for _ in range(length):
            x, k = rng.random(), rng.randint(1, nk)
            if x < .4:
                v += 1
                ops.append('s %d %d %d %d' % (k, v, rng.choice([0, 1, 1, 2, 3, mx, mx + 1]), rng.randint(0, 1)))
            elif x < .7: ops.append('%s %d' % (rng.choice('gG'), k))
            elif x < .75: ops.append('e %d' % k)
            elif x < .82 and small < 900:
                d = rng.choice([1, 1, 1, 2, 5]); small += d; ops.append('t %d' % d)
            elif x < .86 and back < 400:
                d = rng.choice([1, 1, 2, 5]); back += d; ops.append('t %d' % -d)
            elif x < .95 and spans < 1000:
                d = rng.choice([1, 1, max(1, ttl), max(1, ttl - 1)]); spans += d; ops.append('T %d' % d)
        ops += ['g %d' % k for k in range(1, nk + 1)]
        out.append('W %d %d %d %d %d %s' % (unit, span, start, mx, ttl, ' '.join(ops)))
    return out

CRASH = lambda r: dict(max=0, ttl=0, ops=[dict(op='Crash', k=0, v=0, s=0, u=False, r=False, n=0, ne=0, sc=0)], crash=r)

def run(ctx, judge):
    exe = ctx.build('cache', 'cache.cpp')
    ctx.design('CacheMC', 'CacheMC', min_states=1000)
    if ctx.thorough: ctx.design('CacheMC', 'CacheMCbig', timeout=3000)
    script = []
    keys = [1, 2, 3]
    for mx, ttl in [(3, 0), (4, 0), (3, 1)] if judge == 'C01' else [(3, 0), (3, 1), (6, 2)]:
        cfg = open_cfg(keys, mx, ttl, 3 if ttl else 0)
        out = ctx.design('CacheMC', cfgtext=cfg, tag='paths-%d-%d' % (mx, ttl), workers=1)
        ps = ctx.emitted(out)
        lim = ctx.n(250, 100000)
        if len(ps) > lim: ps = ps[:60] + ctx.rng.sample(ps[60:], lim - 60)
        script += path_script(ps, '%d %d' % (mx, ttl), keys, [1, 2])
    ctx.extra['paths_from_spec'] = len(script)
    script += random_runs(ctx.rng, ctx.n(400, 5000), 60, judge == 'C02')
    script += random_runs(ctx.rng, ctx.n(30, 300), 600, judge == 'C02')
    script += wide_runs(ctx.rng, ctx.n(400, 4000), 50)
    tr = ctx.drive(exe, script, 'runs', crash_line=CRASH)
    ctx.validate('CacheTrace', tr, 'CacheTrace' + judge, what='cache run')

def open_cfg(keys, mx, ttl, maxnow):
    return '''CONSTANTS
 Keys = {%s}
 Sizes = {1,2}
 Max = %d
 Ttl = %d
 MaxNow = 8
 MaxVal = 100
 MaxHist = 12
 EmitPaths = TRUE
 NoVal = 0
SPECIFICATION Spec
VIEW View
INVARIANTS BudgetInv UniqueInv Emit
CONSTRAINT HistBound
''' % (','.join(map(str, keys)), mx, ttl)
