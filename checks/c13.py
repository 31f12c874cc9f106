import itertools
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of pool and stack, model-checked for N<=4; recorded runs of the real templates replayed through it by TLC'
NOTE = ('Pool.tla leaves open which free index is handed out. Runs use two handles on the same memory, in regions of exactly the sizes the code asks for (address sanitizer): all '
        'operation sequences up to length 5 for N=1,2 and random long ones for N up to 100. Operations are sequential: the templates leave locking to their users.')
CRASH = lambda r: {'n': 1, 'ops': [{'f': 'count', 'r': 77, 'why': r['why'], 'cur': r['cur'][:400], 'msg': r['msg']}]}
def run(ctx):
    r = ctx.rng
    exe = ctx.build('pool', 'pool.cpp', lib=False, flags=['-Wno-deprecated'])
    ctx.design('PoolMC', min_states=100)
    s = []
    al = ['alloc', 'free 0', 'free 1', 'pclear', 'pattach']
    for n in range(1, ctx.n(6, 8)):
        for w in itertools.product(al, repeat=n):
            if n < 5 or w[0] == 'alloc' and w[1] in ('alloc', 'free 0'):
                ops = []
                for x in w:
                    v = x.split(); ops += [' '.join([v[0], str(r.randint(0, 1))] + v[1:]), 'count %d' % r.randint(0, 1)]
                s.append('%d %s' % (r.choice([1, 2, 2, 3]), ' '.join(ops)))
    al = ['push', 'pop', 'sclear', 'sattach']
    for n in range(1, ctx.n(6, 8)):
        for w in itertools.product(al, repeat=n):
            ops = []
            for x in w:
                h = r.randint(0, 1)
                ops.append('push %d %d' % (h, r.randint(0, 10 ** 9)) if x == 'push' else '%s %d' % (x, h))
                ops.append('%s %d' % (r.choice(['used', 'empty']), r.randint(0, 1)))
            s.append('%d %s' % (r.choice([1, 2, 2, 3]), ' '.join(ops)))
    for _ in range(ctx.n(300, 6000)):
        n = r.choice([1, 2, 3, 7, 7, 100]); ops = []; up = r.uniform(.35, .7)
        for _ in range(r.randint(10, 60 if n < 100 else 500)):
            x = r.random(); h = r.randint(0, 1)
            if x < .45: ops.append('alloc %d' % h if r.random() < up else 'free %d %d' % (h, r.choice([0, r.randint(0, 200)])))
            elif x < .85: ops.append('push %d %d' % (h, r.randint(0, 10 ** 9)) if r.random() < up else 'pop %d' % h)
            elif x < .93: ops.append('%s %d' % (r.choice(['count', 'used', 'empty']), h))
            elif x < .95: ops.append('%s %d' % (r.choice(['pattach', 'sattach']), h))
            elif x < .98: ops.append('%s %d' % (r.choice(['pbad', 'sbad']), r.randint(0, 2)))
            else: ops.append('%s %d' % (r.choice(['pclear', 'sclear']), h))
        s.append('%d %s count 0 used 1' % (n, ' '.join(ops)))
    for n in (1, 2, 3, 7, 100):          # fill, drain and refill
        s.append('%d ' % n + ' '.join(['alloc 0', 'push 1 %d' % n] * (n + 2) + ['count 0', 'used 0', 'empty 0'] + ['free 1 %d' % (n // 2), 'pop 0'] * n + ['count 1', 'used 1', 'empty 1'] + ['alloc 1'] * (n + 1)))
    ctx.validate('PoolTrace', ctx.drive(exe, s, 'runs', crash_line=CRASH), what='pool/stack run')
    ctx.extra['rule'] = 'a line is a run of one pool and one stack through two handles; all operation sequences up to length 5, random runs up to 500 operations, fill/drain/refill'
