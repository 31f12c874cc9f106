LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of set-up, delivery and masking checked exhaustively; recorded processes of the real code receiving real signals validated by TLC against Signals.tla'
NOTE = ('SignalsMC: every sequence of set-ups, deliveries, masks, acknowledgements over 5 (thorough 7) signals. Real processes: every handled signal under both set-ups, masked and unmasked, every pair, random histories, '
        'signals raised six ways, slow calls (read, write, waitpid, recv), earlier dispositions (ignored, one-shot), signal storms during log calls, standard error closed, full or not writable (errno kept); a process that dies, stops or hangs is reported.')
ASSUMPTIONS = ['Linux signal numbers', 'one thread does the masking', 'under SIG_SETMASK signals that are not handled are not judged']
H = [1, 2, 3, 5, 10, 12, 13, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31]
CRASH = lambda r: {'ops': [dict(r, f='Crash')]}
def run(ctx):
    ctx.design('SignalsMC', min_states=500)
    if ctx.thorough: ctx.design('SignalsMC', 'SignalsMCbig', min_states=10000, timeout=2000)
    exe = ctx.build('signals', 'signals.cpp', asan=False)
    r = ctx.rng; s = []
    cause = lambda x: r.choice([0, 1, 2, 3, 5]) 
    def rnd():
        o = []
        if r.random() < .3: o.append('B%d' % r.randint(0, 2))
        o.append(r.choice('in'))
        if r.random() < .4: o.append('E%d' % r.randint(1, 3))
        some = r.sample(H, r.randint(1, 6))
        for _ in range(r.randint(3, 25)):
            x = r.random()
            if x < .45: g = r.choice(some); o.append('r %d %d' % (g, cause(g)))
            elif x < .78:
                bits = r.choice([0, 0xffffffff, 0xfffffffe, sum(1 << i for i in some if r.random() < .5), sum(1 << i for i in r.sample(H, r.randint(1, 8))), r.getrandbits(32)])
                o.append('m %d %d' % (r.choice([0, 0, 1, 1, 2, 2, 3]), bits))
            elif x < .93: o.append('c %d' % r.randint(0, 3))
            else: o.append(r.choice('in'))
        return ' '.join(o)
    for m in 'in':
        for g in H:
            for b in ('', 'B0 ', 'B1 ', 'B2 '):
                s.append('%s%s ' % (b, m) + ' '.join('r %d %d' % (g, how) for how in (0, 1, 2, 3, 5)))
            s.append('%s m 0 %d r %d 0 r %d 0 c 0 m 1 %d r %d 0' % (m, 1 << g, g, g, 1 << g, g))
            s.append('%s m 2 %d r %d 0 m 2 0 m 2 4294967295 r %d 1 m 1 %d' % (m, 1 << g, g, g, 1 << g))
            s.append('%s m 0 %d r %d 0 m 1 4294967295' % (m, 0xffffffff & ~(1 << g), g))
            for h in r.sample(H, ctx.n(4, 20)): s.append('%s m 0 %d r %d 0 r %d 1 m 1 %d m 2 0' % (m, 1 << g, g, h, 1 << h))
            s.append('%s s %d %d s %d %d' % (m, r.randint(0, 3) if g != 17 else 0, g, r.choice([0, 1, 3]), g))
    for _ in range(ctx.n(8, 60)):
        g = r.choice([x for x in H if x != 17]); s.append('%s m 0 %d s 0 %d m 1 %d s 1 %d' % (r.choice('in'), 1 << g, g, 1 << g, g))
    for _ in range(ctx.n(500, 12000)): s.append(rnd())
    for _ in range(ctx.n(8, 100)):
        k = r.sample([x for x in H if x != 17], r.randint(1, 6)); s.append('%s S %d %d %s' % (r.choice('in'), ctx.n(1500, 6000), len(k), ' '.join(map(str, k))))
    ctx.validate('SignalsTrace', ctx.drive(exe, s, 'sig', timeout=ctx.n(240, 2400), crash_line=CRASH), what='signal history', timeout=ctx.n(400, 3000))
