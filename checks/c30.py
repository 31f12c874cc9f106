from vlib import hexs
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of the log across rotations checked exhaustively; recorded histories of the real logger (sequential with failures injected, and threads racing with rotations) validated by TLC against Logger.tla and LogThreads.tla'
NOTE = ('LoggerMC: threads writing lines in pieces against rotations that can fail at each step. Real histories: all levels, thresholds, thread names, raw writes, rotations over directory trees with links and obstacles, renamed files, '
        'each system call of log_create failing in turn, virtual clocks and time zones (every line parsed, time included); threads logging long lines while others rotate, each line located.')
ASSUMPTIONS = ['the program does not replace stderr or its buffering itself', 'level texts that share the first letter of a name without being one are not judged', 'an empty line that log_err adds after its message is part of the message']
WRAPS = 'gettimeofday clock_gettime time localtime localtime_r open open64 mkdir dup2 dup3 malloc'.split()
CRASH = lambda r: {'ops': [dict(r, f='Crash')], 'tree': [], 'cur': [], 'level': 0, 'ids': []}
CRASH2 = lambda r: {'level': 9, 'lv1': 0, 'logs': [], 'rots': [], 'files': [{'ok': 0, 's': []}], 'day': 0, 'sec': 0, 'ms': 0, 'crash': r}
LV = ['access', 'emerg', 'alert', 'crit', 'error', 'warn', 'notice', 'info', 'debug']
def tree(r):
    t = []
    for _ in range(r.randint(0, 7)):
        base = r.choice([''] + [p + '/' for k, p, c in t if k == 'd'])
        p = base + r.choice(['a', 'b', 'c', 'log', 'x.log', 'y', 'n' * 255])
        if any(q == p for _, q, _ in t): continue
        k = r.choice('dddffl')
        t.append((k, p, '' if k == 'd' else r.choice(['', 'old\n', 'old text without end', 'x' * 300 + '\n']) if k == 'f' else r.choice(['a', 'b', 'log', 'nowhere', './c', 'a/b', '../b' if base else 'c', 'x.log'])))
    return t
def path(r, t):
    x = r.random()
    some = [p for k, p, c in t] or ['a']
    if x < .3: p = r.choice(some)
    elif x < .6: p = r.choice(some) + '/' + r.choice(['new', 'd1/d2/file', 'log', 'x.log'])
    else: p = '/'.join(r.choice(['a', 'b', 'c', 'log', 'new', 'd1', 'x.log']) for _ in range(r.randint(1, 5)))
    if r.random() < .15: p = p.replace('/', r.choice(['//', '/./', '///']))
    if r.random() < .1 and '/' in p: p = p.replace('/', '/k/../', 1)
    if r.random() < .05: p = r.choice(['', '.', '..' if 0 else './', p + '/', 'a/' + 'q' * 256, 'q' * 255, 'r/' + 'q' * 255, './' + p])
    return p
def msg(r):
    x = r.random()
    if x < .75: return ''.join(r.choice('abc %d%s{}:#"\\') for _ in range(r.randint(0, 30)))
    if x < .85: return bytes(r.randint(1, 255) for _ in range(r.randint(1, 40))).decode('latin1')
    return 'z' * r.choice([90, 100, 127, 128, 129, 255, 1000, 8191, 8192, 8193, 20000])
def history(r, ops, faults):
    nt = r.randint(1, 3); t = tree(r)
    s = ['seq', r.choice([0, 0, 330, -210, 845, -720, 60]), r.choice([7, 7, 0, 3, 8, -1, 9, 5]), nt, len(t)] + ['%s %s %s' % (k, hexs(p), hexs(c)) for k, p, c in t]
    big = 0; nf = 0; created = []
    for _ in range(ops):
        x = r.random()
        if x < .40:
            m = msg(r)
            if len(m) > 1000:
                big += 1
                if big > 2: m = 'q'
            lv = r.randint(0, 8); code = r.choice([-1, -1, -1, -1, 0, 2, 13, 9999])
            if code >= 0: lv = 4
            s.append('l %d %d %d %s' % (r.randint(1, nt), lv, code, hexs(m)))
        elif x < .48: s.append('w %d %s' % (r.randint(0, 2), hexs(r.choice(['raw\n', 'abc', '', '%s%n', 'line\nline\n']))))
        elif x < .68:
            p = path(r, t); ab = int(r.random() < .25); created.append(p); f = r.randint(1, 8) if faults and r.random() < .5 else 0
            k = r.random()
            if k < .5: s.append('c %d %d %d %s' % (ab, r.choice([7, 8, 4, 0, 2, 5]), f, hexs(p)))
            elif k < .75: s.append('R %d %d %s' % (ab, f, hexs(p)))
            else: i = r.randrange(9); n = LV[i]; s.append('f %d %d %s %s' % (ab, i, hexs(r.choice([n, n.upper(), n.capitalize()])), hexs(p)))
        elif x < .74: s.append('v %d' % r.randint(-1, 9))
        elif x < .82: s.append('n %d %s' % (r.randint(1, nt), r.choice(['~', hexs('main'), hexs('worker 1'), hexs('%s%d'), hexs('n' * 200), '-'])))
        elif x < .87: s.append('g %d' % r.randint(1, nt))
        elif x < .91: s.append('L %s' % hexs(r.choice(LV + [n.upper() for n in LV] + ['', 'x', 'zzz', 'verbose', '7', ' info', 'fatal', 'Warn', 'eMeRg', 'aLERT', 'AcCess', 'ERROR', 'trace'])))
        elif x < .95: nf += 1; s.append('m %s %s' % (hexs(r.choice(['orig.err', 'log', 'x.log'])), hexs('moved.%d' % nf)))
        else: s.append('T %d %d %d' % (r.choice([0, 1, 59, 365, 11016, 11017, 19782, 19783, 24836, r.randint(0, 40000)]), r.choice([0, 86399, 43200, r.randint(0, 86399)]), r.choice([0, 999, 1, 10, 100, r.randint(0, 999)])))
    return ' '.join(map(str, s))
def run(ctx):
    ctx.design('LoggerMC', min_states=1000)
    if ctx.thorough: ctx.design('LoggerMC', 'LoggerMCbig', min_states=10**5, timeout=2000)
    exe = ctx.build('logger', 'logger.cpp', asan=False, libs=['-Wl,--wrap=' + w for w in WRAPS])
    r = ctx.rng
    s = [history(r, r.randint(8, 30), i % 2) for i in range(ctx.n(250, 6000))]
    for n in LV:      # every level against every threshold
        s.append('seq 0 7 1 0 ' + ' '.join('v %d l 1 %d -1 61' % (v, LV.index(n)) for v in range(-1, 10)))
        s.append('seq 0 7 1 0 ' + ' '.join('L %s' % hexs(x) for x in (n, n.upper(), n.capitalize())))
    for f in range(1, 9):
        for p in ('d/e/f', 'orig.err', 'd/f'): s.append('seq 0 7 1 1 d 64 - c 0 8 %d %s l 1 8 -1 61 l 1 7 -1 62 R 0 %d %s l 1 7 -1 63' % (f, hexs(p), f, hexs(p)))
    ctx.validate('LoggerTrace', ctx.drive(exe, s, 'seq', timeout=ctx.n(200, 2000), crash_line=CRASH), what='log history', timeout=ctx.n(400, 3000))
    s = []
    for _ in range(ctx.n(40, 800)):
        nt = r.choice([1, 2, 3, 4])
        s.append('par %d %d %d %d %d %d %s' % (r.choice([8, 7, 7, 5]), nt, r.randint(40, 120) // nt, r.choice([0, 100, 300, 300, 1000]), r.choice([1, 1, 2]), r.choice([20, 100, 400]), r.choice(['2 ' + hexs('a.log') + ' ' + hexs('d1/d2/b.log'), '1 ' + hexs('only.log'), '3 %s %s %s' % (hexs('a.log'), hexs('adir'), hexs('a.log/x')), '0'])))
    ctx.validate('LogThreads', ctx.drive(exe, s, 'par', timeout=ctx.n(200, 2000), crash_line=CRASH2), what='lines logged during rotations', timeout=ctx.n(400, 3000))
