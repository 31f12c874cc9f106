from vlib import hexs
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ laws of command lines and a model of concurrent loads and stops checked exhaustively; command lines and recorded load/stop histories of the real code (process tree, session, descriptors, signals, files) validated by TLC against Getopt.tla and Daemon.tla'
NOTE = ('GetoptLaws: all command lines of up to 2 (3) options in every spelling mixed with other words; DaemonMC: 3 (4) instances on one pid file, failing steps and deaths. '
        'Real code: random and exhaustive small command lines; load/stop histories in scratch trees, each system call of loading failing in turn, standard descriptors open or closed; every process that ever existed and its exit status are collected by a subreaper.')
ASSUMPTIONS = ['stderr is open', 'optind is reset by the caller between command lines', 'POSIXLY_CORRECT is unset', 'when a load fails it may do so before or after detaching']
WRAPS = 'chdir fchdir chroot open open64 fork setsid dup2 dup3 fstat flock write'.split()
CRASH = lambda r: {'f': 'Crash', 'crash': r}
CRASH2 = lambda r: {'tree': [], 'files': [], 'fds': [], 'caught': [], 'um': [], 'pid': 1, 'sid': 1, 'made': [], 'exits': [], 'ops': [dict(r, f='Crash')]}
WORDS = ['-d', '-D', '-c', '-p', '-cx', '-px', '-dD', '-Dd', '-dc', '-dpfile', '-dDp', '--daemon', '--no-daemon', '--config', '--pid', '--config=x', '--pid=y.pid', '--pid=', '--config=', '--daemon=1', '--d', '--n', '--no', '--no-', '--c', '--conf', '--p=z', '--pi', '--', '-', '', 'x', '--x',
         '-x', '-dx', '--pidx', '--configs=1', '-c-d', '-c--', '-p=', '-d-', '--no-daemon=', '---', '--=', '--=x', '-:', '-?', '-h', '--help', '--dae', '--DAEMON', '-C', '-P', 'y', '-c=q=r', '--config=a=b', '--daemo', '--daemons', '-;', '-W', '-Wc', '-ccc', '-ppp', '-cdp']
def tree(r):
    t = []
    for _ in range(r.randint(0, 6)):
        base = r.choice([''] + [p + '/' for k, p, c in t if k == 'd'])
        p = base + r.choice(['a', 'b', 'run', 'x.pid', 'y'])
        if any(q == p for _, q, _ in t): continue
        k = r.choice('ddffl')
        t.append((k, p, '' if k == 'd' else r.choice(['', '', '123\n', 'junk', '\n', '0']) if k == 'f' else r.choice(['a', 'b', 'nowhere', './y', 'run/x.pid', '../b' if base else 'y', 'x.pid'])))
    return t
def path(r, t):
    x = r.random(); some = [p for k, p, c in t] or ['x.pid']
    if x < .4: p = r.choice(['x.pid', 'y', 'run', 'a/x.pid', 'new.pid'])
    elif x < .75: p = r.choice(some)
    elif x < .95: p = r.choice(some) + '/' + r.choice(['x.pid', 'new', ''])
    else: p = r.choice(['', '.', '/', 'n' * 256, 'n' * 255, 'none/x.pid', './x.pid', 'a/../x.pid']) if 0 else r.choice(['', '.', 'n' * 256, 'n' * 255, 'none/x.pid', './x.pid', 'a/../x.pid'])
    return p
def history(r, ops, faults):
    t = tree(r); s = ['d', r.choice([18, 0, 63, 23]), int(r.random() < .85), int(r.random() < .85), r.choice([0, 0, 1, 4, 7]), len(t)] + ['%s %s %s' % (k, hexs(p), hexs(c)) for k, p, c in t]
    ps = [path(r, t) for _ in range(2)]
    for _ in range(ops):
        x = r.random(); p = '~' if r.random() < .15 else hexs(r.choice(ps))
        if x < .45: s.append('L %d %d %s' % (r.random() < .5, r.randint(1, 9) if faults and r.random() < .5 else 0, p))
        elif x < .8: s.append('S ' + p)
        elif x < .9: s.append('x ' + hexs(r.choice(ps)))
        else: s.append('w %s %s' % (hexs(r.choice(ps)), hexs(r.choice(['', '77\n']))))
    return ' '.join(map(str, s))
def run(ctx):
    ctx.design('GetoptLaws', *(['GetoptLawsbig'] if ctx.thorough else []), min_states=10000, timeout=3000)
    ctx.design('DaemonMC', *(['DaemonMCbig'] if ctx.thorough else []), min_states=5000, timeout=3000)
    exe = ctx.build('daemon', 'daemon.cpp', asan=False, libs=['-Wl,--wrap=' + w for w in WRAPS])
    r = ctx.rng
    s = ['g 0'] + ['g 1 ' + hexs(w) for w in WORDS] + ['g 2 %s %s' % (hexs(a), hexs(b)) for a in WORDS for b in WORDS]
    for _ in range(ctx.n(4000, 60000)):
        n = r.randint(3, 9); good = r.random() < .6
        s.append('g %d %s' % (n, ' '.join(hexs(r.choice(WORDS[:8] + WORDS[9:14] + WORDS[15:19] + WORDS[20:28] + ['w', '--pid=1', '-c', '-p'] if good else WORDS)) for _ in range(n))))
    ctx.validate('GetoptTrace', ctx.drive(exe, s, 'parse', timeout=ctx.n(100, 1000), crash_line=CRASH), what='command line', timeout=ctx.n(400, 3000))
    s = [history(r, r.randint(1, 8), i % 2) for i in range(ctx.n(500, 10000))]
    for f in range(0, 10):
        for dm in (0, 1):
            for t in ('0', '1 f %s -' % hexs('x.pid'), '1 f %s 3939' % hexs('x.pid'), '1 d %s -' % hexs('x.pid'), '2 f %s - l %s %s' % (hexs('real'), hexs('x.pid'), hexs('real'))):
                for io in ('1 1', '0 1', '1 0', '0 0'): s.append('d 18 %s 2 %s L %d %d %s L 0 0 %s S %s S %s L %d 0 %s' % ((io, t, dm, f) + (hexs('x.pid'),) * 4 + (1 - dm, hexs('x.pid'))))
    ctx.validate('DaemonTrace', ctx.drive(exe, s, 'load', timeout=ctx.n(200, 2000), crash_line=CRASH2), what='load and stop', timeout=ctx.n(400, 3000))
