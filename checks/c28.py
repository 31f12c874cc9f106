LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of the pid-file protocol checked exhaustively; systematically explored interleavings, deaths and failing calls of the real code, and free-running processes, validated by TLC against PidFile.tla'
NOTE = ('PidFileMC: 3 processes with 2 claims each, files and directory entry apart, a death, a failing step, removal by owner or operator (thorough: 4 processes, 2 deaths, 2 failing steps). '
        'Real code: every call into the system is a scheduling, fault and death point (short writes and a write cut in the middle included); pid files absent, empty, owned; plus real processes racing and being killed.')
ASSUMPTIONS = ['only the owner, or an operator once the owner is dead, removes the file', 'at most one failing call per claim', 'a failing claim may leave an absent file empty (free)', 'close does not fail']
WRAPS = 'getpid open open64 openat creat close dup flock fcntl fcntl64 lockf fstat fstat64 stat lstat unlink remove rename link ftruncate truncate fsync fdatasync access lseek read pread write pwrite'.split()
CRASH = lambda r: {'n': 1, 'file': [], 'ev': [{'k': 'Crash', 'p': 1, 'why': r['why'], 'cur': r['cur'][:400], 'msg': r['msg']}]}
def run(ctx):
    ctx.design('PidFileMC', min_states=100000)
    if ctx.thorough: ctx.design('PidFileMC', 'PidFileMCbig', min_states=10**6, timeout=2500)
    exe = ctx.build('pidfile', 'pidfile.cpp', asan=False, libs=['-Wl,--wrap=' + w for w in WRAPS])
    r = ctx.rng; s = []
    def add(file, procs, pre=2, die=0, faults=0, ex=None, rand=None):
        s.append('%d %d %d %d %d %d %s %d %s' % (ctx.n(1500, 40000) if ex is None else ex, pre, ctx.n(150, 4000) if rand is None else rand, r.randint(1, 10**6), die, faults, file, len(procs), ' '.join('%d %s' % p for p in procs)))
    PIDS = [1, 7, 42, 999, 1000, 31337, 4194303, 2147483647]
    def procs(*ops): return list(zip(r.sample(PIDS, len(ops)), ops))
    files = ['A', '-', '310a', '3939', '00', '0a']
    for f in files:
        add(f, procs('CC'), 0); add(f, procs('C'), 0, faults=1); add(f, procs('CCS'), 0, faults=1); add(f, procs('ZC'), 0, faults=1)
    for f in ('A', '-', '310a'):
        add(f, procs('C', 'C'), 4); add(f, procs('CL', 'CL', 'LL'), 2); add(f, procs('CSC', 'CSC'), 3); add(f, procs('C', 'C', 'C'), 2)
        add(f, procs('C', 'C'), 2, faults=1); add(f, procs('C', 'CC'), 2, die=1); add(f, procs('CS', 'CC', 'L'), 2, faults=2, die=1)
        add(f, procs('C', 'C', 'RC'), 2, die=1)
    for _ in range(ctx.n(60, 1500)):
        n = r.choice([2, 3, 3, 4, 5]); add(r.choice(files[:4]), procs(*[''.join(r.choice('CCCSL') for _ in range(r.randint(1, 4))) + r.choice(['', '', 'R' if i == 0 else '']) for i in range(n)]), 2, r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2]), ex=ctx.n(100, 400), rand=ctx.n(60, 200))
    ctx.validate('PidFileTrace', ctx.drive(exe, s, 'pid', timeout=ctx.n(200, 2000), crash_line=CRASH), what='pid file history', timeout=ctx.n(400, 3000))
    exe = ctx.build('pidfile-real', 'pidfile.cpp', asan=False, defs=['REAL'])
    s = []
    for _ in range(ctx.n(300, 8000)):
        n = r.choice([2, 3, 4, 6, 8])
        s.append('%d %s %d %d %s' % (r.randint(1, 10**6), r.choice(['A', 'A', '-', '-', '310a']), n, r.choice([0, 0, 1, 2]), ' '.join(r.choice(['C', 'C', 'CS', 'CSC', 'CC', 'CSCS']) for _ in range(n))))
    ctx.validate('PidFileTrace', ctx.drive(exe, s, 'real', timeout=ctx.n(120, 1500), crash_line=CRASH), what='racing processes', timeout=ctx.n(400, 3000))
