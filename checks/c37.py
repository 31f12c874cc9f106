LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of what an error says; every recorded error of the real code judged by TLC'
NOTE = ('Errors.tla extends the formatting definition (run-length encoded texts). Errors made with and without a number, texts of every length around the 4096-byte buffer, NULs inside; what is said is read at once, from a copy, and from the exception caught as std::exception after its arguments are gone. '
        'coda_strerror: every number up to 140, negative and huge ones, from several threads at once. Address sanitizer on.')
ASSUMPTIONS = ['numbers unknown to the system are not judged where only the XSI strerror_r is there', 'the C library is trusted for the text of an error number']
def run(ctx):
    r = ctx.rng; s = []
    ctx.design('ErrorsLaws', min_states=10000)
    exe = ctx.build('errors', ['errors.cpp', 'errors_xsi.c'], lib=False)
    def text(n):
        if n == 0: return '0'
        k = min(n, r.randint(1, 3)); cuts = sorted(r.sample(range(1, n), k - 1)) if k > 1 else []; runs, p = [], 0
        for c in cuts + [n]: runs.append('%d %d' % (r.choice([97, 98, 65, 200, 10, 32]), c - p)); p = c
        return '%d %s' % (len(runs), ' '.join(runs))
    def add(by, fmt, la, lb, err=0):
        d = r.choice([0, 7, -1, 2147483647, -2147483647, 1234]) if fmt == 1 else r.choice([0, 65, 255]) if fmt == 2 else 0
        s.append('%s %d %s %d %s %d' % (by, fmt, text(la), d, text(lb), err))
    for n in list(range(0, 20)) + list(range(4040, 4110)) + [100, 255, 256, 1023, 1024, 8191, 8192, 70000]:
        for fmt in range(4): add('error', fmt, n if fmt != 2 else 0, n if fmt == 2 else r.choice([0, 1, 30]))
        for fmt in range(4): add('errno', fmt, n if fmt < 2 else 0, n if fmt == 2 else 3, r.choice([0, 1, 2, 13, 22, 110, 133, 134, 9999, -1, 2147483647]))
    for e in list(range(-3, 140)) + [255, 256, 512, 1000, 4095, 32767, 65536, 2147483647, -2147483647]: add('errno', r.randint(0, 3), r.randint(0, 20), 2, e)
    for _ in range(ctx.n(500, 20000)): add(r.choice(['error', 'errno']), r.randint(0, 3), r.choice([r.randint(0, 50), 4095 + r.randint(-60, 40)]), r.choice([0, 5, r.randint(0, 50), 4095 + r.randint(-60, 40)]), r.randint(-5, 150))
    for _ in range(ctx.n(3, 60)): s.append('threads %d %s' % (8, ' '.join('%d %d' % (r.choice([0, 1, 1000, 100000, -400]) + i * 1000, r.choice([1, 1, 7])) for i in range(8))))
    for e in list(range(-3, 140)) + [1000, 65536, 2147483647, -2147483647]: s += ['xsi %d 4096' % e, 'xsi %d %d' % (e, r.randint(1, 60))]
    ctx.validate('ErrorsTrace', ctx.drive(exe, s, 'errors'), what='error text')
