LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of bounded insertion of formatted text; every recorded call of the real code judged by TLC'
NOTE = ('Format.tla defines text, prefix and insertion on run-length encoded texts so that lengths around the internal 32768-byte buffer can be judged; TLC judges every recorded call, '
        'run under the address sanitizer. Formats with %s, %d, %c (including NUL) and literals; limits up to 200000.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('format', 'format.cpp')
    ctx.design('FormatLaws', min_states=100)
    B = 32768
    lens = [0, 1, 2, 7, 100, B - 3, B - 2, B - 1, B, B + 1, B + 2, 2 * B, 100000]
    def text(n):
        if n == 0: return '0'
        k = min(n, r.randint(1, 3))
        cuts = sorted(r.sample(range(1, n), k - 1)) if k > 1 else []
        runs, p = [], 0
        for c in cuts + [n]:
            runs.append('%d %d' % (r.choice([97, 98, 65, 200, 10, 32]), c - p)); p = c
        return '%d %s' % (len(runs), ' '.join(runs))
    s = []
    def add(f, fmt, la, lb, lp, pos, num):
        d = r.choice([0, 7, -1, 2147483647, -2147483647, 1234]) if fmt == 1 else r.choice([0, 0, 65, 255]) if fmt == 2 else 0
        s.append('%s %d %s %d %s %s %d %d' % (f, fmt, text(la), d, text(lb), text(lp), pos, num))
    for la in lens:
        for fmt in range(4):
            lb = la if fmt == 2 else r.choice([0, 1, 5])
            add('strprintf', fmt, la, lb, 0, 0, 0)
            add('strappend', fmt, la, lb, r.choice([0, 3, 40]), 0, 0)
            add('strappend', fmt, la, lb, 0, 0, 0)
        for num in sorted(set([0, 1, la - 1, la, la + 1, B - 1, B, B + 1, 200000])):
            if num < 0: continue
            add('strnappend', r.choice([0, 1, 2, 3]), la, la, r.choice([0, 4, B]), 0, num)
            add('strnappend', 0, la, 0, 3, 0, num)
            for lp, pos in ((0, 0), (0, 1), (5, 0), (5, 2), (5, 5), (5, 6), (5, 100000)):
                add('strnprintf', r.choice([0, 0, 1, 2, 3]), la, la, lp, pos, num)
    for _ in range(ctx.n(600, 20000)):
        la, lb, lp = (r.choice([r.randint(0, 30), r.randint(0, 30), B + r.randint(-20, 20)]) for _ in range(3))
        add(r.choice(['strprintf', 'strappend', 'strnappend', 'strnprintf', 'strnprintf']), r.randint(0, 3), la, lb, lp, r.randint(0, lp + 2), r.choice([r.randint(0, 70), la, lb, la + lb, B + r.randint(-3, 3)]))
    ctx.validate('FormatTrace', ctx.drive(exe, s, 'calls'), what='formatting call')
    ctx.extra['rule'] = 'one call per line: text lengths 0..100000 around the internal buffer size, limits around the text length and the buffer size, positions inside, at and beyond the end, embedded NUL, random mixes'
