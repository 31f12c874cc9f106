import os
from vlib import hexs
LEVEL = 'model_checking'
TECHNIQUE = 'laws of path making checked by TLC over all small trees and texts; recorded histories of the real helpers (failures injected at each system call) validated by TLC against Helpers.tla'
NOTE = ('FsLaws: every tree over five places (directories, files, links) and every text of up to 3 (5) bytes over a, b, dot and slash. Real histories: coda_mkpath, coda_fdmove, coda_fdopen, coda_mmap, coda_umap in scratch trees with links and obstacles; '
        'the whole descriptor table, tree and file contents are observed after each call; shared and private mappings viewed and changed; each system call failing in turn; small descriptor limits; mappings beyond 2 and 4 GiB.')
ASSUMPTIONS = ['what a private mapping shows after the file is changed from outside is not judged', 'a mapping of an empty file may fail', 'failures of close are not injected', 'mapping bytes beyond the end of a file that shrank are not accessed']
WRAPS = 'open open64 mkdir stat fstat ftruncate dup2 dup3 mmap'.split()
CRASH = lambda r: {'tree': [], 'files': [], 'fds': [], 'ops': [{'f': 'Crash', 'fds': [], 'nd': [], 'nf': [], 'nm': [], 'um': [], 'want': [], 'ch': [], 'hurt': 0, 'crash': r}]}
NAMES = ['a', 'b', 'c', 'd1', 'x', '...', '.h', 'n' * 255]
def tree(r):
    t = []
    for _ in range(r.randint(0, 8)):
        base = r.choice([''] + [p + '/' for k, p, c in t if k == 'd'])
        p = base + r.choice(NAMES)
        if any(q == p for _, q, _ in t): continue
        k = r.choice('dddffl')
        c = '' if k == 'd' else r.choice(['', 'x', 'some text', 'ab' * 40, chr(0) * 5 + 'z', 'q' * 4096, 'r' * 4097]) if k == 'f' and r.random() < .3 else r.choice(['', 'x', 'some text', 'abc\n']) if k == 'f' else r.choice(['a', 'b', 'nowhere', './c', 'a/b', '../b' if base else 'c', 'x', 'a/../b', p.split('/')[-1]])
        t.append((k, p, c))
    return t
def path(r, t):
    x = r.random(); some = [p for k, p, c in t] or ['a']
    if x < .35: p = r.choice(some)
    elif x < .65: p = r.choice(some) + '/' + r.choice(['new', 'd1/d2/file', 'x/', 'a', 'new/'])
    else: p = '/'.join(r.choice(NAMES[:7]) for _ in range(r.randint(1, 6)))
    if r.random() < .15: p = p.replace('/', r.choice(['//', '/./', '///']))
    if r.random() < .1 and '/' in p: p = p.replace('/', '/k/../', 1)
    if r.random() < .08: p = r.choice(['', '.', './', p + '/', p + '//', 'a/' + 'q' * 256 + '/x', 'q' * 255, 'r/' + 'q' * 255 + '/x', './' + p, p + '/.', p + '/..', '././.'])
    return p
A, CR, EX, TR, AP = 0, os.O_CREAT, os.O_EXCL, os.O_TRUNC, os.O_APPEND
FLAGS = [os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR | CR, os.O_WRONLY | CR, os.O_RDWR | CR | EX, os.O_RDWR | TR, os.O_WRONLY | CR | TR, os.O_WRONLY | CR | AP, os.O_RDWR | AP, CR, CR | EX]
def history(r, ops, faults, paths):
    t = tree(r); lim = r.choice([64, 64, 20, 12])
    s = [lim, len(t)] + ['%s %s %s' % (k, hexs(p), hexs(c)) for k, p, c in t]
    files = [p for k, p, c in t if k != 'd'] or ['x']
    f = lambda n: r.randint(1, n) if faults and r.random() < .4 else 0
    fd = lambda: r.choice([-1, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 40, 64, 1000, 0, 1]) if r.random() < .5 else r.randint(3, 8)
    for _ in range(ops):
        x = r.random()
        if x < (.6 if paths else .12): s.append('p %d %d %s' % (r.random() < .25, f(8), hexs(path(r, t))))
        elif x < .70: s.append('o %d %d %d %s' % (fd(), r.choice(FLAGS), f(3), hexs(path(r, t) if r.random() < .5 else r.choice(files))))
        elif x < .72: s.append('U %d' % r.choice([0, 0, 18, 23, 63, 2, 511, 256]))
        elif x < .76: s.append('h %d %d %d %s' % (r.randint(3, 10), r.choice([0, 1, 2, AP | 1]), r.randint(0, 20), hexs(r.choice(files))))
        elif x < .78: s.append('c %d' % r.randint(3, 10))
        else: s.append('d %d %d %d' % (fd(), fd(), f(2)))
    return ' '.join(map(str, s))
def mapping(r, ops, faults):
    t = tree(r)
    for n in ('m1', 'm2'): t.append(('f', n, r.choice(['', 'a', 'hello world', 'p' * 100, bytes(r.randint(0, 255) for _ in range(50)).decode('latin1'), 'P' * 4096, 'P' * 5000] if r.random() < .4 else ['hello world', 'abc', 'zzzzzz'])))
    t.append(('l', 'm3', r.choice(['m1', 'm2', 'm9', '.'])))
    s = [64, len(t)] + ['%s %s %s' % (k, hexs(p), hexs(c)) for k, p, c in t]
    files = ['m1', 'm2', 'm1', 'm2', 'm3', './m1', 'm3/', 'nothere', '.', ''] + [p for k, p, c in t]
    for _ in range(ops):
        x = r.random(); i = r.randint(1, 4)
        if x < .40: s.append('m %d %d %s %d %d %s' % (i, r.choice([1, 3, 3, 3, 1, 2, 0]), r.choice(['shared', 'shared', 'private', 'private', 'none'] if r.random() < .2 else ['shared', 'private']), r.choice([0, 0, 0, 1, 5, 20, 100, 4096, 5000] if r.random() < .3 else [0, 3, 12]),
                                                  r.randint(1, 4) if faults and r.random() < .5 else 0, '~' if r.random() < .15 else hexs(r.choice(files))))
        elif x < .58: s.append('v %d' % i)
        elif x < .78: s.append('k %d %d %d' % (i, r.choice([0, 1, 2, r.randint(0, 5000), 4095]), r.randint(0, 255)))
        elif x < .86: s.append('u %d' % i)
        elif x < .93: s.append('w %s %s' % (hexs(r.choice(['m1', 'm2'])), hexs(r.choice(['', 'short', 'k' * 30, 'another text']))))
        elif x < .97: s.append('o %d %d 0 %s' % (r.randint(3, 8), r.choice(FLAGS), hexs(r.choice(files))))
        else: s.append('p 0 0 %s' % hexs(path(r, t)))
    s += ['v %d' % i for i in range(1, 5)] + ['u %d' % i for i in range(1, 5)]
    return ' '.join(map(str, s))
def giants(r, n):
    """Mappings around and beyond 2 and 4 GiB."""
    size = lambda: r.choice(['1 1073741823', '2 0', '2 1', '3 1073741823', '4 0', '4 1', '4 4096', '4 %d' % r.randint(1, 2**30 - 1), '5 %d' % r.randint(0, 2**30 - 1), '8 12'])
    out = []
    for _ in range(n):
        w, anon = r.randint(0, 1), r.random() < .25
        out.append('64 1 f 78 6162 b %s %s %d %s %d' % (size(), '0 0' if not anon and (not w or r.random() < .5) else r.choice([size(), size(), '0 5']) if not anon else size(), w, r.choice(['shared', 'private']), anon))
    return out
def run(ctx):
    ctx.design('FsLaws', *(['FsLawsbig'] if ctx.thorough else []), min_states=1000, timeout=3000)
    exe = ctx.build('helpers', 'helpers.cpp', asan=False, libs=['-Wl,--wrap=' + w for w in WRAPS])
    r = ctx.rng
    s = [history(r, r.randint(4, 16), i % 2, i % 3) for i in range(ctx.n(700, 15000))]
    for f in range(0, 7):      # each call failing in turn
        for p in ('d/e/f', 'd/', '/'.join('abcdefg'), 'x/y'): s.append('64 1 f 78 - p 0 %d %s p 0 0 %s p 0 %d %s' % (f, hexs(p), hexs(p), f, hexs(p)))
        for fl in FLAGS: s.append('20 2 f 78 6162 f 79 63 h 5 2 1 78 o 5 %d %d 79 o -1 %d %d 7a o 5 %d %d 78 d 5 6 %d d 5 5 %d d 6 -1 %d' % (fl, f, fl, f, fl, f, f, f, f))
    ctx.validate('HelpersTrace', ctx.drive(exe, s, 'helpers', timeout=ctx.n(200, 2000), crash_line=CRASH), what='path and descriptor helpers', timeout=ctx.n(400, 3000))
    s = [mapping(r, r.randint(6, 20), i % 2) for i in range(ctx.n(300, 6000))]
    for f in range(0, 6):
        for size in (0, 5, 5000):
            for pr in (1, 2, 3):
                for k in ('shared', 'private', 'none'): s.append('64 1 f 78 %s m 1 %d %s %d %d 78 v 1 k 1 2 65 v 1 m 2 3 shared 0 0 78 k 2 0 66 v 2 v 1 u 1 u 2 m 3 %d %s %d %d ~ v 3 k 3 4 9 v 3 u 3' % (hexs('abcdefgh'), pr, k, size, f, pr, k, size, f))
    s += giants(r, ctx.n(60, 400))
    ctx.validate('HelpersTrace', ctx.drive(exe, s, 'maps', timeout=ctx.n(200, 2000), crash_line=CRASH), what='mappings', timeout=ctx.n(400, 3000))
