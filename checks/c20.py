import itertools
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of query and header splitting; every recorded call of the real code judged by TLC'
NOTE = ('UrlText.tla defines the maps that result; TLC judges every recorded call over all short texts of separators and letters, random longer ones and '
        'pre-filled maps, with the text in an exact-size buffer under the address sanitizer. Holds for the inputs enumerated.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('urltext', 'urltext.cpp')
    ctx.design('UrlTextLaws', min_states=1000)
    s = ['null %d' % i for i in range(4)]
    def pre():
        if r.random() < .6: return '0'
        m = {}
        for _ in range(r.randint(1, 3)): m[r.choice(['a', 'b', '', 'ab', 'zz'])] = r.choice(['', 'old', 'x'])
        return '%d %s' % (len(m), ' '.join(hexs(k) + ' ' + hexs(v) for k, v in m.items()))
    P = [bytes(x) for n in range(0, 6) for x in itertools.product(b'a&=', repeat=n)] + [bytes(x) for n in range(1, 5) for x in itertools.product(b'ab&=\0', repeat=n)]
    for _ in range(ctx.n(700, 20000)):
        P.append(bytes(r.choice([r.choice(b'&=&=abc'), r.randint(0, 255)]) for _ in range(r.choice([r.randint(0, 15), r.randint(0, 90)]))))
    for x in P:
        s.append('params %s %s 0' % (pre(), hexs(x)))
        if 0 not in x and r.random() < .3: s.append('params %s %s 1' % (pre(), hexs(x)))
    H = [bytes(x) for n in range(0, 6) for x in itertools.product(b'a:\r\n', repeat=n)]
    if not ctx.thorough: H = H[:341] + r.sample(H[341:], 700)
    H += [b''.join(x) for n in range(0, 6) for x in itertools.product([b'\r\n', b'a:b', b'a', b':'], repeat=n)]
    for _ in range(ctx.n(900, 20000)):
        H.append(b''.join(r.choice([b'\r\n', b'\r\n', b'\r', b'\n', b':', b'\0', b'a', b'Host', b': ', bytes([r.randint(0, 255)]), b'k:v']) for _ in range(r.randint(0, 20))))
    for x in H:
        s.append('header %s %s 0' % (pre(), hexs(x)))
        if 0 not in x and r.random() < .3: s.append('header %s %s 1' % (pre(), hexs(x)))
    for k in (1, 8, 63, 64, 85, 86, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1365, 4096, 4097, 8192, 10923, 16384, 21846, 32768, 65536):
        for x in (b'a', b'a c', b'\xff='): s += ['rep params %s %d' % (hexs(x), k), 'rep header %s %d' % (hexs(x), k)]
    ctx.validate('UrlTextTrace', ctx.drive(exe, s, 'calls'), what='params/header call')
    ctx.extra['rule'] = 'one call per line: all texts of letters and separators up to length 5, random texts with every byte value, empty and pre-filled maps, both entry points'
