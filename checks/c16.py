import itertools
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of base-58; every recorded call of the real code judged by TLC'
NOTE = ('Base58.tla defines encoding and decoding as numeral conversion; TLC checks its round-trip laws on a finite domain and judges every recorded '
        'call of the real functions (all short byte strings and texts over boundary alphabets, every output size, seeded random and long inputs, each buffer '
        'of exact size under the address sanitizer). Holds for the inputs enumerated.')
A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def run(ctx):
    r = ctx.rng
    exe = ctx.build('codec', 'codec.cpp', libs=['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc'])
    ctx.design('CodecLaws', min_states=1000)
    s = ['isb58 %d' % c for c in range(256)]
    ins = [bytes(x) for n in range(0, 4) for x in itertools.product([0, 1, 57, 58, 255], repeat=n)]
    ins += [bytes([a]) for a in range(256)] + [bytes([0, a]) for a in range(256)] + [bytes([a, b]) for a in range(0, 256, 5) for b in range(0, 256, 11)]
    ins += [bytes(x) for x in itertools.product([0, 1, 255], repeat=4)] + [bytes(x) for x in itertools.product([0, 200], repeat=7)]
    for _ in range(ctx.n(800, 20000)):
        n = r.choice([r.randint(0, 12), r.randint(0, 40)])
        ins.append(bytes([0] * r.choice([0, 0, 1, 3, n]) + [r.choice([0, 255, 1, r.randint(0, 255)]) for _ in range(n)]))
    for n in [64, 70, 100, 138, 150, 256, 300] + ([500, 1000] if ctx.thorough else []):
        ins += [bytes([255] * n), bytes([0] * n), bytes([r.randint(0, 255) for _ in range(n)]), bytes([0] * 9 + [1] + [0] * (n - 10)), bytes([1] + [0] * (n - 1))]
    for b in ins:
        h = hexs(b)
        s.append('b58enca ' + h)
        L = len(b) * 138 // 100 + 2
        for o in (range(0, L + 3) if len(b) <= 3 and r.random() < .3 else [r.randint(0, L + 2), r.randint(max(0, L - 4), L + 2)]):
            s.append('b58enc %s %d' % (h, o))
    txt = [''.join(x) for n in range(0, 4) for x in itertools.product('12zZ0', repeat=n)]
    txt += [''.join(x) for x in itertools.product('1z', repeat=8)] + ['z' * n for n in range(1, 90)] + ['1' * n for n in range(1, 60)]
    txt += [a + b for a in A58 for b in A58]
    for c in range(256):
        for base in ('', '1', '11', 'z', '12345', 'zzzzzzzzzzzzzzzzzzzzzzzz'):
            p = r.randint(0, len(base))
            txt += [base[:p] + chr(c) + base[p:], base + chr(c), chr(c) + base]
    for _ in range(ctx.n(1500, 40000)):
        n = r.choice([r.randint(1, 14), r.randint(1, 60)])
        t = '1' * r.choice([0, 0, 1, 4]) + ''.join(r.choice(A58) for _ in range(n))
        if r.random() < .35:
            p = r.randint(0, len(t)); t = t[:p] + r.choice(['0', 'O', 'I', 'l', ' ', '\0', '\xff', '\x80', '+']) + t[p + r.randint(0, 1):]
        txt.append(t)
    for n in (100, 200, 350) + ((1000,) if ctx.thorough else ()):
        txt += ['z' * n, ''.join(r.choice(A58) for _ in range(n)), '1' * n + '2' * 3, 'z' * n + '0', '2' + '1' * n]
    for t in txt:
        s += ['b58deca ' + hexs(t), 'b58dec ' + hexs(t)]
    tr = ctx.drive(exe, s, 'calls')
    ctx.validate('CodecTrace', tr, what='base58 call')
    ctx.extra['rule'] = 'one call per line: all strings over small alphabets up to length 4, every byte value at every kind of position, every output size for short inputs, random up to 60 bytes, long up to 350; non-trivial = distinct'
