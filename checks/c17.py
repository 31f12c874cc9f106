import itertools
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of base-64/web-64; every recorded call of the real code judged by TLC'
NOTE = ('Base64.tla defines both encodings; TLC checks their round-trip laws on a finite domain and judges every recorded call of the real functions (all '
        'short byte strings and texts over boundary alphabets, every output size, seeded random inputs, exact-size buffers under the address sanitizer). '
        'Holds for the inputs enumerated.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('codec', 'codec.cpp', libs=['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc'])
    ctx.design('CodecLaws', min_states=1000)
    s = ['isb64 %d' % c for c in range(256)]
    ins = [bytes(x) for n in range(0, 4) for x in itertools.product([0, 1, 63, 64, 128, 255], repeat=n)]
    ins += [bytes([a]) for a in range(256)] + [bytes([0x55, a]) for a in range(256)] + [bytes([0xaa, 0x33, a]) for a in range(256)] + [bytes([a, a ^ 0xff, a]) for a in range(256)]
    for _ in range(ctx.n(1000, 30000)):
        ins.append(bytes([r.choice([0, 255, r.randint(0, 255)]) for _ in range(r.choice([r.randint(0, 20), r.randint(0, 70)]))]))
    for n in (255, 256, 257, 1000): ins.append(bytes([r.randint(0, 255) for _ in range(n)]))
    for b in ins:
        h = hexs(b); L = (len(b) + 2) // 3 * 4
        if r.random() < .5: s.append('b64enca ' + h)
        for f in ('b64enc', 'w64enc'):
            for o in (range(0, L + 3) if len(b) <= 3 and r.random() < .15 else [r.randint(0, L + 2), L, L + 1]):
                s.append('%s %s %d' % (f, h, o))
    lim = 2 ** 64 * 3 // 4
    for n in list(range(0, 40)) + [10 ** k for k in range(3, 20)] + [2 ** k + d for k in range(10, 65) for d in (-1, 0, 1) if 2 ** k + d < 2 ** 64] + [lim + d for d in range(-12, 13)] + [2 ** 64 - d for d in range(1, 9)] + [r.randint(0, 2 ** 64 - 1) for _ in range(ctx.n(60, 2000))]: s.append('b64encm ' + hexs(n.to_bytes(8, 'little')))
    import base64
    for f, pad, al in (('b64', '=', b''), ('w64', '.', b'-_')):
        def enc(b):
            t = base64.b64encode(b).decode()
            return t.replace('+', '-').replace('/', '_').replace('=', '.') if f == 'w64' else t
        a1 = ['A', '/' if f == 'b64' else '_', pad, '!', 'x']
        txt = [''.join(x) for n in range(0, 5) for x in itertools.product(a1, repeat=n)]
        txt += ['QUJD' + ''.join(x) for x in itertools.product(a1[:4], repeat=4)]
        for c in range(256):
            for p in range(4): txt.append('QUJDQUJD'[:p + (4 if c & 1 else 0)] + chr(c) + 'QUJDQUJD'[p + 1 + (4 if c & 1 else 0):])
        for _ in range(ctx.n(1500, 40000)):
            t = enc(bytes([r.randint(0, 255) for _ in range(r.choice([r.randint(0, 10), r.randint(0, 60)]))]))
            x = r.random()
            if x < .5 and t:
                p = r.randint(0, len(t) - 1)
                t = [t[:p] + r.choice([pad, '=', '.', '-', '+', '/', '_', '\n', '\0', '\xff', '\x80']) + t[p + 1:], t[:p], t[:p] + t[p + 1:], t + t, t + pad][r.randint(0, 4)]
            txt.append(t)
        for t in txt:
            D = (len(t) + 3) // 4 * 3
            for o in (range(0, D + 2) if len(t) <= 4 and r.random() < .15 else [D, r.randint(0, D + 1)]):
                s.append('%sdec %s %d' % (f, hexs(t), o))
            if f == 'b64': s.append('b64deca ' + hexs(t))
            if f == 'b64' and r.random() < .1: s.append('b64decm ' + hexs(t))
    for k in (1, 8, 63, 64, 85, 86, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1365, 4096, 4097, 8192, 10923, 16384, 21846, 32768, 65536, 100000):
        for x in (b'abc', b'\0\xff\x7f', b'abc\xfb\xff\xfe'): s += ['rep64 b64 %s %d' % (hexs(x), k), 'rep64 w64 %s %d' % (hexs(x), k)]
    tr = ctx.drive(exe, s, 'calls')
    ctx.validate('CodecTrace', tr, what='base64/web64 call')
    ctx.extra['rule'] = 'one call per line: all strings over small alphabets, every byte value in every group position, every output size for short inputs, corrupted and random texts; non-trivial = distinct'
