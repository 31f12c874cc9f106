import itertools
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of the escape languages; every recorded call of the real code judged by TLC'
NOTE = ('UrlText.tla defines the three translations; TLC judges every recorded call, for every buffer size around every token boundary, on exact-size buffers '
        'under the address sanitizer. %u escapes above U+07FF and escapes denoting NUL are outside the property and not generated. Holds for the inputs enumerated.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('urltext', 'urltext.cpp')
    ctx.design('UrlTextLaws', min_states=1000)
    s = []
    def sizes(n, k):
        return sorted(set([0, 1, 2, 3, 4, 5, 6, n, n + 1, n + 4, n + 5, n + 6, n + 40] + [r.randint(0, n + 8) for _ in range(k)]))
    esc = [bytes([c]) for c in range(1, 256)] + [bytes([c, 97, c]) for c in range(1, 256)] + [b'', b'abc', b'a b c', b'\xff\xfe\x80\x81' * 3, bytes(range(1, 256))]
    for _ in range(ctx.n(250, 6000)):
        esc.append(bytes([r.choice([r.randint(1, 255), r.choice(b' aZ%+~')]) for _ in range(r.randint(0, 30))]))
    for b in esc:
        n = sum(1 if chr(c) in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~ ' else 3 for c in b)
        for z in (sizes(n, 3) if len(b) > 1 else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]):
            s.append('escape %s %d' % (hexs(b), z))
        s.append('round %s 2' % hexs(b))
    toks = [b'+', b'%41', b'%e4', b'%Ff', b'%7f', b'%80', b'\\x41', b'\\xC3', b'\\x7f', b'\\x80', b'%u0041', b'%u0430', b'%u7f', b'%u80', b'%u7ff', b'%u007F', b'%u41', b'%uA9', b'%u0430a', b'a', b'b', b'%', b'\\', b'x', b'u',
            b'%4', b'%u', b'\\x', b'\\x4', b'%g1', b'%4g', b'%ug', b'\\xg1', b'\\x4g', b'\xff', b'\x80', b'%%', b'\\\\', b'%\\']
    ok = lambda t: b'%00' not in t and b'\\x00' not in t and b'%u0000' not in t and not toolarge(t)
    def toolarge(t):
        import re
        for m in re.finditer(rb'%u([0-9a-fA-F]{1,4})', t):
            if not 0 < int(m.group(1), 16) < 0x800: return True
        return False
    un = [bytes(a + b) for a in toks for b in toks] + toks + [b''] + [b'%%%02x' % c for c in range(1, 256)] + [b'\\x%02X' % c for c in range(1, 256)] + [b'%%u%04x' % c for c in list(range(1, 300)) + list(range(300, 0x800, 37))]
    for _ in range(ctx.n(500, 12000)):
        un.append(b''.join(r.choice(toks + [bytes([r.randint(1, 255)])]) for _ in range(r.randint(1, 12))))
    for t in un:
        if not ok(t): continue
        n = len(t)
        for f in ('unescape', 'preunescape'):
            for z in sizes(n, 2) if r.random() < .18 else [n + 5, r.randint(0, n + 5), r.randint(0, 6)]:
                s.append('%s %s %d' % (f, hexs(t), z))
    for k in (1, 8, 63, 64, 85, 86, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1365, 4096, 4097, 8192, 10923, 16384, 21846, 32768, 65536, 100000):
        for x in (b'a', b'a c', b'\xff', b'a/b'): s.append('rep escape %s %d' % (hexs(x), k))
        for x in (b'a', b'+', b'%41', b'%u0441x', b'\\x41', b'%e2x+'): s += ['rep unescape %s %d' % (hexs(x), k), 'rep preunescape %s %d' % (hexs(x), k)]
    ctx.validate('UrlTextTrace', ctx.drive(exe, s, 'calls'), what='url escape call')
    ctx.extra['rule'] = 'one call per line: every byte value, every pair of escape tokens (complete, cut off, malformed), each with buffer sizes from 0 through the boundary of completeness; random sequences of tokens'
