import itertools
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of search and span functions; every recorded call of the real code judged by TLC'
NOTE = ('Strings.tla defines the searches and spans; StringsLaws checks on all texts up to length 6 that the definition is the intended one (mirror, maximality, first match). '
        'TLC judges recorded calls of all 19 functions, on exact-size buffers under the address sanitizer. Holds for the inputs enumerated: all short texts over a small alphabet '
        'with both cases and a NUL, plus random longer ones.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('text', 'text.cpp')
    ctx.design('StringsLaws', min_states=1000)
    s = []
    needles = [b'', b'a', b'A', b'b', b'ab', b'aB', b'aa', b'ba', b'aab', b'aba', b'abA', b'\xe0', b'[']
    for n in range(0, 4):
        for t in itertools.product(b'aAb', repeat=n):
            for d in needles:
                s.append('search %s %s' % (hexs(bytes(t)), hexs(d)))
    for c in range(256):
        for d in {c, c ^ 0x20, c ^ 0x80, (c + 1) % 256}:
            if d: s.append('search %s %s' % (hexs(bytes([97, c, 98])), hexs(bytes([d]))))
    for d in (b'\0', b'a', b'ab', b''):
        for t in (b'\0', b'\0a', b'a\0', b'\0ab', b'ab\0ab', b'', b'a'):
            s.append('search %s %s' % (hexs(t), hexs(d)))
    for _ in range(ctx.n(400, 8000)):
        al = r.choice([b'ab', b'aAbB', b'abcdefXYZ@[`{', bytes(range(1, 256)), b'a\0b'])
        t = bytes(r.choice(al) for _ in range(r.randint(0, 24)))
        if t and r.random() < .5:
            i = r.randint(0, len(t) - 1); d = t[i:i + r.randint(1, 5)]
            if r.random() < .5: d = d.swapcase()
        else:
            d = bytes(r.choice(al) for _ in range(r.randint(0, 5)))
        s.append('search %s %s' % (hexs(t), hexs(d.replace(b'\0', b''))))
    N = (3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 70000)
    for n in N: s += ['far %d 3' % n, 'far 3 %d' % n, 'far %d %d' % (n, r.choice(N))]
    ctx.validate('StringsTrace', ctx.drive(exe, s, 'calls'), what='search/span call')
    ctx.extra['rule'] = 'one call of one of 19 functions per line: all texts of length 0-3 over {a,A,b} with 13 needles/sets, every byte value against itself, its case bit and its sign bit, NULs inside, random texts with needles cut out of them'
