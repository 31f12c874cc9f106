import itertools
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of number parsing and tokenising; every recorded call of the real code judged by TLC'
NOTE = ('Strings.tla defines values as digit strings (no machine arithmetic), splitting, sets, words; laws checked exhaustively on short texts; TLC judges every recorded call. '
        'Out of scope: decimal texts outside the type, comma-list items that only begin with a number, an empty alphabet.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('text', 'text.cpp')
    ctx.design('StringsLaws', min_states=1000)
    s = []
    nums = [b'', b'0', b'-', b'-0', b'--1', b'-1-', b'1-', b'+1', b' 1', b'1 ', b'00', b'007', b'-007', b'1a', b'a1', b'1\0', b'1/', b'1:', b'-:', b'0x1', b'1.5', b'18446744073709551615', b'18446744073709551616',
            b'000000000000000000000000000000018446744073709551615', b'9223372036854775807', b'-9223372036854775807', b'-9223372036854775808', b'9223372036854775808', b'10000000000000000000', b'12345678901234567890', b'99999999999999999999x']
    nums += [str(10 ** k + d).encode() for k in range(0, 20) for d in (-1, 0, 1)] + [str(2 ** k + d).encode() for k in range(1, 64) for d in (-1, 0)]
    nums += [b'-' + x for x in nums if x[:1].isdigit()]
    nums += [b'12' + bytes([c]) + b'3' for c in range(256)] + [bytes([c]) for c in range(256)] + [bytes([c]) + b'5' for c in range(256)] + [b'-' + bytes([c]) for c in range(256)]
    for _ in range(ctx.n(300, 5000)):
        nums.append(bytes(r.choice(b'0123456789' + (b'-x ' if r.random() < .3 else b'')) for _ in range(r.randint(1, 21))))
    s += ['num ' + hexs(x) for x in nums]
    for n in range(0, 5):
        for t in itertools.product(b'a,;', repeat=n):
            for d in (b',', b',;', b'', b'x'):
                s.append('split %s %s' % (hexs(bytes(t)), hexs(d)))
    for t in (b'a\0b', b'\0', b'\0,', b',\0', b'a,\0,b', b'\xff\x80,\xff', b'a b\tc'):
        for d in (b',', b'', b' \t', b'\xff', b'a'):
            s.append('split %s %s' % (hexs(t), hexs(d)))
    for _ in range(ctx.n(300, 5000)):
        al = bytes(r.choice([b'ab,', b'a,; \t', bytes(range(1, 256)), b'a,\0']))
        s.append('split %s %s' % (hexs(bytes(r.choice(al) for _ in range(r.randint(0, 40)))), hexs(bytes(r.choice(b',; \tab') for _ in range(r.randint(0, 4))))))
    for n in range(0, 5):
        for t in itertools.product(b'ab,', repeat=n):
            s.append('strset %s %s' % (r.choice(['0', '2 61 78', '1 -']), hexs(bytes(t))))
    for _ in range(ctx.n(150, 3000)):
        s.append('strset 1 7a %s' % hexs(b','.join(bytes(r.choice(b'abc \xff') for _ in range(r.randint(0, 4))) for _ in range(r.randint(0, 8)))))
    items = [b'', b'0', b'1', b'7', b'007', b'42', b'18446744073709551615', b'9223372036854775808', b'4294967296', b'x', b'abc', b'x1', b'.', b';3']
    for a in items:
        s.append('numset 0 ' + hexs(a))
        for b in items:
            s.append('numset %s %s' % (r.choice(['0', '1 5', '2 5 6510615555426900570']), hexs(a + b',' + b)))
    for _ in range(ctx.n(200, 4000)):
        s.append('numset 1 3 ' + hexs(b','.join(r.choice(items + [str(r.randint(0, 2 ** r.randint(1, 64) - 1)).encode()]) for _ in range(r.randint(1, 9)))))
    for n in range(0, 5):
        for t in itertools.product(b'a \n', repeat=n):
            s.append('words ' + hexs(bytes(t)))
    for _ in range(ctx.n(150, 3000)):
        s.append('words ' + hexs(bytes(r.choice(b'ab \t\n\r\x0b\x0c\xa0') for _ in range(r.randint(0, 30)))))
    for k in (0, 1, 2, 3, 10, 63, 64, 65, 500):
        for a in (b'a', b'ab', b'abc', bytes(range(256)), b'\0', b'0123456789abcdef'):
            for _ in range(4):
                s.append('random %d %s' % (k, hexs(a)))
    for k in (1, 2, 3, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, 40000, 65536, 70000):
        for n in (1, 2, 3, 15, 16, 100, 255, 256, 257, 4096, 65535, 65536, 70000):
            if k * n <= 300000: s.append('pieces %d %d' % (k, n))
    ctx.validate('StringsTrace', ctx.drive(exe, s, 'calls'), what='number/token call')
    ctx.extra['rule'] = 'one call per line: numbers at every power of ten and of two and both type limits, every byte value in every position of a number, all short texts over letters and delimiters, NULs and high bytes, random texts'
