from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of the letter table and of UTF-8 cutting; every recorded call of the real code judged by TLC'
NOTE = ('Vietnam.tla defines the table from the structure of the Unicode blocks; VietnamLaws checks length, idempotence and kept cut characters for every code point below U+2000 and samples above. TLC judges '
        'recorded calls: every code point below U+3000 and samples above, alone and in context, cut at every byte; malformed bytes and NUL as overlong forms are out of scope.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('vietnam', 'vietnam.cpp')
    ctx.design('VietnamLaws', min_states=8000)
    viet = 'ÀÁÂÃÈÉÊÌÍÒÓÔÕÙÚÝĂĐĨŨƠƯàáâãèéêìíòóôõùúýăđĩũơưÐð' + ''.join(chr(c) for c in range(0x1ea0, 0x1efa))
    near = 'ÄÅÆÇËÏÑÖØÛÜÞßäåæçëïñöøûüþÿĀāĄąĎďĒēĪīŌōƠƟƢƣƭƮưƱṀẟỺỻỼ\u02ff\u0300\u0301\u0303\u0309\u0323\u036f\u0370а中日€😀𐍈\u0340\u0341'
    s = []
    for c in range(1, 0x3000, 1):
        s.append(chr(c).encode())
    # pack many single characters per line to keep the trace short, and single ones for the letters
    lines = [b''.join(s[i:i + 16]) for i in range(0, len(s), 16)]
    lines += [chr(c).encode() for c in list(map(ord, viet)) + list(map(ord, near))]
    for c in [r.randint(0x3000, 0xd7ff) for _ in range(60)] + [r.randint(0xe000, 0xffff) for _ in range(40)] + [r.randint(0x10000, 0x10ffff) for _ in range(60)] + [0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000]:
        lines.append(chr(c).encode() + b'z' + chr(c).encode())
    # four-byte characters whose low bits look like a letter or a combining mark
    for c in list(map(ord, viet)) + [0x300, 0x36f]:
        for add in (0x10000, 0x20000, 0x100000, 0x3000 if c < 0x1000 else 0x8000):
            lines.append(b'x' + chr(c + add).encode() + b'y')
    for c in viet[::5] + near:
        e = c.encode()
        for k in range(1, len(e)):
            lines.append(e[:k]); lines.append(b'a' + e[:k]); lines.append('ạ'.encode() + e[:k])
    for _ in range(ctx.n(500, 20000)):
        t = ''.join(r.choice([r.choice(viet), r.choice(near), chr(r.randint(1, 127)), chr(r.randint(1, 0xd7ff))]) for _ in range(r.randint(0, 14))).encode()
        if t and r.random() < .3: t = t[:-1]
        lines.append(t)
    lines += [b'', b'\0', b'a\0b']
    ctx.validate('VietnamTrace', ctx.drive(exe, [hexs(x) for x in lines], 'calls'), what='tone removal')
    ctx.extra['rule'] = 'one text per line: every code point U+0001..U+2FFF, Vietnamese letters and their neighbours alone, every kind of character cut at every byte, look-alikes in higher planes, random mixtures'
