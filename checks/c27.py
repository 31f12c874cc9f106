from xmllib import *
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of well-formed documents; every truncation, mutation and read boundary loaded by the real code from memory and file and judged by TLC'
NOTE = ('Xml.tla decides well-formedness (XmlLaws: rendered trees read back, cut ones are rejected). Every document is loaded from memory (with and without length) and from a file; all must give what the specification '
        'binds, or all must raise an exception that names the fault, without leaving a descriptor. Documents slid over the 4096-byte read boundary, of sizes around its multiples, every truncation, random mutations, missing and unreadable files.')
ASSUMPTIONS = ['documents with a DTD, another encoding or non-ASCII names: only agreement between the ways of loading is required']
B = 4096
def run(ctx):
    r = ctx.rng; exe = build(ctx); s = []
    ctx.design('XmlLaws', min_states=5000)
    add = lambda b, d: s.append('load %s %s' % (sch(b), hexs(d)))
    fixed = [('r', 'st', '', [('t', 'str', '', []), ('l', 'vec', 'str', []), ('n', 'i32', '', []), ('a', 'str', '', [])])]
    base = '<r a="v\u20ac&lt;w"><l>one</l><l><![CDATA[t<o]]></l><n>12345</n><t>x\u20acy\r\nz&amp;&#x41;b</t><!--c--><l/></r>'.encode()
    # every byte of the document on the boundary
    for k in range(0, len(base), ctx.n(3, 1)):
        for fill in ('<!--%s-->', '%s') if k % 2 else ('%s', '<?p %s?>'):
            n = B * r.choice([1, 1, 2]) - k - len(fill) + 2
            add(fixed, (fill % (r.choice([' ', '\n']) * n)).encode() + base)
    # text around the boundary
    for n in [B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1] + [r.randint(1, 9000) for _ in range(ctx.n(10, 200))]:
        for w in ('x', '\u20ac', '\U0001f600', '\r\n', '&amp;', 'ab\n'):
            u = len(w.encode()); pre, post = '<r><t>', '</t></r>'
            body = w * ((n - len(pre) - len(post)) // u + 1)
            d = (pre + 'y' * ((n - len(pre) - len(post)) % u) + body).encode()[:max(0, n - len(post))]
            if ctx.thorough or r.random() < .25: add(fixed, d + post.encode())           # sometimes cut inside a character
            if r.random() < .1: add(fixed, d)
    # exactly n bytes
    for n in (B - 1, B, B + 1, 2 * B, 3 * B - 1, 3 * B):
        add(fixed, base + b' ' * (n - len(base))); add(fixed, b' ' * (n - len(base)) + base); add(fixed, base[:-1] + b' ' * (n - len(base)) + b'>')
        add(fixed, base[:-1] + b' ' * (n - len(base) + 1)); add(fixed, base + b'\n' * (n - len(base) - 1) + b'x')
    for n in range(len(base)): add(fixed, base[:n])
    add(fixed, ''); add(fixed, ' '); add(fixed, '\ufeff'); add(fixed, '<?xml version="1.0"?>')
    alpha = b'<>&;/="\'!?-[]ab r:#x1 \n\r\t\x00\x01\x7f\x80\xc3\xe2\xef\xbb\xbf\xbe\xed\xa0\xf0\xf5\xff'
    for _ in range(ctx.n(700, 20000)):
        if r.random() < .5: b = fixed; d = base
        else: b = binding(r, 2, True); d = document(r, b).encode()
        d = bytearray(d)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.random(); p = r.randint(0, len(d)); q = r.randint(p, min(len(d), p + 8))
            if x < .3: d[p:q] = b''
            elif x < .6: d[p:p] = bytes(r.choice(alpha) for _ in range(r.randint(1, 2)))
            elif x < .9: d[p:p + 1] = bytes([r.choice(alpha)])
            elif x < .95: d[p:p] = d[q:q + 10]
            else: d = d[:p]
        add(b, bytes(d))
    def nof(p, why): s.append('nofile %s %s' % (hexs(p), hexs(why)))
    nof('nope.xml', 'No such file'); nof('no/such/dir/x.xml', 'No such file'); nof('/', 'Is a directory'); nof('.', 'Is a directory'); nof('/dev/null/x', 'Not a directory')
    nof('/proc/self/mem', 'Input/output error'); nof('y' * 300, 'File name too long'); nof('z' * 5000, '')
    ctx.validate('XmlTrace', ctx.drive(exe, s, 'docs'), what='loaded document')
