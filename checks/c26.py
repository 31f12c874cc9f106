from xmllib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of the binding mechanism checked against the TLA+ definition of what a document binds; random documents under random bindings loaded by the real code and judged by TLC'
NOTE = ('XmlMC checks over all small documents that walking the stack of levels leaves in the members what XmlBind defines. Recorded loads: random bindings of scalars, lists, vectors and nested structures '
        '(up to 3 deep, built at run time), random documents in many spellings (CDATA, references, comments, attributes, unbound and misplaced elements, mixed content), long texts, hundreds of items; '
        'each document is parsed and bound by the specification (Xml.tla, XmlBind.tla) and compared with the members.')
ASSUMPTIONS = ['no document type declarations; UTF-8', 'text of an element with children: either all its own text or the text after the last child', 'number and boolean texts outside the documented forms are not judged']
def deep(r, n):
    e = 'x'
    for i in range(n): e = '<%s>%s</%s>' % ('ab'[i % 2], e, 'ab'[i % 2])
    return e
def run(ctx):
    r = ctx.rng; exe = build(ctx); s = []
    ctx.design('XmlMC', min_states=100000)
    if ctx.thorough: ctx.design('XmlMC', 'XmlMCbig', min_states=10**6, timeout=1500)
    for _ in range(ctx.n(180, 4000)):
        b = binding(r, 3, True)
        for _ in range(4): s.append('load %s %s' % (sch(b), hexs(document(r, b))))
    for _ in range(ctx.n(25, 400)):      # wide, long, deep
        it = r.choice(['str', 'u8', 'st', 'b']); sub = [('k', 'i32', '', []), ('v', 'list', 'str', [])] if it == 'st' else []
        b = [('r', 'st', '', [('i', 'list' if it == 'b' else r.choice(['list', 'vec']), it, sub), ('s', 'str', '', [])])]
        items = [elem(r, 'i', 'list', it, sub, 1) for _ in range(r.choice([40, 90]))]
        big = ''.join(r.choice(['abcdefgh ' * 9, '\u20ac' * 17, '\r\n', '&amp;', '\U0001f600', '&#x20AC;', '<![CDATA[<&]]>', 'x' * 400]) for _ in range(r.randint(4, 30)))
        at = ''.join(r.choice(['abc ' * 9, '\u20ac' * 17, '\n', '&amp;', 'x' * 400]) for _ in range(r.randint(1, 8)))
        s.append('load %s %s' % (sch(b), hexs('<r>%s</r>' % ''.join(items))))
        s.append('load %s %s' % (sch(b), hexs('<r><s>%s</s>%s</r>' % (big, items[0]))))
        s.append('load %s %s' % (sch(b), hexs('<r s="%s">%s%s</r>' % (at, deep(r, r.randint(1, 60)), items[0]))))
    for n in (0, 1, 100, 127, 128, 254, 255, 256, 257, 1023, 1024, 1025, 2000, 4000, 4090, 4096, 4097, 5000, 8192, 16384, 30000, 65535, 65536, 65537, 131073, 200000): s.append('long %d %d %d' % (n, r.choice([0, 1, 2, 15, 16, 17, 100, 255, 256, 257, 1000]), r.choice([0, 1, 2, 50])))
    for k in (255, 256, 1000, 4096, 20000, 66000): s.append('long 5 %d 1' % k)
    for d in (10, 63, 64, 100, 127, 128, 255, 256, 1000, 5000): s.append('long 5 2 %d' % d)
    ctx.validate('XmlTrace', ctx.drive(exe, s, 'docs'), what='loaded document')
