import vlib
def hexs(s): return vlib.hexs(s.encode() if isinstance(s, str) else s)
NAMES = ['a', 'b', 'c', 'item', 'x-1', 'n:s', '_u', 'list', 'aa']
SCAL = ['str', 'i32', 'u32', 'i64', 'u64', 'u8', 'b', 'flt', 'dbl', 'ld']
def build(ctx):
    return ctx.build('xmlbind', 'xmlbind.cpp', libs=['-lexpat'])
def binding(r, depth, top=False):
    """A random binding: [(name, ty, it, sub)]; names within a structure differ."""
    names = r.sample(NAMES, r.randint(1, 2 if top else 5)); out = []
    for n in names:
        x = r.random()
        if depth and (top or x < .3): out.append((n, 'st', '', binding(r, depth - 1)))
        elif depth and x < .45: out.append((n, r.choice(['list', 'vec']), 'st', binding(r, depth - 1)))
        elif x < .65: t = r.choice(['list', 'vec']); out.append((n, t, r.choice([s for s in SCAL if not (t == 'vec' and s == 'b')] + ['str', 'str']), []))
        else: out.append((n, r.choice(SCAL + ['str', 'str', 'str']), '', []))
    if not top and r.random() < .25: out.append(('', r.choice(SCAL + ['str']), '', []))
    return out
def sch(b):
    return '%d %s' % (len(b), ' '.join('%s %s%s%s' % (hexs(n) if n else '-', t, ' ' + it if t in ('list', 'vec') else '', ' ' + sch(s) if t == 'st' or it == 'st' else '') for n, t, it, s in b))
def esc(r, s, attr=None):
    o = ''
    for c in s:
        if c == '<' or c == '&' or c == attr or (c in '\n\t' and attr and r.random() < .5) or c == '>' or r.random() < .04:
            o += r.choice(['&#%d;' % ord(c), '&#x%X;' % ord(c), '&#x%04x;' % ord(c)]) if c not in '<&>"\'' or r.random() < .3 else {'<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}[c]
        else: o += c
    return o
def nums(r, ty):
    lim = {'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'u64': (0, 2 ** 64 - 1), 'u8': (0, 255)}
    if ty in lim:
        a, b = lim[ty]
        v = str(r.choice([a, b, a + 1, b - 1, 0, 1, r.randint(a, b), r.randint(0, 255), r.randint(a // 2, b // 2)]))
        if r.random() < .2: v = v.replace('-', '-00') if v[0] == '-' else r.choice(['0', '+', '000']) + v
        return r.choice(['', '', '', ' ', '\n  ']) + v + r.choice(['', '', '', ' ', '\n'])
    if ty == 'b':
        w = r.choice(['0', '1', 'true', 'false', 'on', 'off', 'yes', 'no'])
        return ''.join(r.choice([c.upper(), c.lower()]) for c in w) if r.random() < .6 else w
    return r.choice(['', '-', '', '+']) + str(r.choice([0, 1, 7, 255, 65536, 999999, r.randint(0, 999999)])) + r.choice(['', '.0', '.25', '.5', '.75', '.', '.00', '.50'])
def words(r):
    return ''.join(r.choice(['a', 'b', ' ', '\n', '\t', '<', '&', '>', '"', "'", '\u00e9', '\u20ac', '\U0001f600', '\ufffd', ']]', 'Z', '0', '12', ';', '#']) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12])))
def text(r, ty):
    return words(r) if ty == 'str' or r.random() < .03 else nums(r, ty)
def chars(r, s):
    """character data in one of its spellings"""
    if not s: return r.choice(['', '', '<![CDATA[]]>', '<!-- c -->'])
    x = r.random()
    if x < .6: o = esc(r, s)
    elif x < .75: o = '<![CDATA[' + s.replace(']]>', ']]]]><![CDATA[>') + ']]>'
    else: k = r.randint(0, len(s)); o = chars(r, s[:k]) + r.choice(['<!--x-->', '<?pi y?>', '']) + chars(r, s[k:])
    return o.replace('\n', r.choice(['\n', '\n', '\r\n', '\r'])) if r.random() < .2 else o
def attrs(r, l):
    o = ''
    for n, v in l:
        q = r.choice('"\'')
        o += r.choice([' ', '\n ', '  ']) + n + r.choice(['=', '=', ' = ']) + q + esc(r, v, q) + q
    return o
def elem(r, n, ty, it, sub, depth):
    """An element for a slot (ty None: unbound)."""
    al, kids = [], []
    if ty is None or r.random() < .15:      # something not bound
        if r.random() < .5: al.append(('zz', words(r)))
        if depth and r.random() < .5:
            kids.append(elem(r, r.choice(NAMES + ['zz', n]), None, '', [], depth - 1))
    if ty in ('list', 'vec'): ty, it = it, ''
    if ty == 'st':
        names = [s for s in sub if s[0]]
        for s in names:
            if s[1] != 'st' and s[2] != 'st' and r.random() < .25 and not any(a[0] == s[0] for a in al):
                al.append((s[0], text(r, s[2] or s[1])))
        for s in r.choices(names, k=r.randint(0, 5)) if names else []:
            kids.append(elem(r, s[0], s[1], s[2], s[3], depth - 1))
        if r.random() < .3: kids.append(elem(r, r.choice(NAMES + ['zz']), None, '', [], 0) if False else elem(r, 'zz', None, '', [], max(0, depth - 1)))
        if r.random() < .2 and names: kids.append('<zz>' + elem(r, *r.choice(names), depth=0) + '</zz>')
        tx = [s for s in sub if not s[0]]
        own = text(r, tx[0][1]) if tx else r.choice(['', '\n ', words(r)])
    else:
        own = text(r, ty) if ty else words(r)
    r.shuffle(al)
    e = '<' + n + attrs(r, al)
    if not kids and not own and r.random() < .5: return e + r.choice(['/>', ' />'])
    if not kids: body = chars(r, own)
    elif r.random() < .7 or not own: body = ''.join(r.choice(['', '\n']) + k for k in kids) + chars(r, own)
    else:
        k = r.randint(0, len(own)); j = r.randint(0, len(kids))
        body = chars(r, own[:k]) + ''.join(kids[:j]) + chars(r, own[k:]) + ''.join(kids[j:])
    return e + r.choice(['>', ' >']) + body + '</' + n + r.choice(['>', '>', '\n>'])
def document(r, b):
    s = r.choice(b) if r.random() < .95 else ('zz', None, '', [])
    return (r.choice(['', '', '\ufeff']) + r.choice(['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>']) +
            r.choice(['', '\n', '<!-- a -->', '<?pi b c?>\n']) + elem(r, *s, depth=3) + r.choice(['', '\n', '<!--z-->', ' <?q?> ']))
