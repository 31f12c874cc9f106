import itertools
from vlib import hexs
from urlsets import *
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ definition of the normal form, laws model-checked over token sequences; every recorded creation by the real code validated by TLC'
NOTE = ('Url.tla defines the normal form; UrlLaws checks idempotence and shape on all sequences of up to 4 tokens. TLC judges recorded creations of the real class (texts in exact-size buffers '
        'under the address sanitizer), each result also normalised again by the real code. Hosts with an empty inner label have no defined domain; NUL bytes are not generated.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('url', 'url.cpp')
    ctx.design('UrlLaws', min_states=10000)
    us = set()
    for sch in (b'', b'http://', b'https://', b'HTTP://', b'HtTpS://', b'http:/', b'https:', b'ftp://'):
        for h in HOSTS:
            for p in PATHS if sch in (b'', b'HtTpS://') or h == b'A.B' else r.sample(PATHS, 8):
                us.add(sch + h + p)
    for n in (1, 2, 3):
        for t in itertools.product([b'a', b'.', b'/', b'?', b'#', b'http://', b'..', b'B'], repeat=n):
            us.add(b''.join(t))
    for k in range(1, 9):
        us.add(b'https://'[:k]); us.add(b'HTTP://'[:k]); us.add(b'mailto:'[:k]); us.add(b'http://a'[:k])
    for c in range(1, 256):
        us.add(b'a' + bytes([c]) + b'b'); us.add(b'http://a.b/' + bytes([c]))
    for _ in range(ctx.n(1500, 40000)):
        us.add(tokens(r, 1, 9))
    s = []
    us = sorted(us)
    r.shuffle(us)
    # normalised twice: with the same flags the second result must be the first one
    for u in us:
        f = r.choice([0, 1])
        s.append('2 abs 1 %s %d assign 2 1 new 1 abs 1 %s %d' % (hexs(u), f, hexs(u), 1 - f))
    L = [0, 1, 2, 10, 20, 21, 40, 41, 42, 43, 63, 64, 80, 82, 84, 85, 86, 100, 127, 128, 255, 256, 257, 340, 342, 512, 1000, 1024, 1366, 2048, 4096, 5000]
    for v in L: s += ['long %d %d %d %d' % x for x in ((v, 3, 2, 1), (1, v, 0, v // 2), (1, 2, v, 1), (1, 2, 3, v), (r.choice(L[:24]), r.choice(L[:24]), r.choice(L), r.choice(L[:24])))]
    for v in (16384, 21846, 32768, 65536, 100000): s += ['long 1 2 %d 1' % v] + (['long %d 2 1 1' % v, 'long 1 %d 1 9' % v] if v < 30000 else [])
    # the driver cannot feed results back, so take them from a first pass
    tr = ctx.drive(exe, s, 'first', crash_line=CRASH)
    ctx.validate('UrlTrace', tr, what='absolute url')
    import json
    again = []
    for l in open(tr, 'rb'):
        o = json.loads(l)['ops']
        if len(o) == 4:
            for e in (o[0], o[3]):
                x = bytes(e['obs'][0]['url'])
                if x: again.append('1 abs 1 %s %d' % (hexs(x), e['flags']))
    again = sorted(set(again))
    ctx.validate('UrlTrace', ctx.drive(exe, again[:ctx.n(4000, 60000)], 'again', crash_line=CRASH), what='absolute url, normalised again')
    ctx.extra['rule'] = 'a line is a run creating URLs from one text with both flag values; all combinations of schemes, hosts and paths from boundary lists, all token triples, every byte in host and path, every prefix of a scheme, random token sequences; every distinct result is fed back'
