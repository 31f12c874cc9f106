from vlib import hexs
from urlsets import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ state machine of URL objects (create, relative, copy, assign), laws model-checked; recorded runs of the real class replayed through it by TLC'
NOTE = ('The state of Url/UrlTrace is the set of URL objects; every object is observed after every operation, so dependence between copies shows. Runs of the real class over 3 objects, '
        'exact-size texts under the address sanitizer. Parents are whatever earlier operations made. NUL bytes are not generated.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('url', 'url.cpp')
    ctx.design('UrlLaws', min_states=10000)
    rels = [p for p in PATHS if p] + [b'x', b'x/', b'x/y', b'../x', b'./x', b'..', b'.', b'../../x', b'../..', b'?q=1', b'#f', b'x#f', b'/x?y#z', b'mailto:a@b', b'MAILTO:x', b'mailto', b'javascript:f()', b'JavaScript:', b'javascript',
            b'http://a.b/c', b'HTTP://WWW.A.B', b'https://a.b/', b'http:/x', b'http', b'https:', b'//x/y', b'x//y', b'x?../..', b'xmailto:', b'#', b'', b'h', b'mail', b'http://other.org/x', b'ftp://x/y', b'http:x', b'x/../../..', b'a/./b/']
    rels += [b'mailto:'[:k] for k in range(1, 8)] + [b'javascript:'[:k] for k in range(1, 12)] + [b'https://'[:k] for k in range(1, 9)]
    pars = [b'http://a.b', b'https://www.A.b/', b'HTTPS://www.a.b/x', b'a.b/c', b'a.b/c/', b'http://a.b/c/d', b'http://a.b/c/d/', b'http://a.b/c/d?e/f', b'http://sub.a.b/?x', b'http:///x/y', b'HTTP://x.a.b:80/c/d/../e', b'https://h/a//b', b'other.org']
    s = []
    for p in pars:
        for u in rels:
            f = r.randint(0, 3)
            s.append('2 abs 1 %s %d rel 2 1 %s %d' % (hexs(p), r.choice([0, 1]), hexs(u), f))
            if u.lower().startswith(b'http') or r.random() < .3:
                s.append('2 abs 1 %s 1 rel 2 1 %s %d' % (hexs(p), hexs(u), f ^ 2))
    for _ in range(ctx.n(1500, 30000)):
        ops = []
        for _ in range(r.randint(3, 12)):
            x = r.random(); i = r.randint(1, 3); j = r.randint(1, 3)
            text = r.choice(rels) if r.random() < .6 else tokens(r, 1, 6)
            if x < .25: ops.append('abs %d %s %d' % (i, hexs(r.choice(pars) if r.random() < .7 else text), r.randint(0, 1)))
            elif x < .6:
                if r.random() < .7: ops.append('new %d' % i)
                if i == j and r.random() < .8: j = i % 3 + 1
                ops.append('rel %d %d %s %d' % (i, j, hexs(text), r.randint(0, 3)))
            elif x < .75: ops.append('assign %d %d' % (i, j if r.random() < .7 else i))
            elif x < .88: ops.append('copy %d %d' % (i, j))
            else: ops.append('new %d' % i)
        s.append('3 ' + ' '.join(ops))
    L = [0, 1, 2, 10, 20, 21, 40, 41, 42, 43, 63, 64, 80, 82, 84, 85, 86, 100, 127, 128, 255, 256, 257, 340, 342, 512, 1000, 1024, 1366, 2048, 4096, 5000]
    for v in L: s += ['long %d %d %d %d' % x for x in ((v, 3, 2, 1), (1, v, 0, v // 2), (1, 2, v, 1), (1, 2, 3, v), (r.choice(L[:24]), r.choice(L[:24]), r.choice(L), r.choice(L[:24])))]
    for v in (16384, 21846, 32768, 65536, 100000): s += ['long 1 2 %d 1' % v] + (['long %d 2 1 1' % v, 'long 1 %d 1 9' % v] if v < 30000 else [])
    ctx.validate('UrlTrace', ctx.drive(exe, s, 'runs', crash_line=CRASH), what='url run')
    ctx.extra['rule'] = 'a line is a run over 2-3 URL objects: all pairs of 13 parents and 110 relative texts with random flags, random runs with copies, assignments, self-assignments, reuse'
