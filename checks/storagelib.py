import itertools
CRASH = lambda r: {'ud': 0, 'len': [1], 'ops': [{'f': 'find', 's': 1, 'r': 77, 'why': r['why'], 'cur': r['cur'][:300], 'msg': r['msg']}]}
def runs_of(*parts):
    return ','.join('%02xx%d' % (c, n) for c, n in parts if n > 0) or '-'
def families(r):
    """string tables exercising shared prefixes"""
    a, z, b = 97, 122, 98
    def uniq(l):
        return list(dict.fromkeys(l))
    out = []
    # chains of prefixes of growing length
    out.append([runs_of((a, n)) for n in (0, 1, 7, 8, 9, 10, 17, 18, 19, 20, 30, 254, 255, 256, 257, 263, 264, 265, 300, 511, 512, 513, 600)])
    # branches off a long string at different depths, then branches that look alike after the branching point
    for base in (20, 40, 270, 530):
        t = [runs_of((a, base))]
        for d in (8, 9, 10, 11, 12, 15, 18, 19, base - 1):
            for tail in (((z, 11), (49, 1)), ((z, 11), (50, 1)), ((z, 9), (50, 1)), ((z, 20),), ((b, 3),)):
                t.append(runs_of((a, d), *tail))
        out.append(uniq(t))
    # common prefixes around 255 bytes with different tails
    t = []
    for d in range(248, 268):
        for tail in (((z, 1),), ((z, 12), (b, 1)), ((z, 12), (49, 1))):
            t.append(runs_of((a, d), *tail))
    out.append(uniq(t))
    # two letters, high bytes
    t = [runs_of(*[(c, 1) for c in w]) for n in range(0, 4) for w in itertools.product((97, 98, 0xff), repeat=n)]
    out.append(uniq(t))
    t = [runs_of((0xe0, x), (b, y), (0x80, w)) for x in (0, 5, 9, 12) for y in (0, 3, 9) for w in (0, 1, 10)]
    out.append(uniq(t))
    return out
def random_table(r):
    al = r.choice([[97, 98], [97, 122, 49], [97, 98, 0xff, 0x80]])
    t = set()
    stem = [(r.choice(al), r.choice([r.randint(1, 12), r.randint(1, 12), r.randint(100, 300)])) for _ in range(3)]
    for _ in range(r.randint(3, 40)):
        k = r.randint(0, 3)
        p = stem[:k] if r.random() < .8 else []
        if p and r.random() < .7:
            p = p[:-1] + [(p[-1][0], r.randint(1, p[-1][1]))]
        p = list(p) + [(r.choice(al), r.choice([1, 1, 2, 9, 10, 11, 40])) for _ in range(r.randint(0, 4))]
        q = []
        for c, n in p:                      # merge runs so that a string has one name
            if q and q[-1][0] == c: q[-1] = (c, q[-1][1] + n)
            else: q.append((c, n))
        t.add(runs_of(*q))
    t = sorted(t); r.shuffle(t)
    return t
def norm(table):
    seen, out = set(), []
    for d in table:
        q = []
        if d != '-':
            for x in d.split(','):
                c, n = x.split('x', 1) if False else (x[:2], x[3:])
                if q and q[-1][0] == c: q[-1][1] += int(n)
                else: q.append([c, int(n)])
        d2 = ','.join('%sx%d' % (c, n) for c, n in q) or '-'
        if d2 not in seen:
            seen.add(d2); out.append(d2)
    return out
