from storagelib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of the string-to-slot map, model-checked; recorded runs of the real storage replayed through it by TLC'
NOTE = ('StringStorage.tla maps strings to slots and slots to contents; which address a new slot gets and whether a string within 96 bytes of the limit is stored is left open. '
        'Runs add tables of strings with shared prefixes in many orders, find every string after every few steps, mark slots and re-read all of them; address sanitizer on.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('storage', 'storage.cpp')
    ctx.design('StringStorageMC', min_states=100)
    s = []
    def go(table, ud, order, sparse):
        table = norm(table); n = len(table)
        ops = []
        for i, x in enumerate(order):
            ops.append('add %d' % x)
            if r.random() < .5: ops.append('write %d' % x)
            if not sparse or i % 9 == 0 or i == len(order) - 1:
                ys = list(range(1, n + 1)) if n < 16 or i == len(order) - 1 else r.sample(range(1, n + 1), 12)
                ops.append('finds %d %s' % (len(ys), ' '.join(map(str, ys))))
            if r.random() < .3: ops.append('add %d' % r.choice(order[:i + 1]))
        ops += ['check'] + ['add %d' % x for x in order] + ['check']
        if r.random() < .2: ops += ['free'] + ['find %d' % order[0], 'add %d' % order[-1], 'find %d' % order[0], 'check']
        s.append('%d %d %s %s' % (ud, n, ' '.join(table), ' '.join(ops)))
    for t in families(r):
        t = norm(t)
        for v in range(ctx.n(8, 40)):
            order = list(range(1, len(t) + 1))
            if v == 1: order.reverse()
            if v > 1: r.shuffle(order)
            if v > 3: order = order[:r.randint(1, len(order))]
            go(t, r.choice([0, 1, 4, 8, 40]), order, len(t) > 12)
    for _ in range(ctx.n(250, 6000)):
        t = norm(random_table(r)); order = list(range(1, len(t) + 1)); r.shuffle(order)
        go(t, r.choice([0, 1, 8, 16, 100]), order[:r.randint(1, len(order))], True)
    # around the size limit; blocks that fill exactly
    for ud in (0, 1, 8, 100, 3000, 4000, 4090, 4095, 4096, 5000):
        lens = sorted(set(max(0, 4096 - ud + d) for d in (-97, -96, -10, -5, -4, -3, -2, -1, 0, 1, 2, 100)) | {0, 1})
        t = ['61x%d' % n if n else '-' for n in lens]
        order = list(range(1, len(t) + 1)); r.shuffle(order)
        go(t, ud, order, True)
        t2 = [runs_of((97 + i, n)) for i, n in enumerate(lens)]
        go(t2, ud, list(range(1, len(norm(t2)) + 1)), True)
    for step in range(1, 40, 3):
        t = [runs_of((33 + i, 100 + step)) for i in range(60)]
        go(t, 4, list(range(1, 61)), True)
    # many blocks, many strings
    for n, size, ud in ((20, 3900, 0), (70, 2100, 4), (140, 3000, 8), (270, 3990, 1), (300, 40, 3900), (400, 5, 0), (300, 300, 8)):
        t = [runs_of((97 + i % 17, 1), (97 + i // 17, 2), (120, size - r.randint(0, size // 9))) for i in range(n)]
        order = list(range(1, len(norm(t)) + 1)); r.shuffle(order)
        go(t, ud, order, True)
    ctx.validate('StringStorageTrace', ctx.drive(exe, s, 'runs', crash_line=CRASH), what='string storage run')
    ctx.extra['rule'] = 'a line is a run over one table of strings: prefix chains and branches at depths around 8 and 255 bytes, look-alike tails, all words over 3 bytes, random tables, lengths around the block size, many orders'
