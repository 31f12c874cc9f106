from storagelib import *
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of the string-to-slot map, model-checked; recorded enumerations of the real storage replayed through it by TLC'
NOTE = ('The callbacks of each recorded enumeration must be exactly the strings and slots the model holds. Tables and orders as in C14, enumerated after every few additions; '
        'strings up to the largest that can be stored; address sanitizer on.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('storage', 'storage.cpp')
    ctx.design('StringStorageMC', min_states=100)
    s = []
    def go(table, ud, order, every):
        ops = ['enum']
        for i, x in enumerate(order):
            ops.append('add %d' % x)
            if i % every == 0 or i == len(order) - 1: ops.append('enum')
        ops += ['add %d' % r.choice(order), 'enum']
        if r.random() < .2: ops += ['free', 'enum', 'add %d' % order[0], 'enum']
        s.append('%d %d %s %s' % (ud, len(table), ' '.join(table), ' '.join(ops)))
    for t in families(r):
        t = norm(t)
        for v in range(ctx.n(8, 40)):
            order = list(range(1, len(t) + 1))
            if v == 1: order.reverse()
            if v > 1: r.shuffle(order)
            go(t, r.choice([0, 1, 4, 8, 40]), order, 1 if len(t) < 16 else 7)
    for _ in range(ctx.n(300, 6000)):
        t = norm(random_table(r)); order = list(range(1, len(t) + 1)); r.shuffle(order)
        go(t, r.choice([0, 1, 8, 16, 100]), order[:r.randint(1, len(order))], r.randint(1, 6))
    for n in (200, 254, 255, 256, 257, 500, 1000, 3000, 4000):
        t = norm([runs_of((97, n)), runs_of((97, n - 1), (98, 1)), runs_of((97, 20), (98, n - 20)), runs_of((97, 20), (98, n - 21), (99, 1)), runs_of((99, n))])
        for _ in range(3):
            order = list(range(1, len(t) + 1)); r.shuffle(order); go(t, 8, order, 1)
    # many blocks, many strings
    for n, size, ud in ((20, 3900, 0), (70, 2100, 4), (140, 3000, 8), (270, 3990, 1), (300, 40, 3900), (400, 5, 0), (300, 300, 8)):
        t = norm([runs_of((97 + i % 17, 1), (97 + i // 17, 2), (120, size - r.randint(0, size // 9))) for i in range(n)])
        order = list(range(1, len(t) + 1)); r.shuffle(order); go(t, ud, order, 50)
    ctx.validate('StringStorageTrace', ctx.drive(exe, s, 'runs', crash_line=CRASH), what='enumeration run')
    ctx.extra['rule'] = 'a line is a run adding a table of strings and enumerating between additions: tables of C14 plus strings of 200 to 4000 bytes sharing prefixes'
