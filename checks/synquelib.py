CRASH = lambda r: {'n': 1, 'ev': [{'k': 'Crash', 'p': 1, 'why': r['why'], 'cur': r['cur'][:300], 'msg': r['msg']}]}
FLAGS = ['-fsanitize=thread', '-fno-builtin', '-Wno-tsan']
def build(ctx):
    return ctx.build('synque', 'synque.cpp', flags=FLAGS, asan=False, lib=False, opt='-O0')
def fixed():
    """scenarios explored systematically: (preemptions, threads as op lists)"""
    return [
        (2, ['a 1', 'g 1']), (2, ['a 1', 'g 0']), (2, ['s', 'g 1']), (1, ['a 1 a 2', 'g 1 g 1']), (2, ['a 1', 'a 2']), (2, ['a 1 g 0', 'a 2 g 0']),
        (1, ['a 1', 'a 2', 'g 1']), (1, ['a 1', 'g 1', 'g 1']), (1, ['a 1 a 2', 'g 1', 'g 1']), (1, ['a 1 a 2', 'g 1', 'g 0']), (1, ['s', 'g 1', 'g 1']), (1, ['s s', 'g 1', 'g 1']),
        (1, ['a 1', 's', 'g 1']), (1, ['a 1 s', 'g 1', 'g 1']), (1, ['a 1 a 2 a 3', 'b 2 1', 'g 1']), (1, ['a 1 a 2 a 3', 'b 0 1']), (1, ['a 1 a 2', 'b -1 0 b 1 1']), (1, ['a 1 a 2', 'b 1 1', 'b 1 1']),
        (1, ['a 1 z', 'g 0 z', 'z z']), (1, ['a 1 a 2', 'g 0 g 0', 'z']), (2, ['a 1', 'z']), (1, ['a 1', 'g 1', 'b 0 1', 'g 0']), (1, ['a 1', 'a 2', 'g 1', 'g 1']), (0, ['a 1 a 2', 's', 'g 1', 'g 1', 'b 3 1']),
        (0, ['a 1 a 2 a 3 a 4', 'b 2 0 b 3 0', 'z']), (0, ['g 0 b 0 0 z a 1 z g 0 g 0 a 2 a 3 a 4 b 2 1 z b 5 1 b 5 0 z s']),
    ]
def randoms(r, n):
    out = []
    for _ in range(n):
        v = [0]; th = []
        for _ in range(r.randint(2, 5)):
            ops = []
            kind = r.choice(['prod', 'cons', 'mix'])
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if kind == 'prod' or (kind == 'mix' and x < .45):
                    if r.random() < .75: v[0] += 1; ops.append('a %d' % v[0])
                    else: ops.append('s')
                elif x < .75: ops.append('g %d' % (r.random() < .7))
                elif x < .92: ops.append('b %d %d' % (r.choice([-1, 0, 1, 2, 3]), r.random() < .6))
                else: ops.append('z')
            th.append(' '.join(ops))
        out.append(th)
    return out
def count(t):
    return sum(1 for w in t.split() if w in 'asgbz')
def script(ctx, waiting_only=False):
    r = ctx.rng
    s = []
    for pre, th in fixed():
        s.append('%d %d %d %d %d %s' % (ctx.n(2500, 60000), pre, ctx.n(150, 4000), r.randint(1, 10 ** 6), len(th), ' '.join('%d %s' % (count(t), t) for t in th)))
    for th in randoms(r, ctx.n(60, 1500)):
        s.append('%d %d %d %d %d %s' % (ctx.n(40, 300), 1, ctx.n(60, 300), r.randint(1, 10 ** 6), len(th), ' '.join('%d %s' % (count(t), t) for t in th)))
    # long queues, one thread, every switch point the default
    for _ in range(ctx.n(6, 40)):
        ops, v = [], 0
        for _ in range(r.randint(40, 160)):
            if r.random() < .75: v += 1; ops.append('a %d' % v)
            else: ops.append(r.choice(['g 0', 'g 1', 'z', 'b %d 0' % r.randint(-1, 40), 's']))
            if ops[-1] == 'g 1' and v == 0: ops.pop()
        ops.append('b 0 0')
        s.append('1 0 0 1 1 %d %s' % (len(ops), ' '.join(ops)))
    return s
