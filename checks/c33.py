LEVEL = 'exploration'
TECHNIQUE = 'TLA+ clock (Tick/NextDay) model-checked over a full 400-year cycle; recorded behaviours of coda_gmtime validated as steps of it by TLC'
NOTE = ('Civil.tla is a calendar clock; CivilLaws steps it through all 146097 days of a cycle and checks it against an independent day count. TLC then checks that the real code '
        'steps as the clock does: every day from 1970 through 2370+ (a whole cycle), every second around day boundaries, and samples in cycles out to the largest year an int can hold.')
def run(ctx):
    r = ctx.rng
    exe = ctx.build('civil', 'civil.cpp', lib=False)
    ctx.design('CivilLaws', min_states=146097)
    s = []
    for d in range(0, 146097 + 800, 200):
        s.append('days %d %d 201' % (d, r.choice([0, 86399, 43200, r.randint(0, 86399)])))
    bounds = [0, 59, 58, 789, 1094, 11016, 47540, 47541, 11322, 24855, 24856, 146096, 146097, 84056, 157112]
    for b in bounds + [r.randint(0, 400000) for _ in range(ctx.n(40, 400))]:
        s.append('secs %d 20' % max(0, b * 86400 - 10))
    for _ in range(ctx.n(100, 2000)):
        t = r.randint(0, 2 ** r.randint(8, 55))
        t = t - t % 60 - 5 if r.random() < .5 and t > 100 else t
        s.append('secs %d 12' % t)
    s.append('sleep 0 1 2 7 10 60 99 100 250 500 999 1000 1001 1010 1100 1500 1999 2000 2001 %s' % ' '.join(str(r.randint(0, 3000)) for _ in range(12)))
    s.append('secs 0 86500'); s.append('secs %d 90000' % (951782400 - 100))       # a whole day, 2000-02-29
    maxq = (2 ** 31 - 1 - 2371) // 400
    for q in [1, 2, 5, 19, 20, 24, 100, 1000, maxq // 2, maxq - 1, maxq] + [r.randint(1, maxq) for _ in range(ctx.n(100, 2000))]:
        base = q * 146097
        for off in (0, 58, 365, 789, 10956 + 58, 36524 - 1, 146096, r.randint(0, 146000)):
            s.append('days %d %d 6' % (base + max(0, off - 2), r.randint(0, 86399)))
    ctx.validate('CivilTrace', ctx.drive(exe, s, 'calls'), what='civil time')
    ctx.extra['rule'] = 'a line is a behaviour of consecutive days or seconds; all days of a 400-year cycle, all seconds of two days, seconds around 50+ day boundaries and random times below 2^55, leap and century boundaries in 100+ later cycles'
