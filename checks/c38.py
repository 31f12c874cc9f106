LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of seeding checked exhaustively; recorded processes of the real code (failures injected, the continuation of the generator predicted before each call) validated by TLC against Seed.tla'
NOTE = ('SeedMC: every order of 7 initialisations and draws with the device failing at will. Real processes: all orders of up to 4 initialisations with opening, reading or everything failing, draws between; the continuation of the C library\'s generator is predicted from a copy of its state, so an undisturbed sequence is recognised whatever its seed. '
        'All seeded processes must be on different sequences.')
ASSUMPTIONS = ['initialisations of one process do not run concurrently', 'the device does not deliver short reads', 'two processes draw the same 32-bit seed with negligible probability']
import itertools
CRASH = lambda r: {'ops': [dict(r, f='Crash')]}
def run(ctx):
    ctx.design('SeedMC', min_states=100)
    exe = ctx.build('seed', 'seed.cpp', asan=False, libs=['-Wl,--wrap=' + w for w in 'open open64 read fopen fread getrandom getentropy'.split()])
    r = ctx.rng; s = []
    for n in range(1, ctx.n(5, 6)):
        for c in itertools.product(range(4), repeat=n): s.append(' '.join('%sinit %d' % ('draw %d ' % r.randint(1, 40) if r.random() < .3 else '', f) for f in c))
    for _ in range(ctx.n(40, 400)): s.append(' '.join(r.choice(['init 0', 'init %d' % r.randint(0, 3), 'draw %d' % r.randint(1, 100)]) for _ in range(r.randint(1, 20))))
    for c in itertools.product(range(4), repeat=2): s.append('nofd 0 init %d init %d draw 3' % c); s.append('nofd 2 nofd 0 init %d draw 2 init %d' % c)
    ctx.validate('SeedTrace', ctx.drive(exe, s, 'processes', crash_line=CRASH), what='process seeding the generator')
