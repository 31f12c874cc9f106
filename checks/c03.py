import synquelib as L
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of the queue; histories of the real code under a controlled scheduler checked for linearizability by TLC'
NOTE = ('Synque.tla is the sequential queue; Lin.tla keeps the set of all explanations of a history. The real template runs with threads as coroutines: every memory access and every mutex or '
        'condition call is a switch point; small scenarios are enumerated with up to 2 preemptions, larger ones sampled. Sequentially consistent interleavings only.')
def run(ctx):
    exe = L.build(ctx)
    ctx.design('SynqueMC', min_states=1000)
    ctx.validate('SynqueTrace', ctx.drive(exe, L.script(ctx), 'hist', crash_line=L.CRASH), cfg='SynqueC03', what='queue history')
