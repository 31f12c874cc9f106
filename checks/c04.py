import synquelib as L
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of waiting and wake-up, model-checked; histories of the real code under a controlled scheduler, with the final set of blocked threads, checked by TLC'
NOTE = ('Synque.tla states who waits, who is released by add/signal and when a get may fail; SynqueMC shows that this discipline leaves nobody waiting for an element. Histories as in C03; every '
        'execution is run until nothing can run, and the blocked threads must be exactly waiting consumers of an empty queue. Spurious wake-ups are not injected (the code reports them as -1).')
def run(ctx):
    exe = L.build(ctx)
    ctx.design('SynqueMC', min_states=1000)
    ctx.validate('SynqueTrace', ctx.drive(exe, L.script(ctx), 'hist', crash_line=L.CRASH), cfg='SynqueC04', what='waiting history')
