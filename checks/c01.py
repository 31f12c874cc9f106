import cachelib
LEVEL = 'model_checking'
NOTE = ('TLC checks the cache design exhaustively for small constants (budget, counters and eviction order); a shortest path to every abstract state of '
        'the model, extended by every operation, plus seeded random histories are run on the real template (under a virtual clock '
        'and the address sanitizer), over every kind of value with a size of its own, sizes beyond 4 GiB, lifetimes up to the largest and clocks past 2106 or set back, and every recorded event is judged by TLC. Assumes the histories explored represent the rest; the clock is interposed.')
def run(ctx):
    cachelib.run(ctx, 'C01')
