LEVEL = 'exploration'
TECHNIQUE = 'TLA+ model of what a process holds, checked exhaustively; recorded uses of every part, repeated, validated by TLC against Resources.tla'
NOTE = ('ResourcesMC: calls as sequences of acquisitions that may fail anywhere. Recorded uses: caches, thread queues, storages, URLs, codecs, texts, XML, file mappings, logs, pid files, paths, descriptor moves, sockets, shared queues and maps (emulated IPC, failing attachments), each repeated with the same inputs; '
        'bytes allocated, descriptors, file mappings and attachments noted around every step, a quarter of the system-facing calls with no, one or two descriptors left.')
ASSUMPTIONS = ['memory is compared from the third repetition on (the C and C++ libraries keep caches)', 'memory is what the address sanitizer counts; anonymous mappings are not counted']
from shmqlib import WRAP
KINDS = ['cache', 'cacheover', 'synque', 'storage', 'url', 'codec', 'texts', 'xml', 'maps', 'files', 'fdmoves', 'sockets', 'misc', 'shmq', 'shmap']
def run(ctx):
    r = ctx.rng; s = []
    ctx.design('ResourcesMC', min_states=500)
    exe = ctx.build('resources', 'resources.cpp', libs=['-lexpat'] + WRAP)
    for k in KINDS:
        for _ in range(ctx.n(14, 300)): s.append('%s %d %d %d' % (k, r.choice([4, 4, 5]), r.randint(1, 10**9), r.choice([3, 10, 30, 30])))
        for _ in range(ctx.n(1, 10)): s.append('%s %d %d %d' % (k, 30, r.randint(1, 10**9), 20))
    ctx.validate('ResourcesTrace', ctx.drive(exe, s, 'resources', timeout=ctx.n(300, 3000), crash_line=lambda r: {'kind': 'crash', 'exact': 0, 'ops': [dict(r, f='Crash')]}), what='something is left behind')
