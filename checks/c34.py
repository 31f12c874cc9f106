import errno
from vlib import hexs
LEVEL = 'exploration'
TECHNIQUE = 'TLA+ model of listeners, connections and streams checked exhaustively; address texts and recorded loopback histories of the real helpers validated by TLC against Inet.tla and Sockets.tla'
NOTE = ('SocketsMC: 1 (2) connections over 2 listeners, sends, receives and closes at both ends in any order. Address texts: every text of up to 6 bytes over "1", "2", "5", "." and "x", all boundary octets, random ones, exact lengths before an unreadable page. '
        'Loopback histories: several local addresses and ports, blocking and non-blocking ends, peers on different addresses, closes with and without unread data, sends afterwards with SIGPIPE deadly, signals during receives and streams with tiny buffers, timeouts from 1 us to beyond a second measured and longer ones read back.')
ASSUMPTIONS = ['an empty octet is not judged', 'ports are numbers up to 65535', 'a timed receive is not judged when signals arrive', 'a timeout may be late by up to 8 s (loaded machine)']
ERR = [errno.ECONNREFUSED, errno.ENETUNREACH, errno.ETIMEDOUT, errno.EADDRNOTAVAIL, errno.EAGAIN, errno.EALREADY, errno.EISCONN, errno.EINPROGRESS, errno.EINPROGRESS]
WRAPS = 'socket bind listen setsockopt ioctl connect accept accept4 getpeername'.split()
CRASH = lambda r: dict(r, f='Crash')
CRASH2 = lambda r: {'ops': [dict(r, f='Crash')]}
HOSTS = [('127.0.0.1', '127 0 0 1'), ('127.0.0.2', '127 0 0 2'), ('0.0.0.0', '0 0 0 0'), ('127.1.2.3', '127 1 2 3')]
def data(r, big=40): return bytes(r.randint(0, 255) for _ in range(r.choice([1, 2, 5, r.randint(1, big)]))).decode('latin1')
def history(r, ops, slow):
    s = ['h']; nl = 0; nc = 0; timed = 0; streams = 0
    def listen():
        nonlocal nl
        h = r.choice(HOSTS) if r.random() < .93 else ('10.254.253.252', '10 254 253 252'); nl += 1
        s.append('l %d %s %s %s %d %d %d' % (nl, hexs(h[0]), h[1], r.choice(['0', '0', 'f', 'p', 'p', '=%d' % r.randint(1, max(1, nl - 1))]), r.random() < .5, r.choice([1, 2, 16, 16, 50]), r.randint(1, 6) if nl > 1 and r.random() < .15 else 0))
    def more(): return '%d %s' % (r.randint(1, 2) if r.random() < .06 else 0, '0' if r.random() < .6 else ' '.join(str(r.choice([r.randint(1, 255), 255, 128, 127, 192])) for _ in range(4)))
    def connect():
        nonlocal nc
        nc += 1; lid = r.randint(1, nl)
        s.append('c %d %d %d' % (nc, lid, r.random() < .5) if r.random() < .7 else 'C %d %d %d' % (nc, lid, r.randint(3, 250)))
        if r.random() < .7: s.append('a %d %d %s' % (lid, r.random() < .5, more()))
    listen(); connect()
    for _ in range(ops):
        x = r.random(); i = r.randint(1, nc); d = r.choice('cs')
        if x < .05: listen()
        elif x < .15: connect()
        elif x < .22: s.append('a %d %d %s' % (r.randint(1, nl), r.random() < .5, more()))
        elif x < .24: s.append('n %d %d %d' % (r.random() < .5, r.choice([0, 0, 1, 2, 3]), r.choice([0, 0] + ERR)))
        elif x < .50: s.append('s %d %s %s' % (i, d, hexs(data(r))))
        elif x < .74: s.append('r %d %s %d' % (i, d, r.choice([0, 1, 3, 10, 100, 100, 5000])))
        elif x < .79: s.append('w %d %s %d %d %s' % (i, d, r.choice([1, 10, 100]), r.choice([0, 1, 1, 3]), hexs(data(r))))
        elif x < .81 and streams < 2: streams += 1; s.append('S %d %s %d %d %d %d' % (i, d, r.randint(1, 12), r.choice([1, 100, 1000, 3000]), r.randint(1, 10**6), r.random() < .6))
        elif x < .86: s.append('b %d %s %d' % (i, d, r.random() < .4))
        elif x < .90: s.append('t %d %s %s' % (i, d, r.choice(['0 0', '0 1', '0 20000', '0 50000', '0 999999', '1 0', '1 5', '2 999999', '3600 0', '86400 500000', '2000000000 1', '0 4000', '59 999999']) if slow and timed < 2 else r.choice(['0 0', '0 3000', '0 30000', '3600 0', '100 1', '0 1', '4294 967296'.replace('967296', '967295')]))); timed += 1
        elif x < .96: s.append('x %d %s' % (i, d)) if r.random() < .6 else s.append('x %d %s s %d %s 61 s %d %s 62 s %d %s 63 r %d %s 9 r %d %s 9' % ((i, d) + (i, 'cs'[d == 'c']) * 5))
        elif x < .97: s.append('X %d' % r.randint(1, nl))
        else: o = r.randint(1, nl); nl += 1; h = r.choice(HOSTS); s.append('X %d l %d %s %s =%d %d 8 0' % (o, nl, hexs(h[0]), h[1], o, r.random() < .5))
    return ' '.join(s)
def run(ctx):
    ctx.design('SocketsMC', *(['SocketsMCbig'] if ctx.thorough else []), min_states=10000, timeout=3000)
    exe = ctx.build('sockets', 'sockets.cpp', asan=False, lib=False, libs=['-Wl,--wrap=' + w for w in WRAPS])
    r = ctx.rng; s = ['i -']
    al = '125.x'; cur = ['']
    for n in range(1, ctx.n(6, 8)):
        cur = [a + b for a in cur for b in al]
        s += ['i ' + hexs(a) for a in cur]
    O = ['0', '1', '9', '10', '99', '100', '127', '199', '200', '249', '250', '254', '255', '256', '257', '260', '300', '999', '1000', '65536', '00', '000', '001', '0255', '0000000255', '256256', '4294967295', '4294967296', '4294967297', '18446744073709551616', '18446744073709551617', '99999999999999999999', '', 'a', ' 1', '1 ', '-1', '+1', '0x1', '1e1', chr(0), '1' + chr(0), chr(255), '/', ':', '1:']
    for o in O:
        for p in range(4): a = ['1', '2', '3', '4']; a[p] = o; s.append('i ' + hexs('.'.join(a)))
        s += ['i ' + hexs('.'.join([o] * k)) for k in (1, 2, 3, 4, 5)]
    for k in list(range(5, 40)) + [64, 128, 132, 255, 256, 257, 258, 259, 260, 261, 511, 512, 516, 1028] + [2**16 + 4] * ctx.thorough: s += ['i ' + hexs('.'.join([o] * k)) for o in ('1', '0', '255')] + ['i ' + hexs('.'.join(str(i % 256) for i in range(k)))]   # many octets, counters that wrap
    for z in list(range(1, 40)) + [253, 254, 255, 256, 257, 1000]: s += ['i ' + hexs('1.2.%s3.4' % ('0' * z)), 'i ' + hexs('1.2.3.%s7' % ('0' * z)), 'i ' + hexs('1.2.3.1%s' % ('0' * z))]
    for b in range(256): s += ['i ' + hexs(a.replace('@', chr(b))) for a in ('1@.2.3.4', '1.2.3.4@', '1.2.3.1@', '1.@2.3.4', '@1.2.3.4', '1.2@3.4', '25@.1.1.1', '1.2.3@')]
    for _ in range(ctx.n(3000, 60000)):
        a = '.'.join(str(r.randint(0, 255)) if r.random() < .97 else r.choice(O) for _ in range(4 if r.random() < .95 else r.randint(1, 6)))
        if r.random() < .15: i = r.randint(0, len(a)); a = a[:i] + r.choice(['.', ',', 'x', chr(r.randint(0, 255)), '0', '..']) + a[i + r.randint(0, 1):]
        s.append('i ' + hexs(a))
    ctx.validate('InetTrace', ctx.drive(exe, s, 'inet', timeout=ctx.n(100, 1000), crash_line=CRASH), what='address text', timeout=ctx.n(400, 3000))
    s = [history(r, r.randint(5, 40), 0) for _ in range(ctx.n(250, 6000))]
    for sec, us in ((0, 1000), (0, 20000), (0, 250000), (0, 999999), (1, 0), (1, 250000), (2, 0)):
        for nb in '01': s.append('h l 1 %s 127 0 0 1 0 0 16 0 c 1 1 0 a 1 0 0 0 t 1 c %d %d r 1 c 5 s 1 s 6162 r 1 c 5 t 1 s %d %d b 1 s %s r 1 s 5 s 1 c 63 r 1 s 5 t 1 c 0 0 w 1 c 9 3 6465' % (hexs('127.0.0.1'), sec, us, sec, us, nb))
    for a in '01':      # every mode at every end, and what a closed peer does to a sender
        for b in '01':
            for c in '01':
                s.append('h l 1 %s 127 0 0 1 f %s 16 0 c 1 1 %s a 1 %s 0 0 s 1 c 6162 s 1 s 6364 r 1 s 1 r 1 c 9 x 1 c s 1 s 61 s 1 s 62 s 1 s 63 r 1 s 4 r 1 s 4 c 2 1 %s a 1 %s 0 0 s 2 s 6162 x 2 c s 2 s 61 s 2 s 61 c 3 1 %s s 3 c 61626364 x 3 c a 1 %s 0 0 r 3 s 2 r 3 s 9 r 3 s 9' % (hexs('127.0.0.1'), a, b, c, b, c, b, c))
    out = []
    ctx.validate('SocketsTrace', ctx.drive(exe, s, 'hist', timeout=ctx.n(250, 3000), crash_line=CRASH2), what='socket history', timeout=ctx.n(400, 3000))
    s = [history(r, r.randint(5, 20), 1) for _ in range(ctx.n(20, 300))] + ['h l 1 %s 127 0 0 1 0 0 16 0 c 1 1 %d a 1 %d 0 0 S 1 c 30 3000 %d %d S 1 s 30 3000 %d %d' % (hexs('127.0.0.1'), r.random() < .5, r.random() < .5, r.randint(1, 10**6), g, r.randint(1, 10**6), g) for g in [0, 1, 1] * ctx.n(1, 10)] + ['h l 1 %s 127 0 0 1 0 0 16 0 c 1 1 0 a 1 0 0 0 S 1 %s 2 %d %d 0' % (hexs('127.0.0.1'), d, ctx.n(200000, 1000000), r.randint(1, 10**6)) for d in 'cs']
    ctx.validate('SocketsTrace', ctx.drive(exe, s, 'slow', timeout=ctx.n(250, 3000), crash_line=CRASH2), what='socket history', timeout=ctx.n(400, 3000))
