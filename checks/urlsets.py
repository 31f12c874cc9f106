import itertools
from vlib import hexs
TOK = [b'http://', b'https://', b'HTTP://', b'hTTps://', b'a', b'B', b'.', b'..', b'/', b'?', b'#', b':', b'www.', b'x.y.Z', b'//', b'/./', b'/../', b'-', b'_', b'8080', b' ', b'%41', b'\xd0\xb0', b'=', b'&', b'@', b'~', b'...']
HOSTS = [b'a', b'A.B', b'www.ya.ru', b'WWW.Ya.RU.', b'.a.b', b'..a.b..', b'a..b', b'a.b:80', b'h_-1', b'', b'.', b'...', b'a.b.c.d.e', b'1.2.3.4']
PATHS = [b'', b'/', b'//', b'/a', b'/a/', b'/a/b', b'/a/b/', b'/a//b', b'/a/./b', b'/a/../b', b'/../a', b'/a/..', b'/a/.', b'/a/b/..', b'/a/b/.', b'/a/b/../..', b'/a/b/../../..', b'/..', b'/.', b'/./', b'/../', b'/a/../', b'/a/...',
         b'/...', b'/.a', b'/a.', b'/..a/b..', b'/a/b/../../c/', b'/a/./', b'///a///b///', b'/./../a/', b'/a/.//../b', b'?q', b'?', b'?a/../b', b'/a?x=/../y', b'/a/?x', b'/a/..?x/', b'#f', b'/a#f', b'/a?b#c', b'/a#b?c', b'/#', b'?#', b'/a/b/.?/', b'/A/B', b':x', b'@b/c', b' /a', b'/a b']
CRASH = lambda r: {'n': 1, 'ops': [{'f': 'Crash', 'i': 1, 'j': 1, 'u': [], 'flags': 0, 'r': 77, 'obs': [], 'why': r['why'], 'cur': r['cur'][:400], 'msg': r['msg']}]}
def tokens(r, lo, hi):
    return b''.join(r.choice(TOK) for _ in range(r.randint(lo, hi)))
