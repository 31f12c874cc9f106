"""Shared machinery of the checks: build drivers from /repo's working tree, run them,
run TLC on designs and on recorded traces, write evidence, report verdicts."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'


class CheckError(Exception):
    pass


class Rejected(Exception):
    """The implementation did something the specification does not allow."""
    def __init__(self, why, detail):
        Exception.__init__(self, why)
        self.why, self.detail = why, detail


class Ctx:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.work = os.path.join(VERIF, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        self.t0 = time.time()
        self.reset()

    def reset(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.rng = random.Random(self.seed * 7919 + int(self.pid[1:]))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    # ---------------------------------------------------------------- build
    def _compile(self, jobs):
        """jobs: (src, obj, flags); compiled 8 at a time."""
        todo, running = list(jobs), []
        while todo or running:
            while todo and len(running) < 8:
                src, o, fl = todo.pop(0)
                std = '-std=c++11' if not any(f.startswith('-std=') for f in fl) else None
                cc = ['gcc', '-std=gnu11', '-D_GNU_SOURCE'] if src.endswith('.c') else ['g++'] + ([std] if std else [])
                lf = open(o + '.log', 'wb')
                running.append((src, o, lf, subprocess.Popen(cc + list(fl) + ['-c', src, '-o', o], stdout=lf, stderr=lf)))
            src, o, lf, p = running.pop(0)
            p.wait()
            lf.close()
            if p.returncode:
                for r in running:
                    r[3].wait()
                raise CheckError('cannot compile %s:\n%s' % (src, open(o + '.log', errors='replace').read()[:3000]))

    def lib(self, asan=True, opt='-O1', flags=()):
        """libcoda built from the working tree of /repo, cached by the content of its sources."""
        fl = ['-g', opt, '-w', '-pthread', '-fPIC', '-fno-omit-frame-pointer', '-I' + REPO] + (['-fsanitize=address'] if asan else []) + list(flags)
        h = hashlib.sha256(repr(fl).encode())
        for f in fl:
            if f.startswith('-B'):
                h.update(open(f[2:] + 'as', 'rb').read())
        srcs = []
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, 'coda'))):
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
                if f.endswith(('.c', '.cpp')):
                    srcs.append(p)
        dst = os.path.join(VERIF, 'work', 'lib-' + h.hexdigest()[:20])
        a = os.path.join(dst, 'libcoda.a')
        if not os.path.exists(a):
            tmp = dst + '.tmp%d' % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            jobs = [(s, os.path.join(tmp, os.path.relpath(s, REPO).replace('/', '_') + '.o'), fl) for s in srcs]
            self._compile(jobs)
            subprocess.run(['ar', 'rcs', os.path.join(tmp, 'libcoda.a')] + [j[1] for j in jobs], check=True)
            shutil.rmtree(dst, ignore_errors=True)
            os.rename(tmp, dst)
        return a

    def build(self, out, driver, flags=(), libs=(), asan=True, opt='-O1', defs=(), lib=True, libflags=()):
        """Link /verif/drivers/<driver> with libcoda built from the working tree."""
        fl = ['-g', opt, '-w', '-pthread', '-fno-omit-frame-pointer', '-I' + REPO, '-I' + VERIF + '/drivers'] + ['-D' + d for d in defs]
        if asan:
            fl.append('-fsanitize=address')
        jobs = [(VERIF + '/drivers/' + d, self.path(out + '.' + d + '.o'), fl + list(flags)) for d in ([driver] if isinstance(driver, str) else driver)]
        self._compile(jobs)
        exe = self.path(out)
        cmd = ['g++', '-pthread'] + (['-fsanitize=address'] if asan else []) + [j[1] for j in jobs] + ([self.lib(asan, opt, libflags)] if lib else []) + ['-o', exe] + list(libs)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError('cannot link %s:\n%s' % (out, r.stdout.decode(errors='replace')[-3000:]))
        return exe

    # ---------------------------------------------------------------- drivers
    def drive(self, exe, script_lines, name, timeout=120, args=(), env=None, crash_line=None, user=None, append_crash=True):
        """Run a driver on a script; returns the trace path. A crash or a hang of the
        driver becomes a Crash event at the end of the trace, which no specification allows."""
        sc = self.path(name + '.script')
        tr = self.path(name + '.ndjson')
        cur = self.path(name + '.cur')
        with open(sc, 'w') as f:
            for l in script_lines:
                f.write(l + '\n')
        for p in (tr, cur):
            if os.path.exists(p):
                os.unlink(p)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0',
                 TRACE_OUT=tr, CUR_OUT=cur, VERIF_SEED=str(self.seed), LC_ALL='C', TZ='UTC')
        e.update(env or {})
        err = open(self.path(name + '.stderr'), 'wb')
        p = subprocess.Popen([exe, sc] + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=e,
                             start_new_session=True, cwd=self.work)
        why = None
        try:
            rc = self.wait_alive(p, timeout, (tr, cur))
            if rc == 97:
                raise CheckError('driver %s: harness failure: %s' % (exe, self.stderr_tail(name)))
            if rc:
                why = 'signal %d' % -rc if rc < 0 else 'exit status %d' % rc
        except subprocess.TimeoutExpired:
            why = 'hang'
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        for m in re.findall(r'STAT (\w+) (\d+)', self.stderr_tail(name, 4000)):
            self.extra[m[0]] = self.extra.get(m[0], 0) + int(m[1])
        if why:
            c = ''
            if os.path.exists(cur):
                c = open(cur, 'rb').read().split(b'\0')[0].decode('latin1')
            asan = [l for l in self.stderr_tail(name, 20000).split('\n') if 'SUMMARY' in l or 'ERROR: Addr' in l or 'terminate' in l or 'what()' in l]
            rec = {'why': why, 'cur': c, 'msg': ' | '.join(asan)[:400]}
            d = (crash_line or (lambda r: dict(r, f='Crash')))(rec)
            with open(tr, 'ab') as f:
                f.write(json.dumps(d).encode() + b'\n')
        if not os.path.exists(tr):
            raise CheckError('driver wrote no trace: ' + self.stderr_tail(name))
        return tr

    def wait_alive(self, p, timeout, files):
        # a driver whose outputs stop changing hangs: no need to wait for the whole timeout
        stall = 60 if not self.thorough else 600
        t0 = last = time.time()
        seen = None
        while True:
            try:
                return p.wait(timeout=1)
            except subprocess.TimeoutExpired:
                now = time.time()
                st = []
                for f in files:
                    try:
                        st.append((os.path.getsize(f), open(f, 'rb').read(4096) if f == files[1] else 0))
                    except OSError:
                        st.append(None)
                if st != seen:
                    seen, last = st, now
                if now - t0 > timeout or now - last > stall:
                    raise

    def stderr_tail(self, name, n=2000):
        try:
            return open(self.path(name + '.stderr'), errors='replace').read()[-n:]
        except OSError:
            return ''

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, trace=None, workers=8, timeout=600, deadlock=True, extra=(), env=None, heap='8g', cfgtext=None, tag=None):
        tag = tag or (cfg or module)
        meta = self.path('tlc-' + tag)
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        spec = os.path.join(VERIF, 'spec', module + '.tla')
        cfgp = os.path.join(VERIF, 'spec', (cfg or module) + '.cfg')
        if cfgtext is not None:
            cfgp = os.path.join(meta, 'gen.cfg')
            open(cfgp, 'w').write(cfgtext)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-DTLA-Library=' + os.path.join(VERIF, 'spec'),
               '-cp', TLAJAR + ':' + classpath_extra(), 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfgp] + list(extra)
        if not deadlock:
            cmd.append('-deadlock')
        cmd.append(spec)
        e = dict(os.environ)
        if trace:
            e['TRACE'] = trace
        e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=meta)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % tag)
        out = r.stdout.decode(errors='replace')
        open(self.path('tlc-%s.out' % tag), 'w').write(out)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, out, gen, dist

    def design(self, module, cfg=None, timeout=600, min_states=2, workers=8, deadlock=False, extra=(), cfgtext=None, tag=None, heap='8g'):
        """Exhaustive check of a design configuration: any failure is an error of the model."""
        rc, out, gen, dist = self.tlc(module, cfg, workers=workers, timeout=timeout, deadlock=deadlock, extra=extra, cfgtext=cfgtext, tag=tag, heap=heap)
        if rc != 0:
            raise CheckError('design check %s failed (TLC %d):\n%s' % (tag or cfg or module, rc, out[-3000:]))
        if dist < min_states:
            raise CheckError('design check %s explored only %d states' % (tag or cfg or module, dist))
        self.states += dist
        self.transitions += gen
        self.extra.setdefault('design_configs', []).append({'config': tag or cfg or module, 'distinct_states': dist, 'states_generated': gen})
        return out

    def emitted(self, out, key='PATH '):
        """JSON values printed by the specification with PrintT(key \\o ToJson(..))."""
        res = []
        for l in out.split('\n'):
            l = l.strip()
            if l.startswith('"' + key):
                s = json.loads(l) if l.endswith('"') else None
                if s:
                    res.append(json.loads(s[len(key):]))
        return res

    def validate(self, module, trace, cfg=None, timeout=600, workers=8, what='trace', count=None, heap='12g', env=None, nontrivial=None):
        """Check every recorded line/run of a trace against a trace specification."""
        n = 0
        with open(trace, 'rb') as f:
            for l in f:
                n += 1
                self.distinct.add(hash(l))
                if len(self.samples) < 3 and n in (1, 7, 50):
                    self.samples.append(l.decode('latin1').strip()[:1500])
        if n == 0:
            raise CheckError('empty trace ' + trace)
        rc, out, gen, dist = self.tlc(module, cfg, trace=trace, workers=workers, timeout=timeout, deadlock=True, tag='%s-%s' % (module, os.path.basename(trace)), heap=heap, env=env)
        self.states += dist
        self.transitions += gen
        self.extra.setdefault('trace_states', 0)
        self.extra['trace_states'] += dist
        if rc == 0:
            if dist < n:
                raise CheckError('trace check %s visited %d states for %d lines' % (module, dist, n))
            self.traces += n
            self.evals += n
            return
        if rc not in (10, 11, 12, 13) and not re.search(r'evaluating|Attempted|The error occurred|In computing', out):
            raise CheckError('TLC failed (%d) on %s:\n%s' % (rc, trace, out[-3000:]))
        st = out[out.rfind('State ') if rc in (11, 12) else 0:]
        mt = re.findall(r'(?m)^(?:/\\ )?t = (\d+)', out)
        mk = re.findall(r'(?m)^(?:/\\ )?k = (\d+)', out)
        info = {'tlc_exit': rc, 'module': module}
        if mt:
            t = int(mt[-1])
            info['line'] = t
            with open(trace, 'rb') as f:
                for i, l in enumerate(f, 1):
                    if i == t:
                        info['record'] = l.decode('latin1').strip()
                        break
        if mk:
            info['event'] = int(mk[-1])
        info['tlc'] = out[-6000:]
        raise Rejected(what, info)

    # ---------------------------------------------------------------- end
    def evidence(self, violations=0):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['none']}
        if self.level in ('exploration', 'fault_enumeration'):
            cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct),
                   'rule': self.extra.pop('rule', 'one recorded call or run per line; distinct lines counted'),
                   'samples': self.samples or ['none'], 'tlc_states': self.states, 'tlc_transitions': self.transitions}
        cov.update(self.extra)
        d = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
             'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        if getattr(self, 'assumptions', None):
            d['assumptions'] = self.assumptions
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(d, f, indent=1)
        os.replace(p + '.tmp', p)


_cp = None


def classpath_extra():
    global _cp
    if _cp is None:
        d = '/opt/veriftools/tla'
        _cp = ':'.join(os.path.join(d, j) for j in sorted(os.listdir(d)) if j.endswith('.jar') and j != 'tla2tools.jar')
    return _cp


def hexs(b):
    if isinstance(b, str):
        b = b.encode('latin1')
    return b.hex() if b else '-'


def run(pid, level, fn, assumptions=()):
    """Run a check; a rejection is reported only if a second run repeats it."""
    ctx = Ctx(pid, level)
    ctx.assumptions = list(assumptions)
    try:
        rej = None
        for attempt in (1, 2):
            ctx.reset()
            try:
                fn(ctx)
                if rej is not None:
                    # not repeated: a third run decides
                    ctx.reset()
                    fn(ctx)
                    print('note: a rejection was not repeated by two re-runs: %s' % rej.why)
                rej = None
                break
            except Rejected as r:
                rej = r
        if rej is not None:
            rp = os.path.join('replay', '%s.json' % pid)
            with open(os.path.join(VERIF, rp), 'w') as f:
                json.dump({'property': pid, 'why': rej.why, 'detail': rej.detail, 'seed': ctx.seed, 'tier': ctx.tier}, f, indent=1)
            ctx.evidence(1)
            print('rejected: %s\n%s' % (rej.why, json.dumps({k: v for k, v in rej.detail.items() if k != 'tlc'})[:3000]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        ctx.evidence(0)
        print('%s held: %d states, %d transitions, %d recorded lines validated, %.1fs' % (pid, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
        return 0
    except CheckError as e:
        print('CHECK ERROR %s: %s' % (pid, str(e)[-int(os.environ.get('ERRLEN','1500')):]))
        return 2
