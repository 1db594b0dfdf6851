"""
engine.py - runs one property: encodes /repo's current source, asks the solver, replays what
the solver finds against the real code, and writes the evidence.

A property is a list of queries (see specs/). A query is one bounded symbolic execution:
  goto-cc  compiles harness + models + the sources of /repo named by the query
  cbmc     executes it symbolically and hands the verification conditions to its SAT solver
Obligations of a query:
  PROP: ...   an assertion of the harness: the property                       must hold
  checks      CBMC's own: bounds, pointers, overflow, shifts, division        must hold
  unwind      the loop bound covers every execution within the input bounds   must hold
  BOUND: ...  a limit of the harness covers every execution                   must hold, else no verdict
  REACH: ...  assert(false) at a place that must be reachable                 must FAIL
A counterexample is only reported after the same harness, compiled natively with sanitizers
against the same sources, fails on the solver's values.
"""
import json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(ROOT, 'harness')
RACE_AFTER = 25     # seconds
CORES = int(os.environ.get('VERIF_CORES', '0')) or os.cpu_count() or 4

# obligations CBMC generates that are about what the standard calls undefined without any
# effect in the program as compiled (pointers formed or compared outside of their object, but not
# dereferenced); they cannot be confirmed by a replay and are no part of any property
IGNORED = re.compile(r'\.(pointer_arithmetic|pointer_primitives|NaN)\.\d+ |same object violation|pointer relation')

PTRDIFF = re.compile(r'^!overflow\("-", [^,"]*\*')     # difference of pointers

BASE_FLAGS = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check',
              '--signed-overflow-check', '--undefined-shift-check', '--unwinding-assertions',
              '--no-malloc-may-fail', '--drop-unused-functions']
# goto-cc does not decay the array (a string literal) that selects in a _Generic(); this makes it. Not for selectors
# of a type narrower than int, which it would promote.
DECAY = ['-D_Generic(s_,...)=_Generic((1 ? (s_) : (s_)), __VA_ARGS__)']
LINK = ['-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections']     # an entry point the query does not use need not link
NATIVE_FLAGS = LINK + ['-std=gnu11', '-U_FORTIFY_SOURCE', '-O1', '-g', '-w', '-fno-omit-frame-pointer', '-fno-builtin',
                '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,nonnull-attribute,shift,alignment,float-cast-overflow',
                '-fno-sanitize-recover=all']


class Query:
    """one bounded symbolic execution"""
    def __init__(self, name, harness, entry, src=(), defs=None, unwind=8, unwindset=None, flags=(),
                 timeout=240, tier='quick', cost=1.0, incs=(), bounds='', models=True, goto_defs=None,
                 objbits=None, solver='cadical', omit=(), decay=True, repo_unwind=None, hints=None):
        # initial bounds of the loops of /repo's sources, of those named in hints first; raised as needed like all bounds
        self.repo_unwind, self.hints = repo_unwind, dict(hints or {})
        self.decay = decay
        self.omit = list(omit)
        self.goto_defs = dict(goto_defs or {})     # of the symbolic side only
        self.name, self.harness, self.entry = name, harness, entry
        self.src, self.defs = list(src), dict(defs or {})
        self.unwind, self.unwindset = unwind, dict(unwindset or {})
        self.flags, self.timeout, self.tier, self.cost = list(flags), timeout, tier, cost
        self.incs, self.bounds, self.models = list(incs), bounds, models
        self.objbits, self.solver = objbits, solver
        self.key = re.sub(r'[^A-Za-z0-9_.-]', '_', name)

    def cflags(self):
        r = ['-I' + HARN] + ['-I' + os.path.join(REPO, i) if not i.startswith('/') else '-I' + i for i in (['.'] + self.incs)]
        for k, v in self.defs.items():
            r.append('-D%s' % k if v is None else '-D%s=%s' % (k, v))
        return r

    def sources(self):
        r = [os.path.join(HARN, self.harness)]
        if self.models:
            r.append(os.path.join(HARN, 'models.c'))
        for s in self.src:
            r.append(s if s.startswith('/') else os.path.join(REPO, s))
        return r


class Result:
    def __init__(self, q):
        self.q = q
        self.verdict = 'undecided'      # holds | violated | undecided
        self.why = ''
        self.props = self.ok = self.reach = self.reach_ok = 0
        self.steps = self.vccs = self.vars = self.clauses = 0
        self.solver_s = self.wall_s = 0.0
        self.unwind, self.uset = q.unwind, dict(q.unwindset)
        self.failed, self.vacuous, self.unconfirmed = [], [], []
        self.replay = None
        self.what = ''
        self.witness = 0
        self.funcs = []


class Procs:
    """the processes of this run, so that all are ended when a violation is confirmed or on exit"""
    def __init__(self):
        self.lock, self.live, self.stop = threading.Lock(), set(), False

    def run(self, cmd, timeout, env=None, cwd=None, mem=None):
        with self.lock:
            if self.stop:
                return None, b'', b''
            def pre():
                if mem:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                                 start_new_session=True, preexec_fn=pre, stdin=subprocess.DEVNULL)
            self.live.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, err = p.communicate()
            return 'timeout', out, err
        finally:
            with self.lock:
                self.live.discard(p)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def kill_cmd(self, cmd):
        with self.lock:
            for p in list(self.live):
                if p.args[:len(cmd)] == cmd:
                    self.kill(p)

    def stop_all(self):
        with self.lock:
            self.stop = True
            for p in list(self.live):
                self.kill(p)


class Runner:
    def __init__(self, prop, tier, seed, deadline):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.procs = Procs()
        self.t0 = time.time()
        self.deadline = self.t0 + deadline
        self.outdir = os.path.join(ROOT, 'out', prop)

    def left(self):
        return self.deadline - time.time()

    # ---------------------------------------------------------------- symbolic side
    def compile_goto(self, q):
        gb = os.path.join(self.tmp, q.key + '.gb')
        cmd = ['goto-cc', '-std=gnu11', '-D__NO_CTYPE', '-DVERIF_CBMC'] + (DECAY if q.decay else []) + ['-D%s=%s' % kv for kv in q.goto_defs.items()] + q.cflags() + q.sources() + ['-o', gb, '--function', q.entry]
        rc, out, err = self.procs.run(cmd, 120)
        return (gb if rc == 0 else None), (out + err).decode(errors='replace')

    def cbmc(self, q, gb, unwind, unwindset, extra, timeout):
        cmd = ['cbmc', gb, '--function', q.entry, '--json-ui', '--verbosity', '8', '--unwind', str(unwind)]
        cmd += [f for f in BASE_FLAGS if f not in q.omit] + q.flags
        cmd += ['--object-bits', str(q.objbits or 12)]
        if unwindset:
            cmd += ['--unwindset', ','.join('%s:%d' % kv for kv in sorted(unwindset.items()))]
        cmd += extra
        rc, out, err = self.race(q, cmd, timeout)
        if rc == 'timeout':
            return 'timeout', None
        if rc is None:
            return 'stopped', None
        try:
            return rc, json.loads(out.decode(errors='replace'))
        except ValueError:
            return 'error', (out[-2000:] + err[-2000:]).decode(errors='replace')

    def race(self, q, cmd, timeout):
        """CaDiCaL first; if it is not done after a while, MiniSat beside it, and the first verdict counts"""
        solvers = ['cadical', 'minisat2']
        if q.solver == 'minisat2':
            solvers.reverse()
        done, cond = [], threading.Condition()
        def one(s, tmo):
            res = self.procs.run(cmd + ['--sat-solver', s], tmo, mem=14 << 30)
            with cond:
                done.append((s, res))
                cond.notify_all()
        t0 = time.time()
        threads = 0
        for i, s in enumerate(solvers):
            with cond:
                if i and not done:
                    cond.wait(RACE_AFTER)
                good = [d for d in done if d[1][0] not in ('timeout', None)]
                if i and good:
                    break
            threading.Thread(target=one, args=(s, max(1, timeout - (time.time() - t0))), daemon=True).start()
            threads += 1
        with cond:
            while len(done) < threads and not any(d[1][0] in (0, 10) for d in done):
                cond.wait(1)
            for d in done:
                if d[1][0] in (0, 10):
                    break
            else:
                d = done[0]
        self.procs.kill_cmd(cmd)
        return d[1]

    @staticmethod
    def stats(r, msgs):
        for m in msgs:
            t = m.get('messageText', '')
            if not t:
                continue
            x = re.search(r'size of program expression: (\d+) steps', t)
            if x: r.steps += int(x.group(1))
            x = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if x: r.vccs += int(x.group(2))
            x = re.search(r'(\d+) variables, (\d+) clauses', t)
            if x:
                r.vars = max(r.vars, int(x.group(1))); r.clauses = max(r.clauses, int(x.group(2)))
            x = re.search(r'Runtime (Solver|decision procedure): ([0-9.e+-]+)s', t)
            if x and x.group(1) == 'decision procedure': r.solver_s += float(x.group(2))

    def run_query(self, q):
        r = Result(q)
        t0 = time.time()
        try:
            self._run_query(q, r)
        except Exception as e:          # an error of the machinery never is a verdict
            r.verdict, r.why = 'undecided', 'error: %r' % (e,)
        r.wall_s = time.time() - t0
        return r

    def _run_query(self, q, r):
        gb, log = self.compile_goto(q)
        if not gb:
            r.why = 'not encoded: ' + log[-600:]
            if q.defs.get('VERIF_CONFIG'):
                self.config_does_not_build(q, r, log)
            return
        unwind, uset = q.unwind, dict(q.unwindset)
        rc, msgs = self.cbmc(q, gb, unwind, uset, ['--show-properties'], 120)
        if not isinstance(msgs, list):
            r.why = 'cbmc: %s %s' % (rc, str(msgs)[-600:])
            return
        select = []
        for p in (p for m in msgs for p in m.get('properties', [])):
            if not IGNORED.search(p['name'] + ' ' + p.get('description', '')) and not PTRDIFF.search(p.get('expression', '')):
                select += ['--property', p['name']]
        if q.repo_unwind or q.hints:
            rc, loops = self.cbmc(q, gb, unwind, {}, ['--show-loops'], 120)
            for l in (l for m in (loops if isinstance(loops, list) else []) for l in m.get('loops', [])):
                f = l.get('sourceLocation', {}).get('file', '')
                if l['name'] in q.hints:
                    uset[l['name']] = q.hints[l['name']]
                elif q.repo_unwind and not os.path.abspath(f).startswith(HARN):
                    uset[l['name']] = q.repo_unwind
        r.uset = uset
        for attempt in range(7):
            tmo = min(q.timeout, self.left())
            if tmo < 5:
                r.why = 'out of time'
                return
            rc, msgs = self.cbmc(q, gb, unwind, uset, select + ['--slice-formula'], tmo)
            if rc == 'timeout':
                r.why = 'solver time limit (%ds)' % tmo
                return
            if rc in ('stopped', 'error') or rc not in (0, 10):
                r.why = 'cbmc: %s %s' % (rc, str(msgs)[-600:])
                return
            self.stats(r, msgs)
            res = [p for m in msgs if 'result' in m for p in m['result']]
            failed, unw, vac, unknown, over, reach_ok, ok = [], [], [], [], [], 0, 0
            for p in res:
                pid, desc, st = p['property'], p.get('description', ''), p['status']
                if desc.startswith('REACH: '):
                    if st == 'FAILURE': reach_ok += 1
                    elif st != 'SUCCESS': unknown.append(pid)
                    else: vac.append(desc[7:])
                elif desc.startswith('BOUND: ') and st == 'FAILURE': over.append(p)
                elif '.unwind.' in pid or 'unwinding assertion' in desc:
                    if st == 'FAILURE': unw.append(p)
                    elif st == 'SUCCESS': ok += 1
                    else: unknown.append(pid)
                elif st == 'FAILURE': failed.append(p)
                elif st == 'SUCCESS': ok += 1
                else: unknown.append(pid)
            r.ok, r.reach_ok, r.reach = ok, reach_ok, reach_ok + len(vac)
            r.props = ok + len(failed) + len(unw)
            r.failed = [f['property'] + ': ' + f.get('description', '') for f in failed]
            r.vacuous = vac
            if failed:
                failed.sort(key=lambda p: not p.get('description', '').startswith('PROP'))
                for p in failed[:4]:
                    if self.confirm(q, r, gb, unwind, uset, p):
                        return
                r.why = 'counterexample not confirmed by replay: ' + '; '.join(r.failed[:4])
                if not unw:
                    return
            if unw:
                if attempt >= 2 or any(uset.get(self.loop_of(p), unwind) >= 600 for p in unw):
                    # does the loop end at all?
                    for p in unw[:2]:
                        if self.confirm(q, r, gb, unwind, uset, p):
                            return
                if attempt == 6:
                    r.why = 'loop bound exceeded: ' + ', '.join(p['property'] for p in unw)
                    return
                for p in unw:
                    l = self.loop_of(p)
                    uset[l] = min(2 * uset.get(l, unwind) + 2, 700)
                continue
            if failed:
                return
            if over:
                # the models end there, the real code does not: what it does with these values may already be wrong
                for p in over[:3]:
                    if self.confirm(q, r, gb, unwind, uset, p):
                        return
                r.why = 'beyond the bounds of the harness: ' + ', '.join(p['description'][7:] for p in over)
                return
            if unknown:
                r.why = 'no verdict for: ' + ', '.join(unknown[:5])
                return
            if vac:
                r.why = 'vacuous: not reachable: ' + '; '.join(vac)
                return
            r.verdict = 'holds'
            return

    @staticmethod
    def loop_of(p):
        m = re.match(r'(.*)\.unwind\.(\d+)$', p['property'])
        return '%s.%s' % (m.group(1), m.group(2)) if m else p['property']

    def config_does_not_build(self, q, r, log):
        """a configuration that is part of the property: not compiling is the violation"""
        ok = True
        text = ''
        for s in q.sources():
            rc, out, err = self.procs.run(['gcc', '-std=gnu11', '-w', '-fsyntax-only'] + q.cflags() + [s], 60)
            if rc:
                ok = False
                text += err.decode(errors='replace')
        if not ok:
            d = self.save(q, [], 'the configuration does not compile\n' + text)
            with open(os.path.join(d, 'replay.sh'), 'w') as f:
                f.write('#!/bin/sh\nexec gcc -std=gnu11 -w -fsyntax-only %s %s\n' % (' '.join(map(shlex.quote, q.cflags())), ' '.join(q.sources())))
            r.verdict, r.what, r.replay = 'violated', 'the configuration does not compile', d

    # ---------------------------------------------------------------- replay
    @staticmethod
    def nd_values(msgs):
        """the values nd_raw() returned along the counterexample, in order"""
        vals = []
        for m in msgs:
            for p in m.get('result', []) or []:
                for s in p.get('trace', []) or []:
                    if s.get('stepType') == 'assignment' and s.get('lhs') == 'nd_value' and not s.get('hidden', False):
                        v = s.get('value', {})
                        if 'binary' in v:
                            n = int(v['binary'], 2)
                            if n >= 1 << (len(v['binary']) - 1):
                                n -= 1 << len(v['binary'])
                        else:
                            n = int(re.sub(r'[^0-9-]', '', v.get('data', '0')) or 0)
                        vals.append(n)
        return vals

    def trace(self, q, gb, unwind, uset, p):
        rc, msgs = self.cbmc(q, gb, unwind, uset, ['--trace', '--property', p['property']], min(q.timeout * 2, max(10, self.left())))
        if rc not in (0, 10):
            return None
        if not any(x.get('trace') for m in msgs if 'result' in m for x in m['result']):
            return None
        return self.nd_values(msgs)

    def build_native(self, q, exe, cc='gcc'):
        flags = list(NATIVE_FLAGS)
        if cc == 'clang':
            flags = LINK + ['-std=gnu11', '-O1', '-g', '-w', '-fno-builtin', '-fsanitize=memory', '-fno-sanitize-recover=all']
        if not q.models:
            flags.append('-DVERIF_NO_MODELS')
        cmd = [cc] + flags + ['-DVERIF_ENTRY=' + q.entry] + q.cflags() + q.sources() + ['-o', exe, '-lm']
        rc, out, err = self.procs.run(cmd, 120)
        return rc == 0, (out + err).decode(errors='replace')

    ENV = dict(ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1',
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=99', MSAN_OPTIONS='exitcode=99')

    def replay(self, exe, values, workdir, variant=''):
        f = os.path.join(workdir, 'values.txt')
        with open(f, 'w') as h:
            h.write('\n'.join(str(v) for v in values) + '\n')
        env = dict(os.environ, VERIF_REPLAY=f, **self.ENV)
        env['ASAN_OPTIONS'] += variant
        rc, out, err = self.procs.run([exe], 20, env=env)
        text = (out + err).decode(errors='replace')
        if rc == 'timeout':
            return 'violated', 'does not terminate'
        if rc == 3:
            m = re.search(r'VIOLATED: (.*)', text)
            return 'violated', m.group(1) if m else 'assertion'
        if rc in (77, 78):
            return 'skipped', text
        if rc == 0:
            return 'holds', ''
        m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: \S+|WARNING: MemorySanitizer: \S+)', text)
        if rc == 99 or (isinstance(rc, int) and rc < 0):
            return 'violated', m.group(1) if m else 'ended with status %s' % rc
        return 'error', text

    def confirm(self, q, r, gb, unwind, uset, p):
        vals = self.trace(q, gb, unwind, uset, p)
        desc = p.get('description', '') + ' [' + p['property'] + ']'
        if vals is None:
            r.unconfirmed.append('no trace: ' + desc)
            return False
        wd = tempfile.mkdtemp(dir=self.tmp)
        exe = os.path.join(wd, 'replay')
        ok, log = self.build_native(q, exe)
        if not ok:
            r.unconfirmed.append('replay did not build: ' + log[-400:])
            return False
        verdict, what = 'holds', ''
        for variant in ('', ':malloc_fill_byte=0:max_malloc_fill_size=4096', ':malloc_fill_byte=255:max_malloc_fill_size=4096'):
            verdict, what = self.replay(exe, vals, wd, variant)
            if verdict == 'violated':
                break
        cc = 'gcc'
        if verdict != 'violated':
            exe2 = os.path.join(wd, 'replay_msan')
            ok, log = self.build_native(q, exe2, 'clang')
            if ok:
                v2, w2 = self.replay(exe2, vals, wd)
                if v2 == 'violated':
                    verdict, what, cc = v2, w2, 'clang'
        if verdict != 'violated':
            r.unconfirmed.append('%s: replay %s %s; values %s' % (desc, verdict, what[-200:], vals[:60]))
            return False
        d = self.save(q, vals, 'obligation: %s\nreplay: %s\n' % (desc, what), cc)
        r.verdict, r.what, r.replay = 'violated', what + ' (' + desc + ')', d
        return True

    def save(self, q, vals, text, cc='gcc'):
        d = os.path.join(self.outdir, q.key)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, 'values.txt'), 'w') as f:
            f.write('\n'.join(str(v) for v in vals) + '\n')
        with open(os.path.join(d, 'info.txt'), 'w') as f:
            f.write('property %s query %s\n%s\n' % (self.prop, q.name, text))
        flags = NATIVE_FLAGS if cc == 'gcc' else LINK + ['-std=gnu11', '-O1', '-g', '-w', '-fno-builtin', '-fsanitize=memory']
        with open(os.path.join(d, 'replay.sh'), 'w') as f:
            f.write('#!/bin/sh\n# builds the harness natively from the sources of /repo and runs it on the solver\'s values\n'
                    'T=$(mktemp -d)\n%s %s -DVERIF_ENTRY=%s %s %s -o $T/replay -lm && VERIF_REPLAY=$(dirname "$0")/values.txt $T/replay\nr=$?\nrm -rf "$T"\nexit $r\n'
                    % (cc, ' '.join(flags), q.entry, ' '.join(map(shlex.quote, q.cflags())), ' '.join(q.sources())))
        os.chmod(os.path.join(d, 'replay.sh'), 0o755)
        return d

    # ---------------------------------------------------------------- validation of the encoding
    def validate(self, q, uset):
        """take the solver's own witness of a REACH of this query through the real code"""
        gb, _ = self.compile_goto(q)
        if not gb:
            return None
        rc, msgs = self.cbmc(q, gb, q.unwind, q.unwindset, ['--show-properties'], 60)
        if not isinstance(msgs, list):
            return None
        reach = [p['name'] for m in msgs for p in m.get('properties', []) if p.get('description', '').startswith('REACH: ')]
        if not reach:
            return None
        vals = self.trace(q, gb, q.unwind, uset, dict(property=reach[-1]))
        if vals is None:
            return None
        wd = tempfile.mkdtemp(dir=self.tmp)
        exe = os.path.join(wd, 'replay')
        ok, _ = self.build_native(q, exe)
        if not ok:
            return None
        v, what = self.replay(exe, vals, wd)
        return dict(query=q.name, values=vals[:40], verdict=v, what=what[:200])

    # ---------------------------------------------------------------- which functions were encoded
    def functions(self, qs):
        seen, names = set(), set()
        for q in qs:
            k = (q.harness, q.entry, tuple(q.src))
            if k in seen or len(seen) > 12:
                continue
            seen.add(k)
            gb = os.path.join(self.tmp, q.key + '.gb')
            if not os.path.exists(gb):
                continue
            rc, out, err = self.procs.run(['goto-instrument', '--reachable-call-graph', gb], 60)
            called = set(re.findall(r'->\s*([A-Za-z_]\w*)', out.decode(errors='replace')))
            text = ''
            for s in q.src:
                p = s if s.startswith('/') else os.path.join(REPO, s)
                try: text += open(p, errors='replace').read()
                except OSError: pass
            for n in called:
                if re.search(r'^[A-Za-z_][^;={}\n]*\b%s\s*\([^;]*$' % re.escape(n), text, re.M):
                    names.add(n)
        return sorted(names)


def run_property(prop, queries, tier, seed, meta):
    deadline = 840 if tier == 'quick' else 6 * 3600
    if os.environ.get('VERIF_DEADLINE'):
        deadline = float(os.environ['VERIF_DEADLINE'])
    R = Runner(prop, tier, seed, deadline)
    shutil.rmtree(R.outdir, ignore_errors=True)
    qs = [q for q in queries if tier == 'thorough' or q.tier == 'quick']
    only = os.environ.get('VERIF_ONLY')
    if only:
        qs = [q for q in qs if re.search(only, q.name)]
    results, violated, samples = [], None, []
    try:
        with ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(R.run_query, q) for q in sorted(qs, key=lambda q: -q.cost)]
            for f in as_completed(futs):
                r = f.result()
                results.append(r)
                if os.environ.get('VERIF_VERBOSE'):
                    print('  %-9s %6.1fs %7d clauses %4d ok %2d reach  %s %s' % (r.verdict, r.wall_s, r.clauses, r.ok, r.reach_ok, r.q.name, r.why or r.what), flush=True)
                    for u in r.unconfirmed: print('      unconfirmed: ' + u, flush=True)
                if r.verdict == 'violated':
                    violated = r
                    R.procs.stop_all()
                    for g in futs: g.cancel()
                    break
        if not violated:
            pick = [q for q in qs if any(r.q is q and r.verdict == 'holds' and r.reach for r in results)]
            pick.sort(key=lambda q: q.cost)
            n = 1 if tier == 'quick' and not os.environ.get('VERIF_VALIDATE') else len(pick)
            step = max(1, len(pick) // max(1, n))
            chosen = (pick[seed % max(1, len(pick)):] + pick)[:n]
            if os.environ.get('VERIF_NOVALIDATE'): chosen = []
            with ThreadPoolExecutor(CORES) as ex:
                usets = {id(r.q): r.uset for r in results}
                for w in ex.map(lambda q: R.validate(q, usets[id(q)]), chosen):
                    if w: samples.append(w)
            funcs = R.functions(qs)
        else:
            funcs = []
        wall = time.time() - R.t0
        write_evidence(prop, tier, seed, meta, qs, results, violated, samples, funcs, wall)
    finally:
        R.procs.stop_all()
        shutil.rmtree(R.tmp, ignore_errors=True)

    und = [r for r in results if r.verdict == 'undecided']
    for r in und:
        print('UNDECIDED property=%s query=%s %s' % (prop, r.q.name, r.why.replace('\n', ' ')[:300]))
        for u in r.unconfirmed:
            print('  unconfirmed: ' + u[:400])
    bad = [w for w in samples if w['verdict'] == 'violated']
    held = sum(r.verdict == 'holds' for r in results)
    print('property %s (%s): %d of %d queries hold, %d undecided, %d obligations, solver %.1fs, wall %.1fs'
          % (prop, tier, held, len(qs), len(und), sum(r.ok for r in results), sum(r.solver_s for r in results), time.time() - R.t0))
    if violated:
        print('  query %s: %s' % (violated.q.name, violated.what))
        print('VIOLATION property=%s replay=%s' % (prop, violated.replay))
        return 1
    for w in bad:
        print('warning: a witness fails natively: %s' % w)
    if not held:
        print('no query was decided')
        return 2
    return 0


def write_evidence(prop, tier, seed, meta, qs, results, violated, samples, funcs, wall):
    cov = dict(
        explanation='Bounded symbolic execution of the functions listed (CBMC on the goto program compiled from the current /repo '
                    'sources, SAT back end). states: symbolic program states after unwinding (SSA steps) over all queries; transitions: '
                    'verification conditions handed to the solver; each covers all values within the bounds of its query. '
                    'traces_validated_against_impl: solver witnesses executed against the natively compiled real code, without a violation.',
        states=sum(r.steps for r in results), transitions=sum(r.vccs for r in results),
        traces_validated_against_impl=sum(1 for w in samples if w['verdict'] == 'holds'),
        samples=samples + [dict(query=r.q.name, verdict=r.verdict, bounds=r.q.bounds or r.q.defs, unwind=r.q.unwind, obligations=r.props,
                                discharged=r.ok, reachability_witnesses=r.reach_ok, sat_variables=r.vars, sat_clauses=r.clauses,
                                solver_s=round(r.solver_s, 3), wall_s=round(r.wall_s, 2), why=r.why[:300],
                                unconfirmed=r.unconfirmed[:3]) for r in sorted(results, key=lambda r: r.q.name)],
        queries=len(qs), queries_discharged=sum(r.verdict == 'holds' for r in results),
        queries_undecided=sum(r.verdict == 'undecided' for r in results),
        obligations=sum(r.props for r in results), obligations_discharged=sum(r.ok for r in results),
        reachability_witnesses=sum(r.reach_ok for r in results),
        solver_s=round(sum(r.solver_s for r in results), 2), functions_encoded=funcs, bounds=meta.get('bounds', ''))
    if violated:
        cov['violation'] = dict(query=violated.q.name, what=violated.what, replay=violated.replay)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=meta.get('assumptions', []), wall_s=round(wall, 2), violations=1 if violated else 0)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
