"""Common machinery of the checks: running the real tools, running TLC, reporting."""
import json, os, random, re, select, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
REPO = vbuild.REPO
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
JOBS = min(8, os.cpu_count() or 4)
ENV = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8')
for k in ('LD_LIBRARY_PATH', 'MAKEFLAGS', 'TMPDIR'):
    ENV.pop(k, None)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    pass


# --------------------------------------------------------------------------- real tools
class R:
    __slots__ = ('rc', 'out', 'err')

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def text(self):
        return self.out.decode('utf-8', 'replace')


def run(cmd, inp=b'', timeout=30, cwd=None, env=None):
    """rc is 'hang' when the process had to be killed."""
    if isinstance(inp, str):
        inp = inp.encode('utf-8')
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env or ENV)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return R(p.returncode, o, e)
    except subprocess.TimeoutExpired:
        p.kill()
        try:
            o, e = p.communicate(timeout=5)
        except Exception:
            o, e = b'', b''
        return R('hang', o[:100000], e[:10000])


def pmap(f, items, jobs=JOBS):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, items))


def flush_session(cmd, chunks, timeout=25, cwd=None, close_timeout=15):
    """Feed chunk+NUL one at a time; the next chunk is sent only after the tool has
    answered with a NUL.  Returns (list of outputs, status, tail): status is 'ok',
    'noflush:<i>' (no NUL came back for chunk i while the tool was waiting for input)
    or 'died:<i>'; tail is what came after stdin was closed."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         cwd=cwd, env=ENV, bufsize=0)
    fd = p.stdout.fileno()
    os.set_blocking(fd, False)
    outs, pend, status = [], b'', 'ok'
    try:
        for i, c in enumerate(chunks):
            if isinstance(c, str):
                c = c.encode('utf-8')
            try:
                p.stdin.write(c + b'\0')
            except BrokenPipeError:
                status = 'died:%d' % i
                break
            end = time.time() + timeout
            got = None
            while True:
                k = pend.find(b'\0')
                if k >= 0:
                    got, pend = pend[:k], pend[k + 1:]
                    break
                left = end - time.time()
                if left <= 0:
                    status = 'noflush:%d' % i
                    break
                r, _, _ = select.select([fd], [], [], left)
                if r:
                    d = os.read(fd, 65536)
                    if d == b'':
                        status = 'died:%d' % i
                        break
                    pend += d
            if got is None:
                break
            outs.append(got.decode('utf-8', 'replace'))
        try:
            p.stdin.close()
        except Exception:
            pass
        end = time.time() + close_timeout
        while time.time() < end:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                break
            d = os.read(fd, 65536)
            if d == b'':
                break
            pend += d
    finally:
        try:
            p.kill()
        except Exception:
            pass
        p.wait()
        p.stdout.close()
    return outs, status, pend.decode('utf-8', 'replace')


# --------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.ok = False
        self.violated = None
        self.stdout = ''
        self.prints = []
        self.trace = ''
        self.coverage = {}


def tlc(module, cfg=None, env=None, workers=JOBS, timeout=600, consts=None, mem='6g', extra=(), coverage=False,
        cont=False, simulate=None, depth=None):
    """Run TLC on specs/<module>.tla.  cfg: text of the configuration (None: the committed
    specs/<module>.cfg).  Returns a Tlc; raises CheckError when TLC itself failed."""
    work = tempfile.mkdtemp(prefix='tlc-')
    try:
        for attempt in (1, 2):
            for f in os.listdir(SPECS):
                if f.endswith('.tla'):
                    shutil.copy(os.path.join(SPECS, f), work)
            if cfg is None:
                shutil.copy(os.path.join(SPECS, module + '.cfg'), os.path.join(work, module + '.cfg'))
            else:
                with open(os.path.join(work, module + '.cfg'), 'w') as fd:
                    fd.write(cfg)
            e = dict(ENV)
            e.update(env or {})
            cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-Dtlc2.tool.queue.DiskStateQueue.BufSize=1000000', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
                   '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-deadlock', '-metadir', os.path.join(work, 'st'),
                   '-noGenerateSpecTE', '-fpmem', '0.3', '-checkpoint', '0']
            if coverage:
                cmd += ['-coverage', '1']
            if cont:
                cmd += ['-continue']
            if simulate:
                cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(SEED)]
                if depth:
                    cmd += ['-depth', str(depth)]
            cmd += list(extra) + ['-config', module + '.cfg', module + '.tla']
            try:
                p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                out, rc = p.stdout.decode('utf-8', 'replace'), p.returncode
            except subprocess.TimeoutExpired as ex:
                out, rc = (ex.stdout or b'').decode('utf-8', 'replace') + '\nTIMEOUT', 'timeout'
            t = Tlc()
            t.stdout = out
            m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
            if m:
                t.states, t.distinct = int(m[-1][0]), int(m[-1][1])
            if simulate:
                m = re.findall(r'([\d,]+) states checked', out) or re.findall(r'The number of states generated: ([\d,]+)', out)
                if m:
                    t.states = t.distinct = int(m[-1].replace(',', ''))
            t.prints = [l for l in out.split('\n') if l.startswith('"') or l.startswith('<<')]
            if coverage:
                for a, n in re.findall(r'^<(\w+) line [^>]*>: \d+:(\d+)', out, re.M):
                    t.coverage[a] = t.coverage.get(a, 0) + int(n)
            m = re.search(r'Error: (Invariant|Action property|Temporal properties|Postcondition)\s*(\S*)', out)
            if m and ('is violated' in out or 'were violated' in out):     # with -continue the exit code is 0 all the same
                t.violated = m.group(2)
                t.trace = out[m.start():m.start() + 20000]
                return t
            if rc == 0 and 'Error:' not in out and ('No error has been found' in out or simulate):
                t.ok = True
                return t
            if attempt == 2 or rc == 'timeout':
                raise CheckError('TLC failed on %s (rc %s):\n%s' % (module, rc, out[-6000:]))
            time.sleep(1)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_cases(t):
    """JSON values printed by the specification with PrintT(ToJson(..))."""
    res = []
    for l in t.prints:
        if l.startswith('"'):
            try:
                s = json.loads(l)
            except ValueError:
                s = l[1:-1].replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(s))
    return res


def write_ndjson(path, recs):
    with open(path, 'w', encoding='utf-8') as fd:
        for r in recs:
            fd.write(json.dumps(r, ensure_ascii=False) + '\n')


# --------------------------------------------------------------------------- one check
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = TIER
        self.thorough = TIER == 'thorough'
        self.t0 = time.time()
        self.rng = random.Random('%s-%d' % (pid, SEED))
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.known = load_known(pid)
        self.known_hit = {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, t, traces=0):
        self.states += t.distinct
        self.transitions += t.states
        self.traces += traces

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def violation(self, what, replay):
        """Record a violation.  replay: JSON-able dict that reproduces it."""
        self.viol.append((what, replay))

    def known_finding(self, key):
        """True when the committed known-findings file lists exactly this failing case."""
        for k in self.known:
            if k['key'] == key:
                self.known_hit[key] = k
                return True
        return False

    def finish(self):
        ev = {'property': self.pid, 'tier': 'thorough' if self.thorough else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': dict({'states': self.states, 'transitions': self.transitions,
                                'traces_validated_against_impl': self.traces,
                                'samples': self.samples or ['(none)']}, **self.extra),
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1, ensure_ascii=False)
            fd.write('\n')
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.viol:
            d = os.path.join(VERIF, 'tmp')
            os.makedirs(d, exist_ok=True)
            for i, (what, rep) in enumerate(self.viol[:5]):
                path = os.path.join(d, '%s-%d.json' % (self.pid, i + 1))
                with open(path, 'w') as fd:
                    json.dump({'property': self.pid, 'what': what, 'replay': rep}, fd, indent=1, ensure_ascii=False, default=str)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  ' + what[:1500])
            print('%s: %d violation(s), %.1fs' % (self.pid, len(self.viol), time.time() - self.t0))
            return 1
        print('%s: held on everything explored (%d states, %d traces validated against the code, %.1fs)' %
              (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def chars(s):
    """A string as the list of one-character strings the specifications work on."""
    return list(s)


NULSYM = '@NUL@'


def enc(s):
    """text -> the specification's characters"""
    return [NULSYM if c == '\0' else c for c in s]


def dec(s):
    """joined specification text -> text"""
    return s.replace(NULSYM, '\0')


def first_diff(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n


def replay_batch(chk, label, cmd, cases, timeout=120, limit=3):
    """cases: [(input, expected output)] from the specification, for a tool whose specified
    state after each case is its initial one.  All are fed to one process, NUL-separated."""
    if not cases:
        return
    inp = ''.join(i + '\0' for i, _ in cases)
    exp = ''.join(o + '\0' for _, o in cases)
    r = run(cmd, inp, timeout=timeout)
    if r.rc == 0 and r.text == exp:
        chk.traces += len(cases)
        return
    bad = 0
    for (i, o), q in zip(cases, pmap(lambda c: run(cmd, c[0], timeout=10), cases[:20000])):
        if q.rc != 0 or q.text != o:
            q2 = run(cmd, i, timeout=20)
            if q2.rc != 0 or q2.text != o:
                chk.violation('%s: the specification maps %r to %r, the program wrote %r (exit %s)' % (label, i, o, q2.text, q2.rc),
                              {'cmd': cmd, 'input': i, 'expected': o, 'observed': q2.text, 'rc': q2.rc})
                bad += 1
                if bad >= limit:
                    return
    if bad == 0:
        r2 = run(cmd, inp, timeout=timeout)
        if r2.rc == 0 and r2.text == exp:
            return
        k = first_diff(r2.text, exp)
        chk.violation('%s: in one run over %d NUL-separated cases (exit %s) the output first differs from the specified one at character %d: '
                      'specified ...%r, written ...%r' % (label, len(cases), r2.rc, k, exp[max(0, k - 60):k + 60], r2.text[max(0, k - 60):k + 60]),
                      {'cmd': cmd, 'input': inp[:200000], 'expected': exp[:200000], 'observed': r2.text[:200000], 'rc': r2.rc})


def conform(chk, label, module, ops, recs, timeout=600, limit=3, rerun=None):
    """Validate recorded runs against Trace<module> (CharConform instantiated by ops).
    recs: [{'opt':.., 'inp': text, 'out': text, 'cmd': ..}].  rerun(rec) -> text repeats the run."""
    if not recs:
        return
    path = os.path.join(chk.tmp, module + '.ndjson')
    # the last record is a control: a run with one character too many, which must be rejected
    ctl = dict(recs[0], out=recs[0]['out'] + '#')
    write_ndjson(path, [{'opt': r['opt'], 'inp': enc(r['inp']), 'out': enc(r['out'])} for r in recs + [ctl]])
    cfg = 'INIT Init\nNEXT Next\nCONSTANTS\n' + ''.join('  %s <- %s\n' % kv for kv in ops.items()) + 'INVARIANT Conforms\nCHECK_DEADLOCK FALSE\n'
    t = tlc(module, cfg, env={'TRACE': path}, timeout=timeout, cont=True)
    bad = sorted({int(x) for x in re.findall(r'/\\ rec = (\d+)', t.stdout)}) if t.violated else []
    if len(recs) + 1 not in bad:
        raise CheckError('the control record was not rejected by TLC:\n' + t.stdout[-3000:])
    bad.remove(len(recs) + 1)
    chk.add_tlc(t, len(recs) - len(bad))
    n = 0
    for b in bad:
        rec = recs[b - 1]
        if rerun and rerun(rec) != rec['out']:
            continue          # not repeatable: not reported
        m = re.findall(r'/\\ pos = (\d+)', t.stdout)
        chk.violation('%s: the specification rejects the run with input %r: output %r' % (label, rec['inp'][:600], rec['out'][:600]),
                      {'cmd': rec.get('cmd'), 'opt': rec['opt'], 'input': rec['inp'], 'observed': rec['out']})
        n += 1
        if n >= limit:
            break
