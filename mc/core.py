"""Runner shared by all checks: exhaustive enumeration of cases over forked workers,
violation -> replay file, evidence file, known findings."""
import hashlib, json, math, os, signal, sys, time, traceback, pickle, struct, select

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('VERIF_SCRATCH') or '/tmp'
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4)


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def scratch(name=''):
    d = os.path.join(SCRATCH, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name) if name else d


# ---------------------------------------------------------------- comparison

def _flat(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [_flat(y) for y in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    return x


def same(a, b, rtol=1e-9, atol=1e-9):
    """Structural equality with numeric tolerance; NaN equals NaN, inf equals inf."""
    a, b = _flat(a), _flat(b)
    return _same(a, b, rtol, atol)


def _same(a, b, rtol, atol):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return all(_same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same(_flat(a[k]), _flat(b[k]), rtol, atol) for k in a)
    if isinstance(a, (float, bool)) and isinstance(b, (float, bool)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return a == b


def check_same(what, got, want, rtol=1e-9, atol=1e-9):
    CTX.validated += 1
    if not same(got, want, rtol, atol):
        raise Violation('%s: got %s, expected %s' % (what, short(_flat(got)), short(_flat(want))))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def digest(x):
    return hashlib.sha1(repr(x).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def outcome(x, nd=6):
    """Record an observed outcome (for the count of distinct outcomes)."""
    def r(y):
        y = _flat(y)
        if isinstance(y, list):
            return [r(z) for z in y]
        if isinstance(y, float):
            return 'nan' if math.isnan(y) else (y if math.isinf(y) else round(y, nd) + 0.0)
        return y
    CTX.outcomes.add(digest(r(x)))


def transition(n=1):
    CTX.transitions += n


def state(x):
    CTX.states.add(digest(x))


class Ctx:
    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.validated = 0
        self.skipped = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.extra = {}


CTX = Ctx()


def skip(reason):
    """The case is outside the property's domain (e.g. ill-conditioned)."""
    CTX.skipped += 1
    CTX.extra['skipped: ' + reason] = CTX.extra.get('skipped: ' + reason, 0) + 1


def count(name, n=1):
    CTX.extra[name] = CTX.extra.get(name, 0) + n


# ---------------------------------------------------------------- runner

class Check:
    """One check. Subclass/instantiate with: prop, cases(tier) -> iterator of (key, payload),
    test(key, payload)."""
    level = 'model_checking'
    case_timeout = 120
    max_violations = 3
    grace = 20          # seconds the exploration goes on after the first violation
    rule = ''
    assumptions = []
    jobs = None

    def __init__(self, prop):
        self.prop = prop

    def cases(self, tier):
        raise NotImplementedError

    def test(self, key, payload):
        raise NotImplementedError

    def worker_init(self):
        pass

    # -- internals
    def _claim(self):
        with self._next.get_lock():
            i = self._next.value
            self._next.value = i + 1
        return i

    def _worker(self, w, n, tier, only, fd):
        global CTX
        signal.signal(signal.SIGALRM, _on_alarm)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        sys.stdout = open(os.devnull, 'w')
        cov = _start_lines() if os.environ.get('VERIF_LINES') else None
        self.worker_init()
        mine = -1 if only is not None else self._claim()
        for i, (key, payload) in enumerate(self.cases(tier)):
            if only is not None:
                if key != only:
                    continue
                if w != 0:
                    break
            elif i != mine:
                continue
            else:
                mine = self._claim()
            if self._found.value and time.time() > self._found.value + self.grace:
                break
            CTX.evaluations += 1
            if len(CTX.samples) < 2 or (i < 4000 and len(CTX.samples) < 6 and i % 997 < n):
                CTX.samples.append({'case': key, 'input': short(payload, 400)})
            self._started[w] = time.time()
            signal.alarm(self.case_timeout)
            try:
                self.test(key, payload)
                signal.alarm(0)
            except Known as e:
                signal.alarm(0)
                CTX.known[e.finding] = CTX.known.get(e.finding, 0) + 1
            except (Exception, CaseTimeout, SystemExit) as e:
                signal.alarm(0)
                if isinstance(e, CaseTimeout) and self._found.value and time.time() > self._found.value + self.grace:
                    break           # interrupted because another worker has found a violation
                if not self._found.value:
                    self._found.value = time.time()
                if isinstance(e, Violation):
                    msg = str(e)
                elif isinstance(e, CaseTimeout):
                    msg = 'no result within %d s' % self.case_timeout
                else:
                    msg = 'unexpected %s: %s' % (type(e).__name__, str(e)[:500])
                CTX.violations.append({'case': key, 'message': msg, 'input': short(payload, 20000),
                                       'traceback': traceback.format_exc()[-4000:]})
                if len(CTX.violations) >= self.max_violations:
                    break
            self._started[w] = 0.0
        self._started[w] = 0.0
        if only is None or CTX.evaluations:
            for v in self.finish(w, n, tier) or []:
                CTX.violations.append(v)
        if cov is not None:
            with open(os.path.join(os.environ['VERIF_LINES'], '%s.%d' % (self.prop, w)), 'w') as f:
                json.dump(sorted(cov), f)
        data = pickle.dumps(CTX.__dict__)
        with os.fdopen(fd, 'wb') as f:
            f.write(data)
            f.flush()

    def finish(self, w, n, tier):
        return []

    def run(self, tier, seed, only=None):
        import multiprocessing
        t0 = time.time()
        self._next = multiprocessing.Value('l', 0)
        self._found = multiprocessing.Value('d', 0.0)     # when the first violation was found
        n = 1 if only is not None else (self.jobs or NPROC)
        self._started = multiprocessing.Array('d', n, lock=False)   # when each worker began its present case
        pids = {}
        bufs = {}
        for w in range(n):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.close(r)
                    self._worker(w, n, tier, only, wfd)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wfd)
            pids[r] = (w, pid)
            bufs[r] = []
        open_fds = set(pids)
        while open_fds:
            rd, _, _ = select.select(list(open_fds), [], [], 5)
            late = time.time() - self._found.value - self.grace if self._found.value else 0
            if late > 30:           # a violation is known: do not wait for slow or stuck cases
                for r in open_fds:
                    os.kill(pids[r][1], signal.SIGKILL if late > 90 else signal.SIGALRM)
            for r in list(open_fds):
                w, pid = pids[r]
                t = self._started[w]
                if late > 90 or (t and time.time() > t + self.case_timeout + 60):   # the alarm did not get through
                    for p in _descendants(pid):
                        try:
                            os.kill(p, signal.SIGKILL)
                        except OSError:
                            pass
                    open_fds.discard(r)
                    os.close(r)
                    if r in rd:
                        rd.remove(r)
            for r in rd:
                b = os.read(r, 1 << 20)
                if b:
                    bufs[r].append(b)
                else:
                    open_fds.discard(r)
                    os.close(r)
        total = Ctx()
        crashed = []
        for r, (w, pid) in pids.items():
            _, st = os.waitpid(pid, 0)
            data = b''.join(bufs[r])
            try:
                d = pickle.loads(data)
            except Exception:
                if not self._found.value:
                    crashed.append((w, st))
                continue
            total.evaluations += d['evaluations']
            total.transitions += d['transitions']
            total.validated += d['validated']
            total.skipped += d['skipped']
            total.states |= d['states']
            total.outcomes |= d['outcomes']
            total.samples += d['samples']
            total.violations += d['violations']
            for k, v in d['known'].items():
                total.known[k] = total.known.get(k, 0) + v
            for k, v in d['extra'].items():
                total.extra[k] = total.extra.get(k, 0) + v
        for w, st in crashed:
            total.violations.append({'case': '?', 'message': 'worker %d died or was stuck (status %s)' % (w, st),
                                     'input': '', 'traceback': ''})
        wall = time.time() - t0
        return total, wall

    def coverage(self, t):
        states = len(t.states) or t.evaluations
        cov = {
            'states': states,
            'transitions': t.transitions or t.evaluations,
            'traces_validated_against_impl': t.validated or t.evaluations,
            'evaluations': t.evaluations,
            'distinct_nontrivial': len(t.outcomes) or states,
            'distinct_outcomes': len(t.outcomes),
            'rule': self.rule,
            'exhaustive': True,
            'samples': t.samples[:8],
        }
        cov.update(t.extra)
        return cov


def _descendants(pid):
    """the process and everything below it"""
    kids = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    kids.setdefault(int(f.read().rsplit(')', 1)[1].split()[1]), []).append(int(d))
            except OSError:
                pass
    out = [pid]
    for p in out:
        out += kids.get(p, [])
    return out


def _start_lines():
    """lines of the code under test that this worker executes (VERIF_LINES: directory to write them to)"""
    lines, m = set(), sys.monitoring

    def on_line(code, line):
        if code.co_filename.startswith(REPO + '/'):
            lines.add((os.path.relpath(code.co_filename, REPO), line))
        return m.DISABLE
    m.use_tool_id(m.COVERAGE_ID, 'verif')
    m.register_callback(m.COVERAGE_ID, m.events.LINE, on_line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
    return lines


class Known(Exception):
    """A violation that known_findings.json lists."""
    def __init__(self, finding):
        super().__init__(finding)
        self.finding = finding


def _on_alarm(sig, frm):
    raise CaseTimeout()


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        d = json.load(open(p))
    except OSError:
        return []
    return [k for k in d.get('findings', []) if k.get('property') == prop]


def main(check, tier, only=None):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = check.prop
    total, wall = check.run(tier, seed, only)
    vs = total.violations
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': check.coverage(total), 'assumptions': list(check.assumptions),
        'wall_s': round(wall, 2), 'violations': len(vs),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k, n in sorted(total.known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s %s: %d cases, %d states, %d transitions, %d comparisons, %d distinct outcomes, %d skipped, %.1fs %s' % (
        prop, tier, total.evaluations, len(total.states), total.transitions, total.validated,
        len(total.outcomes), total.skipped, wall, json.dumps(total.extra) if total.extra else ''))
    if not vs and total.evaluations == 0:
        vs = [{'case': '?', 'message': 'nothing was explored', 'input': '', 'traceback': ''}]
    if vs:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.json')
        vs.sort(key=lambda v: len(v['input']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'violations': vs,
                       'replay': 'bin/check %s %s --only %r' % (prop, tier, vs[0]['case'])}, f, indent=1)
        for v in vs[:3]:
            print('  case %s: %s' % (v['case'], v['message'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
