import builtins, io, itertools, json, os, pickle, shutil, sys, traceback
from mc import core
from mc.core import Check, outcome, state, require, scratch, transition
from sureal.tools import decorator

# real functions, taken before anything is intercepted
R = {n: getattr(os, n) for n in ('open', 'write', 'replace', 'rename', 'makedirs', 'mkdir', 'remove', 'unlink', 'fsync', 'link', '_exit', 'rmdir', 'truncate')}
R_open = builtins.open

VALUES = [('f', (1,), [1.5, 'é"x', {'k': None}]), ('f', ('1',), None), ('g', (1,), 0), ('f', ([1, 2],), {}), ('g', (1, 2), ''),
          ('f', (2,), {'a': [1, 2, [3]], 'b': -1e300}), ('g', (), False), ('h', ('a' * 400, 1.0), [[], [[]]]), ('f', (1.0,), 7), ('f', (True,), 'true')]
CALLS = [(n, a) for n, a, _ in VALUES]
# arguments that a shortened, case-folding, trimming or ASCII key would confuse
MANY = [(s,) for s in ('\u00e9', '\u00e8', 'e', 'E', 'e ', ' e', '', 'e\n', 'e\\n', '\u65e5', '\u672c', 'ab', 'a,b', "a', 'b", 'a' * 300 + 'x', 'a' * 300 + 'y')] + \
       [('a', 'b'), ('b', 'a'), ('ab', ''), ('', 'ab'), ('a',), ('a', 'a'), (0,), (0, 0), (-0.0,), (False,), ('False',), ((1, 2),), ([1, 2],), ('(1, 2)',), (1, 2), ('1, 2',), ({},), ((),), ([],), (None,), ('None',),
        (1e-17,), (0.1 + 0.2,), (0.3,), (1e22,), (10 ** 22,), (3, 'x', 4.5), (3, 'x', 4.25)] + \
       [(i,) for i in range(1000, 1700)]


class Inject:
    """numbers every visible step of a process; at the chosen one the process dies or the step fails"""
    def __init__(self, log):
        self.n = 0
        self.at = None      # (step, kind)
        self.log = log
        self.hit = False

    def step(self, what, half=None):
        i = self.n
        self.n += 1
        self.log('S %s' % what)
        if self.at is not None and self.at[0] == i:
            kind = self.at[1]
            self.hit = True
            if half is not None and kind.endswith('half'):
                half()
            if kind.startswith('die'):
                R['_exit'](77)
            if what == 'compute':
                raise RuntimeError('injected: computing fails') if kind == 'err' else KeyboardInterrupt()
            raise OSError(28, 'injected: no space left on device')


class File:
    """a file object whose writes reach the file at once, each an injection point"""
    def __init__(self, f, inj):
        self.__dict__['f'] = f
        self.__dict__['inj'] = inj

    def write(self, s):
        def half():
            self.f.write(s[:len(s) // 2])
            self.f.flush()
        self.inj.step('write', half)
        r = self.f.write(s)
        self.f.flush()
        return r

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def close(self):
        if not self.f.closed:
            try:
                self.inj.step('close')
            finally:
                self.f.close()

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, n):
        return getattr(self.f, n)


def install(inj, root):
    def within(p):
        try:
            return isinstance(p, int) or os.path.abspath(os.fspath(p)).startswith(root)
        except TypeError:
            return False

    def xopen(file, mode='r', *a, **k):
        if not within(file):
            return R_open(file, mode, *a, **k)
        inj.step('open ' + ('r' if set(mode) <= set('rbtU') else 'w'))
        return File(R_open(file, mode, *a, **k), inj)
    builtins.open = io.open = xopen
    for n in R:
        if n in ('_exit',):
            continue

        def x(p, *a, _n=n, **k):
            if within(p) or (a and isinstance(a[0], str) and within(a[0])):
                if _n == 'write':
                    inj.step('write', lambda: R['write'](p, a[0][:len(a[0]) // 2]))
                else:
                    inj.step(_n)
            return R[_n](p, *a, **k)
        setattr(os, n, x)


def process(where, kind, ops, at, log_path):
    """one process: decorate, then the calls; writes its observations to the log"""
    lf = R['open'](log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    log = lambda s: R['write'](lf, (s + '\n').encode())
    inj = Inject(log)
    inj.at = at
    install(inj, where)
    fns = {}

    fns_ = {}
    for name in ('f', 'g', 'h'):
        def fn(*args, name=name):
            inj.step('compute')
            log('C %r' % ((name, args),))
            return pickle.loads(pickle.dumps(lookup(name, args)))
        fn.__name__ = name
        fns_[name] = fn
    for op in ops:
        name, args = op
        log('B %r' % (op,))
        try:
            if kind == 'file':
                # one file per function, as decorated functions have one each
                if name not in fns:
                    fns[name] = decorator.persist_to_file(os.path.join(where, name + '.json'))(fns_[name])
            elif name not in fns:
                fns[name] = decorator.persist_to_dir(os.path.join(where, 'cache', 'deep'))(fns_[name])
            r = fns[name](*args)
            log('V %s' % json.dumps(repr(r)))
            spoil(r)        # a caller may edit what it got
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            log('X %s %s' % (int(inj.hit), json.dumps('%s: %s' % (type(e).__name__, e))))
            if not inj.hit:
                raise
    log('E %d' % inj.n)


def spoil(r):
    if isinstance(r, list):
        for v in r:
            spoil(v)
        r.append('edited by the caller')
    elif isinstance(r, dict):
        for v in r.values():
            spoil(v)
        r['edited'] = True


def lookup(name, args):
    for n, a, v in VALUES:
        if n == name and repr(a) == repr(args):
            return v
    return ['many', name, repr(args)]


def spawn(where, kind, ops, at, log_path):
    if os.path.exists(log_path):
        R['remove'](log_path)
    pid = os.fork()
    if pid == 0:
        try:
            process(where, kind, ops, at, log_path)
        except BaseException:
            fd = R['open'](log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
            R['write'](fd, ('F %s\n' % json.dumps(traceback.format_exc()[-1500:])).encode())
        R['_exit'](0)
    _, st = os.waitpid(pid, 0)
    with R_open(log_path) as f:
        lines = f.read().splitlines()
    died = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77
    return lines, died


def judge(ops, lines, died, stored, faulty):
    """compare the observations of one process with the specification; returns the number of injection points"""
    i = 0
    cur = None
    computed = 0
    n = None
    for l in lines:
        t, _, rest = l.partition(' ')
        if t == 'B':
            cur = ops[i]
            i += 1
            computed = 0
        elif t == 'C':
            computed += 1
            require(repr(rest) == repr(repr(cur)), 'computed %s while calling %r' % (rest, cur))
            require(repr(cur) not in stored, '%r computed again although its result was stored' % (cur,))
            require(computed == 1, '%r computed %d times in one call' % (cur, computed))
        elif t == 'V':
            core.CTX.validated += 1
            want = repr(lookup(*cur))
            got = json.loads(rest)
            require(got == want, '%r returned %s, the function returns %s' % (cur, got, want))
            stored.add(repr(cur))
        elif t == 'X':
            hit, _, msg = rest.partition(' ')
            require(faulty and hit == '1', '%r failed: %s' % (cur, json.loads(msg)))
            # a call that fails with no fault in it must not happen
            require(faulty['left'] > 0, '%r failed although the fault was in an earlier call: %s' % (cur, json.loads(msg)))
            faulty['left'] -= 1
        elif t == 'F':
            raise core.Violation('%r failed: %s' % (cur, json.loads(rest)))
        elif t == 'E':
            n = int(rest)
    require(died or n is not None, 'process ended without finishing')
    require(died or i == len(ops), 'not all calls were made')
    return n, i


class CHECK(Check):
    level = 'fault_enumeration'
    rule = ('for every history of calls (several functions and arguments, result stored in a directory or a file) and process restarts up to the '
            'bound: the run without faults, then one run per visible step (computing, opening, every write, closing, creating the directory, '
            'publishing) in which the process dies there or the step fails, whole or half written (thorough: also every pair of such faults in short histories); '
            'then the remaining calls and a final process calling everything, against a reference cache')
    assumptions = ['process crashes, not power failure: what was written reaches the file in order',
                   'results are JSON values; arguments are told apart by their printed form', 'one process at a time']

    def cases(self, tier):
        few = CALLS[:3]
        for kind in ('dir', 'file'):
            # every ordered pair of calls without fault, same and separate processes: no two calls share a result
            for a, b in itertools.product(range(len(CALLS)), repeat=2):
                yield '%s/pair/%d.%d' % (kind, a, b), (kind, [[CALLS[a]], [CALLS[b]]], False)
                yield '%s/pair2/%d.%d' % (kind, a, b), (kind, [[CALLS[a], CALLS[b]]], False)
            for c in CALLS:
                yield '%s/one/%r' % (kind, c), (kind, [[c]], True)
            many = [('f', a) for a in MANY[:150 if kind == 'file' else None]]
            yield '%s/many' % kind, (kind, [many, many], False)
            for n in (2, 3) if tier == 'quick' else (2, 3, 4):
                for seq in itertools.product(range(3), repeat=n):
                    if n > 2 and any(k > 1 + max((-1,) + seq[:i]) for i, k in enumerate(seq)):
                        continue        # equal up to naming the calls
                    for cut in itertools.product((0, 1), repeat=n - 1):
                        if sum(cut) > 1 and tier == 'quick':
                            continue
                        segs = [[few[seq[0]]]]
                        for k, c in zip(seq[1:], cut):
                            if c:
                                segs.append([])
                            segs[-1].append(few[k])
                        yield '%s/%s/%s' % (kind, '.'.join(map(str, seq)), ''.join(map(str, cut))), (kind, segs, True)

    def test(self, key, c):
        kind, segs, faults = c
        self.run_history(kind, segs, [])
        if not faults:
            return
        npts = self.points
        self.kinds = self.steps
        for si, n in enumerate(npts):
            for p in range(n):
                for k in ('die', 'die half', 'err', 'err half') if self.kinds[si][p] == 'write' else ('die', 'err'):
                    self.run_history(kind, segs, [(si, p, k)])
                    if self.tier != 'quick' and sum(map(len, segs)) <= 2:
                        more = self.points
                        for sj in range(len(more)):
                            for q in range(more[sj] or 0):
                                if (sj, q) > (si, p):
                                    for k2 in ('die', 'err', 'die half'):
                                        self.run_history(kind, segs, [(si, p, k), (sj, q, k2)])

    def run(self, tier, seed, only=None):
        self.tier = tier
        return super().run(tier, seed, only)

    def run_history(self, kind, segs, faults):
        where = scratch('cache')
        log = scratch('log')
        shutil.rmtree(where, ignore_errors=True)
        os.makedirs(where)
        stored = set()
        todo = [list(s) for s in segs]
        final = [c for c in CALLS if any(c is d for s in segs for d in s)] or segs[0]
        todo.append(list(final))
        todo.append(list(final))
        self.points = []
        self.steps = []
        fl = list(faults)
        si = 0
        used = []
        while todo:
            ops = todo.pop(0)
            at = None
            if fl and fl[0][0] == si and len(todo) >= 2:
                at = fl[0][1:]
                fl.pop(0)
            transition(max(1, len(ops)))
            lines, died = spawn(where, kind, ops, at, log)
            faulty = {'left': 1} if at else None
            try:
                n, i = judge(ops, lines, died, stored, faulty)
            except core.Violation as e:
                raise core.Violation('%s cache, calls %r, faults %r: %s' % (kind, segs, faults, e))
            if at:
                used.append((at[1], [l for l in lines if l.startswith('S ')][-1:]))
            if died and len(todo) >= 2:
                # the remaining calls of this process are made by a new one
                rest = ops[i:]
                if rest:
                    todo.insert(0, rest)
            self.steps.append([l[2:] for l in lines if l.startswith('S ')])
            self.points.append(n if n is not None else 0)
            si += 1
        if not faults:
            self.points = self.points[:-2]
        state((kind, segs, faults))
        outcome([kind, used, len(stored), sorted(len(f) > 45 for f in os.listdir(where))])
