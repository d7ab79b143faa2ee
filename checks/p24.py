import itertools, json, os, pickle, select, signal, time
import multiprocessing
from mc import core
from mc.core import Check, outcome, state, require, scratch, transition
from sureal.tools.misc import parallel_map

HANG = 60.0        # nothing at all happens for so long: not a verdict on speed
SETTLE = 0.5       # wait for further starts when fewer than the allowed number run


class Item:
    """an argument that cannot be pickled"""
    def __init__(self, i):
        self.i = i
        self.f = lambda: i

    def __repr__(self):
        return 'Item(%d)' % self.i


ARGS = {
    'ints': lambda n: list(range(10, 10 + n)),
    'equal': lambda n: [5] * n,
    'mixed': lambda n: [0, None, 0, '', False][:n],
    'zip': lambda n: zip(range(n), range(n, 2 * n)),
    'generator': lambda n: (i * i for i in range(n)),
    'map': lambda n: map(str, range(n)),
    'range': lambda n: range(n),
    'tuple': lambda n: tuple(('a', i) for i in range(n)),
    'objects': lambda n: [Item(i) for i in range(n)],
    'lists': lambda n: [[i, [i]] for i in range(n)],
    'keys': lambda n: {('k', i): 1 for i in range(n)}.keys(),
}
RES = {
    'pair': lambda a: ('r', repr(a)),
    'none': lambda a: None,
    'same': lambda a: 7,
    'some': lambda a: None if a % 2 else (a, 0)[a % 4 == 0],
    'false': lambda a: bool(repr(a) == ''),
}


def fail(a, bad, how):
    if a in bad:
        if how == 'raise':
            raise ValueError(a)
        if how == 'none':
            raise SystemExit(0)
        return 'die'
    return ('r', a)


FAIL = {}
for _bad in ((10,), (11,), (12,), (10, 12), (10, 11, 12)):
    for _how in ('raise', 'die', 'none'):
        FAIL['fail %s %s' % (_how, _bad)] = lambda a, _bad=_bad, _how=_how: fail(a, _bad, _how)


def value(a):
    return a.f() if isinstance(a, Item) else a


def child(kind, res, n, processes, pause, perm, gates, ev, done):
    """runs the real parallel map; every call reports its start, waits at its gate, reports its end"""
    os.setsid()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    # the order in which a set of processes is emptied depends on their hashes: make it a choice
    cls = multiprocessing.process.BaseProcess
    cnt = itertools.count()
    orig = cls.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        self.__dict__['_order'] = next(cnt)

    def h(self):
        o = self.__dict__.get('_order', -1) - OFFSET
        return perm[o] if 0 <= o < len(perm) else id(self) >> 4
    cls.__init__ = init
    cls.__hash__ = h
    args = ARGS[kind](n)
    OFFSET = 1          # the manager's process comes first

    def func(a):
        pid = os.getpid()
        os.write(ev, (json.dumps(['start', repr(value(a)), pid]) + '\n').encode().rjust(200))
        # gate: wait until the controller names this process
        while True:
            r = os.read(gates[0], 32)
            p = int(r)
            if p == pid:
                break
            os.write(gates[1], r)
            time.sleep(0.001)
        try:
            out = RES[res](a) if res in RES else FAIL[res](a)
        finally:
            os.write(ev, (json.dumps(['end', repr(value(a)), pid]) + '\n').encode().rjust(200))
        if res in FAIL and out == 'die':
            os._exit(3)
        return out
    kw = {}
    if processes is not None:
        kw['processes'] = processes
    if pause != 'default':
        kw['pause_sec'] = pause
    try:
        r = ('ok', parallel_map(func, args, **kw))
    except BaseException as e:
        r = ('err', '%s: %s' % (type(e).__name__, e))
    os.write(done, pickle.dumps(r))
    os._exit(0)


def execute(kind, res, n, processes, pause, perm, choose, excess=0.0):
    """one execution under the controller; choose(running) -> the started calls to let finish together"""
    g = os.pipe()
    e = os.pipe()
    d = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            child(kind, res, n, processes, pause, perm, g, e[1], d[1])
        finally:
            os._exit(9)
    os.close(e[1])
    os.close(d[1])
    starts, ends, running, trace = [], [], [], []
    buf = b''
    most = 0
    ret = None
    want = processes if processes is not None else None
    try:
        last = time.time()
        while ret is None:
            full = want is not None and len(running) >= min(want, n - len(ends))
            allin = len(starts) == n
            wait = HANG if not running else ((0.0 if allin else excess) if (full or allin) and not buf else SETTLE)
            rd, _, _ = select.select([e[0], d[0]], [], [], wait)
            if e[0] in rd:
                b = os.read(e[0], 200)
                if b:
                    buf += b
                    while len(buf) >= 200:
                        m = json.loads(buf[:200])
                        buf = buf[200:]
                        if m[0] == 'start':
                            starts.append(m[1])
                            running.append(m[2])
                            most = max(most, len(running))
                        else:
                            ends.append(m[1])
                            running.remove(m[2])
                    continue
            if d[0] in rd:
                data = b''
                while True:
                    b = os.read(d[0], 1 << 16)
                    if not b:
                        break
                    data += b
                    break
                ret = pickle.loads(data) if data else ('err', 'died')
                break
            if not rd and not running:
                raise core.Violation('no progress: %d started, %d finished of %d' % (len(starts), len(ends), n))
            if not running:
                continue
            if want is not None and most > want:
                break
            # quiescent: choose
            pick = choose(list(running))
            trace.append(sorted(running.index(p) for p in pick))
            for p in pick:
                os.write(g[1], b'%32d' % p)
            # all of them must have ended before the next choice
            todo = set(pick)
            t0 = time.time()
            while todo & set(running):
                rd, _, _ = select.select([e[0]], [], [], HANG)
                if not rd:
                    raise core.Violation('a call did not finish')
                buf += os.read(e[0], 200)
                while len(buf) >= 200:
                    m = json.loads(buf[:200])
                    buf = buf[200:]
                    if m[0] == 'start':
                        starts.append(m[1])
                        running.append(m[2])
                        most = max(most, len(running))
                    else:
                        ends.append(m[1])
                        running.remove(m[2])
            for p in pick:
                t0 = time.time()
                while alive(p) and time.time() - t0 < 5:
                    time.sleep(0.0005)
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        for x in (g[0], g[1], e[0], d[0]):
            os.close(x)
    return ret, starts, ends, most, trace


def alive(p):
    try:
        with open('/proc/%d/stat' % p) as f:
            return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError:
        return False


class CHECK(Check):
    case_timeout = 600
    rule = ('for collections of 0 to 3 (thorough 5) arguments of many kinds, and 11 and 12 (thorough up to 101) in three pick and two finishing orders (equal items, iterators, unpicklable objects), every allowed number of '
            'processes, every order in which waiting workers are picked (via their hashes) and every order, also simultaneous, in which running workers '
            'finish; workers that raise, exit or die: workers are real processes held at a gate and released by a depth-first controller; results, number of runs and '
            'the largest number running at a time')
    assumptions = ['a call runs from its start until the controller lets it finish']

    def cases(self, tier):
        q = tier == 'quick'
        for kind in ARGS:
            for n in (0, 1, 3):
                for p in (1, 2, None):
                    if n == 0 and p == 2:
                        continue
                    yield 'kind/%s/%d/%s' % (kind, n, p), ('one', kind, 'pair', n, p, 0.001 if p != 2 else None, tuple(range(n)))
        for res in RES:
            for p in (1, 2):
                yield 'res/%s/%d' % (res, p), ('one', 'ints', res, 3, p, 0.001, (0, 1, 2))
        for res in FAIL:
            for p in (1, 2, 3):
                yield '%s/%d' % (res, p), ('one', 'ints', res, 3, p, 0.001, (1, 2, 0))
        for n in (11, 12) if q else (11, 12, 30, 101):
            for p in (1, 4, n, None):
                for perm in (tuple(range(n)), tuple(reversed(range(n))), tuple(i * 7 % n for i in range(n))):
                    yield 'many/%d/%s/%s' % (n, p, perm), ('one', ('ints', 'map', 'generator')[perm[1] % 3], 'pair', n, p, 0.001, perm)
        yield 'pause/default', ('one', 'ints', 'pair', 3, 2, 'default', (2, 0, 1))
        for n in (2, 3) if q else (2, 3, 4):
            for p in range(1, n + 2):
                for perm in itertools.permutations(range(n)):
                    yield 'dfs/%d/%d/%s' % (n, p, perm), ('dfs', 'ints', 'pair', n, p, 0.001, perm)
        if not q:
            for p in (1, 2, 3):
                for perm in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 3, 1, 4)):
                    yield 'dfs/5/%d/%s' % (p, perm), ('dfs', 'equal', 'pair', 5, p, 0.001, perm)
        else:
            for p in (2, 3):
                for perm in list(itertools.permutations(range(4)))[::5]:
                    yield 'dfs/4/%d/%s' % (p, perm), ('dfs1', 'equal', 'pair', 4, p, 0.001, perm)

    def test(self, key, c):
        mode, kind, res, n, p, pause, perm = c
        if mode == 'one':
            self.one(c, lambda run: [run[0]])
            if n > 1:
                self.one(c, lambda run: [run[-1]])
            return
        # depth-first over the choices of the controller
        script = []
        while True:
            log = []

            def choose(running):
                k = len(log)
                m = len(running)
                opts = [[r] for r in running]
                if mode == 'dfs':
                    for size in range(2, m + 1):
                        opts += [list(x) for x in itertools.combinations(running, size)]
                i = script[k] if k < len(script) else 0
                log.append((i, len(opts)))
                if i >= len(opts):
                    i = 0
                return opts[i]
            self.one(c, choose)
            while log and log[-1][0] + 1 >= log[-1][1]:
                log.pop()
            if not log:
                break
            script = [i for i, _ in log[:-1]] + [log[-1][0] + 1]

    def one(self, c, choose):
        mode, kind, res, n, p, pause, perm = c
        ret, starts, ends, most, trace = execute(kind, res, n, p, pause, perm, choose, 0.15 if mode == 'one' else 0.02)
        transition(len(trace) * 2)
        state((kind, res, n, p, perm, trace))
        args = list(ARGS[kind](n))
        where = '%s of %d, %s at a time, pick order %s, finishing %s: ' % (kind, n, p, perm, trace)
        if p is not None:
            require(most <= p, where + '%d ran at the same time' % most)
        if res in FAIL:
            require(ret[0] == 'err', where + 'returned %r although a call failed (%s)' % (ret[1], res))
            core.CTX.validated += 1
            outcome([res, n, p, most, trace])
            return
        require(ret[0] == 'ok', where + 'failed with %s' % (ret[1],))
        if kind == 'objects':
            require(len(ret[1]) == n, where + '%d results' % len(ret[1]))
            want = None
        else:
            want = [RES[res](a) for a in args]
            require(list(ret[1]) == want, where + 'returned %r, expected %r' % (ret[1], want))
        if kind == 'objects':
            require([r[1] for r in ret[1]] == ['Item(%d)' % i for i in range(n)], where + 'returned %r' % (ret[1],))
        want_runs = sorted(repr(value(a)) for a in args)
        require(sorted(starts) == want_runs and sorted(ends) == want_runs, where + 'ran %r, expected each of %r once' % (starts, want_runs))
        core.CTX.validated += 1
        outcome([n, p, most, trace])
