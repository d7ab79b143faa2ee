import copy, itertools, os, py_compile, sys, types
from mc import core
from mc.core import Check, outcome, state, require, scratch, transition
from sureal.tools.misc import import_python_file, import_json_file

# equally long texts of the same characters, so that neither size, (pinned) time nor a sum of the bytes tells a rewrite
PY = {
    'a': "dataset_name = 'on\u00e9'\nref_score = 5.000000000000124\ndis_videos = [{'os': [1, 2]}]\nextra = {'k': [1]}\n",
    'b': "dataset_name = 'n\u00e9o'\nref_score = 4.000000000000125\ndis_videos = [{'os': [1, 1]}]\nextra = {'k': [2]}\n",
    'c': "dataset_name = 'one'\nref_score = 5\ndis_videos = [{'os': [1, 2]}]\n#other = {'k': [1]}\n",
    'd': "dataset_name = 'new'\nwidth = 7\nn = 3\nn += 1\ndis_videos = [{'os': [n, n + 1]}]\n",
}
PYV = {
    'a': dict(dataset_name='on\u00e9', ref_score=5.000000000000124, dis_videos=[{'os': [1, 2]}], extra={'k': [1]}),
    'b': dict(dataset_name='n\u00e9o', ref_score=4.000000000000125, dis_videos=[{'os': [1, 1]}], extra={'k': [2]}),
    'c': dict(dataset_name='one', ref_score=5, dis_videos=[{'os': [1, 2]}]),
    'd': dict(dataset_name='new', width=7, n=4, dis_videos=[{'os': [4, 5]}]),
}
BAD = "dataset_name = 'bad'\nref_score = 9\nraise ValueError('broken')\n"
JS = {
    'a': '{"dataset_name": "on\u00e9", "ref_score": 5.000000000000124, "dis_videos": [{"os": [1, 2]}]}\n',
    'b': '{"dataset_name": "n\u00e9o", "ref_score": 4.000000000000125, "dis_videos": [{"os": [2, 1]}]}\n',
    'c': '{"dataset_name": "one", "ref_score": 5, "dis_videos": [], "x": {"a": 1}}\n',
}
JSV = {
    'a': dict(dataset_name='on\u00e9', ref_score=5.000000000000124, dis_videos=[{'os': [1, 2]}]),
    'b': dict(dataset_name='n\u00e9o', ref_score=4.000000000000125, dis_videos=[{'os': [2, 1]}]),
    'c': dict(dataset_name='one', ref_score=5, dis_videos=[], x={'a': 1}),
}
assert sorted(PY['a']) == sorted(PY['b']) and sorted(JS['a']) == sorted(JS['b'])
T = 1500000000


def attrs(ns):
    return {k: v for k, v in vars(ns).items() if not (k.startswith('__') and k.endswith('__'))}


class World:
    def __init__(self, d, files):
        self.d = d
        self.cur = {}
        self.held = []          # (object, snapshot of what it must be)
        self.files = files
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(d, f)) or d, exist_ok=True)
            self.write(f, 'a')

    def path(self, f):
        return os.path.join(self.d, f)

    def write(self, f, c, when=T):
        text = (JS if f.endswith('.json') else PY).get(c, BAD)
        with open(self.path(f), 'w', encoding='utf-8') as h:
            h.write(text)
        os.utime(self.path(f), (when, when))
        self.cur[f] = c

    def load(self, f, rel=False):
        p = os.path.relpath(self.path(f)) if rel else self.path(f)
        js = f.endswith('.json')
        c = self.cur[f]
        if c == 'bad':
            try:
                import_python_file(p)
            except ValueError:
                return ('refused',)
            raise core.Violation('a file that raises was loaded')
        got = (import_json_file if js else import_python_file)(p)
        want = (JSV if js else PYV)[c]
        a = attrs(got)
        require(a == want, 'loading %s (content %s) gave %s, expected %s' % (f, c, core.short(a), want))
        for o, w in self.held:
            if o is got:
                raise core.Violation('two loads returned the same object')
        self.held.append((got, copy.deepcopy(want)))
        return sorted(want)

    def edit(self):
        """overwrite everything in the dataset loaded last"""
        if not self.held:
            return
        o, w = self.held[-1]
        o.dis_videos.append('edited')
        if o.dis_videos and isinstance(o.dis_videos[0], dict):
            o.dis_videos[0]['os'].append(99)
        if hasattr(o, 'extra'):
            o.extra['k'].append(7)
        o.dataset_name = 'edited'
        o.added = 1
        self.held[-1] = (o, copy.deepcopy(attrs(o)))

    def intact(self, op):
        for o, w in self.held:
            a = attrs(o)
            require(a == w, '%s changed a dataset loaded earlier: now %s, was %s' % (op, core.short(a), core.short(w)))


def step(w, op):
    k = op[0]
    transition()
    if k == 'w':
        w.write(op[1], op[2])
        r = None
    elif k == 'l':
        r = w.load(op[1])
    elif k == 'r':
        r = w.load(op[1], True)
    elif k == 'd':     # another current directory; the environment still names the former one
        os.chdir(os.path.join(w.d, op[1]))
        r = None
    elif k == 'b':     # by base name, from the current directory
        f = os.path.join(os.path.relpath(os.getcwd(), w.d), op[1])
        r = w.load(os.path.normpath(f), True)
    elif k == 'e':
        r = w.edit()
    elif k == 'c':     # compiled code beside the source, as an ordinary import leaves it
        py_compile.compile(w.path(op[1]), cfile=None)
        r = None
    elif k == 'm':     # a module of that name is there already
        m = types.ModuleType(op[1])
        m.dataset_name, m.extra, m.foreign = 'foreign', 0, 1
        sys.modules[op[1]] = m
        r = None
    elif k == 'u':     # older modification time than before
        w.write(op[1], op[2], T - 1000)
        r = None
    w.intact(op)
    return r


SPACES = {
    # name: (files, ops, depth quick, depth thorough)
    'py': (('p/data.py', 'q/data.py'),
           [('l', 'p/data.py'), ('l', 'q/data.py'), ('e',)] + [('w', f, c) for f in ('p/data.py', 'q/data.py') for c in 'abcd'], 5, 6),
    'env': (('p/colorsys.py', 'p/data.py'),
            [('l', 'p/colorsys.py'), ('l', 'p/data.py'), ('c', 'p/data.py'), ('m', 'data'), ('m', 'colorsys'), ('w', 'p/data.py', 'b'),
             ('u', 'p/data.py', 'c'), ('w', 'p/colorsys.py', 'd'), ('r', 'p/data.py'), ('w', 'p/data.py', 'bad'), ('e',)], 4, 5),
    'json': (('p/data.json', 'q/data.json', 'p/data.py'),
             [('l', 'p/data.json'), ('l', 'q/data.json'), ('l', 'p/data.py'), ('e',), ('w', 'p/data.json', 'b'), ('w', 'p/data.json', 'c'),
              ('w', 'q/data.json', 'c'), ('w', 'q/data.json', 'b'), ('w', 'p/data.py', 'd'), ('r', 'p/data.json')], 5, 6),
    'cwd': (('p/data.py', 'q/data.py', 'p/data.json', 'q/data.json'),
            [('d', 'p'), ('d', 'q'), ('b', 'data.py'), ('b', 'data.json'), ('r', 'q/data.py'), ('w', 'q/data.py', 'b'), ('w', 'q/data.json', 'c'), ('l', 'p/data.py')], 4, 5),
    'names': (('p/numpy.py', 'p/sureal.py', 'p/a.b.py', 'p/my set.py', 'p/123.py'),
              [('l', 'p/numpy.py'), ('l', 'p/sureal.py'), ('l', 'p/a.b.py'), ('w', 'p/a.b.py', 'b'), ('l', 'p/my set.py'), ('l', 'p/123.py'),
               ('w', 'p/numpy.py', 'd'), ('e',)], 3, 5),
}


class CHECK(Check):
    rule = ('every history up to the depth bound (3 to 5; thorough 5 to 6) of writing, rewriting (same size and time, earlier time), compiling, loading '
            '(absolute, relative), editing a loaded dataset and planting modules of the same name, over Python and JSON files of equal base '
            'names in two directories; after each load its attributes, after every step all datasets loaded earlier')

    def worker_init(self):
        sys.dont_write_bytecode = False

    def cases(self, tier):
        for name, (files, ops, q, t) in SPACES.items():
            n = q if tier == 'quick' else t
            # a history is explored with all its extensions of two steps below one directory state: the prefix is the case
            for k in range(1, n + 1):
                for pre in itertools.product(range(len(ops)), repeat=max(0, k - 2)):
                    yield '%s:%d:%s' % (name, k, '.'.join(map(str, pre))), (name, k, pre)

    def test(self, key, c):
        name, k, pre = c
        files, ops = SPACES[name][:2]
        saved = dict(sys.modules)
        for i, suf in enumerate(itertools.product(range(len(ops)), repeat=k - len(pre))):
            seq = [ops[j] for j in pre + suf]
            if seq[-1][0] not in 'lrb' and k > 1:
                continue        # ends in a load: anything else is a prefix of another history
            d = scratch('h%d' % i)
            w = World(d, files)
            if name == 'cwd':
                os.chdir(w.path('p'))
                os.environ['PWD'] = w.path('p')
            # the compiled files of earlier histories must not leak in
            for f in files:
                try:
                    os.remove(__import__('importlib.util').util.cache_from_source(w.path(f)))
                except (OSError, NotImplementedError):
                    pass
            out = []
            try:
                for op in seq:
                    out.append(step(w, op))
            except core.Violation as e:
                raise core.Violation('%s: %s' % (seq, e))
            finally:
                os.chdir(core.VERIF)
                for m in set(sys.modules) - set(saved):
                    del sys.modules[m]
                sys.modules.update(saved)
            state((name, seq))
            outcome([name, [o for o in out if o is not None][-1:], sorted(w.cur.items())])
            core.CTX.validated += sum(o is not None for o in out)
