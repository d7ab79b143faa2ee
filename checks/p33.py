import gc, itertools, re
import numpy as np
from mc import core, exp, models, spaces
from mc.pc import PC
from mc.core import Check, outcome, state, check_same, require, transition
import sureal
from sureal.core.mixin import TypeVersionEnabled
from sureal.subjective_model import SubjectiveModel
from sureal.pc_subjective_model import PairedCompSubjectiveModel
from sureal.perf_metric import PerfMetric
import sureal.experimental  # noqa: F401
from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader

MODELS = ('MOS DMOS LIVE_DMOS LS MLE_legacy MLE MLE_CO MLE_SO SR_MOS SR_MOS_PCC SR_MOS_SRCC ZS_MOS ZS_SR_MOS DMOS_MLE DMOS_MLE_CO SR_DMOS '
          'ZS_SR_DMOS PERSUBJECT BR_MOS BR_SR_MOS BR_SR_MOS_PCC BR_SR_MOS_SRCC Subject_MLE_Projection Subject_MLE_Projection2 MLE_CO_AP '
          'MLE_CO_AP2 BT500 P913 P910 MLE_BSTP MLE_CO_BSTP').split()
PCM = 'BT_NR BT_MLE THURSTONE_MLE'.split()
METRICS = 'RMSE SRCC PCC KENDALL'.split()
ALIAS = {'BT500': 'SR_MOS', 'P913': 'BR_SR_MOS', 'P910': 'MLE_CO_AP2', 'MLE_CO_AP': 'Subject_MLE_Projection', 'MLE_CO_AP2': 'Subject_MLE_Projection2'}
LABELS = ('A', 'B', 'AB', None)


def lookup(base, name):
    try:
        return base.find_subclass(name)
    except Exception:
        return None


class Mix(object):
    pass


class CHECK(Check):
    case_timeout = 120
    rule = ('every class hierarchy of up to 4 (thorough 5) classes below a root (every tree shape x every labelling by 3 names, one a prefix '
            'of another, or an inherited name; mixins on alternating classes), built class by class, with every lookup of every name (and '
            'unknown ones) from every class after every step; every published model and metric name from every base it descends from; every '
            'alias against its model on a space of experiments; type/version strings for every class and for versions with illegal characters')
    assumptions = ['single inheritance within the hierarchy (plus mixins)']

    def cases(self, tier):
        n = 4 if tier == 'quick' else 5
        for parents in itertools.product(*[range(i) for i in range(1, n + 1)]):
            yield 'tree/%s' % (parents,), ('tree', parents, False)
        for parents in itertools.product(*[range(i) for i in range(1, n)]):
            yield 'alike/%s' % (parents,), ('tree', parents, True)
        for m in MODELS + PCM + METRICS:
            yield 'name/' + m, ('name', m)
        yield 'unknown', ('unknown',)
        for a in ALIAS:
            yield 'alias/' + a, ('alias', a)
        yield 'version', ('version',)

    def test(self, key, p):
        state(key)
        getattr(self, 'do_' + p[0])(*p[1:])

    def do_tree(self, parents, alike):
        n = len(parents)
        for labels in itertools.product(LABELS, repeat=n):
            root = type('Root', (TypeVersionEnabled,), {'VERSION': '1'})
            cl, par, eff = [root], [None], [None]
            for i in range(n):
                pi = parents[i]
                bases = (Mix, cl[pi]) if i % 2 and Mix not in cl[pi].__mro__ else (cl[pi],)
                d = {} if labels[i] is None else {'TYPE': labels[i], 'VERSION': '0.%d' % i}
                cl.append(type('C' if alike else 'C%d' % i, bases, d))    # alike: distinct classes of the same class name
                par.append(pi)
                eff.append(labels[i] if labels[i] is not None else eff[pi])
                below = {b: [] for b in range(len(cl))}
                for c in range(1, len(cl)):
                    a = par[c]
                    while a is not None:
                        below[a].append(c)
                        a = par[a]
                for b in range(len(cl)):
                    for name in ('A', 'B', 'AB', 'a', 'C'):
                        transition()
                        hit = [c for c in below[b] if eff[c] == name]
                        got = lookup(cl[b], name)
                        want = cl[hit[0]] if len(hit) == 1 else None
                        if got is not want:
                            raise core.Violation('parents %s, names %s, step %d: looking up %r from class %d gives %s, expected %s' % (
                                parents, labels, i, name, b, got and got.__name__, want and want.__name__))
                    core.CTX.validated += 1
                    subs = cl[b].get_subclasses_recursively()
                    require(sorted(c.__name__ for c in subs) == sorted(cl[c].__name__ for c in below[b]),
                            'descendants of class %d in %s: %s' % (b, parents, subs))
            state((parents, labels))
        outcome([parents])

    def bases(self, c, top):
        return [b for b in c.__mro__[1:] if issubclass(b, top)]

    def do_name(self, m):
        top = PerfMetric if m in METRICS else SubjectiveModel
        c = top.find_subclass(m)
        require(c.TYPE == m and issubclass(c, top), '%s resolves to %s of type %s' % (m, c, c.TYPE))
        require(issubclass(c, PairedCompSubjectiveModel) == (m in PCM), '%s of the wrong kind' % m)
        for b in self.bases(c, top):
            transition()
            require(lookup(b, m) is c, '%s from %s gives %s' % (m, b, lookup(b, m)))
            core.CTX.validated += 1
        require(lookup(c, m) is None, '%s found below itself' % m)
        for other in MODELS + PCM + METRICS:
            transition()
            o = lookup(c, other)
            require(o is None or (o.TYPE == other and issubclass(o, c) and o is not c), '%s below %s: %s' % (other, m, o))
        if m in METRICS:
            inst = c([1, 2, 3, 4], [1, 3, 2, 4])
        else:
            rd = PairedCompDatasetReader(PC(2, [('a', 0, 1, 1), ('b', 1, 0, 1)]).dataset()) if m in PCM else \
                RawDatasetReader(exp.from_table([[1, 2], [3, 4]]).dataset())
            inst = c(rd)
        require(inst.get_type_version_string() == m + '_V' + c.VERSION, 'string %r' % inst.get_type_version_string())
        require(inst.get_cozy_type_version_string() == m + ' VERSION ' + c.VERSION, 'string %r' % inst.get_cozy_type_version_string())
        require(re.match(r'^[a-zA-Z0-9._-]+$', c.VERSION), 'version %r' % c.VERSION)
        outcome([m, c.VERSION])

    def do_unknown(self):
        names = MODELS + PCM + METRICS
        near = set()
        for m in names:
            near |= {m.lower(), m[:-1], m + '_', ' ' + m, m + ' ', m.title(), m[1:]}
        for top, ok in ((SubjectiveModel, MODELS + PCM), (PerfMetric, METRICS), (PairedCompSubjectiveModel, PCM)):
            for m in sorted(near | set(names) | {'', 'mos', 'None'}) + [None]:
                transition()
                got = lookup(top, m)
                require((got is not None) == (m in ok), '%r from %s gives %s' % (m, top.__name__, got))
                require(got is None or got.TYPE == m, '%r gives type %r' % (m, got and got.TYPE))
                core.CTX.validated += 1
        for nm, m in (('P910AnnexEModel', 'P910'), ('P913124Model', 'P913'), ('BT500Model', 'BT500'), ('MosModel', 'MOS')):
            require(getattr(sureal, nm) is SubjectiveModel.find_subclass(m), 'sureal.%s is not the model %s' % (nm, m))
            core.CTX.validated += 1
        outcome(['unknown'])

    def do_alias(self, a):
        b = ALIAS[a]
        for x in exp.real_lattice(((4, 13), (8, 7)), ('none', 'ragged'), ('none', 'diag'), ('alt',)):
            ra, rb = models.run(a, x), models.run(b, x)
            state((a, x.key()))
            require(sorted(ra) == sorted(rb), '%s reports %s, %s reports %s' % (a, sorted(ra), b, sorted(rb)))
            for k in rb:
                if k != 'reconstructions':
                    check_same('%s %s against %s' % (a, k, b), ra[k], rb[k], 1e-9, 1e-9)
            outcome([a, ra['quality_scores']])

    def do_version(self):
        for v in itertools.chain(['1.0', '0.1_0.2', 'a-B.9', '_', '1 0', '', '1,0', 'a\\b', '\xe9', '1/2', 'v\n1']):
            legal = v != '' and all(ch.isascii() and (ch.isalnum() or ch in '._-') for ch in v)
            c = type('X', (TypeVersionEnabled,), {'TYPE': 'T y', 'VERSION': v})
            transition()
            try:
                i = c()
            except AssertionError:
                i = None
            require((i is not None) == legal, 'version %r %s' % (v, 'refused' if legal else 'accepted'))
            if i is not None:
                require(i.get_type_version_string() == 'T y_V' + v and i.get_cozy_type_version_string() == 'T y VERSION ' + v, 'strings for %r' % v)
            core.CTX.validated += 1
            outcome([v])
        gc.collect()
