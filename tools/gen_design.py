#!/usr/bin/env python3
"""Writes DESIGN.md: prose below, per-property sections from properties.jsonl and the checks' own rules, planted bugs from seeded/."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()

# oracle, bounds and what the enumeration reaches that tests do not
D = {
 'P01': ('the experiment itself: the checks build datasets from an abstract table of votes, so the expected table is known independently of the reader',
         'grids up to 3x3 cells over votes, missing, repeated; lattice up to 12 videos x 14 observers, 4 repetitions'),
 'P02': ('mean, sample deviation and standard error in exact rational arithmetic (mc/ref.py)', 'as P01'),
 'P03': ('per-vote offsets from the recorded votes of the one rated reference', 'reference lattice: 2-8 videos, 1-4 contents, references first/last/middle/between, repetitions, missing votes, declared maxima'),
 'P04': ('per-observer standardisation of the recorded votes; LIVE formula', 'as P03, plus lattice without references; observers without spread are outside the domain'),
 'P05': ('BT.500 evaluated on exact moments (fractions), thresholds compared exactly; decisions within 1e-9 of a threshold are only checked for consistency', 'small grids, lattice, and the screening space: all +/-/normal/absent patterns of one and two outliers over 2-4 videos in six base panels of 12-30 observers'),
 'P06': ('exact mean deviation from the video mean', 'as P05'),
 'P07': ('textbook Pearson/Spearman on repetition-averaged votes, threshold rule; near ties judged for consistency only', 'all assignments of six behaviours to 3-5 observers; lattice'),
 'P08': ('independent implementation of the standard iteration (mc/like.py) and the fixed-point equations evaluated on the reported values', 'small grids, lattice, screening space on which the iteration converges'),
 'P09': ('gradient and curvature of the Gaussian log-likelihood written independently (mc/like.py), plus the published damped iteration as reference', 'lattice of realistic panels up to 14x9, all models, analytic/numeric gradient options'),
 'P10': ('metamorphic: result of the original presentation, mapped', 'all permutations up to 4 videos/observers, structured beyond; every style and spelling'),
 'P11': ('metamorphic: transformed result of the original', 'lattice x 10 scale maps, each single-observer shift'),
 'P12': ('log-density, parameter counts, AIC/BIC and correlations recomputed from reported parameters and votes (Gaussian closed form, quadrature for logistics, exact overlap for uniforms)', 'small grids and lattice, every model with fit statistics'),
 'P13': ('closed-form minimiser of the additive model; the generating qualities and biases', 'complete panels of the grids/lattice; all quality and bias vectors over small alphabets with every connected missing pattern'),
 'P14': ('the abstract list of comparisons the dataset was built from', 'all datasets of 2-3 videos, 1-2 observers over all statuses of a pair; larger designs; all single malformations; all create/read/drop histories'),
 'P15': ('independent maximiser (minorisation and Newton in high precision) of the Bradley-Terry / Thurstone likelihood', 'all win tables of 2-3 videos over the pair alphabet, a slice of 4, designs to 12; all relabelings of 3'),
 'P16': ('exact set of pairs; for rates between 0 and 1 the exact probability of each outcome of each pair, obtained by enumerating all answers of the random generator', 'small tables x styles x contents x conversion types x per-video rate vectors; all random answers on a 4-point grid'),
 'P17': ('export rebuilt from votes and the model\'s own results', 'lattice x models x all filter subsets of up to 4 videos/contents; pairwise exports with content and asset filters at loading'),
 'P18': ('the dataset before writing (deep structural comparison with exact types of values), and the models\' results', 'every attribute/value kind in every position, every kind of dataset the package produces, Python and JSON'),
 'P19': ('reference combination on abstract experiments', 'all overlaps, orders, styles, name relations of two small datasets'),
 'P20': ('exact distributions from enumerating all generator answers; selections rebuilt by hand', 'all ordered selections; every configuration x all random answers on small tables; real seeds on larger ones'),
 'P21': ('the same operation alone in a fresh process; snapshots of inputs and earlier results', 'all operation sequences of depth 2 (all operations), 3-4 (core operations)'),
 'P22': ('attributes the file text defines, evaluated by the check', 'all histories of depth 3-6 of writing, rewriting with same size/time, compiling, loading, editing, planting modules'),
 'P23': ('reference cache (dictionary)', 'all call/restart histories to the bound x every crash/error point and half-written variant; thorough also pairs of faults'),
 'P24': ('list comprehension', 'real processes under a depth-first controller: all pick and finish orders of up to 3 (5) workers x process limits x argument kinds; every position of a failing argument'),
 'P25': ('each model run alone plus a formatter written in the check', 'all ordered pairs of models x dataset files x switches; all refused inputs; reader classes selected through the options (selected observers, selected videos, dropped votes)'),
 'P26': ('matplotlib artists against results and votes', 'every plot x type x sorting x model lists of 1-9 x datasets'),
 'P27': ('definitions in exact/high precision arithmetic', 'all list pairs of length 1-4 (5) over a 3-letter alphabet, larger structured ones'),
 'P28': ('exact rational overlap, quadrature, closed forms', 'all grid combinations of points, locations, scales; all small matrices; samples of one repeated value; density points far out in the tails'),
 'P29': ('plain model on independently built resampled datasets, interpolated percentiles', 'all draws on tiny panels (controlled), seeded draws on larger; 34 resamples on a tiny panel; selecting and vote-dropping readers; differential scores'),
 'P30': ('the plain run, post-processed', 'all models x all coefficient subsets x normalisation x lattice; all contradicting options'),
 'P31': ('package P.910 model and the independent reference of P08', 'all one-vote deviations of base tables; lattice'),
 'P32': ('models on the generator\'s votes; exact coverage counting; all permutations of the draw', 'small alphabets of truths/half-widths; generators x models x seeds x fractions'),
 'P33': ('naive search over the constructed class tree', 'all trees of up to 4 (5) classes x all labellings x all lookups after each definition; trees whose classes share a name'),
 'P34': ('the function itself: f(inverse(y)) = y, membership in the domain, exact ends, refusal outside', '19 functions x 4-9 domains x 7 flag forms x images; arrays of up to 3 values in every arrangement; 42 malformed arguments; functions with a pole at an open end; refused values at every place of arrays of 3, 4 and 7'),
}


def rule(p):
    t = ast.parse(open(os.path.join(V, 'checks', p.lower() + '.py')).read())
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'rule':
            return ast.literal_eval(n.value)
    return ''


def main():
    out = [HEAD]
    times = json.load(open(os.path.join(V, 'tools', 'times.json')))
    for l in open(os.path.join(V, 'properties.jsonl')):
        d = json.loads(l)
        p = d['id']
        o, b = D[p]
        q, t = times.get(p, ['?', '?'])
        out.append('### %s %s\n' % (p, d['title']))
        out.append('* **Enumerated:** %s.' % rule(p))
        out.append('* **Oracle:** %s.' % o)
        out.append('* **Bounds:** %s.' % b)
        out.append('* **Cost:** quick about %s s, thorough about %s s on 8 cores.' % (q, t))
        out.append('* **Why tests cannot:** %s\n' % d['why_tests_cant'])
    kf = json.load(open(os.path.join(V, 'known_findings.json')))
    out.append(TAIL.replace('@FIXED@', '\n'.join('* ' + x[len('fixed: '):] for x in kf['fixed'])))
    out.append('\n| planted bug | property | what it needs | caught by |\n|---|---|---|---|')
    sd = os.path.join(V, 'seeded')
    res = json.load(open(os.path.join(V, 'tools', 'caught.json')))
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], res.get(s, m['property'])))
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
