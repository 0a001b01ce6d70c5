"""Which contracts decide which property."""
import importlib

PROPS = {
    'C01': ('partition',), 'C02': ('partition',),
    'C03': ('explore',), 'C04': ('explore',), 'C05': ('explore',), 'C06': ('explore',), 'C07': ('explore',),
    'C09': ('dsm',), 'C13': ('polymodel',),
    'C08': ('small',), 'C20': ('small',), 'C21': ('small',), 'C22': ('small',), 'C23': ('small',), 'C26': ('small',),
    'C16': ('kernels',), 'C15': ('vspace',), 'C29': ('vspace',), 'C14': ('sampler',), 'C28': ('sampler', 'rounding'),
    'C24': ('subspace',), 'C25': ('factor',), 'C27': ('structure',),
    'C17': ('loss',), 'C18': ('penalty',), 'C19': ('optim',),
    'C30': ('entropy',), 'C31': ('convex',),
    'C10': ('polytope',), 'C11': ('polytope',), 'C12': ('polytope',),
}

NOTES = {
    'C19': 'unbounded: every objective, starting point, budget, tolerance, number of iterations and schedule (loop invariant on the iteration, one contract '
           'per subclass for its step); scipy line search and BFGS by contract; Adam and momentum state through the running-average invariant',
    'C18': 'unbounded in weights, subspaces, features, penalties, steps, and in the number and size of groups (loop contracts); minimality of every proximal '
           'operator and slope of every gradient proved over the reals; optimality of the sparse group composition with given groups by the harness',
    'C17': 'unbounded in points, labels, weights, number of subspaces and features for the kernels, the loss and its gradient; fixed structures and '
           'partitions enumerated over three features; calculus rules (derivative of log sigma, chain rule) written in the contract; real arithmetic',
    'C27': 'unbounded in data, weights, number of subspaces and features for copies, pruning, relevance and the learned structure; partial labels, '
           'parameter maps, merging and partition selection on enumerated small structures with symbolic weights, data and losses',
    'C25': 'unbounded: every history through the representation invariant, any number of groups; models, optimizers and the dataset by contract; '
           'the options of SimplifiedSwapLearner enumerated',
    'C24': 'unbounded in data and in the number of subspaces (loop contracts); constructors executed for one to three subspaces and every mode; '
           'subspace models and polytopes by contract',
    'C14': 'unbounded: every constraint set, starting point, direction and draw, every warm-up, thinning and sample count; linprog by contract; '
           'mixing and uniformity of the chain are not claimed',
    'C28': 'unbounded: every dimension (two or more for cuts), constraint set, point and half-space; real arithmetic; the direction of a chord is '
           'assumed not to be zero and a half-space to have a normal',
    'C01': 'unbounded: every dataset size, identifiers, batch; loop invariants on each move; numpy row swaps, sorting and '
           'slicing by assumed contracts',
    'C02': 'unbounded: labels and partial labels arbitrary; same data structure invariants plus the label map',
    'C03': 'unbounded: all label arrays, index lists and optional partial labels',
    'C04': 'unbounded: every history through the representation invariant of the manager; samplers, strategy and learner by contract',
    'C05': 'unbounded in iteration, criteria and callbacks by loop invariants; the callback list is bounded to four entries',
    'C06': 'unbounded number of runs, iterations and points; oracle, learner and callbacks by contract',
    'C09': 'unbounded: every dataset, cache and batch; polytope model, learner and dataset by contract; partial correctness of the search loop',
    'C13': 'unbounded in data and number of subspaces; part polytopes by contract (C10-C12); constructor modes enumerated',
    'C10': 'unbounded: every batch and every set of categories seen so far',
    'C11': 'unbounded: every width, batch and cache of pending negative points (nested quantified invariants)',
    'C12': 'unbounded: every number of points and cones; cones by a contract verified separately against the real class',
    'C31': 'unbounded: every dimension from two on, number of points, cones and batches (loop invariants over all cones); qhull and the geometry of facets by contract',
    'C08': 'unbounded: every dataset, classifier, background size and weight; sampling by the contract of C07',
    'C20': 'unbounded: all label and prediction arrays; confusion_matrix by contract',
    'C21': 'unbounded: every labeled set, rate, iteration and random outcome',
    'C22': 'unbounded: every labeled set, sizes and random outcomes; random choice by contract',
    'C23': 'unbounded over all integers and reals; options and duplicate policies enumerated; metric names opaque',
    'C26': 'unbounded: every typed line (as a sequence of pieces) and every number of repeated answers (loop invariants); str.split by contract',
    'C16': 'unbounded in data and parameters; number of subspaces of the factorized transform enumerated to three; sklearn kernels by formula',
    'C15': 'unbounded: every matrix of hypotheses and query points; the sampler and the decompositions by contract',
    'C29': 'unbounded in data and weights; optimiser and triangular solver by contract (convergence not claimed)',
    'C30': 'unbounded: every number of points, hypotheses, sample and labeled set; the kernel machine and the support vector machine by contract',
    'C07': 'unbounded: every sample and rank array; random choice by contract',
}

COMMON = [
    'Python int/float are mathematical integers/reals (no overflow, no rounding, no NaN/inf inside symbolic arrays)',
    'numpy, scipy and sklearn behave as their contracts in pyvc/npstub.py and pyvc/spstub.py state (assumed)',
    'CPython executes the verified source (loops and comprehensions mechanically rewritten, see pyvc/loader.py)',
]


def mods(prop):
    return [importlib.import_module('contracts.' + m) for m in PROPS.get(prop, ())]


def units(E, prop):
    out = []
    for m in mods(prop):
        out += m.units(E, prop)
    return out


def assumptions(prop):
    out = list(COMMON)
    for m in mods(prop):
        out += list(getattr(m, 'ASSUMPTIONS', {}).get(prop, []))
    return out


def functions(prop):
    out = []
    for m in mods(prop):
        out += list(getattr(m, 'FUNCTIONS', {}).get(prop, []))
    return out
