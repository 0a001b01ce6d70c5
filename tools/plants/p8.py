"""Planted changes, part eight."""
D_ = 'aideme/active_learning/dsm/polytope.py'
PRE = '''import numpy as np
'''
SPECS = [
dict(id='c11-old-negatives', property='C11', file=D_,
     old='        for cache in self._neg_point_cache:\n            cache.difference_update(idx)\n',
     new='        for cache in reversed(self._neg_point_cache[-50:]):\n            cache.difference_update(idx)\n',
     needs='more than fifty undecided negative points, then a positive one that decides the oldest',
     what_it_breaks='old negative points are no longer reduced by new positive items',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import MultiSetPolytope
p = MultiSetPolytope()
v = lambda *s: [float(i in s) for i in range(5)]
p.update(np.array([v(0, 1)]), np.array([0.]))
p.update(np.array([v(2, 3), v(3, 4)] * 40), np.zeros(80))
p.update(np.array([v(0)]), np.array([1.]))
assert p.predict(np.array([v(1)]))[0] == 0, p.predict(np.array([v(1)]))
'''),
dict(id='c12-old-cones', property='C12', file=D_,
     old='            self.positive_region.update(X)\n\n            for nr in self.negative_region:\n',
     new='            self.positive_region.update(X)\n\n            for nr in self.negative_region[-100:]:\n',
     needs='more than a hundred negative points, then a positive one beyond the oldest',
     what_it_breaks='the polytope stays valid although a negative point lies in the positive interval',
     demo=PRE + '''
from aideme.active_learning.dsm.polytope import Polytope
p = Polytope()
p.update(np.array([[0.], [1.]]), np.array([1., 1.]))
p.update(np.array([[5.]]), np.array([0.]))
p.update(-np.arange(10., 140.).reshape(-1, 1), np.zeros(130))
assert not p.update(np.array([[6.]]), np.array([1.])), p.is_valid
'''),
dict(id='c21-loose-partials', property='C21', file='aideme/utils/noise.py',
     old='            noisy_partial_labels[np.logical_and(labeled_set.labels == 0, noisy_labels == 1)] = 1',
     new='            noisy_partial_labels[noisy_labels == 1] = 1',
     needs='partial labels whose conjunction is not the final label (e.g. a disjunction)',
     what_it_breaks='noise overwrites the partial labels of points whose label was not flipped',
     demo=PRE + '''
from aideme.explore import LabeledSet
from aideme.utils.noise import random_noise_injector
ls = LabeledSet(np.array([1, 0]), np.array([[1, 0], [0, 0]]), np.array([4, 5]))
got = random_noise_injector(0.)(1, ls)
assert got.labels.tolist() == [1, 0] and got.partial.tolist() == [[1, 0], [0, 0]], got.partial
'''),
dict(id='c04-inferred-flushed', property='C04', file='aideme/explore/manager.py',
     old='        self.data.move_to_labeled(labeled_set)\n\n        if self.is',
     new='        self.data.move_to_labeled(labeled_set)\n        self.data.remove_inferred()\n\n        if self.is',
     needs='points inferred before an update, with a model that does not infer again',
     what_it_breaks='an update returns inferred points to unknown',
     demo=PRE + '''
from aideme.explore import LabeledSet, PartitionedDataset, ExplorationManager
class Learner:
    def fit_data(self, d): pass
    def clear(self): pass
data = PartitionedDataset(np.arange(8.).reshape(-1, 1))
m = ExplorationManager(data, Learner())
m.update(LabeledSet([1], None, [0]))
data.move_to_inferred([2, 3])
m.update(LabeledSet([0], None, [1]))
assert data.inferred_size == 2 and sorted(data.inferred.index) == [2, 3], data.inferred_size
'''),
]
