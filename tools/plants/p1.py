PRE = '''import sys
import numpy as np
from aideme.explore import LabeledSet, PartitionedDataset, ExplorationManager
from aideme.active_learning.active_learner import ActiveLearner
'''
SPECS = [
dict(id='c01-remove-inferred-swap', property='C01', file='aideme/explore/partitioned.py',
     old='''            self.__swap_rows(pos, self.__inferred_start - 1)
            pos = self.__inferred_start - 1
            self.__inferred_start -= 1
            self.__labeled_set''',
     new='''            self.__swap_rows(pos, self.__inferred_start - 1)
            self.__inferred_start -= 1
            self.__labeled_set''',
     needs='a labeled point that is not the last labeled one moved directly to unknown while inferred points exist or not',
     what_it_breaks='the wrong point is moved to the unknown partition',
     demo=PRE + '''
d = PartitionedDataset(np.arange(12.).reshape(6, 2), np.arange(6) * 10, copy=True)
d.move_to_labeled(LabeledSet([1, 0, 1], index=[50, 30, 10]))
d.move_to_unknown([50])
assert sorted(d.labeled.index.tolist()) == [10, 30], d.labeled.index
assert sorted(d.unknown.index.tolist()) == [0, 20, 40, 50], d.unknown.index
'''),
dict(id='c02-last-batch-merged', property='C02', file='aideme/explore/partitioned.py',
     old='''        self.__last_user_labeled_set = labeled_set
        self.__labeled_set = self.__labeled_set.concat(labeled_set)''',
     new='''        self.__labeled_set = self.__labeled_set.concat(labeled_set)
        self.__last_user_labeled_set = labeled_set if len(labeled_set) > 1 else self.__labeled_set.get_index(labeled_set.index[::-1])
        if len(labeled_set) == 0:
            self.__last_user_labeled_set = self.__labeled_set''',
     needs='an empty batch after a non-empty one',
     what_it_breaks='the last training set is not the last batch',
     demo=PRE + '''
d = PartitionedDataset(np.arange(12.).reshape(6, 2), copy=True)
d.move_to_labeled(LabeledSet([1, 0, 1], index=[5, 3, 1]))
d.move_to_labeled(LabeledSet([], index=[]))
X, y = d.last_training_set()
assert len(X) == 0 and len(y) == 0, (X, y)
'''),
dict(id='c03-getindex-partial', property='C03', file='aideme/explore/labeledset.py',
     old='''        partial = np.vstack([self.partial, labeled_set.partial])''',
     new='''        partial = np.vstack([self.partial, labeled_set.partial[np.argsort(labeled_set.index, kind='stable')]])''',
     needs='a concatenated batch whose identifiers are not increasing and whose partial labels differ',
     what_it_breaks='partial labels attached to the wrong identifiers',
     demo=PRE + '''
a = LabeledSet([1], [[1, 1]], [7])
b = LabeledSet([0, 0], [[0, 1], [1, 0]], [9, 2])
c = a.concat(b)
assert c.partial.tolist() == [[1, 1], [0, 1], [1, 0]], c.partial
'''),
dict(id='c04-iters-not-reset', property='C04', file='aideme/explore/manager.py',
     old='''        if self.is_exploration_phase:
            self.active_learner.fit_data(self.data)

        self.__iters += 1''',
     new='''        if self.is_exploration_phase and len(labeled_set) > 0:
            self.active_learner.fit_data(self.data)

        self.__iters += 1''',
     needs='an update with an empty batch during exploration',
     what_it_breaks='the model is not fitted by every update of the exploration phase',
     demo=PRE + '''
class L(ActiveLearner):
    n = 0
    def fit_data(self, data):
        self.n += 1
l = L()
d = PartitionedDataset(np.arange(12.).reshape(6, 2), copy=True)
m = ExplorationManager(d, l)
m.update(LabeledSet([1, 0], index=[2, 3]))
m.update(LabeledSet([], index=[]))
assert l.n == 2, l.n
'''),
dict(id='c05-callback-merge-order', property='C05', file='aideme/explore/manager.py',
     old='''                metrics.update(callback_metrics)''',
     new='''                metrics = {**callback_metrics, **metrics}''',
     needs='two callbacks reporting the same key',
     what_it_breaks='the earlier callback wins',
     demo=PRE + '''
d = PartitionedDataset(np.arange(12.).reshape(6, 2), copy=True)
m = ExplorationManager(d, ActiveLearner(), callback=[lambda d, a: {'x': 1}, lambda d, a: {'x': 2}])
class L(ActiveLearner):
    def fit_data(self, data): pass
m.active_learner = L()
m.update(LabeledSet([1], index=[2]))
assert m.get_callback_metrics() == {'x': 2}, m.get_callback_metrics()
'''),
dict(id='c06-metrics-leak', property='C06', file='aideme/explore/explore.py',
     old='''        set_random_state(seed)

        manager.clear()

        while not manager.converged():
            metric_logger.flush()  # avoid overlapping metrics between iterations
''',
     new='''        set_random_state(seed)

        manager.clear()
        metric_logger.flush()  # avoid overlapping metrics between runs

        while not manager.converged():
            if manager.is_initial_sampling_phase:
                metric_logger.flush()  # avoid overlapping metrics between iterations
''',
     needs='a noise injector or callback_skip: metrics present in one iteration and absent in the next',
     what_it_breaks='metrics of an earlier iteration are reported again in later ones',
     demo=PRE + '''
from aideme.explore import PoolBasedExploration
class L(ActiveLearner):
    def fit_data(self, data): pass
    def rank(self, X): return X[:, 0]
ex = PoolBasedExploration(callback=lambda d, a: {'cb': d.labeled_size}, callback_skip=3)
run = ex.run(np.arange(12.).reshape(6, 2), LabeledSet([1, 0, 1, 0, 1, 0]), L(), return_generator=False)[0]
assert [m.get('cb') for m in run] == [1, None, None, 4, None, 6], [m.get('cb') for m in run]
'''),
dict(id='c07-sample-off', property='C07', file='aideme/explore/partitioned.py',
     old='''        row_sample = np.random.choice(len(self), size, replace=False)
        return self[row_sample]''',
     new='''        row_sample = np.random.choice(len(self), size, replace=False)
        return IndexedDataset(self.data[row_sample], self.index[np.sort(row_sample)], copy=False, check_data=False)''',
     needs='a subsample of at least two points in unsorted order',
     what_it_breaks='sampled points carry the identifiers of other points',
     demo=PRE + '''
np.random.seed(0)
from aideme.explore.partitioned import IndexedDataset
d = IndexedDataset(np.arange(20.).reshape(10, 2), np.arange(10))
for _ in range(5):
    s = d.sample(5)
    assert (s.data[:, 0] == 2 * s.index).all(), (s.data, s.index)
'''),
]
