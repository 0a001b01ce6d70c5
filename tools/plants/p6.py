"""Planted changes, part six."""
D_ = 'aideme/active_learning/dsm/'
PRE = '''import pickle, warnings
import numpy as np
warnings.simplefilter('ignore')
from aideme.active_learning.dsm.polytope import Polytope
A = lambda *p: np.array(p, float)
'''
import sys as _s
SPECS = [
dict(id='c31-waiting-cones-skipped', property='C31', file=D_ + 'polytope.py',
     old='            for nr in self.negative_region:\n                nr.add_points_to_hull(X)',
     new='            built = self.positive_region.is_built\n            for nr in self.negative_region:\n                if nr.is_built or built:\n                    nr.add_points_to_hull(X)',
     needs='a negative point labeled before the positive points span the space, and positive points arriving in several updates',
     what_it_breaks='cones that wait for points do not get the positive points seen before the hull could be built',
     demo=PRE + '''
p = Polytope()
p.update(A([0, 4]), np.array([0.]))
p.update(A([-1, 0]), np.array([1.]))
p.update(A([1, 0]), np.array([1.]))
p.update(A([0, -1]), np.array([1.]))
q = Polytope()
q.update(A([-1, 0], [1, 0], [0, -1]), np.ones(3))
q.update(A([0, 4]), np.array([0.]))
Q = A([0, 5], [.1, 8], [0, -.1], [5, 5])
assert list(p.predict(Q)) == list(q.predict(Q)) == [0, 0, 1, .5], (p.predict(Q), q.predict(Q))
'''),
dict(id='c31-cone-tolerance-dropped', property='C31', file=D_ + 'convex/geometry.py',
     old='ConvexCone(self._cache.data, self._vertex, tol=self._tol)', new='ConvexCone(self._cache.data, self._vertex)',
     needs='a polytope with a tolerance other than the default and a point just beside a cone',
     what_it_breaks='negative cones ignore the tolerance of the polytope',
     demo=PRE + '''
p = Polytope(.5)
p.update(A([-1, 0], [1, 0], [0, -1], [0, 4]), np.array([1., 1., 1., 0.]))
Q = A([0, 3.9], [0, 4.2], [0, 1.])
assert list(p.predict(Q)) == [0, 0, .5], p.predict(Q)
'''),
dict(id='c31-cache-window', property='C31', file=D_ + 'convex/geometry.py',
     old='            self.data = np.vstack([self.data, X])', new='            self.data = np.vstack([self.data[-X.shape[1]:], X])  # a hull needs one point per dimension and the new ones',
     needs='more than d positive points on a line (plane), coming in several updates before one beside it',
     what_it_breaks='the oldest positive points are lost while the hull cannot be built',
     demo=PRE + '''
p = Polytope()
for x in ([0, 0], [2, 0], [4, 0], [6, 0], [3, 3]):
    p.update(A(x), np.ones(1))
Q = A([.5, .1], [5, .5], [3, 1], [3, -1])
assert list(p.predict(Q)) == [1, 1, 1, .5], p.predict(Q)
'''),
dict(id='c31-restored-tolerance', property='C31', file=D_ + 'convex/convex.py',
     old="self.__set_params(state['vertices'], state['tol'])", new="self.__set_params(state['vertices'], min(state['tol'], 1e-12))",
     needs='a pickled or copied polytope with a tolerance larger than the default and a point just beside the hull',
     what_it_breaks='a restored hull answers with another tolerance than the original',
     demo=PRE + '''
p = Polytope(.5)
p.update(A([-1, 0], [1, 0], [0, -1]), np.ones(3))
q = pickle.loads(pickle.dumps(p))
Q = A([0, .3], [0, -.5], [0, .7])
assert list(p.predict(Q)) == list(q.predict(Q)) == [1, 1, .5], (p.predict(Q), q.predict(Q))
'''),
dict(id='c31-facets-4d', property='C31', file=D_ + 'convex/convex.py',
     old='[[vertex_id in s for s in self.hull.simplices]]', new='[(self.hull.simplices[:, :3] == vertex_id).any(axis=1)]',
     needs='at least four dimensions',
     what_it_breaks='facets through the vertex are missed, so cones are too large',
     demo=PRE + '''
r = np.random.RandomState(0)
import scipy.spatial
v = A([0, 0, 0, 2])
for _ in range(20):
    P = r.uniform(-1, 1, size=(9, 4))
    p = Polytope()
    p.update(np.vstack([P, v]), np.array([1.] * 9 + [0.]))
    h = scipy.spatial.ConvexHull(np.vstack([P, v]))
    e = h.equations[[9 in s for s in h.simplices]]
    Q = v + r.uniform(0, 3, size=(3000, 1)) * (v - r.uniform(-1.5, 1.5, size=(3000, 4)))
    want = (Q.dot(e[:, :-1].T) + e[:, -1]).min(axis=1)
    got = p.predict(Q)
    ok = np.abs(want) > 1e-9
    assert ((got == 0) == (want >= 0))[ok].all(), ((got == 0) != (want >= 0))[ok].sum()
'''),
dict(id='c31-inner-points-skipped', property='C31', file=D_ + 'convex/convex.py',
     old='        self.convex_hull.add_points(points)  # TODO: can we avoid modifying the entire convex hull every time?\n',
     new='        points = np.atleast_2d(points)\n        points = points[~self.convex_hull.is_inside(points)]  # points inside change no facet\n        if len(points) > 0:\n            self.convex_hull.add_points(points)\n',
     needs='a cone already built and then a positive point exactly at its vertex',
     what_it_breaks='the same point labeled negative and then positive does not make the polytope invalid',
     demo=PRE + '''
p = Polytope()
p.update(A([-1, 0], [1, 0], [0, -1], [0, 4]), np.array([1., 1., 1., 0.]))
assert p.is_valid
assert not p.update(A([0, 4]), np.ones(1)) and not p.is_valid
assert list(p.predict(A([0, 0], [0, 6]))) == [.5, .5]
'''),
]
