"""Contracts of the convex polytope in two or more dimensions (C31): dsm/convex/convex.py, dsm/convex/geometry.py, dsm/polytope.py."""
from .common import *
from pyvc.arrays import own_terms

from .polytope import CVX, GEO, MOD, obj_of, raised

FUNCTIONS = {'C31': ['ConvexHull.*', 'ConvexCone.*', 'PositiveRegion.*', 'NegativeCone.*', 'Cache.*', 'Polytope.*']}
ASSUMPTIONS = {'C31': [
    "qhull: scipy.spatial.ConvexHull raises QhullError exactly for points on a hyperplane; its equations are the facets of the convex hull of all points given so "
    "far, a facet passes through a point exactly when the point is in its simplex, the vertices are the points of the simplices",
    'geometry: the facets through a point v of conv(P + v) turned around describe the points x with v in conv(P + x), and none of them is in conv(P); a hull '
    'is the hull of its vertices',
    'points are finite reals (no NaN or infinities), coordinates are compared exactly']}
Z = z3.IntVal(0)


class Qhull:
    """contract of scipy.spatial.ConvexHull"""
    __pvobject__ = True

    def __init__(self, points, incremental=False):
        c = ctx()
        a = toarr(points)
        prove('qhull gets a matrix', z3.BoolVal(a.ndim == 2))
        prove('points may be added to a hull', t_(incremental))
        a = a.copy()
        if c.branch(t_(symbool('flat'))):
            raise c.cell['QhullError']()
        self._pv_d = a.shape[1]
        self._pv_set(a.shape[0], a.reader())
        c.cell['hulls'].append(self)

    def _pv_set(self, n, rd):
        c = ctx()
        self._pv_n, self._pv_rd = n, rd
        self._pv_E, self._pv_NV = size('facets', 1), size('nvert', 1)
        self._pv_EQ, self._pv_SX, self._pv_VX = c.func('EQ', Int, Int, Real), c.func('SX', Int, Int, Int), c.func('VX', Int, Int)
        E_, d, nv = self._pv_E.t, dterm(self._pv_d), self._pv_NV.t
        SX, VX = self._pv_SX, self._pv_VX
        c.assume(forall2(E_, d, lambda e, j: And(SX(e, j) >= 0, SX(e, j) < dterm(n)), lambda e, j: [SX(e, j)]))
        c.assume(forall(0, nv, lambda i: And(VX(i) >= 0, VX(i) < dterm(n)), lambda i: [VX(i)]))
        c.assume(Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < nv, j >= 0, j < nv, i != j), VX(i) != VX(j)), lambda i, j: [mp(VX(i), VX(j))]))
        TH, at = c.func('TH', Int, Int, Bool), c.func('at', Int, Int, Int)      # the facet passes through the point
        self._pv_TH = TH
        c.assume(forall2(E_, d, lambda e, j: TH(e, SX(e, j)), lambda e, j: [SX(e, j)]))
        c.assume(Forall([Int, Int], lambda e, k: Implies(And(e >= 0, e < E_, TH(e, k)), And(at(e, k) >= 0, at(e, k) < d, SX(e, at(e, k)) == k)), lambda e, k: [TH(e, k)]))
        pos = c.func('pos', Int, Int, Int)
        c.assume(forall2(E_, d, lambda e, j: And(pos(e, j) >= 0, pos(e, j) < nv, VX(pos(e, j)) == SX(e, j)), lambda e, j: [SX(e, j)]))
        fe, fj = c.func('fe', Int, Int), c.func('fj', Int, Int)
        c.assume(forall(0, nv, lambda i: And(fe(i) >= 0, fe(i) < E_, fj(i) >= 0, fj(i) < d, SX(fe(i), fj(i)) == VX(i)), lambda i: [VX(i)]))

    @property
    def points(self):
        return Arr.make((self._pv_n, self._pv_d), 'real', self._pv_rd)

    @property
    def equations(self):
        return Arr.make((self._pv_E, dim_wrap(dterm(self._pv_d) + 1)), 'real', lambda e, j: self._pv_EQ(e, j))

    @property
    def simplices(self):
        SX, TH = self._pv_SX, self._pv_TH
        a = Arr.make((self._pv_E, self._pv_d), 'int', lambda e, j: SX(e, j))
        a.buf.row_member, a.buf.row_width = (lambda e, k: TH(e, k)), dterm(self._pv_d)
        return a

    @property
    def vertices(self):
        return Arr.make((self._pv_NV,), 'int', lambda i: self._pv_VX(i))

    def add_points(self, points, restart=False):
        a = toarr(points)
        prove('qhull gets a matrix', z3.BoolVal(a.ndim == 2))
        if ctx().branch(dterm(a.shape[1]) != dterm(self._pv_d)):
            raise ValueError('bad dimension')
        n0, r0, r1 = dterm(self._pv_n), self._pv_rd, a.copy().reader()
        self._pv_set(dim_wrap(n0 + dterm(a.shape[0])), lambda i, j: If(i < n0, r0(i, j), r1(i - n0, j)))


def rows(name, got_n, got, want_n, want, d):
    """the matrix `got` has exactly the rows `want`"""
    prove(name + ': number', dterm(got_n) == dterm(want_n))
    i, j = ctx().const('row', Int), ctx().const('col', Int)
    assume(i >= 0, i < dterm(want_n), j >= 0, j < dterm(d))
    prove(name, got(i, j) == want(i, j))


def joined(n0, r0, n1, r1):
    n0, n1 = dterm(n0), dterm(n1)
    return dim_wrap(n0 + n1), (lambda i, j: If(i < n0, r0(i, j), r1(i - n0, j)))


def qhull(C):
    c = ctx()
    c.cell = {'hulls': [], 'QhullError': C.QhullError}
    swap(C.scipy.spatial, 'ConvexHull', Qhull)
    return c.cell['hulls']


def hint(t):
    """the term t takes part in the proof"""
    assume(ctx().const('hint', t.sort()) == t)


def through(q, k, e):
    """facet e passes through point k"""
    return q._pv_TH(e, k)


def units_A(E):
    us = []

    def batch(base, d, lo=1):
        """one point as a vector or a matrix of points"""
        if ctx().choose(2):
            v = vec(base + 'v', d)
            r = v.reader()
            return v, dim_wrap(z3.IntVal(1)), lambda i, j: r(j)
        n = size('n' + base, lo)
        a = mat(base, n, d)
        return a, n, a.reader()

    def start(cone=False):
        C = E.load(CVX)
        hs = qhull(C)
        d = size('d', 2)
        n = size('n', 1)
        P = mat('P', n, d)
        tol = symreal('tol')
        return C, hs, d, n, P, P.reader(), tol

    def built(cone=False):
        C, hs, d, n, P, rp, tol = start()
        assume(tol.t > 0)
        v = vec('v', d)
        o, err = raised(lambda: C.ConvexCone(P, v, tol) if cone else C.ConvexHull(P, tol), C.QhullError, C.ConvexError)
        if err is not None:
            return None
        return C, hs[0], o, d, n, P, rp, tol, v

    def d_init():
        C, hs, d, n, P, rp, tol = start()
        try:
            o = C.ConvexHull(P, tol)
        except ValueError:
            prove('only a tolerance that is not positive is refused', tol.t <= 0)
            return
        except C.QhullError:
            prove('tolerance checked', tol.t > 0)
            cover('flat')
            return
        prove('a tolerance that is not positive is refused', tol.t > 0)
        prove('one hull', z3.BoolVal(len(hs) == 1))
        rows('the hull is that of the points', hs[0]._pv_n, hs[0]._pv_rd, n, rp, d)
        X = mat('Q', size('q'), d)
        same_answers(o, hs[0], X, tol)
        cover('built')
    us.append(Unit(E, 'ConvexHull.__init__', d_init))

    def same_answers(o, q, X, tol):
        """is_inside: exactly the points of no facet's outer side, up to the tolerance"""
        r = o.is_inside(X)
        V = X.dot(q.equations[:, :-1].T) + q.equations[:, -1]
        rr, rv = r.reader(), V.reader()
        m, E_ = dterm(X.shape[0]), q._pv_E.t
        prove('one answer per point', And(z3.BoolVal(r.ndim == 1), dterm(r.shape[0]) == m))
        prove('inside exactly on the inner side of every facet', forall(0, m, lambda i: t_(rr(i)) == forall(0, E_, lambda e: rv(i, e) <= tol.t, lambda e: [rv(i, e)]), lambda i: [rr(i)]))

    def d_inside():
        b = built()
        if b is None:
            return
        C, q, o, d, n, P, rp, tol, v = b
        X = mat('Q', size('q'), d)
        same_answers(o, q, X, tol)
        prove('asking changes nothing', z3.BoolVal(len(ctx().cell['hulls']) == 1))
    us.append(Unit(E, 'ConvexHull.is_inside', d_inside))

    def d_vertices():
        b = built()
        if b is None:
            return
        C, q, o, d, n, P, rp, tol, v = b
        a = o.vertices
        ra = a.reader()
        rows('the vertices are the points qhull names', a.shape[0], ra, q._pv_NV, lambda i, j: rp(q._pv_VX(i), j), d)
        k = symint('k')
        a = o.equations_defining_vertex(k)
        ra = a.reader()
        cnt = dterm(a.shape[0])
        e = ctx().const('e', Int)
        prove('width of the equations', dterm(a.shape[1]) == d.t + 1)
        j = ctx().const('j', Int)
        inr = And(j >= 0, j <= d.t)
        r0 = ctx().const('r', Int)
        assume(r0 >= 0, r0 < cnt)
        hint(ra(r0, Z))
        prove('only equations through the vertex', Exists([Int], lambda f: And(
            f >= 0, f < q._pv_E.t, through(q, k.t, f), forall(0, d.t + 1, lambda h: ra(r0, h) == q._pv_EQ(f, h), lambda h: [ra(r0, h)])), lambda f: [through(q, k.t, f)]))
        assume(e >= 0, e < q._pv_E.t, through(q, k.t, e))
        prove('every equation through the vertex', Exists([Int], lambda f: And(
            f >= 0, f < cnt, forall(0, d.t + 1, lambda h: ra(f, h) == q._pv_EQ(e, h))), lambda f: own_terms(ra(f, Z), f)))
    us.append(Unit(E, 'ConvexHull.vertices', d_vertices))

    def d_add():
        b = built()
        if b is None:
            return
        C, q, o, d, n, P, rp, tol, v = b
        w = symint('w')
        assume(w.t >= 1)
        M, mn, mr = batch('N', w)
        _, err = raised(lambda: o.add_points(M), ValueError)
        if err is not None:
            prove('only points of another dimension are refused', w.t != d.t)
            return
        prove('points of another dimension are refused', w.t == d.t)
        wn, wr = joined(n, rp, mn, mr)
        rows('the hull is that of all points', q._pv_n, q._pv_rd, wn, wr, d)
        same_answers(o, q, mat('Q', size('q'), d), tol)
    us.append(Unit(E, 'ConvexHull.add_points', d_add))

    def d_pickle():
        b = built()
        if b is None:
            return
        C, q, o, d, n, P, rp, tol, v = b
        state = o.__getstate__()
        o2 = obj_of(C.ConvexHull)
        hs = ctx().cell['hulls']
        _, err = raised(lambda: o2.__setstate__(state), C.QhullError)
        if err is not None:         # not for the vertices of a hull
            return
        q2 = hs[1]
        prove('the tolerance is restored', t_(o2.tol) == tol.t)
        prove('the restored hull is a new one', z3.BoolVal(len(hs) == 2))
        NV, VX = q._pv_NV.t, q._pv_VX
        prove('as many points as vertices', dterm(q2._pv_n) == NV)
        i, j = ctx().const('i', Int), ctx().const('j', Int)
        assume(i >= 0, i < NV, j >= 0, j < d.t)
        pt = q2._pv_rd
        hint(pt(i, Z))
        hint(VX(i))
        prove('restored points are vertices', Exists([Int], lambda k: And(k >= 0, k < NV, forall(0, d.t, lambda h: pt(i, h) == rp(VX(k), h))), lambda k: [VX(k)]))
        prove('every vertex is restored', Exists([Int], lambda k: And(k >= 0, k < NV, forall(0, d.t, lambda h: pt(k, h) == rp(VX(i), h))), lambda k: own_terms(pt(k, Z), k)))
        e, h = ctx().const('e', Int), ctx().const('h', Int)
        assume(e >= 0, e < q._pv_E.t, through(q, Z, e))
        prove('the first point stays first when it is a vertex', pt(Z, j) == rp(Z, j))
        cover('restored')
    us.append(Unit(E, 'ConvexHull.__getstate__', d_pickle))

    # ---- cones
    def cone_spec(o, q, v, tol):
        """the cone answers as the facets through point 0, turned around"""
        X = mat('Q', size('q'), q._pv_d)
        m = dterm(X.shape[0])
        A = q.equations[at_vertex(q)]
        V = X.dot(A[:, :-1].T) + A[:, -1]
        rv = V.reader()
        r = o.is_inside(X)
        rr = r.reader()
        prove('one answer per point', And(z3.BoolVal(r.ndim == 1), dterm(r.shape[0]) == m))
        prove('inside exactly on the outer side of every facet through the vertex', forall(0, m, lambda i: t_(rr(i)) == forall(
            0, dterm(A.shape[0]), lambda e: rv(i, e) >= -tol.t, lambda e: [rv(i, e)]), lambda i: [rr(i)]))

    def at_vertex(q):
        """mask of the facets through point 0"""
        return Arr.make((q._pv_E,), 'bool', lambda e: through(q, Z, e))

    def conflict(q, v):
        """the vertex is not a vertex of the hull, or one of the other points too"""
        cnt = dterm(q.equations[at_vertex(q)].shape[0])
        return cnt == 0, t_((q.points[1:] == v).all(axis=1).any())

    def d_cone():
        C, hs, d, n, P, rp, tol = start()
        v = vec('v', d)
        rv = v.reader()
        try:
            o = C.ConvexCone(P, v, tol)
        except ValueError:
            prove('only a tolerance that is not positive is refused', tol.t <= 0)
            return
        except C.QhullError:
            cover('flat')
            return
        except C.ConvexError:
            prove('one hull', z3.BoolVal(len(hs) == 1))
            prove('conflict only when the vertex is inside', Or(*conflict(hs[0], v)))
            cover('conflict')
            return
        prove('a tolerance that is not positive is refused', tol.t > 0)
        q = hs[0]
        rows('the hull is that of the vertex and the points', q._pv_n, q._pv_rd, dim_wrap(n.t + 1), lambda i, j: If(i == 0, rv(j), rp(i - 1, j)), d)
        a, b = conflict(q, v)
        prove('conflict whenever the vertex is on no facet', Not(a))
        prove('conflict whenever the vertex is one of the points', Not(b))
        cone_spec(o, q, v, tol)
        cover('built')
    us.append(Unit(E, 'ConvexCone.__init__', d_cone))

    def d_cone_add():
        b = built(True)
        if b is None:
            return
        C, q, o, d, n, P, rp, tol, v = b
        rv = v.reader()
        M, mn, mr = batch('N', d)
        _, err = raised(lambda: o.add_points_to_hull(M), C.ConvexError)
        wn, wr = joined(n, rp, mn, mr)
        rows('the hull is that of the vertex and all points', q._pv_n, q._pv_rd, dim_wrap(dterm(wn) + 1), lambda i, j: If(i == 0, rv(j), wr(i - 1, j)), d)
        a, b = conflict(q, v)
        if err is not None:
            prove('conflict only when the vertex is inside', Or(a, b))
            cover('conflict')
            return
        prove('conflict whenever the vertex is on no facet', Not(a))
        prove('conflict whenever the vertex is one of the points', Not(b))
        cone_spec(o, q, v, tol)
        cover('grown')
    us.append(Unit(E, 'ConvexCone.add_points_to_hull', d_cone_add))
    return us



# ------------------------------------------------------------------------------------------------ regions
class Hull:
    """contract of ConvexHull (level A): a hull of the points given so far"""
    __pvobject__ = True

    def __init__(self, points, tol=1e-12):
        c = ctx()
        a = toarr(points).copy()
        prove('a hull gets a matrix', z3.BoolVal(a.ndim == 2))
        if c.branch(t_(symbool('flat'))):
            raise c.cell['QhullError']()
        self._pv_n, self._pv_d, self._pv_rd, self._pv_tol = a.shape[0], a.shape[1], a.reader(), tol
        self._pv_calls = []
        c.cell['made'].append(self)

    def add_points(self, points):
        a = toarr(points)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        prove('points of the dimension of the hull', dterm(a.shape[1]) == dterm(self._pv_d))
        self._pv_n, self._pv_rd = joined(self._pv_n, self._pv_rd, a.shape[0], a.copy().reader())

    def is_inside(self, points):
        r = Arr.fresh('inside', (toarr(points).shape[0],), 'bool')
        self._pv_calls.append((points, r))
        return r

    @property
    def vertices(self):
        r = mat('vertices', size('nv', 1), self._pv_d)
        self._pv_calls.append(('vertices', r))
        return r


class Cone(Hull):
    """contract of ConvexCone (level A)"""

    def __init__(self, points, vertex, tol=1e-12):
        self._pv_vertex = toarr(vertex).copy()
        Hull.__init__(self, points, tol)
        ctx().cell['made'].pop()
        self._conflict()
        ctx().cell['made'].append(self)

    def _conflict(self):
        c = ctx()
        if c.branch(t_(symbool('conflict'))):
            raise c.cell['ConvexError']()

    def add_points_to_hull(self, points):
        Hull.add_points(self, points)
        self._conflict()
    add_points = None


def one_dim(*a, **k):
    prove('one-dimensional shapes only for data of dimension one', False)


def units_B(E):
    us = []

    def start():
        G, C = E.load(GEO), E.load(CVX)
        ctx().cell = {'made': [], 'QhullError': C.QhullError, 'ConvexError': C.ConvexError}
        for nm, st in (('ConvexHull', Hull), ('ConvexCone', Cone), ('OneDimensionalConvexHull', one_dim), ('OneDimensionalConvexCone', one_dim)):
            swap(G, nm, st)
        d, tol = size('d', 2), symreal('tol')
        assume(tol.t > 0)
        return G, C, d, tol, ctx().cell['made']

    def points(base, d, single=True):
        if single and ctx().choose(2):
            v = vec(base + 'v', d)
            r = v.reader()
            return v, dim_wrap(z3.IntVal(1)), lambda i, j: r(j)
        n = size('n' + base, 1)
        a = mat(base, n, d)
        return a, n, a.reader()

    def cached(o, name, n, rd, d):
        """the points wait in the cache"""
        data = o._cache.data
        if n is None:
            prove(name + ': nothing waits', z3.BoolVal(data is None))
            return
        prove(name + ': points wait', z3.BoolVal(isinstance(data, Arr) and data.ndim == 2))
        rows(name + ': waiting points', data.shape[0], data.reader(), n, rd, d)
        prove(name + ': width', dterm(data.shape[1]) == dterm(d))

    def region(G, d, tol, state, made):
        """a positive region in one of its states: 0 empty, 1 points wait, 2 built"""
        o = G.PositiveRegion(tol)
        if state == 0:
            return o, None, None
        n = size('k', 1)
        P = mat('P', n, d)
        if not hasattr(o, '_cache') or not hasattr(o._cache, 'data') or not hasattr(o, '_hull'):
            ctx().unsupported('the representation of PositiveRegion')
        if state == 1:
            o._cache.data = P.copy()
        else:
            h = obj_of(Hull)
            h._pv_n, h._pv_d, h._pv_rd, h._pv_tol, h._pv_calls = n, d, P.reader(), tol, []
            o._hull = h
        return o, n, P.reader()

    def r_init():
        G, C, d, _, made = start()
        tol = symreal('t')
        o, err = raised(lambda: G.PositiveRegion(tol), ValueError)
        prove('exactly a tolerance that is not positive is refused', z3.BoolVal(err is not None) == (tol.t <= 0))
        if err is None:
            empty(o, d, 'new')
    us.append(Unit(E, 'PositiveRegion.__init__', r_init))

    def empty(o, d, what):
        X = mat('Q', size('q'), d)
        r = o.is_inside(X)
        rr = r.reader()
        prove(what + ': not built', Not(t_(o.is_built)))
        prove(what + ': nothing is inside', And(dterm(r.shape[0]) == dterm(X.shape[0]), forall(0, dterm(X.shape[0]), lambda i: Not(t_(rr(i))), lambda i: [rr(i)])))

    def r_clear():
        G, C, d, tol, made = start()
        o, n, rd = region(G, d, tol, ctx().choose(3), made)
        o.clear()
        empty(o, d, 'cleared')
        prove('no vertices', z3.BoolVal(o.vertices is None))
        M, mn, mr = points('N', d, False)
        o.update(M)
        after(o, made, mn, mr, d, tol, 'after a reset')
    us.append(Unit(E, 'PositiveRegion.clear', r_clear))

    def after(o, made, n, rd, d, tol, what):
        """all points are in the hull, or wait because no hull can be built"""
        if made:
            h = made[-1]
            prove(what + ': built', t_(o.is_built))
            prove(what + ': one hull', z3.BoolVal(len(made) == 1))
            rows(what + ': the hull is that of all points', h._pv_n, h._pv_rd, n, rd, d)
            prove(what + ': tolerance of the hull', t_(h._pv_tol) == tol.t)
            cached(o, what, None, None, d)
            return
        prove(what + ': not built', Not(t_(o.is_built)))
        cached(o, what, n, rd, d)

    def r_update(state):
        def drv():
            G, C, d, tol, made = start()
            o, n, rd = region(G, d, tol, state, made)
            M, mn, mr = points('N', d, state == 2)
            o.update(M)
            wn, wr = (mn, mr) if n is None else joined(n, rd, mn, mr)
            if state == 2:
                h = o._hull
                prove('still built', t_(o.is_built))
                prove('no new hull', z3.BoolVal(not made and isinstance(h, Hull)))
                rows('the hull is that of all points', h._pv_n, h._pv_rd, wn, wr, d)
                return
            after(o, made, wn, wr, d, tol, 'updated')
            if made:
                cover('built')
            else:
                cover('waiting')
        return drv
    for k, nm in enumerate(('first', 'waiting', 'built')):
        us.append(Unit(E, 'PositiveRegion.update[%s]' % nm, r_update(k)))

    def r_enough():
        """with enough points not on a hyperplane the hull is built at once"""
        G, C, d, tol, made = start()
        o, n, rd = region(G, d, tol, ctx().choose(2), made)
        M, mn, mr = points('N', d, False)
        wn = dterm(mn) + (0 if n is None else dterm(n))
        tries = []

        class Counting(Hull):
            def __init__(self, *a, **k):
                tries.append(1)
                Hull.__init__(self, *a, **k)
        swap(G, 'ConvexHull', Counting)
        o.update(M)
        if not tries:
            prove('the hull waits only for as many points as the dimension', wn <= d.t)
            cover('too few')
        else:
            cover('enough')
    us.append(Unit(E, 'PositiveRegion.update[enough points]', r_enough))

    def r_answers():
        G, C, d, tol, made = start()
        state = ctx().choose(3)
        o, n, rd = region(G, d, tol, state, made)
        X = mat('Q', size('q'), d)
        if state < 2:
            empty(o, d, 'not built')
            v = o.vertices
            if state == 0:
                prove('no points', z3.BoolVal(v is None))
            else:
                rows('the vertices are the waiting points', v.shape[0], v.reader(), n, rd, d)
            return
        h = o._hull
        r = o.is_inside(X)
        prove('the hull is asked once', z3.BoolVal(len(h._pv_calls) == 1))
        same_queries(h._pv_calls[0][0], X, d)
        prove('the hull answers', same_array(r, h._pv_calls[0][1]))
        v = o.vertices
        prove('the vertices are those of the hull', z3.BoolVal(h._pv_calls[-1][0] == 'vertices'))
        w = h._pv_calls[-1][1]
        rows('vertices', v.shape[0], v.reader(), w.shape[0], w.reader(), d)
    us.append(Unit(E, 'PositiveRegion.is_inside', r_answers))

    def same_queries(got, X, d):
        a = toarr(got)
        rows('the queries', a.shape[0], a.reader(), X.shape[0], X.reader(), d)

    # ---- cones
    def cone(G, d, tol, state):
        v = vec('v', d)
        o = G.NegativeCone(v, tol)
        if not all(hasattr(o, a) for a in ('_cache', '_cone', '_vertex')) or not hasattr(o._cache, 'data'):
            ctx().unsupported('the representation of NegativeCone')
        if state == 0:
            return o, v, None, None
        n = size('k', 1)
        P = mat('P', n, d)
        if state == 1:
            o._cache.data = P.copy()
        else:
            h = obj_of(Cone)
            h._pv_n, h._pv_d, h._pv_rd, h._pv_tol, h._pv_calls, h._pv_vertex = n, d, P.reader(), tol, [], v
            o._cone = h
        return o, v, n, P.reader()

    def n_init():
        G, C, d, _, made = start()
        tol, v = symreal('t'), vec('v', d)
        o, err = raised(lambda: G.NegativeCone(v, tol), ValueError)
        prove('exactly a tolerance that is not positive is refused', z3.BoolVal(err is not None) == (tol.t <= 0))
        if err is None:
            empty(o, d, 'new')
    us.append(Unit(E, 'NegativeCone.__init__[vector]', n_init))

    def n_add(state):
        def drv():
            G, C, d, tol, made = start()
            o, v, n, rd = cone(G, d, tol, state)
            rv = v.reader()
            w = d
            if ctx().choose(2):
                w = size('w', 1)
            M, mn, mr = points('N', w)
            tries = []

            class Counting(Cone):
                def __init__(self, *a, **k):
                    tries.append(1)
                    Cone.__init__(self, *a, **k)
            swap(G, 'ConvexCone', Counting)
            try:
                o.add_points_to_hull(M)
            except ValueError:
                prove('only points of another dimension are refused', w.t != d.t)
                prove('nothing was built', z3.BoolVal(not made and not tries))
                return
            except C.ConvexError:
                prove('a conflict comes from the cone', z3.BoolVal(bool(tries) or state == 2))
                cover('conflict')
                return
            prove('points of another dimension are refused', w.t == d.t)
            wn, wr = (mn, mr) if n is None else joined(n, rd, mn, mr)
            if state == 2:
                h = o._cone
                prove('still built', t_(o.is_built))
                prove('no new cone', z3.BoolVal(not tries and isinstance(h, Cone)))
                rows('the cone is that of all points', h._pv_n, h._pv_rd, wn, wr, d)
                return
            after(o, made, wn, wr, d, tol, 'updated')
            if not tries:
                prove('the cone waits only for as many points as the dimension', dterm(wn) < d.t)
                cover('too few')
            if made:
                a = made[-1]._pv_vertex
                ra = a.reader()
                prove('vertex of the cone', And(z3.BoolVal(a.ndim == 1), dterm(a.shape[0]) == d.t, forall(0, d.t, lambda j: ra(j) == rv(j), lambda j: [ra(j)])))
                cover('built')
        return drv
    for k, nm in enumerate(('first', 'waiting', 'built')):
        us.append(Unit(E, 'NegativeCone.add_points_to_hull[plane, %s]' % nm, n_add(k)))

    def n_answers():
        G, C, d, tol, made = start()
        state = ctx().choose(3)
        o, v, n, rd = cone(G, d, tol, state)
        X = mat('Q', size('q'), d)
        if state < 2:
            empty(o, d, 'not built')
            return
        h = o._cone
        r = o.is_inside(X)
        prove('the cone is asked once', z3.BoolVal(len(h._pv_calls) == 1))
        same_queries(h._pv_calls[0][0], X, d)
        prove('the cone answers', same_array(r, h._pv_calls[0][1]))
        prove('built', t_(o.is_built))
        o.clear()
        empty(o, d, 'cleared')
        cached(o, 'cleared', None, None, d)
    us.append(Unit(E, 'NegativeCone.is_inside', n_answers))
    return us



# ------------------------------------------------------------------------------------------------ the polytope
class Region:
    """contract of PositiveRegion (level B): the points given so far, named by an abstract hull (0: no point)"""
    __pvobject__ = True

    def __init__(self, w):
        self._pv_w, self._tol = w, w.tol

    @property
    def is_built(self):
        return wrap(And(self._pv_w.h != 0, self._pv_w.RB(self._pv_w.h)))

    @property
    def vertices(self):
        w = self._pv_w
        if ctx().branch(w.h == 0):
            return None
        if not w.h.get_id() in w.verts:
            w.verts[w.h.get_id()] = (mat('verts', size('nv', 1), w.d), w.h)
        return w.verts[w.h.get_id()][0]

    def is_inside(self, X):
        w = self._pv_w
        w.asked(X)
        h = w.h
        return Arr.make((toarr(X).shape[0],), 'bool', lambda i: And(h != 0, w.RB(h), w.IN(h, i)))

    def update(self, pos_points):
        w = self._pv_w
        w.positives(pos_points, 'the positive region')
        w.h = w.J(w.h)

    def clear(self):
        self._pv_w.h = z3.IntVal(0)


class ARef:
    """contract of NegativeCone (level B) at one abstract vertex"""
    __pvobject__ = True

    def __init__(self, w, lst, i):
        self._pv_w, self._pv_l, self._pv_i = w, lst, i

    @property
    def is_built(self):
        w, l, i = self._pv_w, self._pv_l, self._pv_i
        return wrap(And(l.H(i) != 0, w.CB(l.V(i), l.H(i))))

    def add_points_to_hull(self, points):
        w, l, i = self._pv_w, self._pv_l, self._pv_i
        c = ctx()
        for a, h in w.verts.values():
            if points is a or (isinstance(points, Arr) and c.entails(same_array(points, a))):
                prove('the vertices of the positive region start a cone', l.H(i) == 0)
                new = h
                break
        else:
            w.positives(points, 'the cones')
            new = w.J(l.H(i))
        l.put(i, l.V(i), new)
        if c.branch(w.CONF(l.V(i), new)):
            raise w.err()

    def is_inside(self, X):
        w, l, i = self._pv_w, self._pv_l, self._pv_i
        w.asked(X)
        return Arr.make((toarr(X).shape[0],), 'bool', lambda k: And(l.H(i) != 0, w.CB(l.V(i), l.H(i)), w.BEH(l.V(i), l.H(i), k)))


class AList(SymList):
    """a list of cones of any length"""

    def __init__(self, w):
        SymList.__init__(self)
        self.items, self.w = None, w
        self._fn = lambda i: ARef(w, self, as_term(i))
        self.havoc_as('cone')

    def havoc_as(self, kind):
        c = ctx()
        self._n = size('cones')
        self.V, self.H = c.func('V', Int, Int), c.func('H', Int, Int)
        self.touch()

    def put(self, i, v, h):
        c = ctx()
        for nm, new in (('V', v), ('H', h)):
            old, f = getattr(self, nm), c.func(nm, Int, Int)
            c.assume(f(i) == new, Forall([Int], lambda j: Or(j == i, f(j) == old(j)), lambda j: [f(j), old(j)]))
            setattr(self, nm, f)
        self.touch()

    def pats(self, i):
        return [self.V(i), self.H(i)]

    def append(self, cone):
        if not isinstance(cone, ARef):
            ctx().unsupported('a list of cones holds something else')
        l, i, n = cone._pv_l, cone._pv_i, dterm(self._n)
        self.put(n, l.V(i), l.H(i))
        self._n = dim_wrap(n + 1)


class ANew:
    """a single new cone"""

    def __init__(self, v):
        self.V, self.H = (lambda i: v), (lambda i: z3.IntVal(0))

    def put(self, i, v, h):
        self.V, self.H = (lambda i: v), (lambda i: h)


class World:
    """the abstract hulls of one proof"""

    def __init__(self, d, err):
        c = ctx()
        self.d, self.err, self.verts, self.pos, self.query, self.last = d, err, {}, None, None, None
        self.tol = symreal('tol')
        self.h = c.const('hull', Int)
        self.RB, self.IN = c.func('region_built', Int, Bool), c.func('in_hull', Int, Int, Bool)
        self.CB, self.BEH, self.CONF = c.func('cone_built', Int, Int, Bool), c.func('behind', Int, Int, Int, Bool), c.func('conflict', Int, Int, Bool)
        self.J = c.func('with_positives', Int, Int)          # the hull with the positive points of the batch added
        self.VC = c.func('coordinate', Int, Int, Real)
        c.assume(Forall([Int], lambda h: self.J(h) != 0, lambda h: [self.J(h)]))

    def asked(self, X):
        prove('the queries are passed on', same_array(toarr(X), self.query))

    def positives(self, a, who):
        if self.pos is None:
            ctx().unsupported('%s get points outside an update' % who)
        prove('%s get exactly the positive points' % who, same_array(toarr(a), self.pos))

    def new_cone(self, vertex, tol=1e-12):
        prove('tolerance of a cone', t_(tol) == self.tol.t)
        a = toarr(vertex)
        r = a.reader()
        prove('a cone at a point', And(z3.BoolVal(a.ndim == 1), dterm(a.shape[0]) == self.d.t))
        v = self.last = ctx().const('vertex', Int)
        assume(forall(0, self.d.t, lambda j: self.VC(v, j) == r(j), lambda j: [self.VC(v, j)]))
        return ARef(self, ANew(v), Z)


def units_C(E):
    us = []
    cell = {}

    def setup():
        P, C = E.load(MOD), E.load(CVX)
        d = size('d', 2)
        w = World(d, C.ConvexError)
        o = obj_of(P.Polytope)
        o.__init__()
        priv(o, 'Polytope', 'is_valid')
        if not hasattr(o, 'positive_region') or not hasattr(o, 'negative_region'):
            ctx().unsupported('the representation of Polytope')
        o.positive_region = Region(w)
        l = o.negative_region = AList(w)
        swap(P, 'NegativeCone', w.new_cone)
        ctx().roots.append(('polytope', o))
        for _, t in consistent(w, l, dterm(l.n), w.h):
            assume(t)
        cell.clear()
        cell.update(w=w, l=l, o=o)
        return o, l, w, d

    def consistent(w, l, n, h):
        """every cone knows exactly the positive points, and none of them conflicts"""
        return [('cones know the positive points', forall(0, n, lambda i: l.H(i) == h, lambda i: l.pats(i))),
                ('no negative point in the positive hull', forall(0, n, lambda i: Or(h == 0, Not(w.CONF(l.V(i), h))), lambda i: l.pats(i)))]

    def d_predict():
        o, l, w, d = setup()
        v = symbool('valid')
        setpriv(o, 'Polytope', 'is_valid', v)
        single = ctx().choose(2)
        m = dim_wrap(z3.IntVal(1)) if single else size('m')
        X = vec('x', d) if single else mat('X', m, d)
        w.query = X.reshape(1, -1) if single else X
        n, h = dterm(l.n), w.h
        behind = lambda j, i: And(h != 0, w.CB(l.V(i), h), w.BEH(l.V(i), h, j))
        inside = lambda j: And(h != 0, w.RB(h), w.IN(h, j))
        # geometry: no point of the hull is behind a point outside of it
        assume(Forall([Int, Int], lambda i, j: Implies(And(w.IN(h, j), w.BEH(l.V(i), h, j)), w.CONF(l.V(i), h)), lambda i, j: [w.BEH(l.V(i), h, j)]))
        cell.update(behind=behind, inside=inside, m=m)
        r = o.predict(X)
        rr = r.reader()
        prove('one answer per row', And(z3.BoolVal(r.ndim == 1), dterm(r.shape[0]) == dterm(m)))
        j = ctx().const('j', Int)
        assume(j >= 0, j < dterm(m))
        ex = Exists([Int], lambda i: And(i >= 0, i < n, behind(j, i)), lambda i: l.pats(i))
        prove('an invalid polytope answers unknown', Implies(Not(t_(v)), rr(j) == z3.Q(1, 2)))
        prove('negative exactly behind a negative point', Implies(t_(v), (rr(j) == 0) == ex))
        prove('positive exactly in the hull', Implies(t_(v), (rr(j) == 1) == inside(j)))
        prove('unknown otherwise', Implies(And(t_(v), Not(ex), Not(inside(j))), rr(j) == z3.Q(1, 2)))
        prove('asking changes nothing', And(dterm(l.n) == n, w.h == h))
        cover('answer')

    def predict_inv(L, t, g):
        p, l, m, w = L.probas.reader(), cell['l'], cell['m'], cell['w']
        gone = lambda j: Exists([Int], lambda i: And(i >= 0, i < t, cell['behind'](j, i)), lambda i: l.pats(i))
        return [('answers so far', forall(0, dterm(m), lambda j: Or(And(p(j) == 0, gone(j)), And(p(j) == If(cell['inside'](j), 1, z3.Q(1, 2)), Not(gone(j)))), lambda j: [p(j)])),
                ('one answer per row', dterm(L.probas.shape[0]) == dterm(m))]
    us.append(Unit(E, 'Polytope.predict[plane and space]', d_predict, {'Polytope.predict:for#1': LoopSpec(inv=predict_inv)}))

    def pos_entry(L, g):
        l = cell['l']
        g.V, g.n, g.H0 = l.V, dterm(l.n), l.H

    def pos_inv(L, t, g):
        l, w = cell['l'], cell['w']
        h1 = cell['h1']
        return [('same cones', And(dterm(l.n) == g.n, forall(0, g.n, lambda i: l.V(i) == g.V(i), lambda i: l.pats(i) + [g.V(i)]))),
                ('treated cones know the new points', forall(0, t, lambda i: And(l.H(i) == h1, Not(w.CONF(l.V(i), h1))), lambda i: l.pats(i))),
                ('other cones are unchanged', forall(t, g.n, lambda i: l.H(i) == g.H0(i), lambda i: l.pats(i) + [g.H0(i)]))]

    def neg_entry(L, g):
        l = cell['l']
        g.V, g.n0 = l.V, dterm(l.n)
        g.rd = L.X.reader()

    def neg_inv(L, t, g):
        l, w = cell['l'], cell['w']
        return [('old cones stay', And(dterm(l.n) == g.n0 + t, forall(0, g.n0, lambda i: l.V(i) == g.V(i), lambda i: l.pats(i) + [g.V(i)]))),
                ('new cones at the negative points', Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < t, j >= 0, j < w.d.t), w.VC(l.V(g.n0 + i), j) == g.rd(i, j)),
                                                            lambda i, j: [g.rd(i, j)]))] + consistent(w, l, g.n0 + t, w.h)
    loops = {'Polytope.__update_positive:for#1': LoopSpec(entry=pos_entry, inv=pos_inv),
             'Polytope.__update_negative:for#1': LoopSpec(entry=neg_entry, inv=neg_inv)}

    def d_update():
        o, l, w, d = setup()
        c = ctx()
        m = size('m')
        X, y = mat('X', m, d), vec('y', m)
        ry = y.reader()
        V0, n0, h0 = l.V, dterm(l.n), w.h
        pos, neg = X[y == 1], X[y != 1]
        w.pos = pos
        anyp = c.branch(dterm(pos.shape[0]) > 0)
        h1 = w.J(h0) if anyp else h0
        cell.update(h1=h1)
        nr, nn = neg.reader(), dterm(neg.shape[0])
        # geometry: a point of a hull stays in it when points are added
        assume(Forall([Int, Int], lambda v, h: Implies(And(h != 0, w.CONF(v, h)), w.CONF(v, w.J(h))), lambda v, h: [mp(w.CONF(v, h), w.J(h))]))
        r = o.update(X, y)
        prove('success means valid', t_(r) == t_(o.is_valid))
        if c.branch(t_(o.is_valid)):
            prove('the positive region holds the positive points', w.h == h1)
            prove('every negative point is remembered', And(dterm(l.n) == n0 + nn, forall(0, n0, lambda i: l.V(i) == V0(i), lambda i: l.pats(i) + [V0(i)]),
                  Forall([Int, Int], lambda i, j: Implies(And(i >= 0, i < nn, j >= 0, j < d.t), w.VC(l.V(n0 + i), j) == nr(i, j)), lambda i, j: [nr(i, j)])))
            for nm, t in consistent(w, l, dterm(l.n), h1):
                prove('while valid: ' + nm, t)
            cover('valid')
        else:
            k = Exists([Int], lambda i: And(i >= 0, i < n0, w.CONF(V0(i), h1)), lambda i: [V0(i)])
            a = w.last
            new = z3.BoolVal(False) if a is None else And(w.CONF(a, h1), Exists([Int], lambda i: And(i >= 0, i < nn, forall(
                0, d.t, lambda j: w.VC(a, j) == nr(i, j), lambda j: [w.VC(a, j)])), lambda i: own_terms(nr(i, Z), i)))
            late = Exists([Int], lambda i: And(i >= n0, i < dterm(l.n), w.CONF(l.V(i), h1), forall(
                0, d.t, lambda j: w.VC(l.V(i), j) == nr(i - n0, j), lambda j: [w.VC(l.V(i), j)])), lambda i: l.pats(i))
            prove('invalid only with a negative point in the positive hull', Or(k, new, late))
            cover('conflict')
    us.append(Unit(E, 'Polytope.update[plane and space]', d_update, loops))

    def d_clear():
        o, l, w, d = setup()
        setpriv(o, 'Polytope', 'is_valid', symbool('valid'))
        o.clear()
        prove('valid again', t_(o.is_valid))
        prove('no positive point', w.h == 0)
        prove('no negative point', z3.BoolVal(len(o.negative_region) == 0))
    us.append(Unit(E, 'Polytope.clear[plane and space]', d_clear))

    def d_refuse():
        o, l, w, d = setup()
        setpriv(o, 'Polytope', 'is_valid', False)
        X = mat('X', size('m'), d)
        w.pos = X
        h, n = w.h, dterm(l.n)
        r, err = raised(lambda: o.update(X, vec('y', X.shape[0])), RuntimeError)
        prove('an invalid polytope refuses updates', z3.BoolVal(err is not None))
        prove('and does not change', And(w.h == h, dterm(l.n) == n))
    us.append(Unit(E, 'Polytope.update[plane, invalid]', d_refuse, loops))

    def d_errors():
        """an error of a component is not taken for success"""
        o, l, w, d = setup()
        boom = type('Boom', (Exception,), {})

        def bad(points):
            raise boom()
        o.positive_region.update = bad
        m = size('m', 1)
        X, y = mat('X', m, d), vec('y', m)
        pos = w.pos = X[y == 1]
        cell.update(h1=w.J(w.h))
        assume(dterm(pos.shape[0]) > 0)
        _, err = raised(lambda: o.update(X, y), boom)
        prove('an error is passed on', Or(z3.BoolVal(err is not None), Not(t_(o.is_valid))))
    us.append(Unit(E, 'Polytope.update[errors]', d_errors, loops))
    return us


def units(E, prop):
    return units_A(E) + units_B(E) + units_C(E)
