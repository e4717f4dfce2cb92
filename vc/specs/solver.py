"""Contracts of the patch solver (src/Patches/FiniteVolume/FiniteVolumeSolver.cpp)."""
from terms import *
from values import *
from contract import *
from sums import Split, instantiate
from specs.hps import setf, symV, symM, oblige

CONTRACTS = []
FV = 'FiniteVolumeSolver'


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


N = var('n')


def square_setup(kind):
    """a square patch of n x n cells; kind 0: five-point stencil, 1: FISHPACK90"""
    def setup(eng, st, this, argv):
        st.assume(and_(le(I(1), N), lt(N, I(2 ** 14))))
        st.store[this[0]] = setf(st.store[this[0]], ('solver_type',), I(kind))
        lv = argv[0][1]
        g = st.store[lv[0]]
        for f in ('nx_', 'ny_'): g = setf(g, (f,), N)
        st.store[lv[0]] = g
        return argv
    return setup


def grid_pt(g, dim, i):
    lo, d = (g.f['x_lower_'], g.f['dx_']) if dim == 0 else (g.f['y_lower_'], g.f['dy_'])
    return lo + d / R(2) + toreal(i) * d if hasattr(d, '__truediv__') else add(add(lo, rdiv(d, R(2))), mul(toreal(i), d))


def fish_setup(eng, st, this, argv):
    argv = square_setup(1)(eng, st, this, argv)
    lv = argv[0][1]
    g = st.store[lv[0]]
    g = setf(g, ('x_upper_',), g.f['x_lower_'] + toreal(N) * g.f['dx_'])
    g = setf(g, ('y_upper_',), g.f['y_lower_'] + toreal(N) * g.f['dy_'])
    st.store[lv[0]] = g
    return argv


def green(g, which, k, m):
    """entry of the solution operator of a patch: value at cell k for a unit datum at position m (the discrete system is
    nonsingular and linear in the data, so that its solution is linear in the data)"""
    return app('green ' + which, [g.f[x] for x in ('x_lower_', 'y_lower_', 'dx_', 'dy_', 'nx_')] + [lift(k, INT), lift(m, INT)], REAL)


def solution(grid, g, f, n, k):
    return sum_(4 * n, lambda m: green(grid, 'boundary', k, m) * g(m)) + sum_(n * n, lambda m: green(grid, 'source', k, m) * f(m))


def stencil(sx, sy, U, g, dx, dy, al, la, bE, bW, bN, bS, i, j):
    uc = U(i, j)
    uW = 2 * g(j) - uc if 'w' in sx else U(i - 1, j)
    uE = 2 * g(N + j) - uc if 'e' in sx else U(i + 1, j)
    uS = 2 * g(2 * N + i) - uc if 's' in sy else U(i, j - 1)
    uN = 2 * g(3 * N + i) - uc if 'n' in sy else U(i, j + 1)
    return al * ((bE * (uE - uc) - bW * (uc - uW)) / (dx * dx) + (bN * (uN - uc) - bS * (uc - uS)) / (dy * dy)) + la * uc


@C(FV + '::solve', 3, variants=[('five-point stencil', square_setup(0)), ('FISHPACK90', fish_setup)])
def _(c):
    grid, g, f = c.val(0), c.V(1), c.V(2)
    n = grid.f['nx_']
    c.requires(and_(eq(grid.f['ny_'], n), le(I(1), n), lt(n, I(2 ** 14)), eq(g.n, 4 * n), eq(f.n, n * n)))
    s = c.this
    if c.mode == 'apply':
        c.ret(mkVector(n * n, lambda k: solution(grid, g, f, n, k)))
        return
    fn = lambda name, *a: apply_fn(s.f[name], *a)
    c.ret(Pred(lambda v: eq(v.f['size_'], N * N), 'one value per cell'))
    fish = cval(s.f['solver_type']) == 1

    def post(eng, st, pre, tag):
        u = VV(c.result)
        i, j = var('i0'), var('j0')
        dx, dy = grid.f['dx_'], grid.f['dy_']
        x, y = grid_pt(grid, 0, i), grid_pt(grid, 1, j)
        if fish:
            al = bE = bW = bN = bS = R(1)
            la = fn('lambda_function', R(0), R(0))
        else:
            al, la = fn('alpha_function', x, y), fn('lambda_function', x, y)
            bE, bW = fn('beta_function', x + dx / R(2), y), fn('beta_function', x - dx / R(2), y)
            bN, bS = fn('beta_function', x, y + dy / R(2)), fn('beta_function', x, y - dy / R(2))
        xs = (('w', 'west column', [eq(i, I(0))], {i: I(0)}), ('', 'inside', [lt(I(0), i), lt(i, N - 1)], {}), ('e', 'east column', [eq(i, N - 1)], {i: N - 1}))
        ys = (('s', 'south row', [eq(j, I(0))], {j: I(0)}), ('', 'inside', [lt(I(0), j), lt(j, N - 1)], {}), ('n', 'north row', [eq(j, N - 1)], {j: N - 1}))
        cells = [(a[0], b[0], '%s, %s' % (a[1], b[1]), [le(I(2), N)] + a[2] + b[2], {**a[3], **b[3]}) for a in xs for b in ys]
        cells.append(('we', 'sn', 'single column, single row', [eq(N, I(1))], {N: I(1), i: I(0), j: I(0)}))
        for sx, sy, where, cond, mp in cells:
            eqn = stencil(sx, sy, lambda a, b: u(b + a * N), g, dx, dy, al, la, bE, bW, bN, bS, i, j)
            facts = [lt(N, I(2 ** 14)), le(I(0), i), lt(i, N), le(I(0), j), lt(j, N), ne(dx, R(0)), ne(dy, R(0))] + cond
            facts = [subst(h, mp) for h in facts]
            if FALSE in facts: continue
            sp = Split(N, facts) if N not in mp else None
            simp = sp.simp if sp else (lambda t: t)
            hyps = []
            for h in list(st.pc) + eng.lemmas:
                h = subst(h, {N: I(1)}) if N in mp else h
                if h.op != 'forall': continue
                for ks in ([subst(j + i * N, mp)], [subst(i, mp), subst(j, mp)]):
                    h1 = instantiate(h, ks)
                    if h1 is not None and not any(q.op == 'forall' for q in subterms(h1)): hyps.append(simp(h1))
            goal = eq(simp(subst(eqn, mp)), simp(subst(f(j + i * N), mp)))
            oblige(eng, st, 'five-point equation at a cell of the ' + where + tag, goal, facts + hyps)
    c.post_hooks.append(post)


def grid_setup(pos):
    def setup(eng, st, this, argv):
        st.assume(and_(le(I(1), N), lt(N, I(2 ** 14))))
        lv = argv[pos][1]
        g = st.store[lv[0]]
        for f in ('nx_', 'ny_'): g = setf(g, (f,), N)
        st.store[lv[0]] = g
        return argv
    return setup


SIDES = [('west', 'dx_', 1), ('east', 'dx_', -1), ('south', 'dy_', 1), ('north', 'dy_', -1)]


def edge_cell(s, n, i):
    """cell next to point i of a side"""
    return [i, (n - 1) * n + i, i * n, (i + 1) * n - 1][s]


def normal_derivative(grid, g, f, n, r):
    """r = side*n + i: one-sided difference across the half cell next to the boundary, along +x or +y"""
    def side(s):
        i = r - s * n
        d = R(2 * SIDES[s][2]) / grid.f[SIDES[s][1]]
        return d * (solution(grid, g, f, n, edge_cell(s, n, i)) - g(r))
    return ite(lt(r, n), side(0), ite(lt(r, 2 * n), side(1), ite(lt(r, 3 * n), side(2), side(3))))


@C(FV + '::mapD2N', 3, variants=[('', grid_setup(0))])
def _(c):
    grid, g, f = c.val(0), c.V(1), c.V(2)
    n = grid.f['nx_']
    c.requires(and_(eq(grid.f['ny_'], n), le(I(1), n), lt(n, I(2 ** 14)), eq(g.n, 4 * n), eq(f.n, n * n)))
    c.ret(mkVector(4 * n, lambda r: normal_derivative(grid, g, f, n, r)))


@C(FV + '::buildD2N', 1, variants=[('', grid_setup(0))])
def _(c):
    grid = c.val(0)
    n = grid.f['nx_']
    c.requires(and_(eq(grid.f['ny_'], n), le(I(1), n), lt(n, I(2 ** 14))))
    def entry(r, m):
        def side(s):
            d = R(2 * SIDES[s][2]) / grid.f[SIDES[s][1]]
            return d * (green(grid, 'boundary', edge_cell(s, n, r - s * n), m) - ite(eq(r, m), R(1), R(0)))
        return ite(lt(r, n), side(0), ite(lt(r, 2 * n), side(1), ite(lt(r, 3 * n), side(2), side(3))))
    c.ret(mkMatrix(4 * n, 4 * n, entry))


@C(FV + '::particularNeumannData', 2, variants=[('', grid_setup(0))])
def _(c):
    grid, f = c.val(0), c.V(1)
    n = grid.f['nx_']
    c.requires(and_(eq(grid.f['ny_'], n), le(I(1), n), lt(n, I(2 ** 14)), eq(f.n, n * n)))
    c.ret(mkVector(4 * n, lambda r: normal_derivative(grid, lambda k: R(0), f, n, r)))
