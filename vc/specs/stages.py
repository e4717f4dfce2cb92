"""Contracts of the stages of the algorithm (src/HPSAlgorithm.hpp): what is done at every leaf, every family and the root.
The order of the visits is the business of the tree (src/Quadtree.hpp)."""
from terms import *
from values import *
from contract import *
import engine
from sums import Split, instantiate
from specs.hps import HPS, HOM, setf, symV, symM, oblige, instances
from specs.solver import solution, normal_derivative, FV

CONTRACTS = []
N = var('n')
M = var('m')
QT = 'Quadtree<FiniteVolumePatch>'
NODE = 'Node<FiniteVolumePatch>'


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


def sq(p, n):
    for f in ('nx_', 'ny_'): p = setf(p, ('grid_', f), n)
    return p


def new_node(eng, st, name, n):
    v = Sym.value(eng, NODE, name, None, (), st)
    p = sq(v.f['data'], n)
    p = setf(p, ('n_coarsens',), var(name + '.coarsenings') if name == 'leaf' and eng.rebuild else I(0))
    p = setf(p, ('g_serial',), symV(name + '.g', 4 * n))
    p = setf(p, ('f_serial',), symV(name + '.f', n * n))
    v = setf(v, ('data',), p)
    return eng.alloc(st, v)


def call_fn(eng, st, f, args):
    if isinstance(f, engine.Closure): return eng.call_closure(st, f, [('val', a) for a in args], None)
    raise Unsupported('callback %r' % (f,))


def visit(kind):
    """model of Quadtree::merge / ::split: the callbacks at one arbitrary leaf and one arbitrary family"""
    def h(eng, st, f, this, argv):
        eng.assumed.add('Quadtree::%s hands every leaf and every family to its callback (C15)' % kind)
        if eng.cached:
            eng.cached = []
            for turn in 'ab':
                for lev in LEVELS:
                    x = new_node(eng, st, 'leaf%d%s' % (lev, turn), N)
                    st.store[x[0]] = setf(st.store[x[0]], ('level',), I(lev))
                    call_fn(eng, st, eng.arg_val(st, argv[0]), [Ptr(x)])
                    eng.cached.append((lev, turn, x))
        leaf = new_node(eng, st, 'leaf', N)
        if eng.cached: st.store[leaf[0]] = setf(st.store[leaf[0]], ('level',), I(LEVELS[0]))
        fam = [new_node(eng, st, nm, N) for nm in ('parent', 'child0', 'child1', 'child2', 'child3')]
        st.trace.append((kind, leaf, fam, dict(st.store)))
        call_fn(eng, st, eng.arg_val(st, argv[0]), [Ptr(leaf)])
        st.trace.append(('leaf done', dict(st.store)))
        call_fn(eng, st, eng.arg_val(st, argv[1]), [Ptr(fam[0]), Vec(NODE + ' *', [Ptr(x) for x in fam[1:]])])
        return ('val', None)
    return h


def record(kind):
    def h(eng, st, f, this, argv):
        st.trace.append((kind, [a[1] for a in argv]))
        return ('val', None)
    return h


ROOT = 'root'
LEVELS = range(30)
MC = 'DataCache<Matrix<double>>'


def operator_cache():
    """the cache as a map of texts to matrices (C19), empty at first; every name used must be a constant in the run"""
    cells = {}
    def name(eng, st, a):
        k = eng.arg_val(st, a)
        if k.op != 'strlit': raise Unsupported('name of a cached operator')
        return k.args[0]
    def at(eng, st, f, this, argv):
        k = name(eng, st, argv[0])
        if k not in cells: cells[k] = eng.alloc(st, mkMatrix(I(0), I(0), lambda i, j: R(0)))
        return ('lv', cells[k])
    def contains(eng, st, f, this, argv): return ('val', TRUE if name(eng, st, argv[0]) in cells else FALSE)
    return {MC + '::operator[]': at, MC + '::contains': contains}


def stage_setup(label, hom, opts=(), arg=None, mesh=True, rebuild=False, cached=False):
    def setup(eng, st, this, argv):
        st.assume(HOM if hom else not_(HOM))
        for nm, v in opts: st.assume(var('option ' + nm, BOOL) if v else not_(var('option ' + nm, BOOL)))
        st.assume(and_(le(I(1), N), lt(N, I(2 ** 14)), le(I(1), M), lt(M, I(2 ** 20))))
        p = Sym.value(eng, 'FiniteVolumePatch', ROOT, None, (), st)
        p = sq(p, M)
        p = setf(p, ('T_serial',), symM('T', 4 * M, 4 * M))
        p = setf(p, ('h_serial',), symV('h', I(0) if hom else 4 * M))
        root = eng.alloc(st, p)
        eng.root = root
        eng.rebuild = rebuild
        eng.overrides = {QT + '::root': lambda eng, st, f, this, argv: ('lv', root), QT + '::merge': visit('merge'), QT + '::split': visit('split'),
                         HPS + '::merge4to1': record('merge4to1'), HPS + '::upwards4to1': record('upwards4to1'), HPS + '::split1to4': record('split1to4')}
        eng.cached = cached
        if cached: eng.overrides.update(operator_cache())
        if arg is not None: argv = [('val', arg)]
        return argv
    return (label, setup)


def family_check(c, what, kind):
    """the family callback hands the parent and the children 0..3 to the step, once"""
    def post(eng, st, pre, tag):
        tr = st.trace
        vis = [e for e in tr if e[0] == kind]
        ev = [e for e in tr if e[0] == what]
        eng.oblige(st.fork(), 'the tree is traversed once' + tag, TRUE if len(vis) == 1 else FALSE)
        eng.oblige(st.fork(), 'every family is handled once' + tag, TRUE if len(ev) == 1 else FALSE)
        if len(vis) != 1 or len(ev) != 1: return
        fam = vis[0][2]
        ok = [tuple(x) == (cell, path + (('f', 'data'),)) for x, (cell, path) in zip(ev[0][1], fam)]
        eng.oblige(st.fork(), 'parent and children in Morton order' + tag, TRUE if len(ok) == 5 and all(ok) else FALSE)
        others = [e[0] for e in tr if e[0] in ('merge4to1', 'upwards4to1', 'split1to4') and e[0] != what]
        eng.oblige(st.fork(), 'no other step on a family' + tag, FALSE if others else TRUE)
    c.post_hooks.append(post)


def leaf_of(st): return [e for e in st.trace if e[0] in ('merge', 'split')][0][1]


def bc_fn():
    """user boundary function: value r and coefficients a, b as functions of side and position"""
    def call(eng, st, args, fr):
        vs = [eng.rv(st, a, fr) for a in args]
        s, x, y = vs[:3]
        x, y = toreal(x), toreal(y)
        for p, nm in ((vs[3], 'bc a'), (vs[4], 'bc b')): eng.put(st, eng.deref(st, p), app(nm, [s, x, y], REAL))
        return ('val', app('bc r', [s, x, y], REAL))
    return FnVal('bc', call)


def patch_cb(name, sets):
    """user callback that sets data of the patch it is given"""
    def call(eng, st, args, fr):
        lv = eng.lv(st, args[0], fr)
        st.trace.append((name, lv))
        sets(eng, st, lv)
        return ('val', None)
    return FnVal(name, call)


def set_g(eng, st, lv): st.store[lv[0]] = vput(st.store[lv[0]], lv[1] + (('f', 'g_serial'),), symV('user g', 4 * M))
def set_f(eng, st, lv): st.store[lv[0]] = vput(st.store[lv[0]], lv[1] + (('f', 'f_serial'),), symV('user f', N * N))


def fld(eng, st, lv, f): return eng.peek(st, (lv[0], lv[1] + (('f', f),)))


def leaf_solved(c, hom, after):
    def post(eng, st, pre, tag):
        lf = leaf_of(st)
        p = (lf[0], lf[1] + (('f', 'data'),))
        grid = fld(eng, st, p, 'grid_')
        g = VV(symV('leaf.g', 4 * N))
        f = (lambda k: R(0)) if hom else VV(symV('leaf.f', N * N))
        compare(eng, st, mkVector(N * N, lambda k: solution(grid, g, f, N, k)), fld(eng, st, p, 'u_serial'), 'solution of a leaf' + tag)
        compare(eng, st, symV('leaf.g', 4 * N), fld(eng, st, p, 'g_serial'), 'boundary data of a leaf unchanged' + tag)
    c.post_hooks.append(post)


@C(HPS + '::leafSolve', 1, variants=[stage_setup('inhomogeneous', False), stage_setup('homogeneous', True)])
def _(c):
    p = c.val(0)
    grid = p.f['grid_']
    hom = c.known(HOM)
    n = grid.f['nx_']
    g, f = VV(p.f['g_serial']), VV(p.f['f_serial'])
    c.requires(and_(eq(grid.f['ny_'], n), le(I(1), n), lt(n, I(2 ** 14)), eq(g.n, 4 * n)))
    if not hom: c.requires(eq(f.n, n * n))
    lv = c.lvarg(0)
    if hom: c.set((lv[0], lv[1] + (('f', 'f_serial'),)), mkVector(n * n, lambda k: R(0)))
    fv_ = (lambda k: R(0)) if hom else f
    c.set((lv[0], lv[1] + (('f', 'u_serial'),)), mkVector(n * n, lambda k: solution(grid, g, fv_, n, k)))


def SB(label, hom): return stage_setup(label, hom, arg=bc_fn())


@C(HPS + '::solveStage', 1, ['std::function<double (int, double, double, double*, double*)>'], variants=[SB('inhomogeneous', False), SB('homogeneous', True)])
def _(c):
    eng = c.eng
    hom = c.known(HOM)
    family_check(c, 'split1to4', 'split')
    leaf_solved(c, hom, None)
    root = eng.root
    c.set((root[0], root[1] + (('f', 'g_serial'),)), ANY)
    def post(eng, st, pre, tag):
        vis = [e for e in st.trace if e[0] == 'split']
        if len(vis) != 1: return
        at = vis[0][3]
        grid = fld(eng, pre, root, 'grid_')
        g = VV(vget(at[root[0]], root[1] + (('f', 'g_serial'),)))
        eng.oblige(st.fork(), 'root data has one entry per boundary point' + tag, eq(g.n, 4 * M))
        T_, h = MV(symM('T', 4 * M, 4 * M)), VV(symV('h', 4 * M))
        i = var('i0')
        gf = grid.f
        X = gf['x_lower_'] + gf['dx_'] / R(2) + toreal(i) * gf['dx_']
        Y = gf['y_lower_'] + gf['dy_'] / R(2) + toreal(i) * gf['dy_']
        pts = [(gf['x_lower_'], Y), (gf['x_upper_'], Y), (X, gf['y_lower_']), (X, gf['y_upper_'])]
        for s, nm in enumerate(('west', 'east', 'south', 'north')):
            row = s * M + i
            a, b, r = [app('bc ' + z_, [I(s), pts[s][0], pts[s][1]], REAL) for z_ in 'abr']
            v = sum_(4 * M, lambda k: T_(row, k) * g(k))
            if not hom: v = v + h(row)
            facts = [le(I(1), M), lt(M, I(2 ** 20)), le(I(0), i), lt(i, M)]
            sp = Split(M, facts)
            hyps = facts + instances(st, sp, row, sp.simp(a * g(row) + b * v), ())
            oblige(eng, st, 'a u + b du/dn = r on the %s side' % nm + tag, eq(sp.simp(a * g(row) + b * v), sp.simp(r)), hyps)
    c.post_hooks.append(post)


@C(HPS + '::solveStage', 1, ['std::function<void (FiniteVolumePatch&)>'],
   variants=[stage_setup(l, h, arg=patch_cb('boundary callback', set_g)) for l, h in (('inhomogeneous', False), ('homogeneous', True))])
def _(c):
    root = c.eng.root
    family_check(c, 'split1to4', 'split')
    leaf_solved(c, c.known(HOM), None)
    c.set((root[0], root[1] + (('f', 'g_serial'),)), symV('user g', 4 * M))
    def post(eng, st, pre, tag):
        cb = [n for n, e in enumerate(st.trace) if e[0] == 'boundary callback']
        sp = [n for n, e in enumerate(st.trace) if e[0] == 'split']
        ok = len(cb) == 1 and len(sp) == 1 and cb[0] < sp[0] and tuple(st.trace[cb[0]][1]) == tuple(root)
        eng.oblige(st.fork(), 'the callback sets the data of the root before the data is split' + tag, TRUE if ok else FALSE)
    c.post_hooks.append(post)


def rhs_fn():
    def call(eng, st, args, fr):
        return ('val', app('user rhs', [toreal(eng.rv(st, a, fr)) for a in args], REAL))
    return FnVal('rhs', call)


def flux_check(c, src):
    def post(eng, st, pre, tag):
        lf = leaf_of(st)
        p = (lf[0], lf[1] + (('f', 'data'),))
        grid = fld(eng, st, p, 'grid_')
        fs = VV(fld(eng, st, p, 'f_serial'))
        eng.oblige(st.fork(), 'one source value per cell' + tag, eq(fs.n, N * N))
        if src is not None:
            i, j = var('i0'), var('j0')
            s2 = st.fork(and_(le(I(0), i), lt(i, N), le(I(0), j), lt(j, N)))
            sp = Split(N, s2.pc)
            eng.oblige(s2, 'source at the centre of cell (i, j) of a leaf' + tag, eq(sp.simp(fs(j + i * N)), src(grid, i, j)))
        else: compare(eng, st, symV('user f', N * N), fs.s, 'source of a leaf' + tag)
        compare(eng, st, mkVector(4 * N, lambda r: normal_derivative(grid, lambda k: R(0), fs, N, r)), fld(eng, st, p, 'h_serial'), 'particular flux of a leaf' + tag)
    c.post_hooks.append(post)


@C(HPS + '::upwardsStage', 1, ['std::function<void (FiniteVolumePatch&)>'], variants=[stage_setup('', False, arg=patch_cb('source callback', set_f))])
def _(c):
    family_check(c, 'upwards4to1', 'merge')
    flux_check(c, None)
    def post(eng, st, pre, tag):
        cb = [e for e in st.trace if e[0] == 'source callback']
        lf = leaf_of(st)
        ok = len(cb) == 1 and tuple(cb[0][1]) == (lf[0], lf[1] + (('f', 'data'),))
        eng.oblige(st.fork(), 'the callback is called once for the leaf' + tag, TRUE if ok else FALSE)
    c.post_hooks.append(post)


@C(HPS + '::upwardsStage', 1, ['std::function<double (double, double)>'], variants=[stage_setup('', False, arg=rhs_fn())])
def _(c):
    family_check(c, 'upwards4to1', 'merge')
    def src(grid, i, j):
        g = grid.f
        return app('user rhs', [g['x_lower_'] + g['dx_'] / R(2) + toreal(i) * g['dx_'], g['y_lower_'] + g['dy_'] / R(2) + toreal(j) * g['dy_']], REAL)
    flux_check(c, src)


def d2n_entry(grid, n):
    from specs.solver import SIDES, green, edge_cell
    def entry(r, m):
        def side(s):
            d = R(2 * SIDES[s][2]) / grid.f[SIDES[s][1]]
            return d * (green(grid, 'boundary', edge_cell(s, n, r - s * n), m) - ite(eq(r, m), R(1), R(0)))
        return ite(lt(r, n), side(0), ite(lt(r, 2 * n), side(1), ite(lt(r, 3 * n), side(2), side(3))))
    return entry


@C(HPS + '::buildStage', 0, variants=[stage_setup('operators not cached', False, (('cache-operators', False),), rebuild=True), stage_setup('operators not cached, homogeneous', True, (('cache-operators', False),), rebuild=True),
   stage_setup('operators cached, leaves of 30 levels', False, (('cache-operators', True),), rebuild=True, cached=True)])
def _(c):
    family_check(c, 'merge4to1', 'merge')
    if c.eng.cached:
        # a leaf gets the operator of its own grid, or the one of an earlier leaf of its level; names are constants here, so the
        # entry of a level is only ever made by a leaf of that level
        def shared(eng, st, pre, tag):
            first = {}
            for lev, turn, x in eng.cached:
                p = (x[0], x[1] + (('f', 'data'),))
                grid = fld(eng, st, p, 'grid_')
                got = fld(eng, st, p, 'T_serial')
                if lev not in first:
                    first[lev] = grid
                    compare(eng, st, mkMatrix(4 * N, 4 * N, d2n_entry(grid, N)), got, 'operator of a first leaf of level %d%s' % (lev, tag))
                    continue
                r, m = var('i0'), var('j0')
                s2 = st.fork(and_(le(I(0), r), lt(r, 4 * N), le(I(0), m), lt(m, 4 * N)))
                e = MV(got)(r, m)
                eng.oblige(s2, 'operator of a further leaf of level %d%s' % (lev, tag), or_(eq(e, d2n_entry(first[lev], N)(r, m)), eq(e, d2n_entry(grid, N)(r, m))))
        c.post_hooks.append(shared)
        return
    def post(eng, st, pre, tag):
        lf = leaf_of(st)
        p = (lf[0], lf[1] + (('f', 'data'),))
        grid = fld(eng, st, p, 'grid_')
        compare(eng, st, mkMatrix(4 * N, 4 * N, d2n_entry(grid, N)), fld(eng, st, p, 'T_serial'), "operator of a leaf" + tag)
        eng.oblige(st.fork(), 'a leaf starts uncoarsened, also when the tree was built before' + tag, eq(fld(eng, st, p, 'n_coarsens'), I(0)))
    c.post_hooks.append(post)
