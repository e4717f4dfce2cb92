"""Contracts of the visualisation mesh (src/Mesh.hpp). The visit of the tree is handled by a traversal rule: the callback is
executed at one arbitrary leaf, in a state reached after arbitrarily many earlier leaves, and what it adds there is
specified; its effect on counters is inferred as a multiple of the number of cells and proved inductive."""
from terms import *
from values import *
from contract import *
import engine, loops, cast
from specs.hps import setf, oblige

CONTRACTS = []
MESH = 'Mesh<FiniteVolumePatch>'
NODE = 'Node<FiniteVolumePatch>'
QT = 'Quadtree<FiniteVolumePatch>'
C0 = var('cells before this leaf')
CT = var('cells of all leaves')
LIM = I(2 ** 26)


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


def new_leaf(eng, st, leaf):
    v = Sym.value(eng, NODE, 'leaf' if leaf else 'branch', None, (), st)
    v = setf(v, ('leaf',), TRUE if leaf else FALSE)
    g = v.f['data'].f['grid_'].f
    for a, b in (('x', 'nx_'), ('y', 'ny_')):
        st.assume(and_(lt(I(0), g[b]), lt(g[b], I(2 ** 12))))
    return eng.alloc(st, v), v.f['data'].f['grid_']


def changes(eng, a, b):
    """leaves changed between two stores; vectors with known entries are first made general in a"""
    while True:
        out, norm = [], []
        for cell in list(a):
            if cell in b: loops.diff(a[cell], b[cell], (), *_adapt(out, norm, cell))
        if not norm: return out
        for cell, path in norm:
            a[cell] = vput(a[cell], path, generic(vget(a[cell], path)))


class _Tag(list):
    def __init__(self, out, cell): self.out, self.cell = out, cell
    def append(self, p): self.out.append((self.cell, p))


def _adapt(out, norm, cell): return _Tag(out, cell), _Tag(norm, cell)


def generic(v): return Vec(v.et, None, I(len(v.elems)) if v.elems is not None else v.len, v.tolam())


def run(eng, s, cb, data, leaf, quiet):
    node, grid = new_leaf(eng, s, leaf)
    arg = ('val', Ptr(node)) if not data else ('lv', (node[0], node[1] + (('f', 'data'),)))
    before = dict(s.store)
    nthr, nob = len(eng.throws), len(eng.obls)
    eng.quiet += 1 if quiet else 0
    try:
        if isinstance(cb, engine.Closure): eng.call_closure(s, cb, [arg], None)
        elif isinstance(cb, FnVal): cb.call(eng, s, [arg], None)
        else: raise Unsupported('callback %r' % (cb,))
    finally:
        if quiet:
            eng.quiet -= 1
            del eng.throws[nthr:]
    return before, node, grid


def known_cases(eng, s, t):
    while t.op == 'ite':
        if eng.known(s, t.args[0]): t = t.args[1]
        elif eng.known(s, not_(t.args[0])): t = t.args[2]
        else: break
    return t


def havoc(eng, s, mod, val):
    """arbitrary contents in the modified leaves; counters and lengths from val"""
    for leaf in mod:
        old = loops.lget(s.store, leaf) if leaf[1] and leaf[1][-1][0] in ('f', 'i', 'len', 'lam') or not leaf[1] else None
        if old is None: raise Unsupported('a traversal changes %r' % (leaf,))
        loops.lput(s.store, leaf, val(leaf, old))


def traverse(eng, st, f, this, argv):
    """rule for Quadtree::traversePreOrder"""
    eng.assumed.add('Quadtree::traversePreOrder hands every node to its callback once, the leaves in a fixed order (C15)')
    cb = eng.arg_val(st, argv[0])
    data = 'Node' not in f.ptypes[0]
    old0 = dict(st.store)
    alias, st0 = {}, st.fork()
    for _ in range(6):
        # 1. what does the callback change at a leaf? (repeated from a general state, where it may change more)
        mod = []
        ints = {}
        for rnd in range(4):
            s = st.fork()
            hv = {}
            def val(leaf, old):
                if isinstance(old, Term):
                    if old.sort != INT: raise Unsupported('a traversal changes %s' % loops.leafname(leaf))
                    if leaf[1][-2:] == (('f', 'data_'), ('len', None)):
                        # a vector keeps size_ and the length of its data equal
                        z = (leaf[0], leaf[1][:-2] + (('f', 'size_'),))
                        if z in mod and loops.lget(base, z) is old:
                            if z not in hv:
                                hv[z] = fresh('h')
                                s.assume(and_(le(I(0), hv[z]), lt(hv[z], I(2 ** 30))))
                            hv[leaf] = hv[z]
                            return hv[leaf]
                    if leaf in hv: return hv[leaf]
                    if leaf in alias:
                        # counters that start equal and are kept equal (checked below)
                        if alias[leaf] not in hv:
                            hv[alias[leaf]] = fresh('h')
                            s.assume(and_(le(I(0), hv[alias[leaf]]), lt(hv[alias[leaf]], I(2 ** 30))))
                        hv[leaf] = hv[alias[leaf]]
                        return hv[leaf]
                    hv[leaf] = fresh('h')
                    s.assume(and_(le(I(0), hv[leaf]), lt(hv[leaf], I(2 ** 30))))
                    return hv[leaf]
                return loops.shape(old, fresh('hc').args[0], ()) if rnd else old
            havoc(eng, s, mod, val) if rnd else None
            a, node, grid = run(eng, s, cb, data, True, True)
            if not rnd:
                ch = changes(eng, a, s.store)
                for cell in a:
                    if cell in st.store: st.store[cell] = a[cell]
                base = dict(st.store)
            else: ch = changes(eng, a, s.store)
            new = [l for l in ch if l not in mod and l[0] in st.store]
            if not new and rnd:
                break
            mod += new
        else: raise Unsupported('what a traversal changes')
        retry = False
        # 2. counters and lengths advance by a constant per cell
        cells = grid.f['nx_'] * grid.f['ny_']
        for leaf, h in hv.items():
            d = known_cases(eng, s, loops.lget(s.store, leaf)) - h
            for k in range(0, 65):
                if d is k * cells or (k == 0 and d is I(0)):
                    ints[leaf] = k
                    break
            else:
                twin = [l for l, x in hv.items() if x is not h and l not in alias and leaf not in alias and x in fv(d) and loops.lget(base, l) is loops.lget(base, leaf)]
                if not twin: raise Unsupported('%s does not advance by a constant per cell: %s' % (loops.leafname(leaf), repr(d)[:200]))
                alias[leaf] = twin[0]
                retry = True
                break
        for l, m in alias.items():
            if not retry and ints.get(l) != ints.get(m): raise Unsupported('counters that drift apart')
        if not retry: break
        st.become(st0.fork())
    else: raise Unsupported('counters of a traversal')
    # 3. nothing happens at other nodes
    s2 = st.fork()
    a, _, _ = run(eng, s2, cb, data, False, False)
    if [l for l in changes(eng, a, s2.store) if l[0] in st.store]: raise Unsupported('a traversal changes something at a node that is not a leaf')
    # 4. the step
    tot = getattr(eng, 'total_cells', CT)
    s3 = st.fork()
    def val3(leaf, old):
        if leaf in ints: return old + ints[leaf] * C0
        return loops.shape(old, fresh('before').args[0], ())
    havoc(eng, s3, mod, val3)
    s3.assume(le(I(0), C0))
    a, node, grid = run_step(eng, s3, cb, data, tot)
    st.trace.append(('leaf', a, dict(s3.store), grid, s3))
    # 5. afterwards
    st.assume(and_(le(I(0), tot), lt(tot, LIM)))
    def val5(leaf, old):
        if leaf in ints: return old + ints[leaf] * tot
        return loops.shape(old, fresh('after').args[0], ())
    havoc(eng, st, mod, val5)
    return ('val', None)


def run_step(eng, s, cb, data, tot):
    node, grid = new_leaf(eng, s, True)
    cells = grid.f['nx_'] * grid.f['ny_']
    s.assume(and_(le(I(0), cells), le(C0 + cells, tot), lt(tot, LIM)))
    arg = ('val', Ptr(node)) if not data else ('lv', (node[0], node[1] + (('f', 'data'),)))
    before = dict(s.store)
    eng.call_closure(s, cb, [arg], None) if isinstance(cb, engine.Closure) else cb.call(eng, s, [arg], None)
    return before, node, grid


def over(setup=None):
    def go(eng, st, this, argv):
        eng.overrides = {QT + '::traversePreOrder': traverse}
        return (setup(eng, st, this, argv) if setup else None) or argv
    return [('', go)]


def steps(st): return [e for e in st.trace if e[0] == 'leaf']


def corners(grid, i, j):
    g = grid.f
    x = lambda k: g['x_lower_'] + toreal(k) * g['dx_']
    y = lambda k: g['y_lower_'] + toreal(k) * g['dy_']
    return [(x(i), y(j)), (x(i + 1), y(j)), (x(i + 1), y(j + 1)), (x(i), y(j + 1))]


@C(MESH + '::setMeshFromQuadtree', 0, variants=over())
def _(c):
    eng = c.eng
    me = c.thislv
    at = lambda store, f: vget(store[me[0]], me[1] + (('f', f),))
    for f in ('npoints', 'ncells', 'points', 'connectivity', 'offsets', 'types'): c.set(c.field(f), ANY)
    def post(eng, st, pre, tag):
        ob = lambda s, n, g: eng.oblige(s.fork() if isinstance(s, engine.State) else s, n + tag, g)
        tr = steps(st)
        ob(st, 'the tree is traversed once', TRUE if len(tr) == 1 else FALSE)
        if len(tr) != 1: return
        P, K, O, T_ = [VV(at(st.store, f)) for f in ('points', 'connectivity', 'offsets', 'types')]
        ob(st, 'one cell is counted per cell of a leaf', eq(at(st.store, 'ncells'), CT))
        ob(st, 'four points are counted per cell', eq(at(st.store, 'npoints'), 4 * CT))
        ob(st, 'four points are stored per cell', and_(eq(P.n, 12 * CT), eq(P.s.f['data_'].len, 12 * CT)))
        ob(st, 'connectivity has four entries per cell', and_(eq(K.n, 4 * CT), eq(K.s.f['data_'].len, 4 * CT)))
        ob(st, 'every cell has an offset', and_(le(CT, O.n), eq(O.s.f['data_'].len, O.n)))
        ob(st, 'every cell has a type', and_(le(CT, T_.n), eq(T_.s.f['data_'].len, T_.n)))
        _, a, b, grid, s3 = tr[0]
        nx, ny = grid.f['nx_'], grid.f['ny_']
        A = {f: VV(at(a, f)) for f in ('points', 'connectivity', 'offsets', 'types')}
        B = {f: VV(at(b, f)) for f in ('points', 'connectivity', 'offsets', 'types')}
        k = fresh('k')
        s = s3.fork(le(I(0), k))
        for f in A: ob(s.fork(lt(k, A[f].n)), 'a leaf leaves the earlier entries of %s alone' % f, eq(A[f](k), B[f](k)))
        ob(s.fork(and_(le(A['offsets'].n, k), lt(k, B['offsets'].n))), 'offsets count four points per cell', eq(B['offsets'](k), 4 * k + 4))
        ob(s.fork(and_(le(A['types'].n, k), lt(k, B['types'].n))), 'types are quadrilaterals', eq(B['types'](k), I(9)))
        i, j = fresh('i'), fresh('j')
        s = s3.fork(and_(le(I(0), i), lt(i, nx), le(I(0), j), lt(j, ny)))
        t = i * ny + j
        s.assume(and_(le(I(0), t), lt(t, nx * ny)))
        cell = C0 + t
        for q, (x, y) in enumerate(corners(grid, i, j)):
            p = at_entry(eng, s, B['connectivity'], 4 * cell + q, C0, nx, ny, i, j, 4, q)
            ob(s, 'corner %d of a cell refers to a point of that cell' % q, and_(le(I(0), p), lt(p, 4 * CT)))
            for d, e in enumerate((x, y, R(0))):
                v = at_entry(eng, s, B['points'], 3 * p + d, C0, nx, ny, i, j, 12, 3 * q + d)
                ob(s, 'corner %d, coordinate %d' % (q, d), eq(v, e))
    c.post_hooks.append(post)


def at_entry(eng, s, v, k, c0, nx, ny, i, j, w, q):
    """entry k of a vector written in blocks of w per cell: quotients that select the cell are known when k = w*(c0 + i*ny + j) + q"""
    x = v(k)
    want = {}
    for u in subterms(x):
        if u.op == 'idiv' or u.op == 'imod': want[u] = None
    return simp_div(x, s, k, c0, ny, i, j, w, q)


def simp_div(x, s, k, c0, ny, i, j, w, q):
    r = x
    for _ in range(6):
        mp = {}
        for u in subterms(r):
            if u.op == 'idiv' and not any(y.op == 'idiv' and y is not u for y in subterms(u)):
                for cand in (i, j, i * ny + j, c0 + i * ny + j):
                    # u == cand  <=>  0 <= a - cand*b < b
                    a, b = u.args
                    rem = a - cand * b
                    if prove([h for h in s.pc if h.op != 'forall'], and_(le(I(0), rem), lt(rem, b)), timeout=2000):
                        mp[u] = cand
                        break
        if not mp: return r
        r = replace_terms(r, mp)
    return r


# ------------------------------------------------------------------ iteration
def ghost(eng, st, names):
    """a user callback whose calls are recorded in ghost vectors"""
    cells = [eng.alloc(st, Struct('Vector<double>', {'size_': I(0), 'data_': Vec('double', None, I(0), Lam((var('k0'),), R(0)))})) for n in names]
    def call(eng, st, args, fr):
        vs = [toreal(eng.rv(st, a, fr)) for a in args]
        for lv, v in zip(cells, vs):
            s = st.store[lv[0]]
            n, d = s.f['size_'], s.f['data_']
            k = fresh('k')
            st.store[lv[0]] = Struct(s.cls, {'size_': n + 1, 'data_': Vec('double', None, n + 1, Lam((k,), ite(eq(k, n), v, d.lam.at((k,)))))})
        return ('val', None)
    return cells, FnVal('user callback', call)


def centre(grid, i, j):
    g = grid.f
    return (g['x_lower_'] + g['dx_'] / R(2) + toreal(i) * g['dx_'], g['y_lower_'] + g['dy_'] / R(2) + toreal(j) * g['dy_'])


def ic_setup(eng, st, this, argv):
    eng.seen, fn = ghost(eng, st, ('x', 'y'))
    return [('val', fn)]


@C(MESH + '::iterateCells', 1, variants=over(ic_setup), inline=True)
def _(c):
    seen = getattr(c.eng, 'seen', None)
    for lv in seen or []: c.set(lv, ANY)
    def post(eng, st, pre, tag):
        ob = lambda s, n, g: eng.oblige(s.fork(), n + tag, g)
        tr = steps(st)
        ob(st, 'the tree is traversed once', TRUE if len(tr) == 1 else FALSE)
        if len(tr) != 1: return
        _, a, b, grid, s3 = tr[0]
        nx, ny = grid.f['nx_'], grid.f['ny_']
        i, j, k = fresh('i'), fresh('j'), fresh('k')
        s = s3.fork(and_(le(I(0), i), lt(i, nx), le(I(0), j), lt(j, ny)))
        t = i * ny + j
        s.assume(and_(le(I(0), t), lt(t, nx * ny)))
        for d, lv in enumerate(seen):
            A, B = VV(a[lv[0]]), VV(b[lv[0]])
            ob(st, 'one call per cell', eq(VV(st.store[lv[0]]).n, CT))
            ob(s3.fork(and_(le(I(0), k), lt(k, A.n))), 'calls for earlier leaves', eq(A(k), B(k)))
            ob(s, 'the call for a cell gets its centre, coordinate %d' % d, eq(simp_div(B(C0 + t), s, C0 + t, C0, ny, i, j, 1, 0), centre(grid, i, j)[d]))
    c.post_hooks.append(post)


def fn_setup(eng, st, this, argv):
    def call(eng, st, args, fr): return ('val', app('user function', [toreal(eng.rv(st, a, fr)) for a in args], REAL))
    return [('val', FnVal('user function', call)), argv[1]]


@C(MESH + '::addMeshFunction', 2, variants=over(fn_setup))
def _(c):
    me = c.thislv
    c.set(c.field('mesh_functions'), ANY)
    def post(eng, st, pre, tag):
        ob = lambda s, n, g: eng.oblige(s.fork(), n + tag, g)
        fl = lambda s: vget(s.store[me[0]], me[1] + (('f', 'mesh_functions'),))
        new = fl(st)
        n0 = fl(pre).len if fl(pre).elems is None else I(len(fl(pre).elems))
        tr = steps(st)
        ob(st, 'one function is added', eq(new.len if new.elems is None else I(len(new.elems)), n0 + 1))
        p = eng.unconflict(st, new.tolam().at((n0,)))
        if not isinstance(p, Ptr) or p.loc is None: raise Unsupported('what is added to mesh_functions')
        v = VV(eng.peek(st, p.loc))
        ob(st, 'one value per cell', eq(v.n, CT))
        compare(eng, st, c.val(1), v.s.f['name_'], 'name' + tag)
        last = tr[-1]
        _, a, b, grid, s3 = last
        A, B = VV(vget(a[p.loc[0]], p.loc[1])), VV(vget(b[p.loc[0]], p.loc[1]))
        nx, ny = grid.f['nx_'], grid.f['ny_']
        i, j, k = fresh('i'), fresh('j'), fresh('k')
        ob(s3.fork(and_(le(I(0), k), lt(k, C0))), 'values of earlier leaves', eq(A(k), B(k)))
        s = s3.fork(and_(le(I(0), i), lt(i, nx), le(I(0), j), lt(j, ny)))
        t = i * ny + j
        s.assume(and_(le(I(0), t), lt(t, nx * ny)))
        ob(s, 'value of a cell', eq(simp_div(B(C0 + t), s, C0 + t, C0, ny, i, j, 1, 0), app('user function', list(centre(grid, i, j)), REAL)))
    c.post_hooks.append(post)
