"""Contracts of mesh refinement by a function (src/Mesh.hpp refineByFunction, src/P4est.cpp connectivity).

p4est is described by what it does to the forest: created at a minimum level, refined by a callback until the callback declines,
balanced.  The callback is executed at one arbitrary quadrant (any position, each level in turn)."""
from terms import *
from values import *
from contract import *
from terms import subst, subterms
import engine, externs, cast
from externs import fun, note
from specs.hps import setf
from specs.quadtree import call_cb, is_null

CONTRACTS = []
MESH = 'Mesh<FiniteVolumePatch>'
QT = 'Quadtree<FiniteVolumePatch>'
ROOT = 2 ** 30                   # P4EST_ROOT_LEN
QMAXLEVEL = 29                   # P4EST_QMAXLEVEL
CORNER = [app('enum:P4EST_CONNECT_CORNER', [], INT), app('enum:P4EST_CONNECT_FULL', [], INT), I(22)]
ASK = 'the refinement function'
SQUARE = 'p4est::p4est_connectivity_new_square_domain'


def C(key, nargs=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, **kw))
        return f
    return d


def instances(t, ts):
    """t with every quantified part replaced by its instances at ts"""
    if t.op == 'forall': return and_(*[instances(subst(t.args[1], {t.args[0]: x}), ts) for x in ts])
    if t.op in ('or', 'and') and any(u.op == 'forall' for u in subterms(t)):
        return (or_ if t.op == 'or' else and_)(*[instances(x, ts) for x in t.args])
    return t


def cases(eng, o, r):
    """one outcome for every branch of a result that several paths lead to"""
    if not (isinstance(r, Term) and r.op == 'ite'): return [(o, r)]
    out = []
    for g, t, v in ((r.args[0], r.args[1], TRUE), (r.args[0], r.args[2], FALSE)):
        s = o.fork()
        s.pc = []
        n = {r.args[0]: v}
        if g.op == 'not': n = {g.args[0]: not_(v)}
        for h in o.pc: s.assume(subst(h, n))
        s.assume(g if v is TRUE else not_(g))
        if eng.feasible(s): out += cases(eng, s, subst(t, n))
    return out


def positions(s):
    """the cell positions at which a path has asked"""
    return list({u for h in s.pc if not any(x.op == 'forall' for x in subterms(h)) for a in subterms(h) if a.op == 'app' and a.args[0] == ASK
                 for u in subterms(a) if u.op == 'var' and u.sort == INT and '!' in u.args[0]})


# ------------------------------------------------------------------ connectivity of a rectangle
def elems_of(eng, st, p, n, name):
    """n values an array argument points at"""
    if not isinstance(p, Ptr) or p.loc is None: raise Unsupported('%s: not an array' % name)
    lv, off = eng.ptr_idx(p)
    v = eng.peek(st, lv)
    if isinstance(v, Term): return [v] if n == 1 else None
    return [eng.unconflict(st, v.get(off + I(k))) for k in range(n)]


@fun('p4est_connectivity_new_copy')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_connectivity_new_copy makes the connectivity of the given trees')
    vals = [eng.rv(st, x, fr) for x in a]
    st.trace.append(('connectivity', vals, {i: elems_of(eng, st, vals[i], k, 'connectivity') for i, k in ((3, 12), (4, 4), (5, 4), (6, 4))}))
    lv = eng.alloc(st, Struct('p4est_connectivity', {}))
    eng.connlv = lv
    return ('val', Ptr(lv))


@C(SQUARE, 4)
def _(c):
    x0, x1, y0, y1 = [c.val(i) for i in range(4)]
    if c.mode == 'apply':
        lv = c.eng.alloc(c.st, Struct('p4est_connectivity', {}))
        c.eng.rects = dict(getattr(c.eng, 'rects', {}))
        c.eng.rects[lv[0]] = (x0, x1, y0, y1)
        c.ret(Ptr(lv))
        return
    def post(eng, st, pre, tag):
        ob = lambda n, g: eng.oblige(st.fork(), n + tag, g)
        ev = [e for e in st.trace if e[0] == 'connectivity']
        ob('one connectivity is made', TRUE if len(ev) == 1 else FALSE)
        if len(ev) != 1: return
        _, v, arr = ev[0]
        ob('one tree', eq(v[1], I(1)))
        ob('no corners are identified', eq(v[2], I(0)))
        V, tv, tt, tf = arr[3], arr[4], arr[5], arr[6]
        ob('the vertices are numbered from zero', and_(*[and_(le(I(0), t), lt(t, v[0])) for t in tv]))
        ob('four vertices', eq(v[0], I(4)))
        for k in range(4):
            for d, want in enumerate((x1 if k & 1 else x0, y1 if k & 2 else y0, R(0))):
                j = 3 * tv[k] + I(d)
                got = V[11]
                for q in range(10, -1, -1): got = ite(eq(j, I(q)), V[q], got)
                ob('corner %d of the tree, coordinate %d' % (k, d), eq(toreal(got), want))
        for k in range(4):
            ob('face %d is on the boundary' % k, and_(eq(tt[k], I(0)), eq(tf[k], I(k))))
    c.post_hooks.append(post)
    c.ret(Pred(lambda v: TRUE if isinstance(v, Ptr) and v.loc == getattr(c.eng, 'connlv', 0) else FALSE, 'the connectivity made'))


# ------------------------------------------------------------------ the forest
def forest(eng, st, p, what):
    if not isinstance(p, Ptr) or p.loc is None: raise Unsupported('%s: which forest' % what)
    g = eng.forests.get(p.loc[0]) if hasattr(eng, 'forests') else None
    if g is None: raise Unsupported('%s: which forest' % what)
    return g, p.loc


@fun('p4est_new_ext')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_new_ext makes a uniform forest over the connectivity at the minimum level')
    comm, conn, minq, minl, fill, size, init, user = [eng.rv(st, x, fr) for x in a]
    v = Sym.value(eng, 'p4est', 'forest', None, (), st)
    v = setf(setf(v, ('connectivity',), conn), ('user_pointer',), user)
    lv = eng.alloc(st, v)
    eng.forests = dict(getattr(eng, 'forests', {}))
    eng.forests[lv[0]] = dict(rect=getattr(eng, 'rects', {}).get(conn.loc[0]) if isinstance(conn, Ptr) and conn.loc else None)
    st.trace.append(('new', lv, comm, minq, minl, fill))
    return ('val', Ptr(lv))


@fun('p4est_refine')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_refine asks the callback for every quadrant, with recursion also for every quadrant it makes, and splits the quadrant when the answer is not zero')
    p, rec, cb, init = [eng.rv(st, x, fr) for x in a]
    g, lv = forest(eng, st, p, 'p4est_refine')
    x, y = var('quadrant x'), var('quadrant y')
    L = I(ROOT >> eng.qlevel)
    s = st.fork(and_(le(I(0), x), le(I(0), y), le(x + L, I(ROOT)), le(y + L, I(ROOT))))
    q = eng.alloc(s, setf(setf(setf(Sym.value(eng, 'p4est_quadrant', 'quadrant', None, (), s), ('x',), x), ('y',), y), ('level',), I(eng.qlevel)))
    before = dict(s.store)
    eng.keep_at, eng.kept = eng.depth + 1, []
    try: call_cb(eng, s, cb, [p, I(0), Ptr(q)])
    finally: eng.keep_at = None
    if not eng.kept: raise Unsupported('the refinement callback')
    r = [(o, v[1] if v[0] == 'val' else eng.peek(o, v[1])) for o, v in eng.kept if v is not None]
    same_ = [cell for cell in before if s.store.get(cell) is not before[cell] and not same(s.store.get(cell), before[cell])]
    st.trace.append(('refine', lv, rec, s, r, g['rect'], same_))
    return ('val', None)


@fun('p4est_qcoord_to_vertex')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_qcoord_to_vertex maps the unit square of the tree to its rectangle')
    conn, tree, x, y, out = [eng.rv(st, e, fr) for e in a]
    r = getattr(eng, 'rects', {}).get(conn.loc[0]) if isinstance(conn, Ptr) and conn.loc else None
    if r is None: raise Unsupported('p4est_qcoord_to_vertex: which connectivity')
    eng.oblige(st, 'p4est_qcoord_to_vertex: inside the tree', and_(eq(tree, I(0)), le(I(0), x), le(x, I(ROOT)), le(I(0), y), le(y, I(ROOT))))
    x0, x1, y0, y1 = r
    lv, off = eng.ptr_idx(out)
    for d, w in enumerate((x0 + (x1 - x0) * (toreal(x) / R(ROOT)), y0 + (y1 - y0) * (toreal(y) / R(ROOT)), R(0))):
        eng.put(st, (lv[0], lv[1] + (('i', off + I(d)),)), w)
    return ('val', None)


@fun('p4est_balance')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_balance splits as few quadrants as make neighbours differ by at most one level')
    p, how, init = [eng.rv(st, x, fr) for x in a]
    g, lv = forest(eng, st, p, 'p4est_balance')
    st.trace.append(('balance', lv, how))
    return ('val', None)


@fun('p4est_partition', 'p4est_partition_ext')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_partition distributes the quadrants and changes none')
    for x in a: eng.rv(st, x, fr)
    return ('val', I(0))


def record(kind):
    def h(eng, st, f, this, argv):
        st.trace.append((kind, this, [eng.peek(st, a[1]) if a[0] == 'lv' else a[1] for a in argv], argv))
        if kind == 'assign': return ('lv', this)
        return ('val', None)
    return h


def tree_made(eng, st, f, this, argv):
    eng.assumed.add('a tree has one node per quadrant of the forest it is made of (C15)')
    v = [eng.arg_val(st, a) if i < 2 else a for i, a in enumerate(argv)]
    st.trace.append(('tree', this, v))
    for n, x in (('p4est', v[1]), ('root_data_ptr_', Ptr(argv[2][1])), ('node_factory', Ptr(argv[3][1]))): eng.put(st, (this[0], this[1] + (('f', n),)), x)
    return ('val', None)


def assigned(eng, st, f, this, argv):
    src = argv[0][1]
    st.trace.append(('assign', this, src, eng.peek(st, src)))
    eng.put(st, this, eng.peek(st, src))
    return ('lv', this)


def setup(level):
    def go(eng, st, this, argv):
        eng.qlevel = level
        eng.this = this
        grid = eng.peek(st, argv[4][1]).f['grid_'].f
        for n in ('nx_', 'ny_'): st.assume(and_(lt(I(0), grid[n]), lt(grid[n], I(2 ** 12))))
        eng.pgrid, eng.plv, eng.flv = grid, argv[4][1], argv[5][1]
        eng.overrides = {QT + '::Quadtree': tree_made, QT + '::operator=': assigned, MESH + '::setMeshFromQuadtree': record('mesh')}
        def ask(eng, st, args, fr): return ('val', app(ASK, [toreal(eng.rv(st, a, fr)) for a in args], BOOL))
        return [('val', FnVal(ASK, ask))] + list(argv[1:])
    return ('quadrant of level %d' % level, go)


@C(MESH + '::refineByFunction', 6, variants=[setup(l) for l in range(QMAXLEVEL + 1)], inline=True, weak=True)
def _(c):
    eng = c.eng
    c.set(c.thislv, ANY)
    minl, maxl = c.val(2), c.val(3)
    c.requires(and_(le(I(0), minl), le(maxl, I(QMAXLEVEL))))
    def post(eng, st, pre, tag):
        ob = lambda n, g, s=None: eng.oblige((s or st).fork(), n + tag, g)
        tr = st.trace
        pos = lambda k: [i for i, e in enumerate(tr) if e[0] == k]
        for k, w in (('new', 'one forest is made'), ('refine', 'the forest is refined once'), ('tree', 'one tree is made'), ('mesh', 'the mesh is built once'), ('assign', 'the tree is kept')):
            ob(w, TRUE if len(pos(k)) == 1 else FALSE)
            if len(pos(k)) != 1: return
        ob('the forest is balanced', TRUE if pos('balance') else FALSE)
        if not pos('balance'): return
        new, ref, tree, asg, mesh = [tr[pos(k)[0]] for k in ('new', 'refine', 'tree', 'assign', 'mesh')]
        lv = new[1]
        order = [pos('new')[0], pos('refine')[0], pos('balance')[-1], pos('tree')[0], pos('assign')[0], pos('mesh')[0]]
        ob('made, refined, balanced, then turned into tree and mesh', TRUE if order == sorted(order) else FALSE)
        ob('the uniform mesh has the minimum level', eq(new[4], minl))
        ob('no further quadrants are asked for', or_(eq(new[3], I(0)), eq(new[3], I(1))) if isinstance(new[3], Term) else FALSE)
        ob('the same forest is refined', TRUE if ref[1][0] == lv[0] else FALSE)
        ob('refined recursively', ne(ref[2], I(0)))
        bal = tr[pos('balance')[-1]]
        ob('the same forest is balanced', TRUE if bal[1][0] == lv[0] else FALSE)
        ob('balanced across corners', or_(*[eq(bal[2], x) for x in CORNER]) if isinstance(bal[2], Term) else FALSE)
        t = asg[3]
        ob("it becomes the mesh's tree", TRUE if asg[1] == (eng.this[0], eng.this[1] + (('f', 'quadtree'),)) else FALSE)
        for n, want, w in (('p4est', lv, 'the tree is made of that forest'), ('root_data_ptr_', eng.plv, 'from the root patch'), ('node_factory', eng.flv, 'with the factory')):
            if t.f[n] is UNINIT: ob(w, FALSE)
            else: compare(eng, st, Ptr(want), t.f[n], w + tag)
        ob("the mesh built is this one", TRUE if mesh[1] == eng.this else FALSE)
        # the callback
        g = eng.pgrid
        rect = ref[5]
        ob('the forest covers a rectangle', TRUE if rect is not None else FALSE)
        if rect is None: return
        for n, a in zip(('x_lower_', 'x_upper_', 'y_lower_', 'y_upper_'), rect):
            ob('the rectangle of the root patch: ' + n, eq(a, g[n]))
        outs = ref[4]
        ob('asking changes nothing', TRUE if not ref[6] else FALSE)
        lev = eng.qlevel
        H = R(1) / R(2 ** lev)
        def centre(k, n, lo, hi, q):
            a = lo + (hi - lo) * (toreal(q) / R(ROOT))
            return a + (toreal(k) + R(1) / R(2)) * ((hi - lo) * H / toreal(n))
        def asked(i, j): return app(ASK, [centre(i, g['nx_'], g['x_lower_'], g['x_upper_'], var('quadrant x')), centre(j, g['ny_'], g['y_lower_'], g['y_upper_'], var('quadrant y'))], BOOL)
        inb = lambda i, j: and_(le(I(0), i), lt(i, g['nx_']), le(I(0), j), lt(j, g['ny_']))
        for o, r in [x for o, r in outs for x in cases(eng, o, r)]:
            nz = r if r.sort == BOOL else ne(r, I(0))
            ob('no split at the maximum level', not_(nz), o.fork(le(maxl, I(lev))))
            i, j = fresh('i'), fresh('j')
            o2 = o.fork(and_(lt(I(lev), maxl), inb(i, j), asked(i, j)))
            for h in list(o2.pc):
                if any(x.op == 'forall' for x in subterms(h)): o2.assume(instances(h, [i, j]))
            o4 = o2.fork()
            o4.pc = [h for h in o2.pc if not any(x.op == 'forall' for x in subterms(h))]
            ob('split where the function asks for it', nz, o4 if eng.known(o4, nz) else o2)
            o3 = o.fork()
            ts = positions(o3)
            if len(ts) <= 4:
                for i in ts:
                    for j in ts: o3.assume(implies(inb(i, j), not_(asked(i, j))))
            ob('no split where it does not', not_(nz), o3)
    c.post_hooks.append(post)
