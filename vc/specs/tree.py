"""Contracts of the grid geometry, the node factory and the data cache
(src/Patches/FiniteVolume/FiniteVolumeGrid.cpp, FiniteVolumeNodeFactory.cpp, src/DataCache.hpp)."""
from terms import *
from values import *
from contract import *
import engine
from engine import strlit
from externs import strcat
from specs.hps import setf, oblige

CONTRACTS = []
G = 'FiniteVolumeGrid'
FACT = 'FiniteVolumeNodeFactory'
NODE = 'Node<FiniteVolumePatch>'


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, inline=True, **kw))
        return f
    return d


def iff(a, b): return and_(or_(not_(a), b), or_(not_(b), a))


# ------------------------------------------------------------------ grid
def grid(nx, xl, xu, ny, yl, yu):
    return {'nx_': nx, 'ny_': ny, 'x_lower_': xl, 'x_upper_': xu, 'y_lower_': yl, 'y_upper_': yu,
            'dx_': (xu - xl) / toreal(nx), 'dy_': (yu - yl) / toreal(ny)}


@C(G + '::FiniteVolumeGrid', 7)
def _(c):
    nx, xl, xu, ny, yl, yu = (c.val(i) for i in range(1, 7))
    c.requires(and_(lt(I(0), nx), lt(I(0), ny)))
    c.setthis(Struct(G, grid(nx, xl, xu, ny, yl, yu)))
    # cell centres and the far end follow from the fields
    if c.mode == 'verify':
        def post(eng, st, pre, tag):
            g = eng.peek(st, c.thislv).f
            for d, n in (('x', nx), ('y', ny)):
                hyp = [lt(I(0), n), eq(g['d%s_' % d] * toreal(n), g[d + '_upper_'] - g[d + '_lower_'])]
                oblige(eng, st, 'the cells of the %s direction fill the interval' % d + tag, hyp[1], [hyp[0]])
        c.post_hooks.append(post)


def centre(s, dim, i):
    return (s.f['x_lower_' if dim == 0 else 'y_lower_'] + s.f['dx_' if dim == 0 else 'dy_'] / R(2)) + toreal(i) * s.f['dx_' if dim == 0 else 'dy_']


def pick(s, dim, i): return ite(eq(dim, I(0)), centre(s, 0, i), centre(s, 1, i))


@C(G + '::point', 2)
def _(c):
    d, i = c.val(0), c.val(1)
    c.throws(not_(or_(eq(d, I(0)), eq(d, I(1)))))
    c.ret(pick(c.this, d, i))


@C(G + '::operator()', 2)
def _(c):
    d, i = c.val(0), c.val(1)
    c.requires(and_(lt(i, I(2 ** 31)), lt(d, I(2 ** 31))))
    c.throws(not_(or_(eq(d, I(0)), eq(d, I(1)))))
    c.ret(pick(c.this, d, i))


for _m, _f in (('nx', 'nx_'), ('ny', 'ny_'), ('xLower', 'x_lower_'), ('xUpper', 'x_upper_'), ('yLower', 'y_lower_'), ('yUpper', 'y_upper_'), ('dx', 'dx_'), ('dy', 'dy_')):
    C(G + '::' + _m, 0)(lambda c, _f=_f: (c.requires(le(I(0), c.this.f['nx_'])), c.requires(le(I(0), c.this.f['ny_'])), c.ret(c.this.f[_f])))


# ------------------------------------------------------------------ nodes
def node(c, lv_grid, path, level, pfirst, plast):
    """the node a factory call returns: a new node with this grid, no coarsening"""
    def ok(eng, st, v, tag):
        if not isinstance(v, Ptr) or v.loc is None:
            eng.oblige(st.fork(), 'a node is returned' + tag, FALSE)
            return
        eng.oblige(st.fork(), 'a node is returned' + tag, not_(v.null))
        nd = eng.peek(st, v.loc)
        fresh_ = v.loc[0] not in c.pre.store
        eng.oblige(st.fork(), 'the node is a new one' + tag, TRUE if fresh_ else FALSE)
        for f, x in (('path', path), ('level', level), ('pfirst', pfirst), ('plast', plast)):
            compare(eng, st, x, nd.f[f], 'node ' + f + tag)
        g = nd.f['data'].f['grid_']
        for f, x in lv_grid.items(): compare(eng, st, x, g.f[f], 'grid ' + f + tag)
        compare(eng, st, I(0), nd.f['data'].f['n_coarsens'], 'coarsening of the new patch' + tag)
    return ok


def cells(eng, st, g):
    st.assume(and_(lt(I(0), g.f['nx_']), lt(g.f['nx_'], I(2 ** 31)), lt(I(0), g.f['ny_']), lt(g.f['ny_'], I(2 ** 31))))
    st.assume(and_(eq(g.f['dx_'] * toreal(g.f['nx_']), g.f['x_upper_'] - g.f['x_lower_']), eq(g.f['dy_'] * toreal(g.f['ny_']), g.f['y_upper_'] - g.f['y_lower_'])))


def quarter(g, i):
    xl, xu, yl, yu = (g.f[x] for x in ('x_lower_', 'x_upper_', 'y_lower_', 'y_upper_'))
    xm, ym = (xl + xu) / R(2), (yl + yu) / R(2)
    a, b = ((xl, xm), (xm, xu))[i % 2]
    p, q = ((yl, ym), (ym, yu))[i // 2]
    return grid(g.f['nx_'], a, b, g.f['ny_'], p, q)


@C(FACT + '::createNode', 5)
def _(c):
    data, path, level, pf, pl = (c.val(i) for i in range(5))
    if c.mode == 'apply': raise Unsupported('createNode at a call site')
    def post(eng, st, pre, tag):
        v = c.result
        node(c, data.f['grid_'].f, path, level, pf, pl)(eng, st, v, tag)
    c.requires(eq(data.f['n_coarsens'], I(0)))
    c.post_hooks.append(post)


def child_setup(i):
    def setup(eng, st, this, argv):
        v = argv[0][1]
        cells(eng, st, eng.peek(st, v.loc).f['data'].f['grid_'])
        st.assume(not_(v.null))
        return [argv[0], ('val', I(i))] + argv[2:]
    return ('child %d' % i, setup)


@C(FACT + '::createChildNode', 4, variants=[child_setup(i) for i in range(4)])
def _(c):
    if c.mode == 'apply': raise Unsupported('createChildNode at a call site')
    par, sib, pf, pl = (c.val(i) for i in range(4))
    p = c.eng.peek(c.pre, par.loc)
    i = int(cval(sib))
    want = node(c, quarter(p.f['data'].f['grid_'], i), strcat(p.f['path'], strlit(str(i))), p.f['level'] + 1, pf, pl)
    c.post_hooks.append(lambda eng, st, pre, tag: want(eng, st, c.result, tag))


def family_setup(kind):
    """four sibling nodes; 'children': exactly the ones createChildNode makes from some parent"""
    def setup(eng, st, this, argv):
        par = Sym.value(eng, NODE, 'parent', None, (), st)
        g = par.f['data'].f['grid_']
        cells(eng, st, g)
        kids = []
        for i in range(4):
            v = Sym.value(eng, NODE, 'child%d' % i, None, (), st)
            v = setf(v, ('path',), strcat(par.f['path'], strlit(str(i))))
            v = setf(v, ('level',), par.f['level'] + 1)
            for f, x in quarter(g, i).items(): v = setf(v, ('data', 'grid_', f), x)
            kids.append(Ptr(eng.alloc(st, v)))
        eng.parent = par
        return [('val', Vec(NODE + ' *', kids))] + argv[1:]
    return (kind, setup)


@C(FACT + '::createParentNode', 3, variants=[family_setup('the children of a node')])
def _(c):
    if c.mode == 'apply': raise Unsupported('createParentNode at a call site')
    p = c.eng.parent
    g = p.f['data'].f['grid_']
    want = node(c, grid(g.f['nx_'], g.f['x_lower_'], g.f['x_upper_'], g.f['ny_'], g.f['y_lower_'], g.f['y_upper_']), p.f['path'], p.f['level'], c.val(1), c.val(2))
    c.post_hooks.append(lambda eng, st, pre, tag: want(eng, st, c.result, tag))


# ------------------------------------------------------------------ data cache
for _t in ('double', 'Matrix<double>'):
    DC = 'DataCache<%s>' % _t

    @C(DC + '::operator[]', 1)
    def _(c, t=_t):
        k = c.val(0)
        m = c.this.f['map_']
        if c.mode == 'apply': raise Unsupported('cache access at a call site')
        def post(eng, st, pre, tag):
            a = eng.peek(st, c.thislv).f['map_']
            q = var('name!', 'Str')
            s = st.fork()
            eng.oblige(s.fork(), 'the name is present afterwards' + tag, a.has_at(k))
            eng.oblige(s.fork(), 'other names are as present as before' + tag, or_(eq(q, k), iff(a.has_at(q), m.has_at(q))))
            compare(eng, st.fork(and_(m.has_at(q), ne(q, k))), m.at(q), a.at(q), 'objects under other names' + tag)
            compare(eng, st.fork(m.has_at(k)), m.at(k), a.at(k), 'a present object stays until it is written' + tag)
            lv = c.res_lv
            # writing through the result stores under that name, and only there
            old = a
            new = Sym.value(eng, t, 'written', None, (), st)
            s2 = st.fork()
            eng.put(s2, lv, new)
            b = eng.peek(s2, c.thislv).f['map_']
            compare(eng, s2.fork(), new, b.at(k), 'the object written through the result is read under the name' + tag)
            compare(eng, s2.fork(and_(old.has_at(q), ne(q, k))), old.at(q), b.at(q), 'objects under other names after the write' + tag)
            eng.oblige(s2.fork(), 'presence is not changed by the write' + tag, iff(b.has_at(q), a.has_at(q)))
            # reading the result
            compare(eng, st.fork(m.has_at(k)), m.at(k), eng.load(st, lv), 'the result is the object stored under the name' + tag)
        c.set(c.field('map_'), Pred(lambda v: TRUE, 'see below'))
        c.post_hooks.append(post)

    @C(DC + '::contains', 1)
    def _(c): c.ret(c.this.f['map_'].has_at(c.val(0)))

    @C(DC + '::DataCache', 0)
    def _(c):
        if c.mode == 'apply': raise Unsupported('cache construction at a call site')
        def post(eng, st, pre, tag):
            a = eng.peek(st, c.thislv).f['map_']
            eng.oblige(st.fork(), 'a new cache is empty' + tag, not_(a.has_at(var('name!', 'Str'))))
        c.post_hooks.append(post)

    @C(DC + '::DataCache', 1)
    def _(c): c.setthis(Struct(c.f.cls, {'map_': c.val(0)}))
