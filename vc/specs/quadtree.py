"""Contracts of the path-indexed tree (src/Quadtree.hpp, src/P4est.cpp): what is stored for every quadrant, and what every
traversal does at every quadrant it is led to by p4est, before or after the quadrant's descendants."""
from terms import *
from values import *
from contract import *
import engine, externs, cast, mpimodel
from externs import fun, note, strcat, strjoin, strlit, strlen
from engine import Throw
from specs.hps import setf

CONTRACTS = []
QT = 'Quadtree<FiniteVolumePatch>'
NODE = 'Node<FiniteVolumePatch>'
FACT = 'AbstractNodeFactory<FiniteVolumePatch>'
WORLD = app('comm:&ompi_mpi_comm_world', [], INT)
MAXLEVEL = 30  # P4EST_MAXLEVEL; the depth of a quadrant never exceeds it (29 for quadrants)


def C(key, nargs=None, ptypes=None, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, **kw))
        return f
    return d


# ------------------------------------------------------------------ paths
ANC = 'quadrant.ancestor_id'


def anc(q, l): return app(ANC, [q.f['x'], q.f['y'], q.f['level'], l], INT)


def quadrant_of(eng, st, a, fr):
    p = eng.rv(st, a, fr)
    return eng.peek(st, p.loc)


@fun('p4est_quadrant_ancestor_id')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_quadrant_ancestor_id(q, l) is the child number 0..3 of the ancestor of q at level l')
    q, l = quadrant_of(eng, st, a[0], fr), eng.rv(st, a[1], fr)
    eng.oblige(st, 'p4est_quadrant_ancestor_id: a level of the quadrant', and_(le(I(0), l), le(l, q.f['level'])))
    r = anc(q, l)
    st.assume(and_(le(I(0), r), lt(r, I(4))))
    return ('val', r)


@fun('p4est_quadrant_child_id')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_quadrant_child_id(q) is its ancestor id at its own level')
    q = quadrant_of(eng, st, a[0], fr)
    r = anc(q, q.f['level'])
    st.assume(and_(le(I(0), r), lt(r, I(4))))
    k = known_value(eng, st, r)
    return ('val', I(k) if k is not None else r)


def known_value(eng, st, r):
    for k in range(4):
        if eng.known(st, eq(r, I(k))): return k
    return None


def digit(eng, st, r):
    k = known_value(eng, st, r)
    return strlit(str(k)) if k is not None else app('to_string.Int', [r], 'Str')


def path_of(q): return app('quadrant.path', [q.f['x'], q.f['y'], q.f['level']], 'Str')


PARENT = app('path of the parent', [], 'Str')


def level_setup(l):
    def setup(eng, st, this, argv):
        p = argv[0][1]
        q = eng.peek(st, p.loc)
        st.assume(not_(p.null))
        eng.put(st, p.loc, setf(q, ('level',), I(l)))
        return argv
    return ('level %d' % l, setup)


@C('p4est::p4est_quadrant_path', 1, variants=[level_setup(l) for l in range(MAXLEVEL + 1)])
def _(c):
    """the child numbers of the ancestors of a quadrant from the root ("0") down to itself"""
    p = c.val(0)
    q = c.eng.peek(c.pre, p.loc)
    if c.mode == 'apply':
        h = getattr(c.eng, 'paths', {}).get(p.loc[0])
        c.ret(h if h is not None else path_of(q))
        return
    l = int(cval(q.f['level']))
    def post(eng, st, pre, tag):
        ds = [app('to_string.' + INT, [anc(q, I(k))], 'Str') for k in range(1, l + 1)]
        compare(eng, st, strjoin([strlit('0')] + ds), c.result, 'the path' + tag)
    c.post_hooks.append(post)


# ------------------------------------------------------------------ traversals
RANK = None


def user_fn(name, ret):
    def call(eng, st, args, fr):
        vs = []
        for a in args:
            t = cast.norm_type(cast.qt(a))
            if a.get('valueCategory') == 'lvalue' and t == 'FiniteVolumePatch': vs.append(Ptr(eng.lv(st, a, fr)))
            else: vs.append(eng.rv(st, a, fr))
        st.trace.append((name, vs))
        return ('val', ret)
    return FnVal(name, call)


@fun('p4est_search_reorder')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_search_reorder visits every quadrant that overlaps the local part of the forest once; the first callback runs before, the second after those of its descendants, which are visited unless the first returns 0')
    vals = [eng.rv(st, x, fr) for x in a]
    h = getattr(eng, 'on_reorder', None)
    if h is None: raise Unsupported('p4est_search_reorder')
    h(eng, st, vals)
    return ('val', None)


@fun('p4est_search_all')
def _(eng, st, a, fr, n):
    note(eng, 'p4est_search_all visits every quadrant above or in the forest once, before its descendants, which are visited unless the callback returns 0, with the first and last process it overlaps')
    vals = [eng.rv(st, x, fr) for x in a]
    h = getattr(eng, 'on_search_all', None)
    if h is None: raise Unsupported('p4est_search_all')
    h(eng, st, vals)
    return ('val', None)


def is_null(v): return v is None or isinstance(v, Ptr) and v.loc is None or isinstance(v, Term) and cval(v) == 0


def call_cb(eng, st, cb, args):
    if isinstance(cb, engine.Closure): r = eng.call_closure(st, cb, [('val', x) for x in args], None)
    elif isinstance(cb, engine.FnRef):
        f = eng.find_func(cb.d['id'])
        if f is None: raise Unsupported('callback')
        r = eng.call_func(st, f, None, [('val', x) for x in args])
    else: raise Unsupported('callback %r' % (cb,))
    return r[1] if r[0] == 'val' else eng.peek(st, r[1])


RET = var('value of the callback')


def setup_tree(kind, case):
    """this: a tree whose p4est, nodes at one arbitrary quadrant and its children are known"""
    def setup(eng, st, this, argv):
        p4 = eng.alloc(st, Sym.value(eng, 'p4est', 'forest', None, (), st))
        eng.p4 = p4
        eng.put(st, (this[0], this[1] + (('f', 'p4est'),)), Ptr(p4))
        eng.put(st, (p4[0], p4[1] + (('f', 'user_pointer'),)), Ptr(None))
        q = eng.alloc(st, Sym.value(eng, 'p4est_quadrant', 'quadrant', None, (), st))
        eng.quad = q
        path = var('path', 'Str')
        eng.paths = {q[0]: path}
        eng.qpath = path
        rank = app('mpi.rank', [WORLD], INT)
        eng.oblige_rank = rank
        mapv = vget(st.store[this[0]], this[1] + (('f', 'map'),))
        def new(name, path_, owned):
            v = setf(Sym.value(eng, NODE, name, None, (), st), ('path',), path_)
            pf, pl = v.f['pfirst'], v.f['plast']
            st.assume(and_(le(I(0), pf), le(pf, pl)))
            st.assume(and_(le(pf, rank), le(rank, pl)) if owned else or_(lt(rank, pf), lt(pl, rank)))
            return eng.alloc(st, v)
        eng.node = new('node', path, True)
        m = mapv.put(path, Ptr(eng.node))
        st.assume(not_(Ptr(eng.node).null))
        eng.kids = []
        nd = eng.peek(st, eng.node)
        for i in range(4):
            have = case not in ('leaf',) and (case == 'one process' or case[0] == 'spread' and i in case[1])
            k = new('child%d' % i, strcat(path, strlit(str(i))), have) if case != 'leaf' else None
            eng.kids.append(k if have else None)
            if case != 'leaf': m = m.put(strcat(path, strlit(str(i))), Ptr(k) if have else Ptr(None))
        eng.put(st, (this[0], this[1] + (('f', 'map'),)), m)
        if case == 'one process': st.assume(eq(nd.f['pfirst'], nd.f['plast']))
        elif case != 'leaf': st.assume(lt(nd.f['pfirst'], nd.f['plast']))
        eng.local = fresh('local_num')
        st.assume(le(I(0), eng.local) if case == 'leaf' else lt(eng.local, I(0)))
        st.assume(eq(vget(st.store[this[0]], this[1] + (('f', 'communication_policy'),)), I(0)))
        eng.case = case
        eng.this = this
        eng.on_reorder = reorder
        eng.overrides = {'MPI::broadcast': record_broadcast}
        eng.allreduce = allreduce
        fns = [user_fn('visit %d' % i, RET) for i in range(len(argv))]
        return [('val', f) for f in fns]
    return (case if isinstance(case, str) else 'spread over processes, local children %s' % (list(case[1]),), setup)


def reorder(eng, st, vals):
    p, skip, _, pre, post, pt, pts = vals
    ok = isinstance(p, Ptr) and p.loc is not None and p.loc[0] == eng.p4[0]
    eng.oblige(st, 'the forest of this tree is traversed', TRUE if ok else FALSE)
    eng.oblige(st, 'no level is skipped', eq(skip, I(0)) if isinstance(skip, Term) else FALSE)
    up = vget(st.store[eng.p4[0]], eng.p4[1] + (('f', 'user_pointer'),))
    st.trace.append(('begin', 'traversal'))
    for slot, cb in (('before', pre), ('after', post)):
        if is_null(cb): continue
        st.trace.append(('slot', slot))
        r = call_cb(eng, st, cb, [Ptr(eng.p4), I(0), Ptr(eng.quad), eng.local, Ptr(None)])
        st.trace.append(('returns', slot, r))


def record_broadcast(eng, st, f, this, argv):
    lv = argv[0][1]
    st.trace.append(('broadcast', lv, argv[1][1], argv[2][1]))
    return ('val', None)


def allreduce(eng, st, mine, comm, op):
    r = fresh('largest')
    st.assume(le(mine, r))
    st.trace.append(('allreduce', mine, r, comm, op))
    return r


@fun('MPI_Allreduce')
def _(eng, st, a, fr, n):
    note(eng, 'MPI_Allreduce returns the same combination of the contributions of all processes of the communicator to each of them')
    h = getattr(eng, 'allreduce', None)
    if h is None: raise Unsupported('MPI_Allreduce')
    sp = eng.rv(st, mpimodel.uncast(a[0]), fr)
    mine = eng.load(st, sp.loc)
    count, typ, op, comm = eng.rv(st, a[2], fr), mpimodel.datatype(eng, st, a[3], fr), eng.rv(st, a[4], fr), externs.comm_term(eng.rv(st, a[5], fr))
    eng.oblige(st, 'MPI_Allreduce: one int', and_(eq(count, I(1)), TRUE if typ == 'int' else FALSE))
    r = h(eng, st, mine, comm, op)
    eng.put(st, eng.rv(st, mpimodel.uncast(a[1]), fr).loc, r)
    return ('val', I(0))


def node_visit(slot, data, family):
    def spec(c):
        eng = c.eng
        for f in ('visit_node_fn', 'visit_node_data_fn', 'visit_family_fn', 'map'): c.set(c.field(f), ANY)
        c.set((eng.p4[0], ()), ANY)
        def post(eng, st, pre, tag):
            ob = lambda n, g: eng.oblige(st.fork(), n + tag, g)
            tr = st.trace
            ob('the forest is traversed once', TRUE if len([e for e in tr if e[0] == 'begin']) == 1 else FALSE)
            where, calls = None, []
            for e in tr:
                if e[0] == 'slot': where = e[1]
                elif e[0].startswith('visit'): calls.append((where, e))
            leaf = eng.case == 'leaf'
            want = 'visit 1' if family and not leaf else 'visit 0'
            ob('one callback is called once', TRUE if len(calls) == 1 else FALSE)
            if len(calls) != 1: return
            ob('it is the callback for this kind of node', TRUE if calls[0][1][0] == want else FALSE)
            ob('called %s the descendants are visited' % slot, TRUE if calls[0][0] == slot else FALSE)
            args = calls[0][1][1]
            tgt = (eng.node[0], eng.node[1] + (('f', 'data'),)) if data else eng.node
            if isinstance(args[0], Ptr): compare(eng, st, Ptr(tgt), args[0], 'what it is handed' + tag)
            else: ob('it is handed an object of the tree', FALSE)
            for e in tr:
                if e[0] == 'returns' and e[1] == 'before':
                    if slot == 'before' and not data: ob('the callback decides on the descent', eq(e[2], RET))
                    else: ob('the descendants are visited', ne(e[2], I(0)))
            m = vget(st.store[eng.this[0]], eng.this[1] + (('f', 'map'),))
            compare(eng, st, Ptr(eng.node), m.at(eng.qpath), 'the node stays in the tree' + tag)
            for i, k in enumerate(eng.kids):
                if k is not None: compare(eng, st, Ptr(k), m.at(strcat(eng.qpath, strlit(str(i)))), 'child %d stays in the tree' % i + tag)
            if want == 'visit 1': family_args(eng, st, args, tag)
        c.post_hooks.append(post)
    return spec


def family_args(eng, st, args, tag):
    ob = lambda n, g: eng.oblige(st.fork(), n + tag, g)
    kids = args[1]
    ob('four children are handed over', TRUE if isinstance(kids, Vec) and kids.elems is not None and len(kids.elems) == 4 else FALSE)
    if not (isinstance(kids, Vec) and kids.elems is not None and len(kids.elems) == 4): return
    for i, k in enumerate(kids.elems):
        k = eng.unconflict(st, k)
        if eng.kids[i] is not None: compare(eng, st, Ptr(eng.kids[i]), k, 'child %d' % i + tag)
        else:
            new = isinstance(k, Ptr) and k.loc is not None and k.loc[0] not in [x[0] for x in eng.kids if x] + [eng.node[0]]
            ob('child %d, kept elsewhere, is received into an object of its own' % i, TRUE if new else FALSE)
    if eng.case == 'one process':
        ob('nothing is sent inside a process', TRUE if not [e for e in st.trace if e[0] in ('broadcast', 'allreduce')] else FALSE)
        return
    nd = eng.peek(st, eng.node)
    comm = externs.comm_term(nd.f['node_comm'])
    rank = app('mpi.rank', [comm], INT)
    ev = [e for e in st.trace if e[0] in ('broadcast', 'allreduce')]
    ob('one agreement and one broadcast per child', TRUE if [e[0] for e in ev] == ['allreduce', 'broadcast'] * 4 else FALSE)
    if [e[0] for e in ev] != ['allreduce', 'broadcast'] * 4: return
    for i in range(4):
        ar, bc = ev[2 * i], ev[2 * i + 1]
        k = eng.unconflict(st, kids.elems[i])
        ob('child %d: the broadcast fills or sends the object handed over' % i, TRUE if isinstance(k, Ptr) and k.loc == bc[1] else FALSE)
        ob('child %d: on the processes of the parent' % i, and_(eq(ar[3], comm), eq(externs.comm_term(bc[3]), comm)))
        ob('child %d: the agreed root sends' % i, eq(bc[2], ar[2]))
        ob('child %d: the largest contribution' % i, TRUE if isinstance(ar[4], Opaque) and 'max' in ar[4].what or isinstance(ar[4], Ptr) else FALSE)
        # whichever process has the child contributes its rank, the others 0: the largest contribution is that of a process that has it
        mine = ar[1]
        ob('child %d: what this process contributes' % i, eq(mine, rank) if eng.kids[i] is not None else le(mine, I(0)))


CASES = ['leaf', 'one process', ('spread', (0, 3)), ('spread', (1, 2)), ('spread', ()), ('spread', (0, 1, 2, 3))]
for _name, _slot in (('traversePreOrder', 'before'), ('traversePostOrder', 'after')):
    for _pt, _data in (('std::function<int (Node<FiniteVolumePatch>*)>', False), ('std::function<void (FiniteVolumePatch&)>', True)):
        CONTRACTS.append(Contract(QT + '::' + _name, node_visit(_slot, _data, False), 1, [_pt], variants=[setup_tree(_name, c) for c in ('leaf', 'one process')], inline=True))
for _name, _slot in (('merge', 'after'), ('split', 'before')):
    CONTRACTS.append(Contract(QT + '::' + _name, node_visit(_slot, False, True), 2, variants=[setup_tree(_name, c) for c in CASES], inline=True))


# ------------------------------------------------------------------ construction
SAVED = 'what the user pointer was before'


def build_setup(i, owned):
    """one arbitrary quadrant: the root (i is None) or child i of a quadrant whose node is already in the tree"""
    def setup(eng, st, this, argv):
        p4 = eng.alloc(st, Sym.value(eng, 'p4est', 'forest', None, (), st))
        eng.saved = eng.alloc(st, I(0))
        eng.put(st, (p4[0], (('f', 'user_pointer'),)), Ptr(eng.saved))
        eng.p4 = p4
        eng.root_data, eng.fact = argv[2][1], argv[3][1]
        q = eng.alloc(st, Sym.value(eng, 'p4est_quadrant', 'quadrant', None, (), st))
        level = eng.peek(st, q).f['level']
        st.assume(eq(level, I(0)) if i is None else and_(lt(I(0), level), lt(level, I(MAXLEVEL))))
        eng.quad, eng.owned, eng.sib = q, owned, i
        eng.parent_path = var('parent path', 'Str')
        eng.qpath = strlit('0') if i is None else strcat(eng.parent_path, strlit(str(i)))
        if i is not None: st.assume(eq(anc(eng.peek(st, q), level), I(i)))
        eng.paths = {q[0]: eng.qpath}
        eng.this = this
        eng.rank = app('mpi.rank', [WORLD], INT)
        eng.on_search_all = search_all
        eng.overrides = {FACT + '::createNode': make_node('createNode'), FACT + '::createChildNode': make_node('createChildNode'), FACT + '::createParentNode': make_node('createParentNode'),
                         'MPI::communicatorSubsetRange': subset}
        return [('val', WORLD), ('val', Ptr(p4)), argv[2], argv[3]]
    return ('%s, %s' % ('root' if i is None else 'child %d' % i, 'overlaps this process' if owned else 'elsewhere'), setup)


def subset(eng, st, f, this, argv):
    sup, a, b, tag, p = [eng.arg_val(st, x) for x in argv]
    eng.assumed.add('MPI::communicatorSubsetRange yields the communicator of the processes in the range')
    st.trace.append(('subset', sup, a, b))
    eng.put(st, p.loc, app('communicator of a range', [externs.comm_term(sup), a, b], INT))
    return ('val', None)


def make_node(kind):
    def h(eng, st, f, this, argv):
        vals = [eng.arg_val(st, a) for a in argv]
        v = Sym.value(eng, NODE, fresh('new node').args[0], None, (), st)
        if kind == 'createNode': fs = dict(path=vals[1], level=vals[2], pfirst=vals[3], plast=vals[4])
        elif kind == 'createChildNode':
            par = eng.peek(st, eng.unconflict(st, vals[0]).loc)
            k = cval(vals[1])
            if k is None: raise Unsupported('child number')
            fs = dict(path=strcat(par.f['path'], strlit(str(int(k)))), level=par.f['level'] + 1, pfirst=vals[2], plast=vals[3])
        else: raise Unsupported(kind)
        for n, x in fs.items(): v = setf(v, (n,), x)
        eng.assumed.add('node factories make nodes as FiniteVolumeNodeFactory does (C14)')
        lv = eng.alloc(st, v)
        st.trace.append((kind, this, vals, lv))
        return ('val', Ptr(lv))
    return h


def search_all(eng, st, vals):
    p, post_, cb, pt, pts = vals
    this = eng.this
    mlv = (this[0], this[1] + (('f', 'map'),))
    ok = isinstance(p, Ptr) and p.loc is not None and p.loc[0] == eng.p4[0]
    eng.oblige(st, 'the given forest is searched', TRUE if ok else FALSE)
    st.trace.append(('search',))
    q = eng.peek(st, eng.quad)
    pf, pl, num = fresh('pfirst'), fresh('plast'), fresh('local_num')
    st.assume(and_(le(I(0), pf), le(pf, pl)))
    st.assume(and_(le(pf, eng.rank), le(eng.rank, pl)) if eng.owned else or_(lt(eng.rank, pf), lt(pl, eng.rank)))
    m = eng.peek(st, mlv)
    k = fresh('mk', 'Str')
    m = MapV(m.et, k, app('in the map', [k], BOOL), Opaque('an earlier node'))
    par = None
    if eng.sib is not None and eng.owned:
        v = Sym.value(eng, NODE, 'parent', None, (), st)
        for n, x in (('path', eng.parent_path), ('level', q.f['level'] - 1)): v = setf(v, (n,), x)
        par = eng.alloc(st, v)
        m = m.put(eng.parent_path, Ptr(par))
    eng.put(st, mlv, m)
    r = call_cb(eng, st, cb, [Ptr(eng.p4), I(0), Ptr(eng.quad), pf, pl, num, Ptr(None)])
    ob = lambda n, g: eng.oblige(st.fork(), n, g)
    ob('the search goes on below the quadrant', ne(r, I(0)))
    m1 = eng.peek(st, mlv)
    made = [e for e in st.trace if e[0].startswith('create')]
    if not eng.owned:
        ob('no node is made for a quadrant of other processes', FALSE if made else TRUE)
        w = m1.at(eng.qpath)
        st2 = st.fork(m1.has_at(eng.qpath))
        w = eng.unconflict(st2, w)
        if isinstance(w, Opaque): ob('a quadrant of other processes has no node', not_(m1.has_at(eng.qpath)))
        else: compare(eng, st2, Ptr(None), w, 'a quadrant of other processes has no node')
        return
    ob('one node is made', TRUE if len(made) == 1 else FALSE)
    ob('the quadrant is stored under its path', m1.has_at(eng.qpath))
    if len(made) != 1: return
    kind, fthis, a, lv = made[0]
    compare(eng, st, Ptr(lv), m1.at(eng.qpath), 'the node stored under the path')
    nd = eng.peek(st, lv)
    for n, x in (('path', eng.qpath), ('level', q.f['level']), ('pfirst', pf), ('plast', pl), ('leaf', le(I(0), num)), ('node_comm', app('communicator of a range', [WORLD, pf, pl], INT)), ('node_comm_set', TRUE)):
        compare(eng, st, x, nd.f[n], 'node ' + n)
    ob('made by the given factory', TRUE if fthis == eng.fact else FALSE)
    if par is not None:
        ob('a quadrant below another is its child', TRUE if kind == 'createChildNode' else FALSE)
        if kind == 'createChildNode':
            compare(eng, st, Ptr(par), eng.unconflict(st, a[0]), 'made from the node of its parent')
            compare(eng, st, I(eng.sib), a[1], 'its number among the children')
        compare(eng, st, Ptr(par), m1.at(eng.parent_path), 'the parent stays in the tree')
    else:
        ob('the root is made from the given data', TRUE if kind == 'createNode' else FALSE)
        if kind == 'createNode': compare(eng, st, eng.peek(st, eng.root_data).f['grid_'], a[0].f['grid_'], 'the data of the root')
    o = fresh('other path', 'Str')
    s2 = st.fork(and_(ne(o, eng.qpath), ne(o, eng.parent_path)))
    ob2 = eng.oblige(s2, 'other nodes stay', eq(m1.has_at(o), m.has_at(o)))


@C(QT + '::Quadtree', 4, variants=[build_setup(i, o) for i in (None, 0, 1, 2, 3) for o in (True, False)], inline=True)
def _(c):
    eng = c.eng
    c.set(c.field(), ANY)
    def post(eng, st, pre, tag):
        ob = lambda n, g: eng.oblige(st.fork(), n + tag, g)
        ob('the forest is searched once', TRUE if len([e for e in st.trace if e[0] == 'search']) == 1 else FALSE)
        t = eng.peek(st, eng.this)
        compare(eng, st, Ptr(eng.p4), t.f['p4est'], 'the forest' + tag)
        compare(eng, st, Ptr(eng.root_data), t.f['root_data_ptr_'], 'the prototype' + tag)
        compare(eng, st, Ptr(eng.fact), t.f['node_factory'], 'the factory' + tag)
        compare(eng, st, Ptr(eng.saved), eng.peek(st, eng.p4).f['user_pointer'], 'the user pointer of the forest is restored' + tag)
        compare(eng, st, I(0), t.f['communication_policy'], 'nodes of several processes are broadcast' + tag)
    c.post_hooks.append(post)


# ------------------------------------------------------------------ assignment
def move_setup(eng, st, this, argv):
    src = argv[0][1]
    for lv, nm in ((this, 'to'), (src, 'from')):
        p4 = eng.alloc(st, Sym.value(eng, 'p4est', nm, None, (), st))
        eng.put(st, (lv[0], lv[1] + (('f', 'p4est'),)), Ptr(p4))
    eng.mkey = var('a path', 'Str')
    nd = eng.alloc(st, Sym.value(eng, NODE, 'node', None, (), st))
    mlv = (src[0], src[1] + (('f', 'map'),))
    eng.put(st, mlv, eng.peek(st, mlv).put(eng.mkey, Ptr(nd)))
    eng.mnode, eng.src = nd, eng.peek(st, src)
    return argv


@C(QT + '::operator=', 1, variants=[('', move_setup)], inline=True)
def _(c):
    c.set(c.thislv, ANY)
    c.set(c.lvarg(0), ANY)
    def post(eng, st, pre, tag):
        t = eng.peek(st, c.thislv)
        m = t.f['map']
        eng.oblige(st.fork(), 'a node of the source is in the tree' + tag, m.has_at(eng.mkey))
        compare(eng, st, Ptr(eng.mnode), eng.unconflict(st, m.at(eng.mkey)), 'it is the same node' + tag)
        k = var('another path', 'Str')
        eng.oblige(st.fork(), 'the same paths' + tag, eq(m.has_at(k), eng.src.f['map'].has_at(k)))
        for n in ('p4est', 'root_data_ptr_', 'node_factory'): compare(eng, st, eng.src.f[n], t.f[n], n + tag)
    c.post_hooks.append(post)


def tree_root_setup(eng, st, this, argv):
    nd = eng.alloc(st, Sym.value(eng, NODE, 'the root', None, (), st))
    mlv = (this[0], this[1] + (('f', 'map'),))
    eng.put(st, mlv, eng.peek(st, mlv).put(strlit('0'), Ptr(nd)))
    eng.rnode = nd
    return argv


@C(QT + '::root', 0, variants=[('', tree_root_setup)], inline=True)
def _(c):
    c.set(c.field('map'), ANY)
    def post(eng, st, pre, tag):
        compare(eng, st, Ptr((eng.rnode[0], eng.rnode[1] + (('f', 'data'),))), Ptr(c.res_lv), 'the data of the root' + tag)
    c.post_hooks.append(post)


# ------------------------------------------------------------------ communicators of a node
@fun('MPI_Comm_group')
def _(eng, st, a, fr, n):
    note(eng, 'MPI groups: MPI_Comm_group, MPI_Group_range_incl and MPI_Comm_create_group')
    externs.out_param(eng, st, a[1], fr, app('mpi.group', [externs.comm_term(eng.rv(st, a[0], fr))], INT))
    return ('val', I(0))


@fun('MPI_Group_range_incl')
def _(eng, st, a, fr, n):
    g, k, p = eng.rv(st, a[0], fr), eng.rv(st, a[1], fr), eng.rv(st, a[2], fr)
    lv = eng.ptr_idx(p)[0]
    rows = eng.peek(st, lv)
    eng.oblige(st, 'MPI_Group_range_incl: the ranges exist', and_(le(I(0), k), le(k, rows.len)))
    if cval(k) != 1: raise Unsupported('several ranges')
    r = rows.tolam().at((I(0),)) if rows.elems is None else rows.elems[0]
    lo, hi, step = r.elems
    if cval(step) != 1: raise Unsupported('range with a stride')
    externs.out_param(eng, st, a[3], fr, app('mpi.subgroup', [g, lo, hi], INT))
    return ('val', I(0))


@fun('MPI_Comm_create_group')
def _(eng, st, a, fr, n):
    c, g = externs.comm_term(eng.rv(st, a[0], fr)), eng.rv(st, a[1], fr)
    if not (g.op == 'app' and g.args[0] == 'mpi.subgroup' and g.args[1] is app('mpi.group', [c], INT)): raise Unsupported('group of another communicator')
    externs.out_param(eng, st, a[3], fr, app('communicator of a range', [c, g.args[2], g.args[3]], INT))
    return ('val', I(0))


@fun('MPI_Comm_get_name')
def _(eng, st, a, fr, n):
    k = fresh('length of a name')
    st.assume(and_(le(I(0), k), lt(k, I(128))))
    externs.out_param(eng, st, a[2], fr, k)
    return ('val', I(0))


@fun('MPI_Comm_set_name', 'MPI_Group_free')
def _(eng, st, a, fr, n): return ('val', I(0))


def subset_setup(eng, st, this, argv):
    out = eng.alloc(st, I(0))
    eng.out = out
    st.assume(and_(le(I(0), argv[1][1]), le(argv[1][1], argv[2][1])))
    return [('val', WORLD), argv[1], argv[2], argv[3], ('val', Ptr(out))]


@C('MPI::communicatorSubsetRange', 5, variants=[('', subset_setup)], inline=True)
def _(c):
    c.set(c.eng.out, ANY)
    def post(eng, st, pre, tag):
        compare(eng, st, app('communicator of a range', [WORLD, c.val(1), c.val(2)], INT), eng.peek(st, eng.out), 'the communicator of the processes in the range' + tag)
    c.post_hooks.append(post)
