"""Contracts of the XML documents (src/XMLTree.cpp) and the VTK files (src/VTK.cpp, src/Vector.hpp)."""
from terms import *
from values import *
from contract import *
import engine, externs, appends, strs
from engine import strlit, Throw, Dead
from externs import strcat, strlen, strjoin, len_facts

CONTRACTS = []
K = appends.K0


def C(key, nargs=None, ptypes=None, inline=True, **kw):
    def d(f):
        CONTRACTS.append(Contract(key, f, nargs, ptypes, inline=inline, weak=True, **kw))
        return f
    return d


def cat(*ps): return strjoin([strlit(p) if isinstance(p, str) else p for p in ps])


def concat(n, piece): return appends.concat(n, piece, K)


# ------------------------------------------------------------------ pairs
def pair(eng, st, tn, args, fr, n):
    v = [eng.rv(st, a, fr) for a in args]
    if len(v) == 1 and isinstance(v[0], Struct): return v[0]
    if len(v) != 2: raise Unsupported('pair')
    return Struct('#pair', {'first': v[0], 'second': v[1]})


externs.CONSTRUCT['std::pair'] = pair


# ------------------------------------------------------------------ files written
def outfile(eng, st, tn, args, fr, n):
    f = Struct('#out', {'path': strlit(''), 'text': strlit(''), 'open': FALSE})
    return opened(f, [eng.rv(st, a, fr) for a in args if a.get('kind') != 'CXXDefaultArgExpr'][:1]) if args else f


def opened(f, v):
    if not v or not (isinstance(v[0], Term) and v[0].sort == 'Str'): raise Unsupported('name of a file')
    return Struct('#out', {'path': v[0], 'text': strlit(''), 'open': TRUE})


for _t in ('std::basic_ofstream', 'std::ofstream'): externs.CONSTRUCT[_t] = outfile
WRITTEN = []


@externs.meth('any.open')
def _(eng, st, this, v, a, fr, n):
    if not (isinstance(v, Struct) and v.cls == '#out'): raise Unsupported('open')
    for x in a[1:]:
        if x.get('kind') != 'CXXDefaultArgExpr': raise Unsupported('how a file is opened')
    eng.put(st, this, opened(v, [eng.rv(st, a[0], fr)]))
    return ('val', None)


@externs.meth('any.close', 'any.flush')
def _(eng, st, this, v, a, fr, n):
    if not (isinstance(v, Struct) and v.cls == '#out'): raise Unsupported('close')
    if n['inner'][0].get('name') == 'close':
        st.trace.append(('file', v.f['path'], v.f['text']))
        eng.put(st, this, Struct('#out', {**v.f, 'open': FALSE}))
    return ('val', None)


@externs.meth('any.is_open', 'any.good')
def _(eng, st, this, v, a, fr, n):
    if not (isinstance(v, Struct) and v.cls == '#out'): raise Unsupported('state of a file')
    return ('val', v.f['open'])


def put(eng, st, lv, v, arg, fr):
    if not (isinstance(v, Struct) and v.cls == '#out'): return None
    a = arg
    while a.get('kind') in ('ImplicitCastExpr', 'MaterializeTemporaryExpr') and a.get('castKind') != 'ArrayToPointerDecay': a = a['inner'][0]
    nm = (a.get('referencedDecl') or {}).get('name')
    if nm == 'endl': x = strlit('\n')
    elif nm == 'flush': x = strlit('')
    else:
        x = eng.rv(st, arg, fr)
        if not isinstance(x, Term) or x.sort not in ('Str',) : raise Unsupported('something else written to a file')
    eng.put(st, (lv[0], lv[1] + (('f', 'text'),)), strcat(v.f['text'], x))
    return ('lv', lv)


externs.STREAM['<<'] = put


# ------------------------------------------------------------------ nodes named by numbers
NODES, ARRAYS = 'nodes', 'arrays'


def nptr(cell, i): return Ptr((cell, (('i', i),)))


def nodeheap(eng, st):
    k, a, c = fresh('k'), fresh('a'), fresh('c')
    cell = eng.alloc(st, None)[0]
    n = Struct('XMLNode', {
        'name': app('node.name', [k], 'Str'), 'data': app('node.data', [k], 'Str'),
        'attributes': Vec('std::pair<std::string, std::string>', None, app('node.na', [k], INT), Lam(a, Struct('#pair', {'first': app('node.key', [k, a], 'Str'), 'second': app('node.value', [k, a], 'Str')}))),
        'children': Vec('XMLNode *', None, app('node.nc', [k], INT), Lam(c, nptr(cell, app('node.child', [k, c], INT))))})
    st.store[cell] = Vec('#heap', None, var('node.count'), Lam(k, n))
    return cell


def idof(lv, what='node'):
    if len(lv[1]) != 1 or lv[1][0][0] != 'i': raise Unsupported('a %s of another kind' % what)
    return lv[1][0][1]


# ------------------------------------------------------------------ nodes
@C('XMLNode::XMLNode', 0)
def _(c): c.setthis(Struct('XMLNode', {'name': strlit(''), 'attributes': Vec('', []), 'data': strlit(''), 'children': Vec('', [])}))


@C('XMLNode::XMLNode', 1, ['std::string'])
def _(c): c.setthis(Struct('XMLNode', {'name': c.val(0), 'attributes': Vec('', []), 'data': strlit(''), 'children': Vec('', [])}))


def appended(v, x):
    if v.elems is not None: return Vec(v.et, v.elems + [x])
    return Vec(v.et, None, v.len + 1, Lam.fn(lambda k: vmerge(eq(k, v.len), x, v.get(k))))


@C('XMLNode::addAttribute', 2)
def _(c): c.set(c.field('attributes'), appended(c.this.f['attributes'], Struct('#pair', {'first': c.val(0), 'second': c.val(1)})))


def node_setup(eng, st, this, argv):
    cell = nodeheap(eng, st)
    st.assume(le(I(0), app('node.nc', [var('this.id')], INT)))
    eng.put(st, (this[0], (('f', 'children'),)), st.store[cell].get(var('this.id')).f['children'])
    new = (cell, (('i', var('new.id')),))
    if isinstance(argv[0], tuple) and argv[0][0] == 'lv': return [('lv', new)]
    return [('val', Ptr(new))]


def add_child(c):
    a = c.argv[0]
    p = Ptr(a[1]) if a[0] == 'lv' and not isinstance(c.eng.peek(c.pre, a[1]), Ptr) else c.val(0)
    c.set(c.field('children'), appended(c.this.f['children'], p))


CONTRACTS.append(Contract('XMLNode::addChild', add_child, 1, inline=True, weak=True, variants=[('a node', node_setup)]))


# ------------------------------------------------------------------ documents
def escaped(ch):
    t = app('char2str', [ch], 'Str')
    for c, e in (('"', '&quot;'), ('>', '&gt;'), ('<', '&lt;'), ('&', '&amp;')): t = ite(eq(ch, I(ord(c))), strlit(e), t)
    return t


def esc(s): return app('xml.esc', [s], 'Str')


def appending(eng, st, this, argv):
    eng.fold = appends.Appends()


@C('::escapeXML', 1, inline=False, variants=[('any text', appending)])
def _(c):
    s = c.val(0)
    if c.mode == 'apply': return c.ret(esc(s))
    c.ret(concat(strlen(s), escaped(app('str.at', [s, K], INT))))


def document(n, i, prefix):
    """the text of a node, of its attributes, data and children"""
    at, ch = n.f['attributes'], n.f['children']
    a = at.get(K)
    head = cat(prefix, '<', n.f['name'], concat(at.len, cat(' ', a.f['first'], '="', esc(a.f['second']), '"')), '>\n')
    data = ite(eq(n.f['data'], strlit('')), strlit(''), cat(esc(n.f['data']), '\n'))
    return [head, data, concat(ch.len, app('xml.document', [idof(ch.get(K).loc), cat(prefix, '  ')], 'Str')), cat(prefix, '</', n.f['name'], '>\n')]


def write_setup(eng, st, this, argv):
    appending(eng, st, this, argv)
    cell = nodeheap(eng, st)
    n = var('node.id')
    st.assume(and_(le(I(0), app('node.na', [n], INT)), le(I(0), app('node.nc', [n], INT))))
    f = eng.alloc(st, Struct('#out', {'path': var('file.path', 'Str'), 'text': var('file.text', 'Str'), 'open': TRUE}))
    return [('lv', f), ('lv', (cell, (('i', n),))), argv[2]]


@C('XMLTree::write_', 3, inline=False, variants=[('any tree', write_setup)])
def _(c):
    f, lv, prefix = c.lvarg(0), c.lvarg(1), c.val(2)
    i = idof(lv)
    out = (f[0], f[1] + (('f', 'text'),))
    old = c.eng.peek(c.pre, out)
    c.requires(c.eng.peek(c.pre, (f[0], f[1] + (('f', 'open'),))))
    if c.mode == 'apply': return c.set(out, strcat(old, app('xml.document', [i, prefix], 'Str')))
    ps = document(c.eng.peek(c.pre, lv), i, prefix)
    n = c.eng.peek(c.pre, lv)
    t = strcat(old, ps[0])
    t = ite(eq(n.f['data'], strlit('')), t, strcat(t, cat(esc(n.f['data']), '\n')))
    c.set(out, strcat(strcat(t, ps[2]), ps[3]))


def tree_setup(eng, st, this, argv):
    appending(eng, st, this, argv)
    cell = nodeheap(eng, st)
    st.assume(le(I(0), app('node.nc', [var('this.id')], INT)))
    eng.put(st, (this[0], (('f', 'root_'),)), nptr(cell, var('root.id')))


@C('XMLTree::write', 1, variants=[('any tree', tree_setup)])
def _(c):
    c.events = [('file', [c.val(0), cat('<?xml version="1.0"?>\n', app('xml.document', [idof(c.this.f['root_'].loc), strlit('')], 'Str'))])]


@C('XMLTree::XMLTree', 1, ['XMLNode'])
def _(c): c.setthis(Struct('XMLTree', {'root_': Ptr(c.lvarg(0))}))


# ------------------------------------------------------------------ numbers in names
def formatted(eng, st, fmt, vals):
    """the text of a format with integers, and a bound of its length"""
    import re
    out, bound, pos, vals = [], 0, 0, list(vals)
    for m in re.finditer(r'%(?:%|(0?)(\d*)([dixXou]))', fmt):
        out.append(fmt[pos:m.start()]); bound += m.start() - pos; pos = m.end()
        if m.group(0) == '%%': out.append('%'); bound += 1; continue
        if not vals or not (isinstance(vals[0], Term) and vals[0].sort == INT): raise Unsupported('format')
        out.append(app('fmt:%' + m.group(1) + m.group(2) + m.group(3).replace('i', 'd'), [vals.pop(0)], 'Str'))
        bound += max(int(m.group(2) or 0), 11)
    out.append(fmt[pos:]); bound += len(fmt) - pos
    if vals or '%' in re.sub(r'%%', '', ''.join(x for x in out if isinstance(x, str) and x != '%')): raise Unsupported('format')
    return cat(*out), bound


def printing(sized):
    def h(eng, st, a, fr, n):
        b = a[0]
        while b.get('kind') == 'ImplicitCastExpr': b = b['inner'][0]
        lv = eng.lv(st, b, fr)
        old = eng.peek(st, lv)
        m = engine.re.match(r'char\[(\d+)\]$', cast.norm_type(cast.qt(b)))
        if not m: raise Unsupported('buffer')
        room = I(int(m.group(1)))
        if sized:
            eng.oblige(st, 'the buffer is as large as stated', le(eng.rv(st, a[1], fr), room))
            room = eng.rv(st, a[1], fr)
        f = eng.rv(st, a[2 if sized else 1], fr)
        if not (isinstance(f, Term) and f.op == 'strlit'): raise Unsupported('format')
        t, bound = formatted(eng, st, f.args[0], [eng.rv(st, x, fr) for x in a[3 if sized else 2:]])
        eng.oblige(st, 'the text fits the buffer', lt(I(bound), room))
        eng.put(st, lv, t)
        return ('val', strlen(t))
    return h


externs.FUN['snprintf'] = printing(True)


def number(x): return app('fmt:%04d', [x], 'Str')


# ------------------------------------------------------------------ data arrays
GETTERS = ('Type', 'Name', 'NumberOfComponents', 'Format', 'RangeMin', 'RangeMax', 'Data')


def got(i, what): return app('array.' + what, [i], 'Str')


def array_overrides(eng, cell, nodes):
    """what a data array says of itself depends on the array alone"""
    def getter(g):
        def h(e, st, f, this, argv): return ('val', got(aid(this), g))
        return h
    def aid(lv):
        if lv[0] == cell: return idof(lv, 'data array')
        if lv[1] and lv[1][-1] == ('f', 'empty_data_array_'): return I(-1)
        raise Unsupported('a data array of another kind')
    for g in GETTERS: eng.overrides['DataArrayNodeBase::get' + g] = getter(g)
    for k in ('toVTK', 'toPVTK'):
        eng.overrides['DataArrayNodeBase::' + k] = (lambda kind: lambda e, st, f, this, argv: ('val', nptr(nodes, app('array.' + kind, [aid(this)], INT))))(k)


def one_array(eng, st, this, argv):
    for g in GETTERS: eng.overrides['DataArrayNodeBase::get' + g] = (lambda g: lambda e, s, f, t, a: ('val', var('array.' + g, 'Str')))(g)


def attrs(v, want, eng, st, name):
    if not isinstance(v, Vec): raise Unsupported('attributes')
    if v.elems is None: raise Unsupported('number of attributes')
    eng.oblige(st.fork(), name + ': number of attributes', TRUE if len(v.elems) == len(want) else FALSE)
    if len(v.elems) != len(want): return
    # by name, as their order has no meaning
    act = v.elems
    names = [x.f['first'] for x in act]
    if len({n for n in names}) == len(names) and {n for n in names} == {strlit(k) for k, _ in want}:
        act = [act[names.index(strlit(k))] for k, _ in want]
    for x, (k, w) in zip(act, want):
        compare(eng, st, strlit(k), x.f['first'], name + ': name of an attribute')
        compare(eng, st, strlit(w) if isinstance(w, str) else w, x.f['second'], name + ': attribute ' + k)


def element_post(c, tag_, names, data):
    def post(eng, st, pre, tag):
        p = c.result
        if not isinstance(p, Ptr) or p.loc is None: raise Unsupported('result')
        eng.oblige(st.fork(), 'the element is a new one' + tag, TRUE if p.loc[0] not in pre.store else FALSE)
        n = eng.peek(st, p.loc)
        compare(eng, st, strlit(tag_), n.f['name'], 'name of the element' + tag)
        attrs(n.f['attributes'], names, eng, st, 'the element' + tag)
        compare(eng, st, data, n.f['data'], 'data of the element' + tag)
        eng.oblige(st.fork(), 'no children' + tag, eq(n.f['children'].len, I(0)))
    return post


def ga(g): return var('array.' + g, 'Str')


@C('DataArrayNodeBase::toVTK', 0, inline=False, variants=[('any data array', one_array)])
def _(c):
    if c.mode == 'apply': raise Unsupported('element of a data array')
    c.post_hooks.append(element_post(c, 'DataArray', [('type', ga('Type')), ('Name', ga('Name')), ('NumberOfComponents', ga('NumberOfComponents')), ('format', ga('Format')),
                                                      ('RangeMin', ga('RangeMin')), ('RangeMax', ga('RangeMax'))], ga('Data')))


@C('DataArrayNodeBase::toPVTK', 0, inline=False, variants=[('any data array', one_array)])
def _(c):
    if c.mode == 'apply': raise Unsupported('element of a data array')
    c.post_hooks.append(element_post(c, 'PDataArray', [('type', ga('Type')), ('Name', ga('Name')), ('NumberOfComponents', ga('NumberOfComponents')), ('format', ga('Format'))], strlit('')))


# ------------------------------------------------------------------ grids
def arrays(cell, name, n):
    k = fresh('k')
    return Vec('DataArrayNodeBase *', None, n, Lam(k, nptr(cell, app(name + '.array', [k], INT))))


def vtkroot(kind):
    a = [Struct('#pair', {'first': strlit(x), 'second': strlit(y)}) for x, y in (('type', kind), ('version', '0.1'), ('byte_order', 'LittleEndian'))]
    return Struct('XMLNode', {'name': strlit('VTKFile'), 'attributes': Vec('std::pair<std::string, std::string>', a), 'data': strlit(''), 'children': Vec('XMLNode *', [])})


class Node:
    """an element expected"""
    def __init__(self, name, attributes, children): self.name, self.attributes, self.children = name, attributes, children


class Each:
    """the elements of a sequence of data arrays"""
    def __init__(self, n, elem): self.n, self.elem = n, elem


def check_node(eng, st, w, lv, where):
    n = eng.peek(st, lv)
    where = where + '/' + w.name
    compare(eng, st, strlit(w.name), n.f['name'], where + ': name')
    compare(eng, st, strlit(''), n.f['data'], where + ': no data')
    attrs(n.f['attributes'], w.attributes, eng, st, where)
    ch = n.f['children']
    if isinstance(w.children, Each):
        e = w.children
        compare(eng, st, Vec(ch.et, None, e.n, Lam.fn(e.elem)), ch, where + ': children')
        return
    cs = w.children
    if ch.elems is None:
        # a few elements, then the elements of a sequence
        if cs and isinstance(cs[-1], Each):
            e, m = cs[-1], len(cs) - 1
            eng.oblige(st.fork(), where + ': number of children', eq(ch.len, e.n + m))
            V._Hook.pc = st.pc
            for i in range(m): follow(eng, st, cs[i], ch.get(I(i)), where)
            k = var('k0')
            s = st.fork(and_(le(I(0), k), lt(k, e.n), eq(ch.len, e.n + m)))
            e.check(eng, s, ch.get(k + m), k, where)
            return
        raise Unsupported(where + ': number of children')
    eng.oblige(st.fork(), where + ': number of children', TRUE if len(ch.elems) == len(cs) else FALSE)
    if len(ch.elems) != len(cs): return
    # the elements are known by their names
    es = list(ch.elems)
    def nm(p):
        if not (isinstance(p, Ptr) and p.loc): return None
        if any(x[0] == 'i' for x in p.loc[1]): return None
        x = eng.peek(st, p.loc).f['name']
        return x.args[0] if x.op == 'strlit' else None
    have, want = [nm(p) for p in es], [c.name if isinstance(c, Node) else None for c in cs]
    if None not in have and None not in want and sorted(have) == sorted(want) and len(set(have)) == len(have): es = [es[have.index(x)] for x in want]
    for c, p in zip(cs, es): follow(eng, st, c, p, where)


def follow(eng, st, c, p, where):
    if isinstance(p, Conflict): p = eng.unconflict(st, p)
    if not isinstance(p, Ptr) or p.loc is None: raise Unsupported(where + ': a child')
    if isinstance(c, Node):
        if p.loc[0] in ('nodes',) or any(x[0] == 'i' and not isinstance(eng.peek(st, (p.loc[0], ())), Vec) for x in p.loc[1][:1]): raise Unsupported('a child')
        v = eng.peek(st, p.loc)
        if not isinstance(v, Struct) or v.cls != 'XMLNode': raise Unsupported('a child')
        check_node(eng, st, c, p.loc, where)
    else: compare(eng, st, c, p, where + ': a data array')


def grid_setup(cls, kind, cells, points, root=True):
    def setup(eng, st, this, argv):
        appending(eng, st, this, argv)
        nodes = nodeheap(eng, st)
        ac = eng.alloc(st, Vec('#heap', None, var('array.count'), Lam.fn(lambda k: Struct('DataArrayNodeBase', {}))))[0]
        array_overrides(eng, ac, nodes)
        s = eng.peek(st, this)
        # an earlier call may have left children behind
        if root: s = s.set('root_', vtkroot(kind).set('children', st.store[nodes].get(var('root.id')).f['children']))
        st.assume(le(I(0), app('node.nc', [var('root.id')], INT)))
        for nm, some in (('cell', cells), ('point', points)):
            n = var(nm + '.n')
            st.assume(lt(I(0), n) if some else eq(n, I(0)))
            s = s.set(nm + '_data_vector_', arrays(ac, nm, n))
        if 'coords_data_vector_' in s.f:
            s = s.set('coords_data_vector_', arrays(ac, 'coords', var('coords.n')))
            st.assume(le(I(0), var('coords.n')))
        eng.put(st, this, s)
        eng.xml = (nodes, ac)
        mesh_overrides(eng, ac)
        eng.overrides['XMLTree::write'] = written
    return setup


def mesh_overrides(eng, ac):
    for g in ('WholeExtent', 'Extent'): eng.overrides['RectilinearGridNodeBase::get' + g] = (lambda g: lambda e, st, f, this, argv: ('val', var('mesh.' + g, 'Str')))(g)
    for g in ('NumberOfPoints', 'NumberOfCells'): eng.overrides['UnstructuredGridNodeBase::get' + g] = (lambda g: lambda e, st, f, this, argv: ('val', var('mesh.' + g, 'Str')))(g)
    for g in ('Points', 'Connectivity', 'Offsets', 'Types'):
        eng.overrides['UnstructuredGridNodeBase::get' + g] = (lambda g: lambda e, st, f, this, argv: ('lv', (ac, (('i', var('mesh.' + g)),))))(g)


def written(eng, st, f, this, argv):
    """where a document is handed over for writing"""
    r = eng.peek(st, this).f['root_']
    name = eng.arg_val(st, argv[0])
    st.trace.append(('document', name))
    if not isinstance(r, Ptr) or r.loc is None: raise Unsupported('root of a document')
    if not eng.quiet: check_node(eng, st, eng.document(eng), r.loc, 'document')
    return ('val', None)


def names_of(n, nm): return concat(n, cat(got(app(nm + '.array', [K], INT), 'Name'), ' '))


def each(eng, nm, kind='toVTK'):
    return Each(var(nm + '.n'), lambda k: nptr(eng.xml[0], app('array.' + kind, [app(nm + '.array', [k], INT)], INT)))


def data_of(eng, cells, points):
    out = []
    if cells: out.append(Node('CellData', [('Scalars', names_of(var('cell.n'), 'cell'))], each(eng, 'cell')))
    if points: out.append(Node('PointData', [('Scalars', names_of(var('point.n'), 'point'))], each(eng, 'point')))
    return out


def grid_variants(cls, kind, doc):
    out = []
    for cells in (False, True):
        for points in (False, True):
            base = grid_setup(cls, kind, cells, points)
            def setup(eng, st, this, argv, base=base, cells=cells, points=points):
                base(eng, st, this, argv)
                eng.document = lambda e: doc(e, cells, points)
            out.append(('%s cell data, %s point data' % ('some' if cells else 'no', 'some' if points else 'no'), setup))
    return out


def array_node(eng, g): return nptr(eng.xml[0], app('array.toVTK', [var('mesh.' + g)], INT))


VERSION = [('version', '0.1'), ('byte_order', 'LittleEndian')]


def rect_doc(eng, cells, points):
    coords = Node('Coordinates', [], each(eng, 'coords'))
    return Node('VTKFile', [('type', 'RectilinearGrid')] + VERSION, [Node('RectilinearGrid', [('WholeExtent', var('mesh.WholeExtent', 'Str'))], [
        Node('Piece', [('Extent', var('mesh.Extent', 'Str'))], data_of(eng, cells, points) + [coords])])])


def unstr_doc(eng, cells, points):
    return Node('VTKFile', [('type', 'UnstructuredGrid')] + VERSION, [Node('UnstructuredGrid', [], [
        Node('Piece', [('NumberOfPoints', var('mesh.NumberOfPoints', 'Str')), ('NumberOfCells', var('mesh.NumberOfCells', 'Str'))],
             [Node('Points', [], [array_node(eng, 'Points')]), Node('Cells', [], [array_node(eng, x) for x in ('Connectivity', 'Offsets', 'Types')])] + data_of(eng, cells, points))])])


def to_vtk(c):
    if c.mode == 'apply': raise Unsupported('grid written at a call site')
    c.throws(not_(c.this.f['mesh_complete_']))
    c.set(c.field('root_', 'children'), Pred(lambda v: TRUE, 'anything'))
    c.events = [('document', [c.val(0)])]


for _cls, _kind, _doc in (('RectilinearGridVTK', 'RectilinearGrid', rect_doc), ('UnstructuredGridVTK', 'UnstructuredGrid', unstr_doc)):
    CONTRACTS.append(Contract(_cls + '::toVTK', to_vtk, 1, inline=False, weak=True, variants=grid_variants(_cls, _kind, _doc)))


def plain_setup(kind):
    def setup(eng, st, this, argv):
        nodes = nodeheap(eng, st)
        ac = eng.alloc(st, Vec('#heap', None, var('array.count'), Lam.fn(lambda k: Struct('DataArrayNodeBase', {}))))[0]
        eng.xml = (nodes, ac)
        s = eng.peek(st, this)
        for nm in ('cell', 'point', 'coords'):
            f = nm + '_data_vector_'
            if f in s.f:
                st.assume(le(I(0), var(nm + '.n')))
                s = s.set(f, arrays(ac, nm, var(nm + '.n')))
        if 'vtu' in s.f:
            u = s.f['vtu']
            for nm in ('cell', 'point'):
                st.assume(le(I(0), var(nm + '.n')))
                u = u.set(nm + '_data_vector_', arrays(ac, nm, var(nm + '.n')))
            s = s.set('vtu', u)
        eng.put(st, this, s)
        return [('lv', (ac, (('i', var('given')),))) if kind == 'DataArrayNodeBase' else a for a in argv]
    return setup


def adding(field, *path):
    def spec(c):
        p = path + (field,)
        v = c.eng.peek(c.pre, c.field(*p))
        c.set(c.field(*p), appended(v, Ptr(c.lvarg(0))))
    return spec


for _cls in ('RectilinearGridVTK', 'UnstructuredGridVTK', 'PUnstructuredGridVTK'):
    _path = ('vtu',) if _cls[0] == 'P' else ()
    for _m, _f in (('addCellData', 'cell_data_vector_'), ('addPointData', 'point_data_vector_')):
        CONTRACTS.append(Contract(_cls + '::' + _m, adding(_f, *_path), 1, inline=True, weak=True, variants=[('any array', plain_setup('DataArrayNodeBase'))]))


def unstr_build(*path):
    def spec(c):
        c.set(c.field(*path, 'mesh_'), Ptr(c.lvarg(0)))
        c.set(c.field(*path, 'mesh_complete_'), TRUE)
    return spec


CONTRACTS.append(Contract('UnstructuredGridVTK::buildMesh', unstr_build(), 1, inline=True, weak=True, variants=[('any mesh', plain_setup(''))]))
CONTRACTS.append(Contract('PUnstructuredGridVTK::buildMesh', unstr_build('vtu'), 1, inline=True, weak=True, variants=[('any mesh', plain_setup(''))]))


def rect_setup(nulls):
    def setup(eng, st, this, argv):
        plain_setup('')(eng, st, this, argv)
        ac = eng.xml[1]
        return [argv[0]] + [('val', Ptr(None) if z else nptr(ac, var('given%d' % k))) for k, z in enumerate(nulls)]
    return setup


@C('RectilinearGridVTK::buildMesh', 4, variants=[('%s' % ', '.join('no coordinates' if z else 'coordinates' for z in zs), rect_setup(zs))
                                                 for zs in [(a, b, d) for a in (0, 1) for b in (0, 1) for d in (0, 1)]])
def _(c):
    c.set(c.field('mesh_'), Ptr(c.lvarg(0)))
    c.set(c.field('mesh_complete_'), TRUE)
    xs = [c.val(k) for k in (1, 2, 3)]
    c.set(c.field('coords_data_vector_'), Vec('DataArrayNodeBase *', [Ptr(c.field('empty_data_array_')) if x.loc is None else x for x in xs]))


def grid_ctor(kind, path=()):
    def spec(c):
        def post(eng, st, pre, tag):
            s = eng.peek(st, c.thislv)
            n = s.f['root_']
            eng.oblige(st.fork(), 'no children yet' + tag, eq(n.f['children'].len, I(0)))
            check_node(eng, st, Node('VTKFile', [('type', kind)] + VERSION, []), (c.thislv[0], c.thislv[1] + (('f', 'root_'),)), 'root' + tag)
            u = s.f['vtu'] if 'vtu' in s.f else s
            compare(eng, st, FALSE, u.f['mesh_complete_'], 'no mesh yet' + tag)
            for f in ('cell_data_vector_', 'point_data_vector_', 'coords_data_vector_'):
                if f in u.f: eng.oblige(st.fork(), f + ' is empty' + tag, eq(u.f[f].len, I(0)))
        if c.mode == 'apply': raise Unsupported('constructor of a grid')
        c.post_hooks.append(post)
    return spec


for _cls, _kind in (('RectilinearGridVTK', 'RectilinearGrid'), ('UnstructuredGridVTK', 'UnstructuredGrid'), ('PUnstructuredGridVTK', 'UnstructuredGrid')):
    CONTRACTS.append(Contract(_cls + '::' + _cls, grid_ctor(_kind), inline=True, weak=True))

for _g, _v in (('Type', 'Float32'), ('Name', 'Empty'), ('NumberOfComponents', '1'), ('Format', 'ascii'), ('RangeMin', '0.0'), ('RangeMax', '0.0'), ('Data', '0.0')):
    CONTRACTS.append(Contract('EmptyDataArrayNode::get' + _g, (lambda v: lambda c: c.ret(strlit(v)))(_v), 0, inline=True, weak=True))


# ------------------------------------------------------------------ files of several processes
def p_setup(cells, points, head, inside):
    base = grid_setup('PUnstructuredGridVTK', 'UnstructuredGrid', cells, points)
    def setup(eng, st, this, argv):
        appending(eng, st, this, argv)
        nodes = nodeheap(eng, st)
        ac = eng.alloc(st, Vec('#heap', None, var('array.count'), Lam.fn(lambda k: Struct('DataArrayNodeBase', {}))))[0]
        array_overrides(eng, ac, nodes)
        s = eng.peek(st, this)
        s = s.set('root_', vtkroot('UnstructuredGrid').set('children', st.store[nodes].get(var('root.id')).f['children']))
        st.assume(le(I(0), app('node.nc', [var('root.id')], INT)))
        u = s.f['vtu']
        for nm, some in (('cell', cells), ('point', points)):
            n = var(nm + '.n')
            st.assume(lt(I(0), n) if some else eq(n, I(0)))
            u = u.set(nm + '_data_vector_', arrays(ac, nm, n))
        s = s.set('vtu', u)
        st.assume(and_(le(I(0), s.f['rank_']), lt(s.f['rank_'], s.f['size_']), lt(s.f['size_'], I(2 ** 31))))
        st.assume(eq(s.f['rank_'], I(0)) if head else lt(I(0), s.f['rank_']))
        eng.put(st, this, s)
        eng.xml = (nodes, ac)
        mesh_overrides(eng, ac)
        eng.overrides['XMLTree::write'] = written
        def grid(e, st, f, th, argv):
            st.trace.append(('grid of the process', e.arg_val(st, argv[0])))
            bad = not_(e.peek(st, th).f['mesh_complete_'])
            e.throws.append(Throw(st.fork(bad), 'std::invalid_argument', 'no mesh'))
            st.assume(not_(bad))
            return ('val', None)
        eng.overrides['UnstructuredGridVTK::toVTK'] = grid
        name = var('name', 'Str')
        len_facts(st, name)
        st.assume(not_(strs.has(name, '/')))
        eng.document = lambda e: p_doc(e, cells, points, name, s.f['size_'])
        return [('val', cat(var('folder', 'Str'), '/', name) if inside else name)]
    return setup


def p_array(g): return lambda eng: nptr(eng.xml[0], app('array.toPVTK', [var('mesh.' + g)], INT))


class Pieces(Each):
    def check(self, eng, st, p, k, where):
        p = eng.unconflict(st, p)
        if not isinstance(p, Ptr) or p.loc is None: raise Unsupported('a piece')
        n = eng.peek(st, p.loc)
        name = self.elem(k)
        check_node(eng, st, Node('Piece', [('Source', name)], []), p.loc, where)


def p_doc(eng, cells, points, base, size):
    def names(nm, some): return [('Scalars', names_of(var(nm + '.n'), nm))] if some else []
    return Node('VTKFile', [('type', 'UnstructuredGrid')] + VERSION, [Node('PUnstructuredGrid', [('GhostLevel', '0')], [
        Node('PPoints', [], [nptr(eng.xml[0], app('array.toPVTK', [var('mesh.Points')], INT))]),
        Node('PPointData', names('point', points), each(eng, 'point', 'toPVTK')),
        Node('PCellData', names('cell', cells), each(eng, 'cell', 'toPVTK')),
        Pieces(size, lambda k: cat(base, '_', number(k), '.vtu'))])])


@C('PUnstructuredGridVTK::toVTK', 1, inline=False, variants=[('%sfirst process: %s, %s cell data, %s point data' % ('in a folder, ' if f else '', 'yes' if h else 'no', 'some' if a else 'no', 'some' if b else 'no'), p_setup(a, b, h, f))
                                                              for f in (False, True) for h in (True, False) for a in (False, True) for b in (False, True)])
def _(c):
    if c.mode == 'apply': raise Unsupported('grid written at a call site')
    s = c.this
    c.throws(not_(s.f['vtu'].f['mesh_complete_']))
    c.set(c.field('root_', 'children'), Pred(lambda v: TRUE, 'anything'))
    ev = [('grid of the process', [cat(c.val(0), '_', number(s.f['rank_']), '.vtu')])]
    if c.known(eq(s.f['rank_'], I(0))): ev.append(('document', [cat(c.val(0), '.pvtu')]))
    c.events = ev


# ------------------------------------------------------------------ vectors as data arrays
externs.GLOBALS['max_digits10'] = lambda eng, st: I(17)
for _t in ('std::basic_ostringstream', 'std::ostringstream'):
    externs.CONSTRUCT[_t] = lambda eng, st, tn, args, fr, n: textstream([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'])


def textstream(args):
    if args: raise Unsupported('text stream with contents')
    return Struct('#text', {'text': strlit(''), 'precision': I(6)})


def exact(x): return app('to_string.' + INT if x.sort == INT else 'exact text', [x], 'Str')


@externs.meth('any.precision')
def _(eng, st, this, v, a, fr, n):
    if not (isinstance(v, Struct) and v.cls == '#text'): raise Unsupported('precision')
    old = v.f['precision']
    if a: eng.put(st, this, v.set('precision', eng.rv(st, a[0], fr)))
    return ('val', old)


@externs.meth('any.str')
def _(eng, st, this, v, a, fr, n):
    if a or not (isinstance(v, Struct) and v.cls == '#text'): raise Unsupported('str')
    return ('val', v.f['text'])


def put_text(eng, st, lv, v, arg, fr):
    if not (isinstance(v, Struct) and v.cls == '#text'): return put(eng, st, lv, v, arg, fr)
    x = eng.rv(st, arg, fr)
    if not isinstance(x, Term): raise Unsupported('something else written to a text')
    if x.sort == 'Str': t = x
    elif x.sort == INT:
        if cast.norm_type(cast.qt(arg)) == 'char': t = app('char2str', [x], 'Str')
        else: t = exact(x)
    elif x.sort == REAL:
        externs.note(eng, 'a double printed with 17 significant digits reads back as the same double')
        p = cval(v.f['precision'])
        if p is None: raise Unsupported('number of digits')
        t = exact(x) if p >= 17 else app('text with %d digits' % p, [x], 'Str')
    else: raise Unsupported('something else written to a text')
    eng.put(st, lv, v.set('text', strcat(v.f['text'], t)))
    return ('lv', lv)


externs.STREAM['<<'] = put_text


@C('Vector<double>::toText', 1, inline=False)
def _(c): c.ret(exact(c.val(0)))


@C('Vector<int>::toText', 1, inline=False)
def _(c): c.ret(exact(c.val(0)))


def extreme(big):
    def spec(c):
        d = c.this.f['data_']
        if c.mode == 'apply': raise Unsupported('range of a vector at a call site')
        def post(eng, st, pre, tag):
            act = c.result
            if eng.known(st, eq(d.len, I(0))): return compare(eng, st, strlit('0'), act, 'a range of no values' + tag)
            if not (isinstance(act, Term) and act.op == 'app' and act.args[0] in ('exact text', 'to_string.' + INT)):
                return compare(eng, st, exact(var('the extreme value', d.get(K).sort)), act, 'every digit of the extreme value' + tag)
            x = act.args[1]
            i = x.args[-1] if x.op == 'app' else K
            eng.oblige(st.fork(), 'one of the values' + tag, and_(le(I(0), i), lt(i, d.len), eq(x, d.get(i))))
            k = var('k0')
            eng.oblige(st.fork(and_(le(I(0), k), lt(k, d.len))), 'no value is beyond' + tag, le(d.get(k), x) if big else le(x, d.get(k)))
        c.post_hooks.append(post)
    return spec


def filled(some):
    def setup(eng, st, this, argv):
        appending(eng, st, this, argv)
        s = eng.peek(st, this)
        st.assume(eq(s.f['size_'], s.f['data_'].len))
        st.assume(lt(I(0), s.f['size_']) if some else eq(s.f['size_'], I(0)))
    return setup


for _t in ('double', 'int'):
    _V = 'Vector<%s>::' % _t
    CONTRACTS.append(Contract(_V + 'getFormat', lambda c: c.ret(strlit('ascii')), 0, inline=True, weak=True))
    for _g, _b in (('Min', False), ('Max', True)):
        CONTRACTS.append(Contract(_V + 'getRange' + _g, extreme(_b), 0, inline=True, weak=True, variants=[('values', filled(True)), ('no values', filled(False))]))
    CONTRACTS.append(Contract(_V + 'getData', lambda c: c.ret(concat(c.this.f['data_'].len, cat(exact(c.this.f['data_'].get(K)), ' '))), 0, inline=True, weak=True, variants=[('any vector', appending)]))


# ------------------------------------------------------------------ the mesh
def mesh_vtk_setup(numbered):
    def setup(eng, st, this, argv):
        appending(eng, st, this, argv)
        ac = eng.alloc(st, Vec('#heap', None, var('array.count'), Lam.fn(lambda k: Struct('Vector<double>', {}))))[0]
        s = eng.peek(st, this)
        st.assume(le(I(0), var('cell.n')))
        s = s.set('mesh_functions', Vec('Vector<double> *', None, var('cell.n'), Lam.fn(lambda k: nptr(ac, app('cell.array', [k], INT)))))
        eng.put(st, this, s)
        no = argv[1][1]
        st.assume(ne(no, I(-1)) if numbered else eq(no, I(-1)))
        def grid(e, s, f, th, a):
            g = e.peek(s, th).f['vtu']
            s.trace.append(('grid of all processes', e.arg_val(s, a[0])))
            if not e.quiet:
                compare(e, s, Ptr(this), g.f['mesh_'], 'the mesh written')
                e.oblige(s.fork(), 'the mesh is complete', g.f['mesh_complete_'])
                compare(e, s, arrays(ac, 'cell', var('cell.n')), g.f['cell_data_vector_'], 'the cell data written')
                e.oblige(s.fork(), 'no point data', eq(g.f['point_data_vector_'].len, I(0)))
            return ('val', None)
        eng.overrides['PUnstructuredGridVTK::toVTK'] = grid
    return setup


class Context(Opaque):
    def __init__(self, p4est, name):
        Opaque.__init__(self, 'p4est vtk file')
        self.p4est, self.name = p4est, name


@externs.fun('p4est_vtk_context_new')
def _(eng, st, a, fr, n): return ('val', Context(eng.rv(st, a[0], fr), eng.rv(st, a[1], fr)))


@externs.fun('p4est_vtk_context_set_scale', 'p4est_vtk_context_set_continuous', 'p4est_vtk_context_set_geom')
def _(eng, st, a, fr, n): return ('val', None)


@externs.fun('p4est_vtk_write_header')
def _(eng, st, a, fr, n):
    c = eng.rv(st, a[0], fr)
    if not isinstance(c, Context): raise Unsupported('p4est_vtk_write_header')
    st.trace.append(('leaves', c.p4est, c.name))
    return ('val', c)


@externs.fun('p4est_vtk_write_footer')
def _(eng, st, a, fr, n): return ('val', I(0))


for _T in ('FiniteVolumePatch',):
    @C('Mesh<%s>::toVTK' % _T, 2, inline=False, variants=[('without number', mesh_vtk_setup(False)), ('with number', mesh_vtk_setup(True))])
    def _(c):
        if c.mode == 'apply': raise Unsupported('mesh written at a call site')
        b, no = c.val(0), c.val(1)
        end = '' if c.known(eq(no, I(-1))) else cat('-', number(no))
        p = c.this.f['quadtree'].f['p4est']
        c.events = [('grid of all processes', [cat(b, '-mesh', end)]), ('leaves', [p, cat(b, '-quadtree', end)])]
    _M = 'Mesh<%s>::get' % _T
    for _g, _f in (('NumberOfPoints', 'npoints'), ('NumberOfCells', 'ncells')):
        CONTRACTS.append(Contract(_M + _g, (lambda f: lambda c: c.ret(exact(c.this.f[f])))(_f), 0, inline=True, weak=True))
    for _g in ('points', 'connectivity', 'offsets', 'types'):
        CONTRACTS.append(Contract(_M + _g[0].upper() + _g[1:], (lambda f: lambda c: c.ret_lv(c.field(f)))(_g), 0, inline=True, weak=True))
