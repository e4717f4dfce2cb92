"""Contracts of the message functions (src/MPI.hpp, src/MPI.cpp, Vector.hpp, Matrix.hpp, QuadNode.hpp, FiniteVolumeGrid.cpp,
FiniteVolumePatch.cpp): receive, and broadcast away from the root, take exactly the messages that the current source of send,
or of broadcast at the root, produces for an arbitrary object, and leave that object behind. No wire format is prescribed."""
from terms import *
from values import *
from contract import *
import cast, engine, mpimodel
from externs import comm_term, strlen
from specs.hps import setf, oblige

CONTRACTS = []
P2P = ['int', 'double', 'bool', 'std::string', 'std::vector<double>', 'std::vector<int>', 'Vector<double>', 'Vector<int>', 'Matrix<double>', 'Node<double>']
BC = P2P + ['FiniteVolumeGrid', 'FiniteVolumePatch', 'Node<FiniteVolumePatch>']
MAXN = I(2 ** 31)


def sendable(eng, st, v, t):
    """sizes fit the int counts of MPI; the parts of an object agree with each other"""
    t = cast.norm_type(t)
    if isinstance(v, Vec): st.assume(lt(v.len, MAXN))
    elif isinstance(v, Term) and v.sort == 'Str': st.assume(and_(le(I(0), strlen(v)), lt(strlen(v), MAXN)))
    elif isinstance(v, Struct):
        if v.cls.startswith('Vector<'):
            st.assume(lt(v.f['size_'], MAXN))
            st.assume(eq(v.f['data_'].len, v.f['size_']))
            return
        if v.cls.startswith('Matrix<'):
            r, c = v.f['nrows_'], v.f['ncols_']
            st.assume(and_(lt(r, MAXN), lt(c, MAXN), lt(r * c, MAXN), le(I(0), r * c)))
            return
        if v.cls == 'FiniteVolumeGrid':
            st.assume(and_(lt(I(0), v.f['nx_']), lt(v.f['nx_'], MAXN), lt(I(0), v.f['ny_']), lt(v.f['ny_'], MAXN)))
            st.assume(eq(v.f['dx_'], (v.f['x_upper_'] - v.f['x_lower_']) / toreal(v.f['nx_'])))
            st.assume(eq(v.f['dy_'], (v.f['y_upper_'] - v.f['y_lower_']) / toreal(v.f['ny_'])))
            return
        tys = {n: tt for n, tt, i, o in (eng.prog.all_fields(v.cls) or [])}
        for n, x in v.f.items(): sendable(eng, st, x, tys.get(n, ''))


# parts of an object that describe the process it lives on, or labels, and are not part of its value
LOCAL = {'comm_', 'rank_', 'size_ of MPIObject', 'node_comm', 'node_comm_set', 'name_', 'vtkComponents_', 'vtkType_', 'node_comm_set'}


def value_of(eng, v):
    """the part of a value that has to arrive"""
    if isinstance(v, Struct):
        f = {n: value_of(eng, x) for n, x in v.f.items() if n not in LOCAL and not n.startswith('par_') and not n.endswith('_parallel') and not (n == 'size_' and 'comm_' in v.f) and not isinstance(x, (Opaque, FnVal))}
        return Struct(v.cls, f)
    return v


def run(eng, st, f, argv):
    """executes a function on a scratch state and returns the messages it sends"""
    con = eng.call_body(st, f, None, argv)
    out = []
    for e in st.trace:
        if e[0] != 'sent': raise Unsupported('messages sent in a loop')
        out.append(e[1])
    return out


def find(eng, key, t):
    for g in eng.prog.by_key.get(key, []):
        d = eng.prog.definition(g.id) or g
        if d.body is not None and d.ptypes[0].rstrip('&').strip() == t: return d
    raise Unsupported('no %s for %s' % (key, t))


PEER, TAG, COMM = var('peer'), var('tag'), var('comm')
RANK = app('mpi.rank', [COMM], INT)


def sent_object(eng, st, t):
    facts = []
    v = Sym.value(eng, t, 'sent', facts, (), st)
    for c in facts: st.assume(c)
    sendable(eng, st, v, t)
    return v


def send_setup(t):
    def setup(eng, st, this, argv):
        eng.peer = PEER
        lv = argv[0][1]
        sendable(eng, st, eng.peek(st, lv), t)
        st.assume(and_(le(I(0), TAG), lt(TAG, I(2 ** 20))))
        return [argv[0], ('val', PEER), ('val', TAG), ('val', COMM)]
    return (t, setup)


def send_spec(c):
    # the object is unchanged (frame); every message goes to the destination on the communicator
    def post(eng, st, pre, tag):
        ms = [e for e in st.trace]
        if any(e[0] != 'sent' for e in ms): raise Unsupported('messages sent in a loop')
        eng.oblige(st.fork(), 'something is sent' + tag, TRUE if ms else FALSE)
        for k, (_, m) in enumerate(ms):
            eng.oblige(st.fork(), 'message %d goes to the destination' % k + tag, eq(m.dest, PEER))
            eng.oblige(st.fork(), 'message %d uses the communicator' % k + tag, eq(m.comm, COMM))
    c.post_hooks.append(post)


def recv_setup(t):
    def setup(eng, st, this, argv):
        eng.peer = PEER
        eng.incoming = None
        st.assume(and_(le(I(0), TAG), lt(TAG, I(2 ** 20))))
        s = st.fork()
        v = sent_object(eng, s, t)
        cell = eng.alloc(s, v)
        eng.quiet += 1
        try: eng.incoming = run(eng, s, find(eng, 'MPI::send', t), [('lv', cell), ('val', PEER), ('val', TAG), ('val', COMM)])
        finally: eng.quiet -= 1
        for c in s.pc[len(st.pc):]: st.assume(c)
        eng.sent = v
        return [argv[0], ('val', PEER), ('val', TAG), ('val', COMM), argv[4]]
    return (t, setup)


def recv_spec(c):
    target = c.lvarg(0)
    c.set(target, Pred(lambda v: TRUE, 'see below'))
    c.set(target, ANY)
    def post(eng, st, pre, tag):
        eng.oblige(st.fork(), 'every message sent is received' + tag, TRUE if len(st.trace) == len(eng.incoming) else FALSE)
        compare(eng, st, value_of(eng, eng.sent), eng.peek(st, target), 'the object received' + tag)
    c.sets[:] = [(target, ANY)]
    c.post_hooks.append(post)


def bc_setup(t, role):
    def setup(eng, st, this, argv):
        eng.peer = PEER
        eng.incoming = None
        s = st.fork()
        base = len(s.pc)
        st.assume(and_(le(I(0), RANK), eq(RANK, PEER) if role == 'root' else ne(RANK, PEER)))
        if role == 'root':
            eng.bcast_role = 'root'
            lv = argv[0][1]
            v = eng.peek(st, lv)
            sendable(eng, st, v, t)
            eng.sent = v
            return [argv[0], ('val', PEER), ('val', COMM)]
        v = sent_object(eng, s, t)
        cell = eng.alloc(s, v)
        fs = list(s.pc[base:])
        s.assume(and_(le(I(0), RANK), eq(RANK, PEER)))
        eng.bcast_role = 'root'
        eng.quiet += 1
        try: eng.incoming = run(eng, s, find(eng, 'MPI::broadcast', t), [('lv', cell), ('val', PEER), ('val', COMM)])
        finally: eng.quiet -= 1
        for c in fs: st.assume(c)
        eng.bcast_role = 'other'
        eng.sent = v
        return [argv[0], ('val', PEER), ('val', COMM)]
    return ('%s, %s' % (t, role), setup)


def bc_spec(c):
    target = c.lvarg(0)
    c.set(target, ANY)
    def post(eng, st, pre, tag):
        if eng.bcast_role == 'other': eng.oblige(st.fork(), 'every message sent is received' + tag, TRUE if len(st.trace) == len(eng.incoming) else FALSE)
        compare(eng, st, value_of(eng, eng.sent), eng.peek(st, target), 'the object afterwards' + tag)
    c.post_hooks.append(post)


CM = 'ompi_communicator_t*'
for _t in P2P:
    CONTRACTS.append(Contract('MPI::send', send_spec, 4, [_t + '&', 'int', 'int', CM], variants=[send_setup(_t)], inline=True))
    CONTRACTS.append(Contract('MPI::receive', recv_spec, 5, None, variants=[recv_setup(_t)], inline=True, first=_t))
for _t in BC:
    CONTRACTS.append(Contract('MPI::broadcast', bc_spec, 3, [_t + '&', 'int', CM], variants=[bc_setup(_t, 'root'), bc_setup(_t, 'other')], inline=True))
