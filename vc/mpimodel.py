"""Assumed contracts of MPI_Send, MPI_Recv and MPI_Bcast: messages between a pair of processes arrive in order, with the contents
that were sent. Messages are recorded (sending side) or taken from a list (receiving side: eng.incoming)."""
from terms import *
from values import *
import engine, externs, cast
from externs import fun, meth, note, GLOBALS, comm_term, strlen, len_facts
from engine import Throw

CTYPE = {'char': 'char', 'int': 'int', 'long': 'long', 'unsigned long': 'unsigned_long', 'double': 'double', 'float': 'float', 'bool': 'cxx_bool', 'unsigned int': 'unsigned'}
ALLT = ['char', 'wchar', 'short', 'int', 'long', 'signed_char', 'unsigned_char', 'unsigned_short', 'unsigned', 'unsigned_long', 'unsigned_long_long', 'float', 'double', 'long_double', 'cxx_bool', 'byte', 'long_long_int', 'long_long']
for _t in ALLT: GLOBALS['ompi_mpi_' + _t] = (lambda nm: lambda eng, st: Opaque('datatype ' + nm))(_t)


class StrData(Opaque):
    """characters of a std::string"""
    def __init__(self, lv):
        Opaque.__init__(self, 'characters of a string')
        self.lv = lv


@meth('str.data')
def _(eng, st, this, v, a, fr, n):
    if this is None: return ('val', v)
    return ('val', StrData(this))


class Msg:
    def __init__(self, typ, count, payload, dest, tag, comm): self.typ, self.count, self.payload, self.dest, self.tag, self.comm = typ, count, payload, dest, tag, comm
    def __repr__(self): return 'Msg(%s x %r tag %r)' % (self.typ, self.count, self.tag)


def datatype(eng, st, a, fr):
    p = eng.rv(st, a, fr)
    if isinstance(p, Ptr) and p.loc is not None: p = eng.peek(st, p.loc)
    if isinstance(p, Opaque) and p.what.startswith('datatype '): return p.what[9:]
    raise Unsupported('MPI datatype %r' % (p,))


def uncast(x):
    while x.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ParenExpr', 'CXXReinterpretCastExpr') and cast.norm_type(cast.qt(x)) in ('void *', 'const void *', 'void*', 'const void*'):
        x = [c for c in x['inner'] if c.get('kind')][0]
    return x


def buffer(eng, st, a, fr, typ, what):
    x = uncast(a)
    ct = cast.norm_type(cast.qt(x)).replace('const ', '').rstrip('*').strip()
    if ct in CTYPE: eng.oblige(st, '%s: the datatype is the one of the buffer' % what, TRUE if CTYPE[ct] == typ else FALSE)
    elif ct not in ('void',): raise Unsupported('MPI buffer of type %s' % ct)
    return eng.rv(st, x, fr)


def read(eng, st, p, count, what):
    if isinstance(p, StrData):
        v = eng.peek(st, p.lv)
        len_facts(st, v)
        eng.oblige(st, what + ': the whole text is sent', eq(count, strlen(v)))
        return v
    if not isinstance(p, Ptr): raise Unsupported('MPI buffer %r' % (p,))
    if p.loc is None:
        eng.oblige(st, what + ': nothing is sent from a null buffer', eq(count, I(0)))
        return Vec('double', [])
    cell, path = p.loc
    if path and path[-1][0] == 'i':
        v = eng.peek(st, (cell, path[:-1]))
        if isinstance(v, Vec):
            if cval(path[-1][1]) != 0: raise Unsupported('MPI buffer inside an array')
            eng.oblige(st, what + ': the buffer holds the message', le(count, v.len))
            if count is v.len or eng.known(st, eq(count, v.len)): return v
            return Vec(v.et, None, count, v.tolam())
    eng.oblige(st, what + ': one value is sent', eq(count, I(1)))
    return eng.load(st, p.loc)


def write(eng, st, p, count, m, what):
    st.assume(eq(count, m.count))
    if isinstance(p, StrData):
        v = eng.peek(st, p.lv)
        len_facts(st, v)
        eng.oblige(st, what + ': the text has room for exactly the message', eq(count, strlen(v)))
        if not (isinstance(m.payload, Term) and m.payload.sort == 'Str'): raise Unsupported('text received from %r' % (m.payload,))
        eng.put(st, p.lv, m.payload)
        return
    if not isinstance(p, Ptr) or p.loc is None: raise Unsupported('MPI buffer %r' % (p,))
    cell, path = p.loc
    if path and path[-1][0] == 'i':
        v = eng.peek(st, (cell, path[:-1]))
        if isinstance(v, Vec):
            if cval(path[-1][1]) != 0: raise Unsupported('MPI buffer inside an array')
            eng.oblige(st, what + ': the buffer has room for the message', le(count, v.len))
            if not eng.known(st, eq(count, v.len)): raise Unsupported('message shorter than the buffer')
            if not isinstance(m.payload, Vec): raise Unsupported('array received from %r' % (m.payload,))
            q = m.payload
            eng.put(st, (cell, path[:-1]), Vec(v.et, q.elems) if q.elems is not None else Vec(v.et, None, q.len, q.tolam()))
            return
    eng.oblige(st, what + ': one value is received', eq(count, I(1)))
    x = m.payload
    if isinstance(x, Vec): raise Unsupported('scalar received from an array')
    eng.put(st, p.loc, x)


def take(eng, st, typ, count, tag, comm, what):
    """next message of the list"""
    k = st.taken if hasattr(st, 'taken') else 0
    k = len([e for e in st.trace if e[0] == 'taken'])
    if k >= len(eng.incoming):
        eng.oblige(st, what + ': a message was sent for it', FALSE)
        raise engine.Dead()
    m = eng.incoming[k]
    st.trace.append(('taken', k))
    eng.oblige(st, '%s %d: same datatype as the sender' % (what, k), TRUE if typ == m.typ else FALSE)
    eng.oblige(st, '%s %d: same length as the sender' % (what, k), eq(count, m.count))
    if tag is not None: eng.oblige(st, '%s %d: same tag as the sender' % (what, k), eq(tag, m.tag))
    eng.oblige(st, '%s %d: same communicator as the sender' % (what, k), eq(comm, m.comm))
    return m


@fun('MPI_Send', 'MPI_Ssend')
def _(eng, st, a, fr, n):
    note(eng, 'MPI point-to-point messages arrive in order and unchanged')
    count, dest, tag, comm = eng.rv(st, a[1], fr), eng.rv(st, a[3], fr), eng.rv(st, a[4], fr), comm_term(eng.rv(st, a[5], fr))
    typ = datatype(eng, st, a[2], fr)
    p = buffer(eng, st, a[0], fr, typ, 'MPI_Send')
    st.trace.append(('sent', Msg(typ, count, read(eng, st, p, count, 'MPI_Send'), dest, tag, comm)))
    return ('val', I(0))


@fun('MPI_Recv')
def _(eng, st, a, fr, n):
    note(eng, 'MPI point-to-point messages arrive in order and unchanged')
    count, src, tag, comm = eng.rv(st, a[1], fr), eng.rv(st, a[3], fr), eng.rv(st, a[4], fr), comm_term(eng.rv(st, a[5], fr))
    typ = datatype(eng, st, a[2], fr)
    p = buffer(eng, st, a[0], fr, typ, 'MPI_Recv')
    if getattr(eng, 'incoming', None) is None: raise Unsupported('MPI_Recv')
    m = take(eng, st, typ, count, tag, comm, 'MPI_Recv')
    eng.oblige(st, 'MPI_Recv: from the given source', eq(src, eng.peer))
    write(eng, st, p, count, m, 'MPI_Recv')
    return ('val', I(0))


@fun('MPI_Bcast')
def _(eng, st, a, fr, n):
    note(eng, 'MPI broadcasts on a communicator arrive in order and unchanged')
    count, root, comm = eng.rv(st, a[1], fr), eng.rv(st, a[3], fr), comm_term(eng.rv(st, a[4], fr))
    typ = datatype(eng, st, a[2], fr)
    p = buffer(eng, st, a[0], fr, typ, 'MPI_Bcast')
    if getattr(eng, 'bcast_role', None) is None: raise Unsupported('MPI_Bcast')
    eng.oblige(st, 'MPI_Bcast: the given root', eq(root, eng.peer))
    if eng.bcast_role == 'root':
        st.trace.append(('sent', Msg(typ, count, read(eng, st, p, count, 'MPI_Bcast'), root, I(0), comm)))
        return ('val', I(0))
    m = take(eng, st, typ, count, None, comm, 'MPI_Bcast')
    write(eng, st, p, count, m, 'MPI_Bcast')
    return ('val', I(0))
