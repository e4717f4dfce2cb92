"""Models of the application singleton: options, logging, timers."""
from terms import *
import terms as T
from values import *
import engine, externs, re
from externs import user, fun, meth, note, USER, FUN
from engine import strlit, Dead, Throw

APP = '#app'


def app_lv(eng, st):
    for c, v in st.store.items():
        if isinstance(v, Struct) and v.cls == 'EllipticForestApp': return (c, ())
    return eng.alloc(st, Struct('EllipticForestApp', {'logger': Opaque('logger'), 'options': Struct('Options', {'#opts': Opaque('options')}), 'timers': Opaque('timers')}))


@user('GenericSingleton<EllipticForestApp>::getInstance')
def _(eng, st, f, this, argv): return ('lv', app_lv(eng, st))


def nothing(eng, st, f, this, argv): return ('val', None)


for _n in ('EllipticForestApp::log', 'EllipticForestApp::logHead', 'EllipticForestApp::addTimer', 'Logger::log', 'Logger::logHead', 'Timer::start', 'Timer::stop', 'EllipticForestApp::log<>', 'EllipticForestApp::logHead<>'):
    USER[_n] = nothing


class OptRef(Opaque):
    def __init__(self, key):
        Opaque.__init__(self, 'option ' + key)
        self.key = key


def lit(t):
    """text of a string literal term"""
    return t.args[0][1:] if t.op == 'app' and isinstance(t.args[0], str) and len(t.args) == 1 and t.args[0].startswith('"') else None


@user('Options::operator[]')
def _(eng, st, f, this, argv):
    k = eng.arg_val(st, argv[0])
    return ('lv', eng.alloc(st, OptRef(k.args[0] if k.op == "strlit" else repr(k))))


@fun('get')
def _(eng, st, a, fr, n):
    v = eng.rv(st, a[0], fr)
    if isinstance(v, OptRef):
        t = engine.cast.qt(n)
        note(eng, 'the option read is set and has the type asked for (%s)' % v.key)
        s = BOOL if 'bool' in t else INT if 'int' in t else REAL if 'double' in t else 'Str'
        return ('val', var('option ' + v.key, s))
    raise Unsupported('get')


@fun('MPI_Barrier')
def _(eng, st, a, fr, n):
    return ('val', I(0))
