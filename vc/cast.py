"""Front end: runs clang on the real sources and indexes the AST (JSON)."""
import json, subprocess, os, re, hashlib, pickle, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'


def mpi_flags():
    try:
        return subprocess.check_output(['mpicxx', '--showme:compile'], text=True).split()
    except Exception:
        return ['-I/usr/lib/x86_64-linux-gnu/openmpi/include']


def cxxflags():
    return ['-std=c++20', '-DUSE_PETSC', '-include', 'functional', '-w', '-I' + REPO + '/src', '-I' + HERE,
            '-I/usr/lib/petsc/include', '-I/usr/include'] + mpi_flags()


def units(d):
    """writes units.inc (includes every source file under src) into directory d"""
    out = []
    for base, dirs, files in os.walk(REPO + '/src'):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(base, f), REPO + '/src'))
    out.sort(key=lambda f: (f.count('/'), f))
    with open(os.path.join(d, 'units.inc'), 'w') as fh:
        for f in out: fh.write('#include <%s>\n' % f)


class ExtractionError(Exception):
    pass


def dump(tu=None):
    tu = tu or os.path.join(HERE, 'tu.cpp')
    with tempfile.TemporaryDirectory() as tmp:
        units(tmp)
        cmd = [CLANG] + cxxflags() + ['-I' + tmp, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                                      '-ast-dump-filter=EllipticForest', tu]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractionError('clang rejects the sources:\n' + p.stderr[:4000])
    s = p.stdout
    d = json.JSONDecoder()
    i, docs, n = 0, [], len(s)
    ws = re.compile(r'\s*')
    while True:
        i = ws.match(s, i).end()
        if i >= n:
            break
        if s[i] != '{':
            i = s.index('\n', i)
            continue
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def norm_type(s):
    s = s.replace('EllipticForest::', '').replace('class ', '').replace('struct ', '')
    s = re.sub(r'\bconst\b', '', s)
    s = s.replace('volatile', '')
    s = re.sub(r'std::__cxx11::basic_string<char>|std::basic_string<char>|std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string', s)
    s = re.sub(r', std::allocator<[^<>]*>', '', s)
    s = re.sub(r', std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>', '', s)
    s = re.sub(r'\s+', ' ', s).strip()
    s = s.replace(' >', '>').replace(' &', '&').replace(' *', '*')
    return s


class Func:
    def __init__(self, node, key, cls, file):
        self.node = node
        self.id = node['id']
        self.key = key              # qualified name without signature
        self.cls = cls              # record key or None
        self.name = node.get('name', '')
        self.kind = node['kind']
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = None
        for c in node.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                self.body = c
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.ftype = node.get('type', {}).get('qualType', '')
        self.ptypes = [norm_type(qt(p)) for p in self.params]
        self.sig = '%s(%s)' % (key, ', '.join(self.ptypes))
        self.static = node.get('storageClass') == 'static'
        self.defaulted = bool(node.get('explicitlyDefaulted')) or bool(node.get('isImplicit'))
        self.virtual = bool(node.get('virtual'))
        self.const = self.ftype.rstrip().endswith('const')

    def __repr__(self):
        return self.sig


class Record:
    def __init__(self, key, node):
        self.key, self.node = key, node
        self.fields = []     # (name, type, initnode)
        self.bases = []
        self.methods = []
        self.ctors = []
        self.full = False


# layout of the structures of p4est that the code reads (assumed; the fields not listed are not used)
CSTRUCTS = {
    ('p4est', 'p4est_t'): [('mpicomm', 'ompi_communicator_t *'), ('mpisize', 'int'), ('mpirank', 'int'), ('data_size', 'unsigned long'), ('user_pointer', 'void *'),
                           ('first_local_tree', 'int'), ('last_local_tree', 'int'), ('local_num_quadrants', 'int'), ('global_num_quadrants', 'long'), ('connectivity', 'p4est_connectivity_t *')],
    ('p4est_quadrant', 'p4est_quadrant_t'): [('x', 'int'), ('y', 'int'), ('level', 'int')],
}


class Program:
    def __init__(self, docs):
        self.decl = {}        # id -> node
        self.funcs = {}       # id -> Func
        self.prev = {}
        self.records = {}     # key -> Record
        self.by_key = {}      # key -> [Func]
        self.rec_of = {}      # node id -> key
        self.enums = {}
        self.enumtypes = set()
        self.globals = {}
        for names, fields in CSTRUCTS.items():
            r = Record(names[0], {})
            r.full, r.fields = True, [(n, t, None) for n, t in fields]
            for n in names: self.records[n] = r
        for d in docs:
            self._walk(d, [], None, False)
        # link out-of-line definitions to their declarations
        self.defs = {}
        for f in list(self.funcs.values()):
            if f.body is not None:
                self.defs.setdefault(f.id, f)
        for f in list(self.funcs.values()):
            p = f.node.get('previousDecl')
            if p and f.body is not None:
                self.defs[p] = f
                q = self.decl.get(p, {}).get('previousDecl')
                if q:
                    self.defs[q] = f
        for f in self.funcs.values():
            self.by_key.setdefault(f.key, []).append(f)
        self.overriders = {}

    def _tkey(self, node, path):
        name = node.get('name', '')
        args = []
        for c in node.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c:
                    args.append(norm_type(c['type'].get('qualType', '')))
                elif 'value' in c:
                    args.append(str(c['value']))
        pre = [p for p in path if p != 'EllipticForest']
        k = '::'.join(pre + [name])
        if args:
            k += '<' + ', '.join(args) + '>'
        return k

    def _walk(self, n, path, rec, dependent):
        k = n.get('kind')
        if 'id' in n:
            if n['id'] not in self.decl or n.get('inner'):
                self.decl[n['id']] = n
        if k == 'NamespaceDecl':
            for c in n.get('inner', []):
                self._walk(c, path + [n.get('name', '')], None, dependent)
        elif k == 'ClassTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl' and first:
                    first = False
                    self._walk(c, path, None, True)
                elif c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._walk(c, path, None, False)
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    self._walk(c, path, rec, dependent or first)
                    first = False
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            key = self._tkey(n, path)
            self.rec_of[n['id']] = key
            r = None
            if not dependent:
                r = self.records.get(key)
                if r is None or (n.get('completeDefinition') and not r.full):
                    r = Record(key, n)
                    self.records[key] = r
                    r.full = bool(n.get('completeDefinition'))
                    r.bases = [norm_type(b['type'].get('desugaredQualType') or b['type']['qualType']) for b in n.get('bases', [])]
                    for c in n.get('inner', []):
                        if c.get('kind') == 'FieldDecl':
                            init = [x for x in c.get('inner', []) if 'Comment' not in x.get('kind', '')]
                            r.fields.append((c.get('name', ''), qt(c), init[-1] if init else None))
            for c in n.get('inner', []):
                self._walk(c, path + [key.split('::')[-1]] if False else path + [self._last(key)], key if not dependent else None, dependent)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            cls = rec
            if cls is None and 'parentDeclContextId' in n:
                cls = self.rec_of.get(n['parentDeclContextId'])
            if not dependent:
                if cls is not None:
                    key = cls + '::' + n.get('name', '')
                else:
                    key = '::'.join([p for p in path if p != 'EllipticForest'] + [n.get('name', '')])
                f = Func(n, key, cls, None)
                self.funcs[n['id']] = f
                if cls in self.records:
                    self.records[cls].methods.append(f)
            self._index_body(n)
        elif k == 'VarDecl':
            self.globals[n['id']] = n
            self._index_body(n)
        elif k == 'EnumDecl':
            if n.get('name'): self.enumtypes.add('::'.join([p for p in path if p != 'EllipticForest'] + [n['name']]))
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    for x in c.get('inner', []):
                        if x.get('kind') == 'ConstantExpr':
                            v = int(x.get('value', v))
                    self.enums[c['id']] = v
                    self.decl[c['id']] = c
        else:
            for c in n.get('inner', []):
                if isinstance(c, dict) and c.get('kind'):
                    if c['kind'].endswith('Decl'):
                        self._walk(c, path, rec, dependent)

    def _last(self, key):
        # strip namespace part outside <>
        depth = 0
        cut = 0
        for i, ch in enumerate(key):
            if ch == '<': depth += 1
            elif ch == '>': depth -= 1
            elif ch == ':' and depth == 0:
                cut = i + 1
        return key[cut:]

    def _index_body(self, n):
        st = [n]
        while st:
            x = st.pop()
            for c in x.get('inner', []) or []:
                if isinstance(c, dict):
                    if 'id' in c and c.get('kind', '').endswith('Decl'):
                        self.decl[c['id']] = c
                        if c['kind'] in ('CXXMethodDecl', 'FunctionDecl'):
                            pass
                    st.append(c)

    def find(self, key, nargs=None, ptypes=None):
        out = []
        for f in self.by_key.get(key, []):
            g = self.defs.get(f.id, f)
            if g.body is None:
                continue
            if nargs is not None and len(f.params) != nargs:
                continue
            if ptypes is not None and [norm_type(x) for x in ptypes] != g.ptypes:
                continue
            if g not in out:
                out.append(g)
        return out

    def definition(self, id):
        return self.defs.get(id)

    def all_fields(self, key):
        r = self.records.get(key)
        if r is None:
            return None
        out = []
        for b in r.bases:
            bf = self.all_fields(b)
            if bf:
                out += bf
        return out + [(n, t, i, key) for n, t, i in r.fields]


def load():
    return Program(dump())


def where(f, node):
    """file:line of a node inside function f (by byte offset)"""
    off = None
    for part in ('range',):
        b = node.get(part, {}).get('begin', {})
        off = b.get('offset', b.get('expansionLoc', {}).get('offset'))
    if off is None:
        return '?'
    return off


if __name__ == '__main__':
    import time, sys
    t = time.time()
    P = load()
    print('loaded', time.time() - t, len(P.funcs), len(P.records))
    for k in sorted(P.records): print('R', k, P.records[k].full, len(P.records[k].fields), P.records[k].bases)
    if len(sys.argv) > 1:
        for k in sorted(P.by_key):
            if re.search(sys.argv[1], k):
                for f in P.by_key[k]:
                    print(f.sig, 'BODY' if P.defs.get(f.id) else '-', f.id)
