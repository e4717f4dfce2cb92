"""mkseed(id, prop, [(file, old, new[, nth])], demo_cpp, needs, breaks): writes /verif/seeded/<id>/"""
import os, subprocess, json, shutil
HEAD = '#include <bits/stdc++.h>\n#include <mpi.h>\n#define private public\n#define protected public\n#include "units.inc"\n#undef private\n#undef protected\n'
STUB = 'extern "C" void p4est_search_reorder(p4est_t*, int, void*, p4est_search_local_t, p4est_search_local_t, p4est_search_local_t, sc_array_t*) { std::abort(); }\nnamespace EllipticForest { extern "C" void hstcrt_(double*, double*, int*, int*, double*, double*, double*, double*, int*, int*, double*, double*, double*, double*, int*, double*, int*) { std::abort(); } }\n'
CHK = 'using namespace EllipticForest;\n#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); std::fflush(stdout); _exit(1); } } while (0)\n'
def mkseed(sid, prop, edits, demo, needs, breaks, stub=True, pub=False):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    import tempfile
    t = tempfile.mkdtemp(prefix='mkseed')
    for e in edits:
        f, old, new = e[:3]
        for x in 'ab':
            os.makedirs(os.path.dirname('%s/%s/%s' % (t, x, f)), exist_ok=True)
            if not os.path.exists('%s/%s/%s' % (t, x, f)): open('%s/%s/%s' % (t, x, f), 'w').write(subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], stdout=subprocess.PIPE, text=True, check=True).stdout)
        p = '%s/b/%s' % (t, f)
        s = open(p).read()
        n = s.count(old)
        nth = e[3] if len(e) > 3 else None
        assert n >= 1 and (n == 1 or nth is not None), (sid, f, old, n)
        if nth is None: s = s.replace(old, new)
        else:
            i = -1
            for _ in range(nth + 1): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, 'w').write(s)
    diff = subprocess.run('git diff --no-index --no-prefix a b', shell=True, cwd=t, stdout=subprocess.PIPE, text=True).stdout
    assert diff.startswith('diff --git a/src'), diff[:200]
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(t)
    open(d + '/demo.cpp', 'w').write(HEAD + (STUB if stub else '') + CHK + demo)
    shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
def mkhps(sid, prop, edits, run, needs, breaks, head='#include "hps.hpp"\nusing namespace vr;\n'):
    mkseed(sid, prop, edits, '', needs, breaks)
    d = '/verif/seeded/' + sid
    open(d + '/demo.cpp', 'w').write(head + run + '\n')
    for f in ('replay/common.hpp', 'replay/hps.hpp', 'vc/tu.cpp', 'vc/shim.hpp'): shutil.copy('/verif/' + f, d)
