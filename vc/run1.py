import os, sys, time, re, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import cast, contract, loops, externs, blas, appmodel, petsc, mpimodel, strs
def table(mods):
    cs = []
    for m in mods: cs += importlib.import_module('specs.' + m).CONTRACTS
    idx = {}
    for c in cs: idx.setdefault(c.key, []).append(c)
    memo = {}
    def look(f):
        k = f.sig
        if k not in memo:
            memo[k] = next((c for c in idx.get(f.key, ()) if c.matches(f)), None)
        return memo[k]
    return cs, look
if __name__ == '__main__':
    mods = sys.argv[1].split(',')
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    p = cast.load()
    cs, look = table(mods)
    verbose = '-v' in sys.argv
    for c in cs:
        fs = []
        for f in p.by_key.get(c.key, []):
            d = p.definition(f.id) or f
            if d.body is not None and c.matches(d) and d not in fs: fs.append(d)
        if not re.search(pat, c.id): continue
        if not fs: print('NOFUNC', c.id); continue
        seen = set()
        for f in fs:
            if f.sig + f.ftype in seen: continue
            seen.add(f.sig + f.ftype)
            r = contract.verify(p, look, externs.Ext(), c, f)
            st = 'UNSUP ' + r.unsupported if r.unsupported else ('FAIL' if r.failed else 'ok')
            print('%-60s %5.1fs %3d obl  %s' % (f.sig[:60], r.time, len(r.obls), st), flush=True)
            for o in r.failed:
                print('     !', o.name, o.status)
                if verbose:
                    print('       goal', repr(o.goal)[:int(__import__("os").environ.get("W","1500"))])
                    for h in (o.hyps or [])[-14:]: print('       hyp', repr(h)[:int(__import__("os").environ.get("W","300"))])
                    if o.model: print('       model', {k: v for k, v in list(o.model.items())[:25]})
