"""Decides one property: python3-vt check.py PROPERTY [--tier quick|thorough]

1. parses /repo's current sources with clang, 2. verifies every function under contract the property depends on
(root contracts and, transitively, the contracts used at their call sites), 3. where an obligation fails or a
function is out of reach, runs the real code on concrete inputs (replay/<property>.cpp) to find a failing input."""
import sys, os, time, json, re, argparse, subprocess, tempfile, shutil, threading, importlib
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import cast, contract, loops, externs, blas, appmodel, petsc, mpimodel, strs, terms
import props

G = {}


def contracts_table():
    cs = []
    for m in props.MODULES:
        for c in importlib.import_module('specs.' + m).CONTRACTS:
            c.mod = m
            cs.append(c)
    for i, c in enumerate(cs): c.index = i
    idx = {}
    for c in cs: idx.setdefault(c.key, []).append(c)
    memo = {}
    def look(f):
        k = f.sig
        if k not in memo:
            memo[k] = next((c for c in idx.get(f.key, ()) if c.matches(f)), None)
        return memo[k]
    return cs, look


def functions(p, c):
    fs, seen = [], set()
    for f in p.by_key.get(c.key, []):
        d = p.definition(f.id) or f
        if d.body is not None and c.matches(d) and d.sig + d.ftype not in seen:
            seen.add(d.sig + d.ftype)
            fs.append(d)
    return fs


def short(t, n=600):
    try: s = repr(t)
    except RecursionError: s = '(large term)'
    return s if len(s) <= n else s[:n] + ' ...'


def work(arg):
    ci, fi, vi, budget = arg
    c = G['cs'][ci]
    f = functions(G['prog'], c)[fi]
    variants = c.variants
    try:
        if vi is not None: c.variants = [variants[vi]]
        r = contract.verify(G['prog'], G['look'], externs.Ext(), c, f, budget=budget)
    except BaseException as e:
        return dict(ci=ci, fi=fi, vi=vi, sig=f.sig, unsupported='translator: %r' % (e,), obls=[], time=0, used=[], inlined=[], assumed=[])
    finally:
        c.variants = variants
    obls = []
    for o in r.obls:
        d = dict(name=o.name, ok=o.ok, status=o.status, time=round(o.time, 3))
        if not o.ok:
            d['goal'] = short(o.goal)
            d['hyps'] = [short(h, 200) for h in (o.hyps or [])[-20:]]
            d['model'] = {str(k): str(v)[:80] for k, v in list((o.model or {}).items())[:30]}
        obls.append(d)
    return dict(ci=ci, fi=fi, vi=vi, sig=f.sig, unsupported=r.unsupported, obls=obls, time=r.time,
                used=[x.index for x in r.usedc if hasattr(x, 'index')], inlined=r.inlined, assumed=r.assumed)


def known_keys(prop):
    out = {}
    try:
        for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: out[m.group(2).replace('_', ' ')] = m.group(3).strip()
    except OSError: pass
    return out


class Replay:
    """compiles and runs the concrete search against the real code"""

    def __init__(self, prop, P, seed, tier, tmp):
        self.prop, self.P, self.seed, self.tier, self.tmp = prop, P, seed, tier, tmp
        self.src = os.path.join(ROOT, 'replay', P['replay'])
        self.exe = os.path.join(tmp, prop)
        self.thread = None
        self.error = None

    def compile(self):
        cast.units(self.tmp)
        p = subprocess.run(['bash', os.path.join(ROOT, 'replay', 'build.sh'), self.src, self.exe, self.tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if p.returncode != 0 or not os.path.exists(self.exe): self.error = 'replay program does not compile: ' + p.stdout[-1500:]

    def start(self):
        if self.thread is None:
            self.thread = threading.Thread(target=self._guard)
            self.thread.start()

    def _guard(self):
        try: self.compile()
        except Exception as e: self.error = 'replay program: %r' % (e,)

    def run(self, secs):
        self.start()
        self.thread.join()
        r = dict(fail=None, known=[], cases=0, samples=[], error=self.error, seconds=secs)
        if self.error: return r
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            if l.startswith(('OMPI', 'OMP_', 'OPENBLAS')): env[l.split('=', 1)[0]] = l.split('=', 1)[1]
        env['TMPDIR'] = self.tmp
        self.cmd = [self.exe, str(self.seed), str(secs)] + list(known_keys(self.prop))
        try:
            p = subprocess.run(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.tmp, timeout=secs * 4 + 240, errors='replace')
        except subprocess.TimeoutExpired:
            r['error'] = 'replay program exceeded its time'
            return r
        for l in p.stdout.splitlines():
            if l.startswith('FAIL ') and r['fail'] is None: r['fail'] = l[5:]
            elif l.startswith('KNOWN '): r['known'].append(l[6:])
            elif l.startswith('SAMPLE '): r['samples'].append(l[7:][:400])
            elif l.startswith('CASES '): r['cases'] = int(l.split()[1])
        r['stderr'] = p.stderr[-3000:]
        if p.returncode not in (0, 1) and r['fail'] is None: r['error'] = 'replay program ended with %s: %s' % (p.returncode, p.stderr[-600:])
        return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    t0 = time.time()
    limit = 330 if tier == 'quick' else 3000
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        rc = decide(prop, P, tier, seed, t0, limit, ev, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, P, tier, seed, t0, limit, ev, tmp):
    replay = Replay(prop, P, seed, tier, tmp) if P.get('replay') else None
    if replay and P.get('always'): replay.start()
    extraction = None
    try:
        G['prog'] = cast.load()
    except Exception as e:
        extraction = str(e)[:2000]
        G['prog'] = None
    G['cs'], G['look'] = contracts_table()
    cs, prog = G['cs'], G['prog']
    roots = [c for c in cs if P['roots'](c)]
    rootset = set(roots)
    results, missing = [], []
    if prog is not None:
        queued = set()
        pending = []
        pool = mp.get_context('fork').Pool(int(os.environ.get('VC_JOBS', '8')))
        budget = P.get('budget', 240)
        def push(c):
            if c.index in queued: return
            queued.add(c.index)
            fs = functions(prog, c)
            if not fs:
                missing.append(c)
                return
            for fi in range(len(fs)):
                vs = range(len(c.variants)) if c.variants and len(c.variants) > 1 else [None]
                if P.get('variants') and c in rootset and vs != [None]: vs = [v for v in vs if re.search(P['variants'], c.variants[v][0])]
                for vi in vs: pending.append((c.index, fi, vi, pool.apply_async(work, ((c.index, fi, vi, budget),))))
        for c in roots: push(c)
        while pending:
            nxt = []
            for ci, fi, vi, h in pending:
                if h.ready():
                    r = h.get()
                    results.append(r)
                    G.setdefault('todo', []).extend(r['used'])
                    if replay and (r['unsupported'] or any(not o['ok'] for o in r['obls'])): replay.start()
                    if ci in {x.index for x in rootset if not x.weak} and any(not o['ok'] and o['status'] == 'z3:sat' for o in r['obls']):
                        limit = min(limit, time.time() - t0 + 60)   # a violation is established: do not wait long for the rest
                else: nxt.append((ci, fi, vi, h))
            pending[:] = nxt
            for u in G.pop('todo', []): push(cs[u])
            if time.time() - t0 > limit:
                for ci, fi, vi, h in pending:
                    results.append(dict(ci=ci, fi=fi, vi=vi, sig=functions(prog, cs[ci])[fi].sig, unsupported='time budget of the check exhausted', obls=[], time=0, used=[], inlined=[], assumed=[]))
                pending[:] = []
            if pending: time.sleep(0.02)
        pool.terminate()
    # ------------------------------------------------------------ classify
    flt = P.get('obl')
    total = discharged = 0
    backends, rootfail, calleefail, undecided, functions_, solver = {}, [], [], [], {}, 0.0
    assumed, inlined = set(), set()
    for r in results:
        c = cs[r['ci']]
        isroot = c in rootset
        con = '%s%s' % (r['sig'], ' [%s]' % c.variants[r['vi']][0] if r['vi'] is not None else '')
        bad = []
        for o in r['obls']:
            if isroot and flt and not re.search(flt, o['name']): continue
            total += 1
            solver += o['time']
            if o['ok']:
                discharged += 1
                backends[o['status']] = backends.get(o['status'], 0) + 1
            else: bad.append(o)
        assumed.update(r['assumed'])
        inlined.update(r['inlined'])
        f = functions_.setdefault(r['sig'], dict(obligations=0, failed=0, seconds=0.0, role='root' if isroot else 'callee', status='verified'))
        f['obligations'] += len(r['obls'])
        f['failed'] += len(bad)
        f['seconds'] = round(f['seconds'] + r['time'], 2)
        if r['unsupported']:
            f['status'] = 'out of reach: ' + r['unsupported'][:300]
            undecided.append((con, r['unsupported'][:600]))
        elif bad: f['status'] = 'failed'
        elif c.bounded and f['status'] == 'verified': f['status'] = 'verified, bounded: ' + c.bounded
        for o in bad:
            if o['status'] == 'z3:sat': (rootfail if isroot and not c.weak else calleefail).append((con, o))
            else: undecided.append((con, '%s: %s' % (o['name'], o['status'])))
    for c in missing: undecided.append((c.id, 'no such function in the sources'))
    if extraction: undecided.append(('all functions', extraction))
    if prog is not None and not results and roots: undecided.append(('all functions', 'no obligations were generated'))
    # ------------------------------------------------------------ concrete search
    rr = None
    need = bool(rootfail or calleefail or undecided)
    if replay and (need or P.get('always') or tier == 'thorough'):
        secs = P.get('secs', 15)
        if need: secs = max(secs, 30)
        if tier == 'thorough': secs = max(secs, 240)
        rr = replay.run(secs)
    # ------------------------------------------------------------ report
    rc, line = 0, None
    path = os.path.join('evidence', 'replays', prop + '.txt')
    fails = rootfail + calleefail
    if rr and rr['fail']: rc, line = 1, 'VIOLATION property=%s replay=%s' % (prop, path)
    elif rootfail: rc, line = 1, 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
    if rc:
        with open(os.path.join(ROOT, path), 'w') as fh:
            fh.write('property %s\n' % prop)
            if rr and rr['fail']:
                fh.write('failing input (real code, compiled from %s):\n  %s\n' % (cast.REPO, rr['fail']))
                fh.write('reproduce: d=$(mktemp -d); python3-vt -c "import sys; sys.path.insert(0, \'/verif/vc\'); import cast; cast.units(\'$d\')"; bash /verif/replay/build.sh /verif/replay/%s $d/replay $d; ASAN_OPTIONS=detect_leaks=0 $d/replay %d %s\n' % (P['replay'], seed, rr['seconds']))
                if rr.get('stderr'): fh.write('output:\n%s\n' % rr['stderr'])
            elif rr: fh.write('no failing input found in %d cases (%s s)%s\n' % (rr['cases'], rr['seconds'], '; ' + rr['error'] if rr['error'] else ''))
            for con, o in fails:
                fh.write('\nfailed obligation of %s: %s (%s)\n  goal: %s\n' % (con, o['name'], o['status'], o.get('goal')))
                for h in o.get('hyps', []): fh.write('  under: %s\n' % h)
                if o.get('model'): fh.write('  counterexample of the verifier: %s\n' % json.dumps(o['model']))
            for con, why in undecided: fh.write('\nnot decided by the verifier: %s: %s\n' % (con, why))
    if rr:
        kk = known_keys(prop)
        for k in rr['known']:
            m = re.match(r'key=(.*)', k)
            print('KNOWN-FINDING: property=%s %s' % (prop, next((t for n, t in kk.items() if m and m.group(1).startswith(n)), k)))
    cov = dict(obligations=total, discharged=discharged, checker_cmd='python3-vt vc/check.py %s --tier %s' % (prop, tier),
               trusted_base=props.TRUSTED + ['assumed contract of an external function: ' + x for x in sorted(assumed)],
               backends=backends, solver_seconds=round(solver, 2),
               functions_under_contract=functions_, functions_inlined=sorted(inlined),
               not_decided=[dict(function=x, reason=y) for x, y in undecided],
               failed=[dict(function=x, obligation=o['name'], status=o['status']) for x, o in fails],
               extraction='clang AST of the unmodified sources (template instantiations listed in vc/tu.cpp); floating point read as real arithmetic; output streams and logging dropped')
    bounded = list(P.get('bounded', [])) + sorted({c.bounded for c in roots if c.bounded})
    if bounded: cov['bounded_parts'] = bounded
    if rr: cov.update(replay_cases=rr['cases'], replay_seconds=rr['seconds'], replay_samples=rr['samples'], replay_error=rr['error'], replay_program='replay/' + P['replay'])
    if P.get('level', 'proof') != 'proof':
        cov.update(evaluations=rr['cases'] if rr else 0, samples=(rr['samples'] if rr else []) or ['none'], explanation=P.get('explanation', ''))
    e = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov,
             assumptions=props.ASSUMPTIONS + P.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=1 if rc else 0)
    with open(os.path.join(ev, prop + '.json'), 'w') as fh: json.dump(e, fh, indent=1)
    print('%s: %d functions, %d/%d obligations discharged, %d not decided%s, %.0f s' % (
        prop, len(functions_), discharged, total, len(undecided), ', %d concrete cases' % rr['cases'] if rr else '', time.time() - t0))
    for con, why in undecided[:12]: print('  not decided: %s: %s' % (con, why[:200]))
    for con, o in fails[:12]: print('  failed: %s: %s (%s)' % (con, o['name'], o['status']))
    if rr and rr['error']: print('  ' + rr['error'])
    if line: print(line)
    return rc


if __name__ == '__main__': main()
