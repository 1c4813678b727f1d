#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]: decide one property statically on /repo's current source.

1. compile /repo (and /verif/fixtures, a crate that only instantiates its macros) with the MIR dumper in place
   of rustc: type-checked, optimisation-free MIR of every function, plus impl/trait/type tables;
2. run the abstract interpreter over every function the property's rule applies to;
3. report each obligation: decided to hold, decided to fail (VIOLATION), or undecided (evidence only).
Nothing of /repo is executed."""
import fcntl, hashlib, importlib, json, os, re, shutil, resource, subprocess, sys, tempfile, threading, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('AEGIR_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'engine'))
sys.setrecursionlimit(100000)
LIMIT = 780

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stdout.write(r.stdout[-4000:]); print('ERROR: %s failed' % ' '.join(cmd)); sys.exit(2)
    return r.stdout

def tree_hash(d):
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(d)):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        for f in sorted(fs):
            p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def driver():
    b = os.path.join(V, '.build'); os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash(os.path.join(V, 'driver')) + sh(['rustc', '+nightly', '--version'])
        st = os.path.join(b, 'stamp'); exe = os.path.join(b, 'drv/debug/mirdump')
        if not (os.path.exists(exe) and os.path.exists(st) and open(st).read() == h):
            sh(['cargo', '+nightly', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(V, 'driver/Cargo.toml')],
               env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(b, 'drv'), RUSTFLAGS='', CARGO_TERM_COLOR='never'))
            open(st, 'w').write(h)
    return exe

def dump(out, tmp, crates='aegir,fixtures', fixture='fixtures'):
    """compile /repo and the fixture crate with the dumper"""
    exe = driver()
    root = sh(['rustc', '+nightly', '--print', 'sysroot']).strip()
    fx = os.path.join(tmp, fixture)
    shutil.copytree(os.path.join(V, fixture), fx, ignore=shutil.ignore_patterns('target'))
    m = os.path.join(fx, 'Cargo.toml'); s = open(m).read().replace('/repo/', REPO + '/'); open(m, 'w').write(s)
    if fixture == 'fixtures':
        import macrogen, idgen
        open(os.path.join(fx, 'src', 'idents_gen.rs'), 'w').write(idgen.ids_source(REPO))
        open(os.path.join(fx, 'src', 'contexts_gen.rs'), 'w').write(idgen.ctx_source())
        open(os.path.join(fx, 'src', 'macros_gen.rs'), 'w').write(macrogen.source(REPO))
    env = dict(os.environ, LD_LIBRARY_PATH=root + '/lib', MIRDUMP_CRATES=crates, MIRDUMP_OUT=out, RUSTC_WRAPPER=exe,
               CARGO_TARGET_DIR=os.path.join(tmp, 'target'), RUSTFLAGS='', CARGO_TERM_COLOR='never')
    broken = {}
    for _ in range(len(FIXMODS) + 1):
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--manifest-path', m], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r.returncode: break
        # the library builds but client code instantiating one of its macros does not: set that client module aside and say so
        blocks = re.split(r'\n(?=error|warning)', '\n' + r.stdout)
        blocks = [b.strip() for b in blocks if b.strip().startswith('error')] if 'could not compile `fixtures`' in r.stdout else []
        errs = {x: b for b in reversed(blocks) for x in re.findall(r'(?<![\w/])src/(\w+)\.rs:\d+', b)}
        bad = [x for x in FIXMODS if x in errs]
        if not bad or fixture != 'fixtures': sys.stdout.write(r.stdout[-4000:]); print('ERROR: cargo check failed'); sys.exit(2)
        for x in bad:
            broken[x] = errs[x][:600]
        for x, dep in FIXMODS.items():
            if dep in broken and x not in broken: broken[x] = None
        lp = os.path.join(fx, 'src/lib.rs'); t = open(lp).read()
        for x in broken: t = t.replace('pub mod %s;\n' % x, '')
        open(lp, 'w').write(t)
    json.dump(broken, open(os.path.join(out, 'broken.json'), 'w'))
    for c in crates.split(','):
        if not os.path.exists(os.path.join(out, c + '.json')): print('ERROR: no dump of crate %s' % c); sys.exit(2)

# fixture module -> module it depends on; and the property whose programs it holds
FIXMODS = {'idents': None, 'contexts': 'idents', 'macros': None, 'macros_gen': None, 'idents_gen': None, 'contexts_gen': None}
FIXPROP = {'C21': ('idents', 'idents_gen'), 'C08': ('contexts', 'contexts_gen'), 'C19': ('macros', 'macros_gen')}
CHECKS = {}
def find_check(pid):
    for m in ('nodes', 'bufs', 'shapesx', 'syntax', 'misc', 'closure', 'safety'):
        if not os.path.exists(os.path.join(V, 'engine', m + '.py')): continue
        M = importlib.import_module(m)
        if hasattr(M, pid.lower()): return getattr(M, pid.lower())
    print('ERROR: no check for', pid); sys.exit(2)

def known():
    out = []
    p = os.path.join(V, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l)
        if m: out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out

def main():
    pid = sys.argv[1].upper(); tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time(); fn = find_check(pid)
    from report import Report
    from ana import Ana
    import small
    tmp = tempfile.mkdtemp(prefix='aegir-static-')
    try:
        pre = os.environ.get('AEGIR_DUMP')
        out = pre or os.path.join(tmp, 'dump')
        if not pre:
            os.makedirs(out); dump(out, tmp)
        t1 = time.time()
        resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        A = Ana([os.path.join(out, 'aegir.json'), os.path.join(out, 'fixtures.json')])
        rep = Report(pid, tier); rep.tmp = tmp; rep.repo = REPO
        bp = os.path.join(out, 'broken.json')
        broken = json.load(open(bp)) if os.path.exists(bp) else {}
        part = False
        mods = [m for m in FIXPROP.get(pid, ()) if m in broken]
        for mod in mods:
            rep.add('client programs of the %s macros compile' % mod, 'no' if broken[mod] else '?', 'fixtures/src/%s.rs' % mod, broken[mod] or 'depends on a module that does not compile', 'compile-time witness')
        if not mods:
            def late():
                rep.add('the analysis finished', '?', '', 'stopped after %d s' % LIMIT, 'completeness of the analysis')
                shutil.rmtree(tmp, ignore_errors=True)
                try: rc = finish(pid, tier, rep, A, t0, t1, True)
                except BaseException: rc = 2
                sys.stdout.flush(); os._exit(rc)
            w = threading.Timer(max(1, t0 + LIMIT - time.time()), late); w.daemon = True; w.start()
            try:
                fn(A, rep, tier)
                small.refine(fn, A, rep, tier, t0 + 600)
            except (Exception, RecursionError) as e:
                part = True; traceback.print_exc(file=sys.stdout)
                rep.add('the analysis finished', '?', '', 'stopped: %s' % repr(e)[:200], 'completeness of the analysis')
            w.cancel()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(finish(pid, tier, rep, A, t0, t1, part))

def finish(pid, tier, rep, A, t0, t1, part):
    bad = [i for i in rep.items if i['status'] == 'no']
    kn = {k: w for p, k, w in known() if p == pid}
    new = [i for i in bad if i['key'] not in kn]
    und = [i for i in rep.items if i['status'] == '?']
    if part: print('UNDECIDED: the analysis did not finish; %d obligations were decided' % len(rep.items))
    low = [f for f in rep.floors if f[1] < f[2]]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = os.path.join(V, 'evidence', pid + '.json')
    rules = {}
    for i in rep.items: rules.setdefault(i['rule'] or 'rule', {'yes': 0, 'no': 0, '?': 0})[i['status']] += 1
    n = len(rep.items)
    cov = {'explanation': '%d obligations generated from the current source (%d functions interpreted abstractly, %d root analyses, %d panic/overflow obligations met on the way): %d hold, %d fail, %d undecided. Rules: %s.'
           % (n, len(A.visited), A.runs, A.nobl, rep.count('yes'), len(bad), len(und), '; '.join(sorted(rules))[:1500]),
           'obligations': n, 'holds': rep.count('yes'), 'fails': len(bad), 'undecided': len(und), 'by_rule': rules,
           'floors': [{'what': w, 'found': a, 'required': b} for w, a, b in rep.floors],
           'functions_analysed': len(A.visited), 'root_analyses': A.runs,
           'undecided_obligations': [{k: i[k] for k in ('key', 'where', 'msg')} for i in und[:200]],
           'violations': [{k: i[k] for k in ('key', 'where', 'msg', 'rule')} for i in new[:200]],
           'known_findings': [{'key': k, 'what': w} for k, w in kn.items()],
           'analysed': sorted(A.visited)[:2000], 'samples': [i['key'] for i in rep.items[:40]], 'notes': rep.notes}
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)},
              open(ev, 'w'), indent=1)
    print('%s %s: %d obligations, %d hold, %d fail, %d undecided; %d functions; dump %.1fs analysis %.1fs'
          % (pid, tier, n, rep.count('yes'), len(bad), len(und), len(A.visited), t1 - t0, time.time() - t1))
    for k in kn:
        if any(i['key'] == k for i in bad): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kn[k]))
    if new:
        rp = os.path.join(V, 'evidence', pid + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for i in new[:20]: print('VIOLATION property=%s replay=%s %s in %s: %s [%s]' % (pid, rp, i['key'], i['where'], i['msg'][:300].replace('\n', ' '), i['rule']))
        return 1
    if low and not part:
        for f in low: print('ERROR: %s: found %d, expected at least %d' % f)
        return 2
    return 0
if __name__ == '__main__': main()
