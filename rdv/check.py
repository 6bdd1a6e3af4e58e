"""Decides one property: discharges every obligation generated from /repo's current source, and runs the bounded stand-ins.

exit 0: held; exit 1 + VIOLATION line: broken."""
import os, sys, json, time, re, importlib, subprocess, tempfile, shutil, threading, traceback, signal
from .ast import ExtractError, REPO
from . import prove, unit

VERIF = prove.VERIF
OUT = os.path.join(VERIF, 'out')


def log(*a):
    print(*a, flush=True)


class Harness:
    """bounded check: a C++ program over the real headers. It prints JSON lines {"fail": key, "input": ..., "what": ...} and a final
    {"done": true, "cases": n, "distinct": n, "rule": ..., "samples": [...]}"""

    def __init__(self, src, functions, bound, flags=(), libs=(), args=(), asan=True):
        self.src, self.functions, self.bound, self.flags, self.libs, self.args, self.asan = src, functions, bound, list(flags), list(libs), list(args), asan

    def compile(self, work):
        self.exe = os.path.join(work, os.path.basename(self.src) + '.exe')
        cmd = ['g++', '-std=gnu++17', '-O1', '-DNDEBUG', '-w', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'bounded'),
               '-DRICHDEM_GIT_HASH="x"', '-DRICHDEM_COMPILE_TIME="x"'] + (['-fsanitize=address', '-g1', '-fno-omit-frame-pointer'] if self.asan else []) + self.flags + \
              [os.path.join(VERIF, 'bounded', self.src)] + [os.path.join(REPO, 'src', x) if x.endswith('.cpp') else x for x in self.libs] + ['-o', self.exe]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            return 'compilation of the bounded check failed:\n' + r.stderr[-4000:]
        return None

    def run(self, work, seconds, seed, tier):
        env = dict(os.environ, RDV_SECONDS=str(seconds), RDV_SEED=str(seed), RDV_TIER=tier, RDV_SCRATCH=work, OMP_WAIT_POLICY='passive',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1')
        of = os.path.join(work, os.path.basename(self.src) + '.out')
        with open(of, 'w') as f, open(of + '.err', 'w') as g:
            p = subprocess.Popen([self.exe] + self.args, stdout=f, stderr=g, env=env, cwd=work, start_new_session=True)
            try:
                rc = p.wait(timeout=seconds * 3 + 60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
        fails, done, cur = [], None, None
        for l in open(of, errors='replace'):
            l = l.strip()
            if not l.startswith('{'):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if 'fail' in d:
                fails.append(d)
            elif 'done' in d:
                done = d
        try:
            cur = open(os.path.join(work, 'current_case'), errors='replace').read()
        except OSError:
            cur = ''
        err = open(of + '.err', errors='replace').read()
        if done is None and not fails:
            m = re.search(r'ERROR: AddressSanitizer: (\S+).*?\n(?:.*\n){0,12}', err)
            what = 'the program ended abnormally (exit %s)%s' % (rc, ': ' + m.group(0)[:1500] if m else '')
            fails.append({'fail': 'crash', 'what': what, 'input': cur, 'stderr': err[-1500:]})
        return fails, done


def known_findings(prop):
    """lines 'open: property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def scan_assumptions(work, files):
    """mechanical scan of the theories for what is assumed"""
    out = []
    for f in files:
        for i, l in enumerate(open(f), 1):
            if re.match(r'\s*(axiom|val)\b', l):
                out.append('%s:%d: %s' % (os.path.basename(f), i, l.strip()[:110]))
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = importlib.import_module('specs.' + prop.lower())
    os.makedirs(OUT, exist_ok=True)
    work = tempfile.mkdtemp(prefix='rdv_%s_' % prop)
    replay = os.path.join(OUT, 'replay_%s.txt' % prop)
    limit = 780 if tier == 'quick' else 3000
    deadline = t0 + limit
    hsec = (int(getattr(mod, 'HSEC', 25)) if tier == 'quick' else 600)
    harn = list(getattr(mod, 'HARNESS', []))
    hres = {}

    def runh(h):
        w = os.path.join(work, h.src + '.d')
        os.makedirs(w, exist_ok=True)
        h.err = h.compile(w)
        if h.err:
            hres[h.src] = ([], None)
            return
        hres[h.src] = h.run(w, hsec, seed, tier)
    th = []
    if os.environ.get('RDV_NOHARNESS') != '1':
        for h in harn:
            t = threading.Thread(target=runh, args=(h,))
            t.start()
            th.append(t)
    known = known_findings(prop)

    def found():
        """a failing input is known already: the long proof attempts are skipped"""
        return any(f['fail'] not in known for r in list(hres.values()) for f in r[0])
    # ---------------- deductive part
    failed, goals, fns, inl, drop, builtin, errors, vac = [], [], [], set(), {}, set(), [], []
    solver_time, by = 0.0, {}
    allunits = list(getattr(mod, 'UNITS', []))
    units = [u for u in allunits if tier != 'quick' or u.tier == 'quick']
    theories = list(getattr(mod, 'THEORIES', []))
    allgoals = []
    nproof = 0
    if os.environ.get('RDV_NOPROOF') != '1':
        for f, m in theories:
            d = tempfile.mkdtemp(dir=work)
            try:
                gs = prove.generate(os.path.join(VERIF, 'theories', f), m, d)
                for g in gs:
                    g.unit = f + ':' + m
                    g.soft = True
                allgoals += gs
            except prove.WhyError as e:
                errors.append(('theory %s' % f, str(e)))
        gl = threading.Lock()

        def gen(s):
            d = os.path.join(work, 'u_' + s.name)
            try:
                u, mlw, m = unit.build(s, d)
            except ExtractError as e:
                with gl:
                    errors.append((s.name, 'extraction: %s' % e))
                return
            except Exception as e:
                with gl:
                    errors.append((s.name, 'extraction: internal %s' % traceback.format_exc()[-1500:]))
                return
            try:
                gs = prove.generate(mlw, m, d, s.transforms)
            except prove.WhyError as e:
                with gl:
                    errors.append((s.name, 'typing of the generated WhyML: %s' % e))
                return
            for g in gs:
                g.unit = s.name
                g.mlw = mlw
                g.soft = False
            with gl:
                allgoals.extend(gs)
                fns.extend((s.name,) + f for f in u.emitted_fns)
                inl.update(u.inlined)
                drop.update(u.dropped)
                builtin.update(u.builtin)
                for n in u.vacuity:
                    vac.append((s.name, n))
            s.built = u
        ths = []
        sem = threading.Semaphore(4)

        def gen1(s):
            with sem:
                gen(s)
        for s in units:
            t = threading.Thread(target=gen1, args=(s,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        # vacuity goals are those of the functions named vac__*: they must NOT be provable
        vgoals = [g for g in allgoals if 'vac__' in g.name]
        goals = [g for g in allgoals if 'vac__' not in g.name]
        failed = prove.discharge(goals, deadline=deadline - 60, budget=getattr(mod, 'BUDGET', 1.0) * (1 if tier == 'quick' else 3),
                                 log=lambda s: log('  ' + s), stop=found)
        vfail = prove.discharge(vgoals, rounds=[('z3-new', 1)])
        vbad = [g for g in vgoals if g.status == 'valid']
        for g in vbad:
            errors.append((g.unit, 'vacuous precondition: false is provable in %s' % g.name))
        nproof = len(goals)
        if units and not [g for g in goals if not g.soft]:
            if not errors:
                errors.append(('-', 'no obligation was generated'))
        for g in goals:
            solver_time += g.time
            if g.status == 'valid':
                by[g.prover] = by.get(g.prover, 0) + 1
    for t in th:
        t.join()
    # ---------------- verdict
    hf, cases, distinct, samples, rules, bounded = [], 0, 0, [], [], []
    for h in harn:
        if h.src not in hres:
            continue
        fails, done = hres[h.src]
        if getattr(h, 'err', None):
            errors.append((h.src, h.err))
        for f in fails:
            f['harness'] = h.src
            hf.append(f)
        if done:
            cases += done.get('cases', 0)
            distinct += done.get('distinct', 0)
            samples += done.get('samples', [])[:3]
            rules.append('%s: %s' % (h.src, done.get('rule', '')))
        bounded.append({'harness': h.src, 'functions': h.functions, 'bound': h.bound, 'cases': (done or {}).get('cases', 0)})
    new = [f for f in hf if f['fail'] not in known]
    seen = sorted({f['fail'] for f in hf if f['fail'] in known})
    proof_bad = bool(failed or errors)
    # a failed proof: search longer for a failing input before giving up on one
    if proof_bad and not new and harn and os.environ.get('RDV_NOHARNESS') != '1':
        more = max(0, min(240, deadline - time.time() - 30))
        if more > 20:
            log('proof failed; searching %d s for a failing input' % more)
            ts = []

            def again(h, k):
                w = os.path.join(work, '%s.again%d' % (h.src, k))
                os.makedirs(w, exist_ok=True)
                if getattr(h, 'err', None):
                    return
                fails, done = h.run(w, int(more / 1.3), seed * 1000 + 17 + k, 'search')
                for f in fails:
                    f['harness'] = h.src
                    if f['fail'] not in known:
                        new.append(f)
            for h in harn:
                for k in range(max(1, 6 // len(harn))):
                    t = threading.Thread(target=again, args=(h, k))
                    t.start()
                    ts.append(t)
            for t in ts:
                t.join()
    wall = time.time() - t0
    theoryfiles = sorted({os.path.join(VERIF, 'theories', f) for f in ['rdbase.mlw'] + [x.split('.')[0] + '.mlw' for s in units for x in s.uses]})
    tb = ['why3 1.6.0 VC generation; %s' % ', '.join('%s' % k for k in sorted(by)), 'rdv/translate.py: clang AST to WhyML extraction'] + list(getattr(mod, 'TRUSTED', []))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'wall_s': round(wall, 1), 'violations': len(new) + (1 if proof_bad and not new else 0),
        'coverage': {
            'obligations': nproof, 'discharged': nproof - len(failed),
            'checker_cmd': 'cd /verif && ./check.sh %s' % prop,
            'trusted_base': tb,
            'functions_under_contract': ['%s (%s:%s)%s' % (q, os.path.basename(l[0] or ''), l[1], '' if k == 'verified' else ' [%s]' % k) for (un, nm, q, l, k) in fns],
            'functions_inlined': sorted(inl), 'containers_trusted': sorted(builtin), 'statements_dropped': len(drop),
            'discharged_by': by, 'solver_time_s': round(solver_time, 1), 'vacuity_checks': len([g for g in allgoals if 'vac__' in g.name]),
            'units_left_to_the_thorough_tier': [u.name for u in allunits if u not in units], 'undischarged': [g.name + ' @' + str(g.loc) for g in failed][:20], 'errors': [list(e) for e in errors][:5],
            'bounded_stand_ins': bounded, 'evaluations': cases, 'distinct_nontrivial': distinct,
            'rule': '; '.join(rules), 'samples': samples[:6], 'explanation': getattr(mod, 'NOTE', ''),
        },
        'assumptions': list(getattr(mod, 'ASSUME', [])) + COMMON_ASSUME + scan_assumptions(work, theoryfiles),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    log('%s: %d/%d obligations discharged, %d functions under contract, bounded cases %d, %.0f s' % (prop, nproof - len(failed), nproof, len(fns), cases, wall))
    for k in seen:
        log('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[k], k))
    rc = 0
    if new or proof_bad:
        rc = 1
        with open(replay, 'w') as f:
            f.write('property %s violated\n' % prop)
            for x in new[:5]:
                f.write('\nfailing input (bounded/%s, check "%s"):\n%s\n%s\n' % (x.get('harness'), x['fail'], x.get('what', ''), x.get('input', '')))
                if x.get('stderr'):
                    f.write(x['stderr'] + '\n')
                f.write('re-run: compile /verif/bounded/%s against /repo/include and run with RDV_SEED=%d\n' % (x.get('harness'), seed))
            for e in errors:
                f.write('\nverifier: %s: %s\n' % e)
            for g in failed:
                f.write('\nfailed obligation %s of unit %s (line %d of the generated WhyML)\n  %s\n' % (g.name, g.unit, g.loc, g.detail))
                try:
                    t = open(g.path).read()
                    f.write('  goal: ' + re.sub(r'\s+', ' ', t[t.rindex(';; Goal'):])[:1200] + '\n')
                    if getattr(g, 'mlw', None):
                        f.write('  at: ' + open(g.mlw).read().split('\n')[g.loc - 1] + '\n')
                except (OSError, ValueError, IndexError):
                    pass
        for g in failed[:8]:
            log('  failed obligation: %s (unit %s, line %d)' % (g.name, g.unit, g.loc))
        for e in errors[:4]:
            log('  verifier: %s: %s' % (e[0], e[1][:600]))
        for x in new[:3]:
            log('  failing input: %s: %s' % (x['fail'], str(x.get('what', ''))[:300]))
        log('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if new else ' no-failing-input-found'))
    if os.environ.get('RDV_KEEP') != '1':
        shutil.rmtree(work, ignore_errors=True)
    else:
        log('work: ' + work)
    return rc


COMMON_ASSUME = [
    'floating-point values are treated as mathematical reals without NaN or infinity, except where stated; rounding is ignored',
    'signed 64-bit and, outside unit P01, signed 32-bit arithmetic is treated as mathematical (no overflow)',
    'std containers behave as their contracts in theories/rdbase.mlw state',
    'the progress bar, timers and logging are dropped by the extraction; OpenMP pragmas are ignored (sequential execution)',
    'termination of loops marked diverges is not proved',
]

if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1]))
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)
