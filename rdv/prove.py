"""Generates proof obligations with why3 and discharges them in parallel with a portfolio of SMT solvers."""
import os, re, subprocess, tempfile, shutil, time, threading, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
THEORIES = os.path.join(VERIF, 'theories')
JOBS = int(os.environ.get('RDV_JOBS', '8'))


class Goal:
    def __init__(self, name, expl, loc, path, cvc):
        self.name, self.expl, self.loc, self.path, self.cvc = name, expl, loc, path, cvc
        self.status, self.prover, self.time, self.detail = None, None, 0.0, ''


def run(cmd, timeout):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout + 2)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        out = 'timeout'
    return out.strip(), time.time() - t


# (name, command builder, driver)
def cmds(g, tl):
    z3o = ['z3', '-T:%d' % tl, '-memory:6000', g.path]
    z3n = ['z3-new', '-T:%d' % tl, '-memory:6000', g.path]
    cvc = ['cvc5', '--tlimit=%d' % (tl * 1000), g.cvc] if g.cvc else None
    return z3o, z3n, cvc


def generate(mlw, module, outdir, transforms=('split_vc',)):
    """why3 -> list of Goals (z3 and cvc5 files)"""
    try:
        return generate_(mlw, module, outdir, transforms)
    except WhyError as e:
        if 'is not yet declared' not in str(e):
            raise
        return generate_(mlw, module, outdir, transforms, True)   # why3's pruning of unused declarations went wrong: generate without it


def driver(name, outdir):
    p = subprocess.run(['why3', '--print-datadir'], capture_output=True, text=True).stdout.strip()
    t = open(os.path.join(p, 'drivers', name + '.drv')).read().replace('transformation "remove_unused_keep_constants"', '')
    f = os.path.join(outdir, name + '_all.drv')
    open(f, 'w').write(t)
    return f


def generate_(mlw, module, outdir, transforms, full=False):
    goals = {}
    d1, d2 = os.path.join(outdir, 'z3'), os.path.join(outdir, 'cvc')
    procs = []
    for d, drv in ((d1, 'z3_487'), (d2, 'cvc5')):
        os.makedirs(d, exist_ok=True)
        cmd = ['why3', 'prove', '-L', THEORIES, mlw]
        if module:
            cmd += ['-T', module]
        for t in transforms:
            cmd += ['-a', t]
        cmd += ['-D', driver(drv, outdir) if full else drv, '-o', d]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    errs = []
    for p in procs:
        o, e = p.communicate()
        e = '\n'.join(l for l in (o + e).split('\n') if l.strip() and 'Warning' not in l and 'WARNING' not in l)
        if p.returncode != 0:
            errs.append(e)
    if errs:
        raise WhyError(errs[0])
    out = []
    for f in sorted(os.listdir(d1)):
        txt = open(os.path.join(d1, f)).read()
        m = re.search(r';; Goal "(.*)"', txt)
        name = m.group(1) if m else f
        m = re.search(r';; File "(.*)", line (\d+)', txt)
        loc = int(m.group(2)) if m else 0
        c = os.path.join(d2, f)
        out.append(Goal(name, '', loc, os.path.join(d1, f), c if os.path.exists(c) else None))
    return out


class WhyError(Exception):
    pass


def attempt(cmd, tl, name, g):
    o, t = run(cmd, tl)
    g.time += t
    last = o.split('\n')[-1] if o else ''
    if 'unsat' in o.split('\n'):
        g.status, g.prover = 'valid', name
        return True
    g.detail += '%s: %s; ' % (name, o[:80].replace('\n', ' '))
    return False


def discharge(goals, budget=1.0, deadline=None, rounds=None, log=None, stop=None):
    """portfolio: short z3-new, short cvc5, short z3, then long attempts"""
    rounds = rounds or [('z3-new', 2), ('cvc5', 3), ('z3', 3), ('z3-new', 15), ('cvc5', 20), ('z3', 15), ('cvc5q', 20), ('z3-newnl', 15)]
    todo = [g for g in goals if g.status is None]
    for name, tl in rounds:
        if not todo:
            break
        tl = max(1, int(tl * budget))
        if deadline and time.time() > deadline:
            break

        def one(g):
            if (deadline and time.time() > deadline) or (stop and tl > 5 and stop()):
                return
            if name == 'z3-new':
                c = ['z3-new', '-T:%d' % tl, '-memory:5000', g.path]
            elif name == 'z3-newnl':
                c = ['z3-new', '-T:%d' % tl, '-memory:5000', 'smt.arith.solver=2', 'smt.mbqi=false', g.path]
            elif name == 'z3':
                c = ['z3', '-T:%d' % tl, '-memory:5000', g.path]
            elif name == 'cvc5q':
                c = ['cvc5', '--tlimit=%d' % (tl * 1000), '--enum-inst', '--mbqi', g.cvc or g.path]
                c = ['cvc5', '--tlimit=%d' % (tl * 1000), '--full-saturate-quant', g.cvc or g.path]
            else:
                c = ['cvc5', '--tlimit=%d' % (tl * 1000), g.cvc or g.path]
            attempt(c, tl, name, g)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, todo))
        todo = [g for g in todo if g.status is None]
        if log:
            log('%s %ds: %d left' % (name, tl, len(todo)))
    for g in todo:
        g.status = 'unknown'
    return todo
