"""A verification unit: a translation unit of the real code, its contracts, and the WhyML text generated from both."""
import os, re, hashlib, tempfile
from .ast import AST, run_clang, ExtractError
from .translate import Unit
from . import prove


class Spec:
    """name; tu: C++ text instantiating the code; targets: regexes of the functions to verify; uses: WhyML modules; preamble: WhyML text"""

    def __init__(self, name, tu, targets, contracts, classes=(), structs=(), pqs=None, consts=None, uses=(), preamble='', overflow=False,
                 flags=(), types=None, deep=True, tier='quick', tables=(), heap=False, ieee=None, bv=None, filt='richdem', rmul=None, io=False, rquot=None):
        self.__dict__.update(locals())
        self.transforms = ('split_vc', 'inline_goal', 'split_vc') if deep else ('split_vc',)


class Result:
    pass


def build(spec, workdir):
    os.makedirs(workdir, exist_ok=True)
    tu = os.path.join(workdir, spec.name + '.cpp')
    open(tu, 'w').write(spec.tu)
    ast = AST(run_clang(tu, spec.flags, spec.filt))
    u = Unit(ast, spec.contracts, spec.classes, spec.structs, spec.pqs or {}, spec.consts, spec.overflow, heap=spec.heap, ieee=spec.ieee, bv=spec.bv, rmul=spec.rmul, io=spec.io, rquot=spec.rquot)
    if spec.types:
        spec.types(u)
    for nm in spec.tables:
        ds = [d for d in ast.by_id.values() if d.get('kind') == 'VarDecl' and d.get('_qual') in (nm, 'richdem::' + nm) and d.get('inner')]
        if len(ds) != 1:
            raise ExtractError('expected exactly one constant %s, found %d' % (nm, len(ds)))
        u.const_array(ds[0])
    for t in spec.targets:
        if isinstance(t, tuple):
            u.translate(t[0], t[1])
        else:
            u.translate(t)
    mod = 'U_' + re.sub(r'\W', '_', spec.name)
    txt = 'module %s\nuse int.Int\nuse int.ComputerDivision as CD\nuse real.RealInfix\nuse map.Map\nuse rdbase.Base\n' % mod
    for x in spec.uses:
        txt += 'use %s\n' % x
    txt += spec.preamble + '\n' + '\n'.join(u.out) + '\n' + vacuity(u) + '\nend\n'
    mlw = os.path.join(workdir, spec.name + '.mlw')
    open(mlw, 'w').write(txt)
    return u, mlw, mod


def clauses(text, kw):
    out = []
    for m in re.finditer(r'\b%s\s*\{' % kw, text):
        i = m.end()
        d = 1
        while d:
            if text[i] == '{':
                d += 1
            elif text[i] == '}':
                d -= 1
            i += 1
        out.append(text[m.end():i - 1])
    return out


def vacuity(u):
    """one goal per contract that must not be provable: false from the precondition"""
    u.vacuity = []
    r = ''
    for name, sig, text in u.sigs:
        pre = clauses(text, 'requires')
        if not pre:
            continue
        r += 'let vac__%s %s : unit\n%s\n  ensures { false }\n= ()\n' % (name, ' '.join(sig) or '()', '\n'.join('  requires { %s }' % p for p in pre))
        u.vacuity.append(name)
    return r
