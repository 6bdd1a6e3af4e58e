"""Mechanical translation of C++ function bodies (clang AST) into WhyML.

Every construct that is not understood raises ExtractError: nothing is silently approximated. What is dropped on purpose:
logging (StreamLogger expressions), ProgressBar / Timer objects, std::cerr output, (void) casts, static_asserts, and
asserts (the build defines NDEBUG). OpenMP pragmas are ignored (sequential semantics)."""
import re
from .ast import *

KW = set('''abstract absurd alias any as assert assume at axiom begin bool_ break by check clone coinductive constant continue
diverges do done downto else end ensures epsilon exception exists export false float for forall fun function ghost goal if
import in inductive invariant label lemma let match meta module mutable not old or partial predicate private pure raise raises reads rec
ref requires result return returns scope so then theory to true try type use val variant while with writes int real bool list
div mod'''.split())

DROP_TYPES = re.compile(r'^(StreamLogger|ProgressBar|Timer|std::basic_ostream<.*>|std::ostream|std::_(?!List_iterator<).*|std::basic_string<.*>|std::string|char\[\d+\])&?$')

FRAC = {}
STR_T = re.compile(r'^(const )?std::(basic_)?string(<.*>)?&?$')
STREAM_T = re.compile(r'^std::(basic_)?[io]?fstream(<.*>)?&?$')


class LV:
    pass


class LVar(LV):          # local; `let ref` when mut
    def __init__(s, name, ty, mut=True):
        s.name, s.ty, s.mut = name, ty, mut


class LVal(LV):          # pure expression text
    def __init__(s, e, ty):
        s.e, s.ty = e, ty


class LElem(LV):         # element of a vec
    def __init__(s, vec, idx, ty):
        s.vec, s.idx, s.ty = vec, idx, ty


class LMap(LV):          # element of a std::unordered_map
    def __init__(s, path, key, ty):
        s.path, s.key, s.ty = path, key, ty


class LField(LV):        # field of a value struct held in another lvalue
    def __init__(s, base, field, ty):
        s.base, s.field, s.ty = base, field, ty


class LOField(LV):       # scalar field of a mutable object
    def __init__(s, path, field, ty):
        s.path, s.field, s.ty = path, field, ty


class LObj(LV):
    def __init__(s, path, ty):
        s.path, s.ty = path, ty


class LCarr(LV):         # constant array
    def __init__(s, name, n, ety):
        s.name, s.n, s.ty = name, n, ety


class LPtr(LV):          # pointer into a vec: idx is an LV of type int
    def __init__(s, vec, idx, ty):
        s.vec, s.idx, s.ty = vec, idx, ty


class LHeap(LV):         # element of an array held by a unique_ptr (explicit heap)
    def __init__(s, path, idx, ty):
        s.path, s.idx, s.ty = path, idx, ty


class LDrop(LV):
    pass


class LLam(LV):
    def __init__(s, node, env):
        s.node, s.env = node, env


def kids(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict)]


def ekids(n):
    return [c for c in kids(n) if c.get('kind') and not c['kind'].endswith('Comment')]


PASS = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
        'SubstNonTypeTemplateParmExpr', 'FullExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr'}
CASTS = {'ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr',
         'CXXReinterpretCastExpr'}


def strip(n):
    while n.get('kind') in PASS or (n.get('kind') in CASTS and n.get('castKind') in
                                    ('NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'UncheckedDerivedToBase',
                                     'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion')):
        c = [x for x in ekids(n) if x['kind'] != 'SubstNonTypeTemplateParmDecl' and not x['kind'].endswith('Decl')]
        if not c:
            return n
        n = c[-1] if n['kind'] == 'SubstNonTypeTemplateParmExpr' else c[0]
    return n


def nty(n):
    t = n.get('type')
    return norm_type(t) if t else ''


def contains(n, pred):
    if pred(n):
        return True
    return any(contains(c, pred) for c in kids(n))


def is_mutop(n):
    k = n.get('kind')
    return (k == 'UnaryOperator' and n.get('opcode') in ('++', '--')) or k == 'CompoundAssignOperator' or \
        (k == 'BinaryOperator' and n.get('opcode') == '=')


class Contract:
    """match: regex on qualified name; params: canonical WhyML parameter names; text: spec clauses ({T} = element type)."""

    def __init__(s, match, name, text='', params=None, pure=False, logic=None, ret=None, nparams=None, trusted=False, sig=None, entry=False,
                 types=None, prebody='', sp=False):
        s.sp = sp        # strongest postconditions: no splitting into paths
        s.match, s.name, s.text, s.params, s.pure, s.logic, s.ret, s.nparams, s.trusted, s.sig, s.entry, s.types, s.prebody = \
            re.compile(match), name, text, params, pure, logic, ret, nparams, trusted, (re.compile(sig) if sig else None), entry, types, prebody


class ClassMap:
    """object class -> WhyML mutable record. fields: cpp field -> (why field) or None (dropped)."""

    def __init__(s, match, why, fields, arg=0, expect=None, ghost=None):
        s.match, s.why, s.fields, s.expect = re.compile(match), why, fields, expect or {}
        s.ghost = ghost or {}        # ghost fields and their initial values


class StructMap:
    """value struct -> immutable WhyML record"""

    def __init__(s, match, why, fields):
        s.match, s.why, s.fields = re.compile(match), why, fields


STD_VEC = re.compile(r'^(?:std::vector|ManagedVector)<(.*)>$')


def targs(s):
    """split template args of 'X<a,b<c>>'"""
    i = s.index('<')
    body = s[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in body:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out]


class Unit:
    """One extraction unit: an AST plus the contracts that apply to it."""

    def __init__(self, ast, contracts, classes=(), structs=(), pqs=(), consts=None, overflow=False, queues=None, arrays='vec', heap=False, ieee=None, bv=None, rmul=None, io=False, rquot=None):
        self.ast, self.contracts, self.classes, self.structs = ast, contracts, list(classes), list(structs)
        self.pqs = dict(pqs)                # cpp elt type -> module prefix
        self.consts = consts or {}          # const array cpp name -> logic function name in theory (checked)
        self.queues = queues or {}
        self.out = []                       # emitted WhyML declarations
        self.done = {}                      # (mangled) -> why name
        self.const_done = {}
        self.in_progress = {}
        self.recursive = set()
        self.div = {}
        self.emitted_fns = []               # (why name, cpp qual, file, line, kind)
        self.inlined = set()
        self.builtin = set()
        self.sigs = []
        self.dropped = {}
        self.overflow = overflow
        self.bv = bv                        # types translated as 64-bit vectors (values) - every other integer type is a compile-time constant
        self.io = io                        # strings are values, file streams are objects
        self.rquot = rquot                  # the same for quotients
        self.rmul = rmul                    # name of the closed product of reals (None: the arithmetic one)
        self.ieee = ieee                    # floating type translated with IEEE-754 semantics (comparisons and isnan only)
        self.heap = heap                    # explicit heap: unique_ptr, new[], raw pointers as addresses
        self.records = {}
        for d in ast.by_id.values():
            if d['kind'] in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') and d.get('completeDefinition'):
                self.records.setdefault(canon(d['_qual']), d)

    # ---------------------------------------------------------------- types
    def wty(self, t):
        t = strip_ref(canon(t))
        if t == 'bool':
            return 'bool'
        if self.bv and t in self.bv:
            return 't'
        if self.io and STR_T.match(t):
            return 'str'
        if self.io and STREAM_T.match(t):
            return 'stream'
        if t in INT:
            return 'int'
        if t in FLT:
            if self.ieee:
                if t != self.ieee:
                    raise ExtractError('floating type %s in a unit about %s' % (t, self.ieee))
                return 't'
            return 'real'
        if t == 'void':
            return 'unit'
        if re.search(r'\(\*\)\s*\(', t):
            return 'fptr'
        for s in self.structs:
            if s.match.fullmatch(t):
                return s.why
        for c in self.classes:
            m = c.match.fullmatch(t)
            if m:
                return c.why.format(*[self.wty(g) if g else '' for g in m.groups()])
        if self.heap:
            if re.fullmatch(r'std::unique_ptr<.*\[\]>', t):
                return 'uptr'
            if t.endswith('*'):
                return 'int'
        m = STD_VEC.match(t)
        if m:
            return '(vec %s)' % self.wty(targs(t)[0])
        m = re.fullmatch(r'std::array<(.*),\s*(\d+)(?:UL)?>', t)
        if m:
            return '(vec %s)' % self.wty(m.group(1))
        m = re.fullmatch(r'(.*)\[(\d+)\]', t)
        if m:
            return '(vec %s)' % self.wty(m.group(1))
        if t.startswith('std::priority_queue<'):
            e = targs(t)[0]
            if e in self.pqs:
                return self.pqs[e] + '.pq'
        m = re.match(r'^(GridCellZk_(?:high|low))_pq<(.*)>$', t)
        if m:
            e = '%s<%s>' % (m.group(1), m.group(2))
            if e in self.pqs:
                return self.pqs[e] + '.pq'
        if t.startswith('std::list<') and not t.endswith('iterator'):
            return '(lst %s)' % self.wty(targs(t)[0])
        if t.startswith('std::unordered_map<') and not t.endswith('iterator'):
            a = targs(t)
            return '(umap %s %s)' % (self.wty(a[0]), self.wty(a[1]))
        if re.match(r'^std::_List_iterator<', t) or t.startswith('std::list<') and t.endswith('>::iterator'):
            return 'int'
        if t.startswith('std::queue<'):
            return '(queue %s)' % self.wty(targs(t)[0])
        if t.startswith('std::stack<'):
            return '(stack %s)' % self.wty(targs(t)[0])
        if t.startswith('std::pair<'):
            a = targs(t)
            return '(pair %s %s)' % (self.wty(a[0]), self.wty(a[1]))
        d = self.enum(t)
        if d:
            return 'int'
        raise ExtractError('type not supported: ' + t)

    def enum(self, t):
        return any(d['kind'] == 'EnumDecl' and canon(d['_qual']) == t for d in self.ast.by_id.values())

    def is_obj(self, t):
        t = strip_ref(canon(t))
        if any(c.match.fullmatch(t) for c in self.classes):
            return True
        if self.io and STREAM_T.match(t):
            return True
        if self.heap and t.startswith('std::unique_ptr<'):
            return True
        return bool(STD_VEC.match(t) or t.startswith(('std::array<', 'std::priority_queue<', 'std::queue<', 'std::stack<')) or
                    (t.startswith(('std::list<', 'std::unordered_map<')) and not t.endswith('iterator')) or
                    re.fullmatch(r'.*\[\d+\]', t) or re.match(r'^GridCellZk_(high|low)_pq<', t))

    def struct(self, t):
        t = strip_ref(canon(t))
        for s in self.structs:
            if s.match.fullmatch(t):
                return s
        return None

    def cls(self, t):
        t = strip_ref(canon(t))
        for c in self.classes:
            if c.match.fullmatch(t):
                return c
        return None

    def contract_for(self, d):
        q = d['_qual']
        np = sum(1 for c in kids(d) if c.get('kind') == 'ParmVarDecl')
        for c in self.contracts:
            if c.match.fullmatch(q) and (c.nparams is None or c.nparams == np) and (c.sig is None or c.sig.search(canon(d['type']['qualType']))):
                return c
        return None

    # ---------------------------------------------------------------- functions
    def ensure(self, d):
        """make sure the contracted function d is emitted; returns (why name, contract)"""
        c = self.contract_for(d)
        key = d.get('mangledName', d['id'])
        if key in self.done:
            return self.done[key], c
        if key in self.in_progress:      # recursion: against the contract
            self.recursive.add(self.in_progress[key])
            return self.in_progress[key], c
        name = c.name
        owner = d.get('_owner')
        if owner is not None and owner['kind'] == 'ClassTemplateSpecializationDecl' and '{' in c.name:
            a = targs(owner['_qual'])
            name = c.name.format(*[re.sub(r'\W+', '_', x) for x in a])
        if any(n == name for n in self.done.values()):
            name = name + '_%d' % len(self.done)
        self.in_progress[key] = name
        F = FnTrans(self, d, c, name)
        txt = F.emit()
        self.out.append(txt)
        self.done[key] = name
        self.div[name] = F.diverges
        del self.in_progress[key]
        self.emitted_fns.append((name, d['_qual'], d['_loc'], 'trusted' if c.trusted else 'verified'))
        return name, c

    # ---------------------------------------------------------------- constant arrays
    def const_array(self, d):
        """VarDecl of constexpr array -> accessor name"""
        key = d['id']
        if key in self.const_done:
            return self.const_done[key]
        il = None
        st = [d]
        while st:
            n = st.pop(0)
            if n.get('kind') == 'InitListExpr' and not any(contains(c, lambda q: q.get('kind') == 'InitListExpr') for c in ekids(n)):
                il = n
                break
            st = kids(n) + st
        if il is None:
            raise ExtractError('constant array without initialiser: ' + d.get('name', '?'))
        vals = [self.const_val(e) for e in ekids(il)]
        ty = nty(d)
        m = re.fullmatch(r'std::array<(.*),\s*(\d+)(?:UL)?>', ty) or re.fullmatch(r'(.*)\[(\d+)\]', ty)
        n = int(m.group(2))
        ety = m.group(1)
        zero = {'int': '0', 'real': '0.0', 'bool': 'false'}[self.wty(ety)]
        while len(vals) < n:
            vals.append(zero)
        base = 'c_' + re.sub(r'\W+', '_', d['name'])
        name = base
        while name in [v[0] for v in self.const_done.values()]:
            name += "_"
        body = zero if not vals else vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            body = 'if n = %d then %s else %s' % (i, vals[i], body)
        q = d['_qual']
        spec = self.consts.get(q) or self.consts.get(d['name'])
        ens = 'result = %s n' % spec if spec else 'result = (%s)' % body
        self.out.append('let %s (n: int) : %s\n  requires { 0 <= n < %d }\n  ensures { %s }\n= %s\n' % (name, self.wty(ety), n, ens, body))
        self.emitted_fns.append((name, q, d['_loc'], 'constant'))
        self.const_done[key] = (name, n, ety, spec)
        return self.const_done[key]

    def const_val(self, n):
        n0 = n
        neg = False
        cast_to = None
        while True:
            n = strip(n)
            if n['kind'] in CASTS:
                if n.get('castKind') in ('IntegralToFloating', 'FloatingCast', 'IntegralCast'):
                    if cast_to is None:
                        cast_to = nty(n)
                    n = ekids(n)[0]
                    continue
            if n['kind'] == 'UnaryOperator' and n['opcode'] == '-':
                neg = not neg
                n = ekids(n)[0]
                continue
            break
        k = n['kind']
        if k == 'IntegerLiteral':
            v = int(n['value'])
            v = -v if neg else v
            t = cast_to or nty(n)
            if self.wty(nty(n0)) == 'real' or t in FLT:
                return '(%d.0)' % v if v >= 0 else '(-. %d.0)' % -v
            return str(v) if v >= 0 else '(%d)' % v
        if k == 'FloatingLiteral':
            return ('(-. %s)' if neg else '%s') % real_lit(n['value'])
        if k == 'CXXBoolLiteralExpr':
            return 'true' if n['value'] else 'false'
        if k == 'DeclRefExpr':
            d = self.ast.by_id.get(n['referencedDecl']['id'])
            if d is not None and d.get('inner'):
                if d.get('name') == 'SQRT2':
                    return '(-. sqrt2l)' if neg else 'sqrt2l'
                v = self.const_val(ekids(d)[-1])
                return ('(- %s)' % v) if neg else v
        raise ExtractError('constant initialiser %s' % k)

    # entry point
    def translate(self, regex, sig=None):
        ds = [d for d in self.ast.find_functions(regex) if sig is None or re.search(sig, canon(d['type']['qualType']))]
        if len(ds) != 1:
            raise ExtractError('expected exactly one function matching %s, found %d' % (regex, len(ds)))
        return self.ensure(ds[0])


def real_lit(v):
    """clang prints FloatingLiteral as shortest decimal"""
    v = str(v)
    if 'e' in v or 'E' in v:
        from decimal import Decimal
        s = format(Decimal(v), 'f')
        v = s
    if '.' not in v:
        v += '.0'
    if v.endswith('.'):
        v += '0'
    return v if not v.startswith('-') else '(-. %s)' % v[1:]


class FnTrans:
    def __init__(self, unit, d, contract, name):
        self.u, self.d, self.c, self.name = unit, d, contract, name
        self.env = {}            # decl id -> LV
        self.scope = {}          # C++ name -> decl id (for annotation text)
        self.this = None
        self.uses = set()
        self.k = 0
        self.diverges = False
        self.retstack = []       # innermost function being inlined: ('tail'|exn name, type)
        self.loopstack = []
        self.mut = {}
        self.inline_depth = 0
        self.has_exn = False
        self.throws = False

    def fresh(self, base):
        b = re.sub(r'\W', '_', base or 'v')
        b = b.lstrip('_') or 'v'
        if b[0].isupper():
            b = b[0].lower() + b[1:]
        if b[0].isdigit():
            b = 'v' + b
        if b in KW:
            b += '_'
        n = b
        i = 1
        while n in self.uses:
            n = '%s_%d' % (b, i)
            i += 1
        self.uses.add(n)
        return n

    def tmp(self):
        return self.fresh('t_')

    def err(self, msg, n=None):
        loc = ''
        if n is not None and '_loc' in n:
            loc = ' at %s:%s' % n['_loc']
        raise ExtractError('%s: %s%s' % (self.d['_qual'], msg, loc))

    # ------------------------------------------------------------ emission of a contracted function
    def emit(self):
        d, c, u = self.d, self.c, self.u
        params = [p for p in kids(d) if p.get('kind') == 'ParmVarDecl']
        body = [b for b in kids(d) if b.get('kind') == 'CompoundStmt']
        names = list(c.params) if c.params else None
        sig = []
        pre = ''
        owner = d.get('_owner')
        is_method = d['kind'] in ('CXXMethodDecl', 'CXXDestructorDecl') and d.get('storageClass') != 'static'
        is_ctor = d['kind'] == 'CXXConstructorDecl'
        subst = {}
        if owner is not None and owner['kind'] == 'ClassTemplateSpecializationDecl':
            try:
                subst['T'] = u.wty(targs(owner['_qual'])[0])
            except ExtractError:
                pass
        if is_method:
            tn = names.pop(0) if names else 'this'
            oty = canon(owner['_qual'])
            wt = u.wty(oty)
            self.uses.add(tn)
            if u.is_obj(oty):
                self.this = LObj(tn, oty)
                sig.append('(%s: %s)' % (tn, wt))
            else:
                self.this = LVar(tn, oty, False)
                sig.append('(%s: %s)' % (tn, wt))
        self.prep_mut(body[0] if body else {})
        for i, p in enumerate(params):
            nm = names[i] if names else p.get('name', 'arg%d' % i)
            nm = nm if nm not in self.uses and nm not in KW else self.fresh(nm)
            self.uses.add(nm)
            t = nty(p)
            raw = canon(p['type']['qualType'])
            israw = p['type']['qualType']
            byref = raw.endswith('&')
            isconst = israw.strip().startswith('const') or ' const' in israw
            if self.dropt(t):
                self.env[p['id']] = LDrop()
                continue
            ptr = re.fullmatch(r'(.*)\*', t)
            if ptr and not u.heap:
                self.err('pointer parameter', p)
            if u.is_obj(t):
                sig.append('(%s: %s)' % (nm, u.wty(t)))
                self.env[p['id']] = LObj(nm, strip_ref(t))
                if not byref and self.is_mut(p['id']):
                    self.err('by-value object parameter mutated', p)
            elif byref and not isconst:
                sig.append('(ref %s: %s)' % (nm, u.wty(t)))
                self.env[p['id']] = LVar(nm, strip_ref(t), True)
            else:
                sig.append('(%s: %s)' % (nm, u.wty(t)))
                if self.is_mut(p['id']):
                    n2 = self.fresh(nm)
                    pre += 'let ref %s = %s in\n' % (n2, nm)
                    self.env[p['id']] = LVar(n2, strip_ref(t), True)
                else:
                    self.env[p['id']] = LVar(nm, strip_ref(t), False)
            if p.get('name'):
                self.scope[p['name']] = p['id']
        rt = self.ret_type(d)
        if rt.endswith('&') and c.ret == 'unit':      # returns *this
            rt = 'void'
        self.rt = rt
        wrt = c.ret or (u.wty(canon(owner['_qual'])) if is_ctor else 'unit' if rt == 'void' else u.wty(rt))
        text = c.text.replace('{T}', subst.get('T', 'int'))
        u.sigs.append((self.name, sig, text))
        if c.trusted:
            return 'val %s %s : %s\n%s\n' % (self.name, ' '.join(sig) or '()', wrt, indent(text))
        if not body:
            self.err('no body')
        if is_ctor:
            b = self.ctor_object(d, body[0])
        else:
            b = self.fn_body(body[0], rt)
        if d['kind'] == 'CXXDestructorDecl':     # then the members are destroyed
            for f in [x for x in kids(owner) if x.get('kind') == 'FieldDecl' and nty(x).startswith('std::unique_ptr<')]:
                b = '(%s);\nuptr_destroy %s.%s' % (b, self.this.path, u.cls(canon(owner['_qual'])).fields[f['name']])
        b = c.prebody + pre + b
        if self.diverges and 'diverges' not in text:
            text += '\ndiverges'
        return 'let %s%s %s : %s\n%s\n= %sbegin\n%s\nend\n' % ('rec ' if self.name in u.recursive else '', self.name, ' '.join(sig) or '()', wrt, indent(text), '[@vc:sp] ' if c.sp else '', indent(b))

    def ret_type(self, d):
        q = d['type']
        s = q.get('desugaredQualType', q['qualType'])
        # return type is the part before the parameter list
        depth = 0
        if d.get('_owner') is not None and canon(d['_owner']['_qual']).startswith('Array3D<'):
            s = re.sub(r'(?<!\w)i_t\b', 'unsigned long', s)
        s = canon(s)
        # find the '(' at depth 0 of <> that starts the params
        for i, ch in enumerate(s):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == '(' and depth == 0:
                r = s[:i].strip()
                break
        else:
            r = s
        if r in ('auto', 'decltype(auto)'):
            m = re.search(r'->(.*)$', s)
            if m:
                r = m.group(1).strip()
        return self.alias_type(r, d)

    def alias_type(self, r, d):
        owner = d.get('_owner')
        own = canon(owner['_qual']) if owner is not None else ''
        m = re.match(r'^Array[23]D<', own)
        ref = '&' if r.endswith('&') else ''
        base = strip_ref(r)
        if base.split('::')[-1] in ('xy_t',):
            return 'int' + ref
        if base.split('::')[-1] in ('i_t',):
            return 'unsigned int' + ref
        for td in kids(owner) if owner is not None else ():
            if td.get('kind') in ('TypedefDecl', 'TypeAliasDecl') and td.get('name') == base:
                t = canon(td['type'].get('desugaredQualType', td['type']['qualType']))
                return {'__make_unsigned_selector<long,true>::__type': 'unsigned long'}.get(t, t) + ref
        return r

    def prep_mut(self, body):
        """ids of variables assigned, incremented or bound to a non-const reference anywhere in the body"""
        M = set()

        def root(n):
            n = strip(n)
            if n['kind'] == 'DeclRefExpr':
                return n['referencedDecl']['id']
            if n['kind'] in ('MemberExpr',):
                c = ekids(n)
                return root(c[0]) if c else None
            if n['kind'] in ('CXXOperatorCallExpr',):
                c = ekids(n)
                return root(c[1]) if len(c) > 1 else None
            if n['kind'] == 'ConditionalOperator':
                c = ekids(n)
                r1 = root(c[1])
                if r1:
                    M.add(r1)
                return root(c[2])
            if n['kind'] == 'ArraySubscriptExpr':
                return root(ekids(n)[0])
            return None

        def walk(n):
            k = n.get('kind')
            if is_mutop(n):
                r = root(ekids(n)[0])
                if r:
                    M.add(r)
            elif k == 'CXXOperatorCallExpr':
                cs = ekids(n)
                cal = strip(cs[0])
                nm = cal.get('referencedDecl', {}).get('name', '')
                if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator++', 'operator--', 'operator>>', 'operator|='):
                    r = root(cs[1])
                    if r:
                        M.add(r)
                else:
                    self.refargs(cal, cs[1:], M, root, skip=1)
            elif k == 'CXXMemberCallExpr':
                cs = ekids(n)
                me = strip(cs[0])
                if me.get('kind') == 'MemberExpr':
                    md = self.u.ast.by_id.get(me.get('referencedMemberDecl', ''))
                    oc = ekids(me)
                    if oc and self.u.struct(nty(oc[0])) and md is not None and ' const' not in md['type']['qualType'].rsplit(')', 1)[-1]:
                        r = root(oc[0])
                        if r:
                            M.add(r)
                    if md is not None:
                        self.refargs2(md, cs[1:], M, root)
            elif k == 'CallExpr':
                cs = ekids(n)
                self.refargs(strip(cs[0]), cs[1:], M, root)
            elif k == 'VarDecl':
                q = n.get('type', {}).get('qualType', '')
                if q.rstrip().endswith('&') and not q.startswith('const') and ekids(n):
                    r = root(ekids(n)[-1])
                    if r:
                        M.add(r)
            elif k == 'UnaryOperator' and n.get('opcode') == '&':
                r = root(ekids(n)[0])
                if r:
                    M.add(r)
            elif k == 'CXXForRangeStmt':
                pass
            for c in kids(n):
                walk(c)
        walk(body)
        self.mut.update({i: True for i in M})

    def refargs(self, callee, args, M, root, skip=0):
        rd = callee.get('referencedDecl')
        if not rd:
            return
        t = rd.get('type', {}).get('qualType', '')
        d = self.u.ast.by_id.get(rd['id'])
        if rd.get('name') == 'swap':
            for a in args:
                r = root(a)
                if r:
                    M.add(r)
            return
        if d is None:
            return
        self.refargs2(d, args[skip:] if d['kind'] == 'CXXMethodDecl' else args, M, root)

    def refargs2(self, d, args, M, root):
        ps = [p for p in kids(d) if p.get('kind') == 'ParmVarDecl']
        for p, a in zip(ps, args):
            q = p['type']['qualType']
            if q.rstrip().endswith('&') and not q.startswith('const') and ' const ' not in q:
                r = root(a)
                if r:
                    M.add(r)

    def is_mut(self, did):
        return did in self.mut

    # ------------------------------------------------------------ bodies
    def fn_body(self, comp, rt):
        """body of a function in tail position; returns WhyML expression of the return type"""
        ex = None
        need = [False]
        self.retstack.append({'exn': None, 'rt': rt, 'void': rt == 'void'})
        b = self.stmts(ekids(comp), 'fn')
        r = self.retstack.pop()
        if r['exn']:
            wt = 'unit' if rt == 'void' else self.u.wty(rt)
            if rt == 'void':
                return 'exception %s in\ntry\n%s\nwith %s -> () end' % (r['exn'], indent(b), r['exn'])
            v = self.tmp()
            return 'exception %s %s in\ntry\n%s\nwith %s %s -> %s end' % (r['exn'], wt, indent(b), r['exn'], v, v)
        return b

    def abr(self, n):
        """kinds of abrupt completion inside n"""
        k = n.get('kind')
        if k == 'ReturnStmt':
            return {'ret'}
        if k == 'BreakStmt':
            return {'brk'}
        if k == 'ContinueStmt':
            return {'cont'}
        if k == 'CXXThrowExpr':
            return {'ret'}
        if k == 'LambdaExpr':
            return set()
        r = set()
        for c in kids(n):
            r |= self.abr(c)
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            r -= {'brk', 'cont'}
        if k == 'SwitchStmt':
            r -= {'brk'}
        return r

    def always(self, n):
        """n always completes abruptly"""
        k = n.get('kind')
        if k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr'):
            return True
        if k == 'ExprWithCleanups':
            return bool(ekids(n)) and self.always(ekids(n)[0])
        if k == 'CompoundStmt':
            return any(self.always(c) for c in ekids(n))
        if k == 'IfStmt':
            c, t, e = self.if_parts(n)
            cv = self.const_cond(n, c)
            if cv is True:
                return self.always(t)
            if cv is False:
                return e is not None and self.always(e)
            return e is not None and self.always(t) and self.always(e)
        return False

    def if_parts(self, n):
        ks = [c for c in n.get('inner', []) if isinstance(c, dict)]
        if n.get('hasInit') or n.get('hasVar'):
            self.err('if with initialiser', n)
        c = ks[0]
        t = ks[1] if len(ks) > 1 and ks[1].get('kind') else None
        e = ks[2] if len(ks) > 2 and ks[2].get('kind') else None
        return c, t, e

    def const_cond(self, n, c):
        if n.get('isConstexpr') or n.get('isConstExpr'):
            v = c.get('value')
            c2 = c
            while v is None and c2.get('kind') in ('ConstantExpr', 'ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr'):
                v = c2.get('value')
                c2 = ekids(c2)[0]
            if v is None:
                v = self.fold(c)
            if v in ('true', True, 1, '1'):
                return True
            if v in ('false', False, 0, '0'):
                return False
            self.err('cannot decide if constexpr', n)
        if self.u.bv:
            q = strip(c)
            if q['kind'] == 'BinaryOperator' and q['opcode'] == '==':
                a, b = [self.const_int(x) for x in ekids(q)]
                if a is not None and b is not None:
                    return a == b
        return None

    def fold(self, n):
        """constant fold simple constant expressions"""
        n = strip(n)
        k = n['kind']
        if k == 'ConstantExpr' and 'value' in n:
            return n['value']
        if k == 'IntegerLiteral':
            return int(n['value'])
        if k == 'CXXBoolLiteralExpr':
            return 1 if n['value'] else 0
        if k in CASTS:
            return self.fold(ekids(n)[0])
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            d = self.u.ast.by_id.get(rd['id'])
            if rd['kind'] == 'EnumConstantDecl':
                return self.enum_value(rd['id'])
            if d is not None and ekids(d):
                return self.fold(ekids(d)[-1])
        if k == 'BinaryOperator':
            a, b = [self.fold(x) for x in ekids(n)]
            if a is None or b is None:
                return None
            op = n['opcode']
            return {'==': int(a == b), '!=': int(a != b), '&&': int(bool(a) and bool(b)), '||': int(bool(a) or bool(b)), '<': int(a < b),
                    '>': int(a > b), '+': a + b, '-': a - b, '*': a * b}.get(op)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            a = self.fold(ekids(n)[0])
            return None if a is None else int(not a)
        if k == 'CXXStaticCastExpr':
            return self.fold(ekids(n)[0])
        return None

    def enum_value(self, did):
        d = self.u.ast.by_id.get(did)
        for e in self.u.ast.by_id.values():
            if e['kind'] == 'EnumDecl':
                v = -1
                for c in ekids(e):
                    if c['kind'] != 'EnumConstantDecl':
                        continue
                    v += 1
                    if ekids(c):
                        fv = self.fold(ekids(c)[0])
                        v = fv if fv is not None else v
                    if c['id'] == did:
                        return v
        self.err('enum constant')

    # ------------------------------------------------------------ statements
    def spec_call(self, n):
        """recognises an annotation statement: ::rdv_spec::kind("text")"""
        m = strip(n)
        if m.get('kind') == 'CallExpr':
            cs = ekids(m)
            cal = strip(cs[0])
            nm = cal.get('referencedDecl', {}).get('name', '')
            if nm.startswith('rdv_spec_'):
                lit = strip(cs[1])
                s = lit.get('value', '""')
                import ast as pyast
                txt = pyast.literal_eval(s)
                return nm[len('rdv_spec_'):], txt
        return None

    def is_dropped(self, n):
        m = n
        k = m.get('kind')
        if k == 'ParenExpr' and not ekids(m):
            return True
        s = strip(m)
        if s.get('kind') in CASTS and s.get('castKind') == 'ToVoid':
            return not contains(s, is_mutop)
        t = nty(m)
        if s.get('kind') in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr', 'CXXTemporaryObjectExpr', 'CXXConstructExpr'):
            if self.dropt(t) and t != '' and not (self.u.io and s['kind'] == 'CXXMemberCallExpr' and STREAM_T.match(strip_ref(nty(strip(self.uncast(ekids(strip(ekids(s)[0]))[0])))))):
                if contains(s, is_mutop):
                    # operands must be side-effect free to be dropped
                    self.check_drop(s)
                return True
            if s['kind'] == 'CXXMemberCallExpr':
                me = strip(ekids(s)[0])
                if self.u.io and me.get('kind') == 'MemberExpr' and ekids(me) and STREAM_T.match(strip_ref(nty(strip(self.uncast(ekids(me)[0]))))):
                    return False
                if me.get('kind') == 'MemberExpr' and ekids(me) and self.dropt(strip_ref(nty(ekids(me)[0])).rstrip('*')):
                    self.check_drop(s)
                    return True
            if s['kind'] == 'CXXOperatorCallExpr':
                a = ekids(s)
                if len(a) > 1 and self.dropt(nty(a[1])):
                    self.check_drop(s)
                    return True
        return False

    def dropt(self, t):
        if self.u.io and STR_T.match(strip_ref(t)):
            return None
        return DROP_TYPES.match(t)

    def uncast(self, n):
        while n['kind'] in PASS or n['kind'] in CASTS:
            n = ekids(n)[0]
        return n

    IOSZ = {'double': 8, 'float': 4}

    def openmode(self, n, want):
        n = self.uncast(n)
        if n['kind'] == 'CXXOperatorCallExpr':
            cs = ekids(n)
            if strip(self.uncast(cs[0])).get('referencedDecl', {}).get('name') == 'operator|':
                return self.openmode(cs[1], None) | self.openmode(cs[2], None)
        if n['kind'] == 'DeclRefExpr':
            return {n['referencedDecl']['name']}
        self.err('file mode', n)

    def io_call(self, obj, nm, args, n):
        p = obj.path
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if nm == 'good' and not args:
            return '(st_good %s)' % p
        if nm == 'flush' and not args:
            return 'st_flush %s' % p
        if nm == 'close' and not args:
            return 'st_flush %s' % p
        if nm == 'open' and len(args) == 2:
            m = self.openmode(args[1], None)
            if m != {'binary', 'out', 'trunc'} and m != {'binary', 'out'}:
                self.err('file opened with ' + ' '.join(sorted(m)), n)
            return 'st_open_w %s %s' % (p, paren(self.ex(args[0])))
        if nm in ('write', 'read') and len(args) == 2:
            m = self.uncast(args[0])
            by = paren(self.ex(args[1]))
            if m['kind'] == 'UnaryOperator' and m['opcode'] == '&':
                x = strip(ekids(m)[0])
                if x['kind'] == 'CXXOperatorCallExpr' and len(ekids(x)) == 3 and STR_T.match(strip_ref(nty(ekids(x)[1]))):      # &string[0]
                    lv = self.lv(ekids(x)[1])
                    if self.ex(ekids(x)[2]) != '0':
                        self.err('part of a string', n)
                    if nm == 'write':
                        return 'st_write_s %s %s %s' % (p, paren(self.rd(lv)), by)
                    return self.wr(lv, 'st_read_s %s %s %s' % (p, paren(self.rd(lv)), by))
                lv = self.lv(x)
                t = strip_ref(nty(x))
                w = self.u.wty(t)
                if isinstance(lv, (LDrop, LObj)) or w not in ('int', 'real') or (t in FLT and t not in self.IOSZ):
                    self.err('file operation on ' + t, n)
                if w == 'int':
                    lo, hi = irange(t)
                    if nm == 'write':
                        return 'st_write_i %s %s %d %s' % (p, by, INT[t][0] // 8, paren(self.rd(lv)))
                    return self.wr(lv, 'st_read_i %s %s %d (%d) %d' % (p, by, INT[t][0] // 8, lo, hi))
                if nm == 'write':
                    return 'st_write_r %s %s %d %s' % (p, by, self.IOSZ[t], paren(self.rd(lv)))
                return self.wr(lv, 'st_read_r %s %s %d' % (p, by, self.IOSZ[t]))
            if m['kind'] == 'CXXMemberCallExpr':
                me = strip(ekids(m)[0])
                o = self.lv(ekids(me)[0])
                if me['name'] == 'data' and STR_T.match(strip_ref(getattr(o, 'ty', ''))) and nm == 'write':
                    return 'st_write_s %s %s %s' % (p, paren(self.rd(o)), by)
                if me['name'] == 'data' and isinstance(o, LObj) and STD_VEC.match(o.ty):
                    e = targs(o.ty)[0]
                    if self.u.wty(e) == 'real' and e in self.IOSZ:
                        return 'st_%s_vr %s %s %s %d' % (nm, p, o.path, by, self.IOSZ[e])
                    if self.u.wty(e) == 'int':
                        return 'st_%s_vi %s %s %s %d' % (nm, p, o.path, by, INT[e][0] // 8)
        self.err('file operation ' + nm, n)

    def check_drop(self, s):
        def bad(n):
            if is_mutop(n):
                r = strip(ekids(n)[0])
                return True
            return False
        if contains(s, bad):
            self.err('side effect inside dropped logging statement', s)

    def stmts(self, L, k):
        """L: list of statement nodes; k: 'fn' | 'loop' | 'none'"""
        if not L:
            if k == 'fn' and not self.retstack[-1]['void']:
                return 'absurd'
            return '()'
        s, rest = L[0], L[1:]
        kind = s['kind']
        if kind == 'NullStmt':
            return self.stmts(rest, k)
        if kind == 'AttributedStmt':
            return self.stmts([ekids(s)[-1]] + rest, k)
        if kind == 'CompoundStmt':
            # new scope: keep names, but C++ scoping of annotation names is by latest declaration, which is right here
            if not self.abr(s):
                save = dict(self.scope)
                b = self.stmts(ekids(s), 'none')
                self.scope = save
                return self.seqjoin(b, rest, k)
            return self.stmts(ekids(s) + rest, k)
        if kind in ('StaticAssertDecl',):
            return self.stmts(rest, k)
        sp = self.spec_call(s)
        if sp:
            return self.annot(sp[0], sp[1], rest, k, s)
        if kind == 'ReturnStmt':
            e = ekids(s)
            r = self.retstack[-1]
            if k == 'fn':
                if not e or r['void'] and self.is_this(e[0]):
                    return '()'
                return self.ret_expr(e[0], r)
            # inside a loop or nested: raise
            if r['exn'] is None:
                r['exn'] = 'Ret%d' % self.uid()
            if not e or r['void']:
                pre = '' if not e or self.is_this(e[0]) else self.stmt_expr(e[0]) + '; '
                return '(%sraise %s)' % (pre, r['exn'])
            return '(raise (%s (%s)))' % (r['exn'], self.ret_expr(e[0], r))
        if kind == 'BreakStmt':
            lp = self.loopstack[-1]
            if lp.get('switch'):
                if k == 'switch':
                    return '()'
                self.err('break inside switch', s)
            return 'break'
        if kind == 'ContinueStmt':
            if k == 'loop':
                return '()'
            for lp in reversed(self.loopstack):
                if not lp.get('switch'):
                    break
            if lp['cont'] is None:
                lp['cont'] = 'Cont%d' % self.uid()
            return '(raise %s)' % lp['cont']
        if kind == 'IfStmt':
            c, t, e = self.if_parts(s)
            cv = self.const_cond(s, c)
            if cv is True:
                return self.stmts([t] + rest if t else rest, k)
            if cv is False:
                return self.stmts(([e] if e else []) + rest, k)
            save = dict(self.scope)
            cond = self.ex(c)
            ab = self.abr(s)
            tl = [t] if t else []
            el = [e] if e else []

            def sub(l, kk):
                self.scope = dict(save)
                r = self.stmts(l, kk)
                self.scope = dict(save)
                return r
            if ab and k in ('fn', 'loop', 'switch'):
                if t is not None and self.always(t):
                    a = sub(tl, k)
                    b = sub(el + rest, k)
                    return 'if %s then begin\n%s\nend else begin\n%s\nend' % (cond, indent(a), indent(b))
                if e is not None and self.always(e):
                    a = sub(tl + rest, k)
                    b = sub(el, k)
                    return 'if %s then begin\n%s\nend else begin\n%s\nend' % (cond, indent(a), indent(b))
                if not rest:
                    a = sub(tl, k)
                    b = sub(el, k)
                    return 'if %s then begin\n%s\nend else begin\n%s\nend' % (cond, indent(a), indent(b))
            a = sub(tl, 'none')
            b = sub(el, 'none')
            if e is not None:
                r = 'if %s then begin\n%s\nend else begin\n%s\nend' % (cond, indent(a), indent(b))
            else:
                r = 'if %s then begin\n%s\nend' % (cond, indent(a))
            return self.seqjoin(r, rest, k)
        if kind == 'DeclStmt':
            return self.decls(ekids(s), rest, k)
        if kind in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            save = dict(self.scope)
            r = self.loop(s)
            self.scope = save
            return self.seqjoin(r, rest, k)
        if kind == 'SwitchStmt':
            save = dict(self.scope)
            r = self.switch(s, rest, k)
            self.scope = save
            return r
        if kind == 'CXXThrowExpr' or (kind == 'ExprWithCleanups' and ekids(s) and strip(ekids(s)[0]).get('kind') == 'CXXThrowExpr'):
            self.throws = True
            return '(raise CppThrow)'
        if kind == 'GCCAsmStmt':
            st = [c for c in ekids(s)]
            if not st or all(c['kind'] == 'StringLiteral' and c.get('value') == '""' for c in st):
                return self.stmts(rest, k)
        if self.is_dropped(s):
            self.u.dropped[str(s['_loc'][0]).split('/')[-1] + ':' + str(s['_loc'][1])] = nty(s)
            return self.stmts(rest, k)
        r = self.stmt_expr(s)
        return self.seqjoin(r, rest, k)

    @staticmethod
    def is_this(n):
        n = strip(n)
        return n['kind'] == 'UnaryOperator' and n['opcode'] == '*' and strip(ekids(n)[0])['kind'] == 'CXXThisExpr'

    def this_vs_param(self, l, r):
        """comparison of the address of *this with that of an object parameter: parameters are distinct objects (a stated assumption of the contracts)"""
        def core(n):
            while n['kind'] in PASS or n['kind'] in CASTS:
                n = ekids(n)[0]
            return n
        l, r = core(l), core(r)
        if l['kind'] == 'CXXThisExpr' and r['kind'] == 'UnaryOperator' and r['opcode'] == '&':
            o = strip(ekids(r)[0])
            if o['kind'] == 'DeclRefExpr' and isinstance(self.env.get(o['referencedDecl']['id']), LObj):
                self.u.dropped['self-assignment test (parameters are distinct objects)'] = 1
                return True
        return False

    def uid(self):
        self.k += 1
        return self.k

    def seqjoin(self, r, rest, k):
        if r == '()':
            return self.stmts(rest, k)
        sp = self.spec_call(rest[0]) if rest else None
        if sp and sp[0] == 'join':      # cut: only the stated fact is known after the previous statement
            r = 'begin ensures { %s }\n%s\nend' % (self.subst(sp[1]), indent(r))
            rest = rest[1:]
        if not rest and k in ('none', 'loop', 'switch'):
            return r
        if not rest and k == 'fn' and self.retstack[-1]['void']:
            return r
        return '(%s);\n%s' % (r, self.stmts(rest, k))

    def ret_expr(self, e, r):
        rt = r['rt']
        if rt.endswith('&'):
            return self.ex(e)
        if self.u.is_obj(rt):
            s = strip(e)
            # returning a local object (move / NRVO) or a temporary
            if s['kind'] in ('CXXConstructExpr',) and len(ekids(s)) == 1:
                s2 = strip(ekids(s)[0])
                if s2['kind'] == 'DeclRefExpr':
                    lv = self.lv(s2)
                    if isinstance(lv, LObj):
                        return lv.path
            if s['kind'] == 'DeclRefExpr':
                lv = self.lv(s)
                if isinstance(lv, LObj):
                    return lv.path
            return self.obj_init(e, rt)
        return self.ex(e)

    def annot(self, kind, txt, rest, k, node):
        t = self.subst(txt)
        if kind == 'assert':
            r = self.stmts(rest, k)
            return 'assert { %s };\n%s' % (t, r)
        if kind == 'ghost_let':      # name = expr
            m = re.match(r'\s*(ref\s+)?(\w+)\s*=\s*(.*)$', txt, re.S)
            nm = self.fresh(m.group(2))
            e = self.subst(m.group(3))
            gid = 'ghost%d' % self.uid()
            self.scope[m.group(2)] = gid
            self.env[gid] = LVar(nm, 'ghost', True)
            r = self.stmts(rest, k)
            return 'let ghost %s%s = (%s) in\n%s' % ('ref ' if m.group(1) else '', nm, e, r)
        if kind == 'ghost':
            r = self.stmts(rest, k)
            return '(ghost (%s));\n%s' % (t, r)
        if kind == 'lemma':
            r = self.stmts(rest, k)
            return '(ghost (%s));\n%s' % (t, r)
        if kind == 'join':
            self.err('RDV_JOIN does not follow a statement', node)
        if kind == 'label':
            r = self.stmts(rest, k)
            return 'label %s in\n%s' % (txt.strip(), r)
        if kind in ('inv', 'variant'):
            self.err('loop annotation outside of a loop body', node)
        self.err('unknown annotation ' + kind, node)

    def subst(self, txt):
        # old(e) / at labels are WhyML already; replace C++ names by their WhyML images
        def rep(m):
            nm = m.group(0)
            i = m.start()
            if i > 0 and txt[i - 1] in ".'":
                return nm
            if nm == 'this' and self.this is not None:
                return self.this.path if isinstance(self.this, LObj) else self.this.name
            if nm in self.scope and self.scope[nm] in self.env:
                return self.logic_lv(self.env[self.scope[nm]], nm)
            return nm
        return re.sub(r'[A-Za-z_]\w*', rep, txt)

    def logic_lv(self, lv, nm):
        if isinstance(lv, LVar):
            return lv.name
        if isinstance(lv, LVal):
            return '(%s)' % lv.e
        if isinstance(lv, LObj):
            return lv.path
        if isinstance(lv, LOField):
            return '%s.%s' % (lv.path, lv.field)
        if isinstance(lv, LField):
            return '%s.%s' % (self.logic_lv(lv.base, nm), lv.field)
        if isinstance(lv, LElem):
            return '(vat %s (%s))' % (lv.vec, lv.idx)
        if isinstance(lv, LCarr):
            return lv.name
        if isinstance(lv, LPtr):
            return self.logic_lv(lv.idx, nm)
        return nm

    def decls(self, ds, rest, k):
        if not ds:
            return self.stmts(rest, k)
        d, more = ds[0], ds[1:]
        kk = d['kind']
        if kk in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
            return self.decls(more, rest, k)
        if kk != 'VarDecl':
            self.err('declaration ' + kk, d)
        t = nty(d)
        raw = d['type']['qualType']
        init = [c for c in ekids(d) if c['kind'] not in ('FullComment',) and not c['kind'].endswith('Attr')]
        init = init[-1] if init else None
        nm = d.get('name', 'v')

        def cont():
            self.scope[nm] = d['id']
            return self.decls(more, rest, k)
        if self.dropt(strip_ref(t)):
            self.env[d['id']] = LDrop()
            self.scope.pop(nm, None)
            return self.decls(more, rest, k)
        if d.get('storageClass') == 'static' and not d.get('constexpr'):
            if self.is_mut(d['id']):
                self.err('static local variable', d)
        if init is not None and strip(init).get('kind') == 'LambdaExpr':
            self.env[d['id']] = LLam(strip(init), None)
            return cont()
        # constant arrays
        if init is not None and self.u_is_array(t):
            ca = self.try_carr(init)
            if ca is not None:
                self.env[d['id']] = ca
                return cont()
            if d.get('constexpr') or (raw.startswith('const ') and contains(init, lambda q: q.get('kind') == 'InitListExpr')):
                try:
                    nme, n, ety, spec = self.u.const_array(d)
                    self.env[d['id']] = LCarr(nme, n, ety)
                    return cont()
                except ExtractError:
                    pass
        isref = raw.rstrip().endswith('&')
        if isref:
            lv = None
            try:
                lv = self.lv(init)
            except NotLV:
                lv = None
            if lv is not None:
                pre = ''
                if isinstance(lv, LElem):
                    i = self.tmp()
                    pre = 'let %s = %s in\n' % (i, lv.idx)
                    lv = LElem(lv.vec, i, lv.ty)
                elif isinstance(lv, LField) and isinstance(lv.base, LElem):
                    i = self.tmp()
                    pre = 'let %s = %s in\n' % (i, lv.base.idx)
                    lv = LField(LElem(lv.base.vec, i, lv.base.ty), lv.field, lv.ty)
                self.env[d['id']] = lv
                return pre + cont()
        if self.ptr_type(t):
            base, off = self.ptr_expr(init)
            v = self.fresh(nm)
            self.env[d['id']] = LPtr(base, LVar(v, 'long', True), t)
            return 'let ref %s = %s in\n%s' % (v, off, cont())
        if self.u.is_obj(t):
            v = self.fresh(nm)
            e = self.obj_init(init, strip_ref(t), d)
            self.env[d['id']] = LObj(v, strip_ref(t))
            dt = self.dtor(strip_ref(t))
            if dt:          # the object is destroyed at the end of its scope
                if k != 'fn':
                    self.err('object with a destructor in an inner scope', d)
                body = cont()
                if 'raise' in body:
                    self.err('early exit past an object with a destructor', d)
                return 'let %s = %s in\nlet rs_ = begin %s end in\n%s %s; rs_' % (v, e, body, dt, v)
            return 'let %s = %s in\n%s' % (v, e, cont())
        wt = self.u.wty(t)
        mut = self.is_mut(d['id'])
        if init is None:
            e = '(any %s)' % wt
            mut = True
        else:
            e = self.ex(init)
        v = self.fresh(nm)
        self.env[d['id']] = LVar(v, strip_ref(t), mut)
        return 'let %s%s = %s in\n%s' % ('ref ' if mut else '', v, paren(e), cont())

    def u_is_array(self, t):
        t = strip_ref(t)
        return bool(re.fullmatch(r'std::array<.*>', t) or re.fullmatch(r'.*\[\d+\]', t))

    def dtor(self, t):
        if not self.u.heap or not self.u.cls(t):
            return None
        for d in self.u.ast.body_by_mangled.values():
            if d['kind'] == 'CXXDestructorDecl' and canon(d['_owner']['_qual']) == t:
                return self.u.ensure(d)[0]
        self.err('no destructor of ' + t)

    def ptr_type(self, t):
        if self.u.heap:
            return False
        return bool(re.fullmatch(r'[\w: ]+\*', t)) and t.rstrip('*').strip() in list(INT) + list(FLT) + ['bool']

    def ptr_expr(self, n):
        """pointer expression -> (vec path, offset expr)"""
        m = n
        while m['kind'] in PASS or m['kind'] in CASTS:
            m = ekids(m)[0]
        k = m['kind']
        if k == 'UnaryOperator' and m['opcode'] == '&':
            lv = self.lv(ekids(m)[0])
            if isinstance(lv, LElem):
                return lv.vec, lv.idx
        if k == 'CXXMemberCallExpr':
            me = strip(ekids(m)[0])
            o = self.lv(ekids(me)[0])
            if me['name'] == 'data' and isinstance(o, LObj):
                if STD_VEC.match(o.ty):
                    return o.path, '0'
                return o.path + '.data', '0'
        if k == 'DeclRefExpr':
            lv = self.env.get(m['referencedDecl']['id'])
            if isinstance(lv, LPtr):
                return lv.vec, self.rd(lv.idx)
        if k == 'BinaryOperator' and m['opcode'] in '+-':
            a, b = ekids(m)
            v, o = self.ptr_expr(a)
            return v, '(%s %s %s)' % (o, m['opcode'], self.ex(b))
        if k == 'UnaryOperator' and m['opcode'] in ('++', '--') :
            pass
        self.err('pointer expression ' + k, m)

    def try_carr(self, n):
        m = strip(n)
        if m['kind'] == 'CXXConstructExpr' and len(ekids(m)) == 1:
            m = strip(ekids(m)[0])
        if m['kind'] == 'DeclRefExpr':
            lv = self.lv_ref(m)
            if isinstance(lv, LCarr):
                return lv
            return None
        if m['kind'] == 'CallExpr':
            cal = strip(ekids(m)[0])
            d = self.u.ast.resolve_fn(cal.get('referencedDecl', {}).get('id'))
            if d is not None and len(ekids(m)) == 1:
                body = [b for b in kids(d) if b.get('kind') == 'CompoundStmt']
                if body:
                    r = self.only_return(body[0])
                    if r is not None:
                        return self.try_carr(r)
        return None

    def only_return(self, comp):
        """the returned expression of a body that, after constant ifs, is a single return"""
        L = ekids(comp)
        while L:
            s = L[0]
            if s['kind'] == 'NullStmt' or s['kind'] == 'StaticAssertDecl':
                L = L[1:]
                continue
            if s['kind'] == 'CompoundStmt':
                L = ekids(s) + L[1:]
                continue
            if s['kind'] == 'IfStmt':
                c, t, e = self.if_parts(s)
                cv = self.const_cond(s, c)
                if cv is True:
                    L = ([t] if t else []) + L[1:]
                    continue
                if cv is False:
                    L = ([e] if e else []) + L[1:]
                    continue
                return None
            if s['kind'] == 'ReturnStmt' and ekids(s):
                return ekids(s)[0]
            if self.is_dropped(s) or self.spec_call(s):
                L = L[1:]
                continue
            return None
        return None

    # ------------------------------------------------------------ loops
    def loop(self, s):
        kind = s['kind']
        ks = [c for c in s.get('inner', []) if isinstance(c, dict)]
        pre = ''
        auto = []
        autovar = None
        save_scope = dict(self.scope)
        if kind == 'ForStmt':
            init, _cv, cond, inc, body = (ks + [{}] * 5)[:5]
        elif kind == 'WhileStmt':
            init, inc = {}, {}
            cond, body = ks[-2], ks[-1]
        elif kind == 'DoStmt':
            body, cond = ks[0], ks[1]
            init, inc = {}, {}
        else:
            return self.range_for(s)
        if kind == 'DoStmt':
            v = self.fold(cond)
            if v == 0 and not self.abr(body):
                return self.stmts([body], 'none')
            self.err('do-while loop', s)
        # a for loop whose declared init is turned into lets around the while
        if init.get('kind') == 'DeclStmt':
            marker = {'kind': '_LoopRest', 'inner': []}
            vids = [d['id'] for d in ekids(init) if d['kind'] == 'VarDecl']
            return self._decl_then(ekids(init), lambda: self.loop_core(s, cond, inc, body, vids, init))
        if init.get('kind'):
            pre = self.stmt_expr(init) + ';\n'
        return pre + self.loop_core(s, cond, inc, body, [], init)

    def _decl_then(self, ds, fn):
        """translate declarations ds, then the text produced by fn in their scope"""
        self._pending = getattr(self, '_pending', [])
        self._pending.append(fn)
        tok = {'kind': '_Hook', '_loc': ('', 0)}
        r = self._decls_hook(ds)
        return r

    def _decls_hook(self, ds):
        outer = self
        saved = self.stmts

        def hooked(L, k):
            if L and L[0].get('kind') == '_Hook':
                self.stmts = saved
                fn = self._pending.pop()
                return fn()
            return saved(L, k)
        self.stmts = hooked
        r = self.decls(ds, [{'kind': '_Hook', '_loc': ('', 0)}], 'none')
        self.stmts = saved
        return r

    def collect_annots(self, body):
        """pulls invariants / variants out of the direct children of the loop body"""
        invs, var = [], None
        L = ekids(body) if body.get('kind') == 'CompoundStmt' else [body]
        out = []
        for c in L:
            sp = self.spec_call(c)
            if sp and sp[0] == 'inv':
                invs.append(sp[1])
            elif sp and sp[0] == 'variant':
                var = sp[1]
            else:
                out.append(c)
        return invs, var, out

    def loop_core(self, s, cond, inc, body, vids, init):
        u = self.u
        invs, var, L = self.collect_annots(body)
        texts = [self.subst(t) for t in invs]
        auto = self.auto_inv(cond, inc, vids, init, L)
        vtxt = self.subst(var) if var else auto[1]
        if vtxt is None:
            self.diverges = True
        c = self.ex(cond) if cond.get('kind') else 'true'
        self.loopstack.append({'cont': None})
        save = dict(self.scope)
        b = self.stmts(L, 'loop')
        self.scope = save
        lp = self.loopstack.pop()
        if lp['cont']:
            b = 'exception %s in\ntry\n%s\nwith %s -> () end' % (lp['cont'], indent(b), lp['cont'])
        i = self.stmt_expr(inc) if inc.get('kind') else '()'
        r = 'while %s do\n' % c
        for t in auto[0]:
            r += '  invariant { %s }\n' % t
        for t in texts:
            r += '  invariant { %s }\n' % t
        if vtxt:
            r += '  variant { %s }\n' % vtxt
        r += indent('(%s)' % b if i != '()' else b)
        if i != '()':
            r += ';\n  %s' % i
        r += '\ndone'
        return r

    def assigned_in(self, nodes, did):
        def p(n):
            if is_mutop(n):
                r = strip(ekids(n)[0])
                return r.get('kind') == 'DeclRefExpr' and r['referencedDecl']['id'] == did
            return False
        return any(contains(n, p) for n in nodes)

    def auto_inv(self, cond, inc, vids, init, L):
        """bounds invariants of the for(T i=a; i<b; i++) pattern"""
        out = []
        var = None
        try:
            if len(vids) != 1 or not inc.get('kind') or not cond.get('kind'):
                return out, None
            vid = vids[0]
            lv = self.env.get(vid)
            if not isinstance(lv, LVar) or self.assigned_in(L, vid):
                return out, None
            ii = strip(inc)
            if not (ii['kind'] == 'UnaryOperator' and ii['opcode'] in ('++', '--')):
                return out, None
            t = strip(ekids(ii)[0])
            if t.get('kind') != 'DeclRefExpr' or t['referencedDecl']['id'] != vid:
                return out, None
            d = [x for x in ekids(init) if x['kind'] == 'VarDecl'][0]
            a = None
            try:
                a = self.logic(ekids(d)[-1])
            except ExtractError:
                a = None
            if ii['opcode'] == '++':
                if a is not None:
                    out.append('%s <= %s' % (a, lv.name))
            else:
                if a is not None:
                    out.append('%s <= %s' % (lv.name, a))
            c = strip(cond)
            if c['kind'] == 'BinaryOperator' and c['opcode'] in ('<', '<=', '>', '>=', '!='):
                l, r = ekids(c)
                ls = l
                while ls['kind'] in PASS or ls['kind'] in CASTS:
                    ls = ekids(ls)[0]
                if ls.get('kind') == 'DeclRefExpr' and ls['referencedDecl']['id'] == vid:
                    try:
                        b = self.logic(r)
                    except ExtractError:
                        b = None
                    if b is not None:
                        if c['opcode'] == '<' and ii['opcode'] == '++':
                            out.append('%s <= %s%s' % (lv.name, b, (' \\/ %s <= %s' % (lv.name, a)) if a is not None else ''))
                            var = '%s - %s' % (b, lv.name)
                        elif c['opcode'] == '<=' and ii['opcode'] == '++':
                            out.append('%s <= %s + 1%s' % (lv.name, b, (' \\/ %s <= %s' % (lv.name, a)) if a is not None else ''))
                            var = '%s + 1 - %s' % (b, lv.name)
                        elif c['opcode'] == '>=' and ii['opcode'] == '--':
                            out.append('%s >= %s - 1%s' % (lv.name, b, (' \\/ %s >= %s' % (lv.name, a)) if a is not None else ''))
                            var = '%s - %s + 1' % (lv.name, b)
                        elif c['opcode'] == '>' and ii['opcode'] == '--':
                            out.append('%s >= %s%s' % (lv.name, b, (' \\/ %s >= %s' % (lv.name, a)) if a is not None else ''))
                            var = '%s - %s' % (lv.name, b)
        except ExtractError:
            pass
        if var and any(x in var for x in ('qsize', '.len', 'size ')):
            var = None
        return out, var

    def range_for(self, s):
        """for(decl : range) over a vec or braced list"""
        ks = [c for c in s.get('inner', []) if isinstance(c, dict)]
        # children: init?, range DeclStmt, begin, end, cond, inc, loopvar DeclStmt, body
        decls = [c for c in ks if c.get('kind') == 'DeclStmt']
        rng = ekids(decls[0])[0]
        lvd = ekids(decls[-1])[0]
        body = ks[-1]
        e = ekids(rng)[-1]
        il = strip(e)
        if il['kind'] == 'CXXStdInitializerListExpr' or contains(il, lambda q: q.get('kind') == 'InitListExpr') and nty(il).startswith('std::initializer_list'):
            x = il
            while x['kind'] != 'InitListExpr':
                x = strip(ekids(x)[0])
            out = ''
            self.err('range-for over braced list', s)
        lv = self.lv(e)
        if isinstance(lv, LCarr):
            n = str(lv.n)
            get = lambda i: LVal('%s %s' % (lv.name, i), lv.ty)
        else:
            if not isinstance(lv, LObj):
                self.err('range-for over non-vector', s)
            ety = targs(lv.ty)[0] if '<' in lv.ty else re.fullmatch(r'(.*)\[(\d+)\]', lv.ty).group(1)
            n = '(vlen %s)' % lv.path
            get = lambda i: LElem(lv.path, i, ety)
        i = self.fresh('ri_')
        invs, var, L = self.collect_annots(body)
        raw = lvd['type']['qualType']
        el = get(i)
        bind = ''
        if raw.rstrip().endswith('&'):
            self.env[lvd['id']] = el
        else:
            v = self.fresh(lvd.get('name', 'v'))
            mut = self.is_mut(lvd['id'])
            bind = 'let %s%s = %s in\n' % ('ref ' if mut else '', v, self.rd(el))
            self.env[lvd['id']] = LVar(v, strip_ref(nty(lvd)), mut)
        gid = 'ri%d' % self.uid()
        self.scope['range_index'] = gid
        self.env[gid] = LVar(i, 'int', True)
        texts = [self.subst(t) for t in invs]
        self.scope[lvd.get('name', '')] = lvd['id']
        self.loopstack.append({'cont': None})
        save = dict(self.scope)
        b = self.stmts(L, 'loop')
        self.scope = save
        lp = self.loopstack.pop()
        if lp['cont']:
            b = 'exception %s in\ntry\n%s\nwith %s -> () end' % (lp['cont'], indent(b), lp['cont'])
        nn = self.tmp()
        r = 'let ref %s = 0 in\nlet %s = %s in\nwhile %s < %s do\n  invariant { 0 <= %s /\\ (%s <= %s \\/ %s = 0) }\n' % (i, nn, n, i, nn, i, i, nn, i)
        for t in texts:
            r += '  invariant { %s }\n' % t
        r += '  variant { %s - %s }\n' % (nn, i)
        r += indent('(%s%s)' % (bind, b)) + ';\n  %s <- %s + 1\ndone' % (i, i)
        return r

    def switch(self, s, rest, k):
        ks = ekids(s)
        v = self.tmp()
        ce = self.ex(ks[0])
        groups = []          # (values|None, stmts)
        cur = None

        def add(case_vals, node):
            nonlocal cur
            cur = [case_vals, []]
            groups.append(cur)
            sub = node
            if sub.get('kind') in ('CaseStmt', 'DefaultStmt'):
                handle(sub, case_vals)
            elif sub.get('kind'):
                cur[1].append(sub)

        def handle(n, prev=None):
            nonlocal cur
            if n['kind'] == 'CaseStmt':
                c = ekids(n)
                val = c[0].get('value')
                if val is None:
                    val = self.fold(c[0])
                vals = (prev or []) + [str(val)]
                body = c[-1] if len(c) > 1 else {}
            else:
                c = ekids(n)
                vals = (prev or []) + ['default']
                body = c[-1] if c else {}
            if body.get('kind') in ('CaseStmt', 'DefaultStmt'):
                handle(body, vals)
            else:
                cur = [vals, []]
                groups.append(cur)
                if body.get('kind'):
                    cur[1].append(body)
        for c in ekids(ks[-1]):
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                handle(c)
            else:
                cur[1].append(c)
        # every group must end abruptly (break/return/throw/continue), except the last
        for g in groups[:-1]:
            if not any(self.always(x) for x in g[1]):
                self.err('switch fallthrough', s)
        self.loopstack.append({'switch': True, 'cont': None})
        ab = set()
        for g in groups:
            for x in g[1]:
                ab |= self.abr(x)
        needtail = bool(ab & {'ret', 'cont'})
        res = None
        default = '()'
        alts = []

        def strip_break(L):
            out = []
            for x in L:
                if x['kind'] == 'BreakStmt':
                    return out, True
                out.append(x)
            return out, False
        for vals, L in groups:
            L2, brk = strip_break(L)
            save = dict(self.scope)
            if needtail and k in ('fn', 'loop'):
                self.loopstack.pop()
                t = self.stmts(L2 + ([] if (L2 and any(self.always(x) for x in L2)) else rest), k)
                self.loopstack.append({'switch': True, 'cont': None})
            else:
                t = self.stmts(L2, 'none')
            self.scope = save
            if 'default' in vals:
                default = t
                if len(vals) > 1:
                    pass
            else:
                alts.append((vals, t))
        self.loopstack.pop()
        if needtail and k in ('fn', 'loop'):
            if default == '()' and not any('default' in g[0] for g in groups):
                default = self.stmts(rest, k)
            r = 'begin\n%s\nend' % indent(default)
            for vals, t in reversed(alts):
                r = 'if %s then begin\n%s\nend else %s' % (' || '.join('%s = %s' % (v, x if not x.startswith('-') else '(%s)' % x) for x in vals), indent(t), r)
            return 'let %s = %s in\n%s' % (v, ce, r)
        r = 'begin\n%s\nend' % indent(default)
        for vals, t in reversed(alts):
            r = 'if %s then begin\n%s\nend else %s' % (' || '.join('%s = %s' % (v, x if not x.startswith('-') else '(%s)' % x) for x in vals), indent(t), r)
        return self.seqjoin('let %s = %s in\n%s' % (v, ce, r), rest, k)

    # ------------------------------------------------------------ expression statements
    def stmt_expr(self, n):
        s = n
        while s['kind'] in PASS or (s['kind'] in CASTS and s.get('castKind') in ('ToVoid', 'NoOp')):
            c = ekids(s)
            if not c:
                return '()'
            s = c[0]
        k = s['kind']
        if self.is_dropped(s):
            return '()'
        if k == 'BinaryOperator' and s['opcode'] == '=':
            l, r = ekids(s)
            if self.ptr_type(nty(l)):
                lv = self.lv(l)
                b, o = self.ptr_expr(r)
                if b != lv.vec:
                    self.err('pointer reassigned to another object', s)
                return self.wr(lv.idx, o)
            return self.wr(self.lv(l), self.ex(r))
        if k == 'BinaryOperator' and s['opcode'] == ',':
            a, b = ekids(s)
            return '(%s; %s)' % (self.stmt_expr(a), self.stmt_expr(b))
        if k == 'UnaryOperator' and s['opcode'] in ('++', '--'):
            return self.incdec(s)
        if k == 'CompoundAssignOperator':
            return self.compound(s)
        if k == 'CXXOperatorCallExpr':
            cs = ekids(s)
            nm = strip(cs[0]).get('referencedDecl', {}).get('name', '')
            if nm == 'operator=':
                t = nty(cs[1])
                if self.u.is_obj(t):
                    dst = self.lv(cs[1])
                    if self.u.heap and self.u.cls(dst.ty):      # the class's own operator
                        d = self.u.ast.resolve_fn(strip(cs[0]).get('referencedDecl', {}).get('id'))
                        if d is None:
                            self.err('unresolved assignment operator', s)
                        return self.method(d, dst, cs[2:], s, True)
                    return self.obj_assign(dst, cs[2])
                dst = self.lv(cs[1])
                if isinstance(dst, LDrop):
                    return '()'
                return self.wr(dst, self.ex(cs[2]))
            if nm in ('operator++', 'operator--') and self.dropt(nty(cs[1])):
                return '()'
        if k == 'ConditionalOperator':
            c, a, b = ekids(s)
            return 'if %s then %s else %s' % (self.ex(c), self.stmt_expr(a), self.stmt_expr(b))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.call(s, stmt=True)
            t = nty(s)
            return r
        if k in ('DeclRefExpr', 'IntegerLiteral', 'MemberExpr', 'CXXThisExpr', 'CXXBoolLiteralExpr', 'FloatingLiteral'):
            return '()'
        e = self.ex(s)
        return 'let _ = %s in ()' % e

    def incdec(self, s, want=None):
        """++/--: statement text; want='pre'/'post' gives a value"""
        t = ekids(s)[0]
        lv = self.lv(t)
        ty = nty(t)
        if isinstance(lv, LPtr):
            return self.wr(lv.idx, '(%s %s 1)' % (self.rd(lv.idx), '+' if s['opcode'] == '++' else '-'))
        if strip_ref(ty) in FLT:
            e = '(%s %s 1.0)' % (self.rd(lv), '+.' if s['opcode'] == '++' else '-.')
        else:
            e = self.wrap('(%s %s 1)' % (self.rd(lv), '+' if s['opcode'] == '++' else '-'), strip_ref(ty), '+' if s['opcode'] == '++' else '-')
        if want is None:
            return self.wr(lv, e)
        v = self.tmp()
        if want == 'post':
            return '(let %s = %s in (%s); %s)' % (v, self.rd(lv), self.wr(lv, e), v)
        return '((%s); %s)' % (self.wr(lv, e), self.rd(lv))

    def compound(self, s):
        l, r = ekids(s)
        op = s['opcode'][:-1]
        lv = self.lv(l)
        lt = strip_ref(nty(l))
        if isinstance(lv, LPtr):
            return self.wr(lv.idx, '(%s %s %s)' % (self.rd(lv.idx), op, self.ex(r)))
        if self.u.bv and lt in self.u.bv:
            f = {'^': 'bw_xor', '|': 'bw_or', '&': 'bw_and', '+': 'add', '-': 'sub', '*': 'mul'}
            if lt not in INT or op not in f or strip_ref(nty(r)) != lt:
                self.err('bit-vector assignment %s=' % op, s)
            return self.wr(lv, self.bvnarrow(lt, '(%s %s %s)' % (f[op], self.rd(lv), self.ex(r))))
        ct = norm_type(s.get('computeLHSType', {'qualType': lt}))
        rt = norm_type(s.get('computeResultType', {'qualType': lt}))
        a = self.convert(self.rd(lv), lt, ct)
        b = self.ex(r)
        e = self.binop(op, a, b, rt, ct, strip_ref(nty(r)))
        return self.wr(lv, self.convert(e, rt, lt))

    def obj_assign(self, dst, src):
        if isinstance(dst, LDrop):
            self.check_drop(src)
            return '()'
        if self.u.wty(dst.ty) == 'uptr':
            if not self.is_move(src):
                self.err('assignment to a unique_ptr', src)
            return 'uptr_move %s %s' % (dst.path, self.rd(self.lv(ekids(strip(src))[1])))
        e = self.obj_init(src, dst.ty)
        t = self.u.wty(dst.ty)
        if t.startswith('(vec'):
            return 'vec_assign %s (%s)' % (dst.path, e)
        if t.startswith('(a2d'):
            return 'a2d_assign %s (%s)' % (dst.path, e)
        if t.endswith('.pq'):
            return '%s.pq_assign %s (%s)' % (t[:-3], dst.path, e)
        self.err('assignment of object type ' + dst.ty)

    # ------------------------------------------------------------ lvalues
    def rd(self, lv):
        if isinstance(lv, LVar):
            return lv.name
        if isinstance(lv, LVal):
            return paren(lv.e)
        if isinstance(lv, LElem):
            return '(vget %s %s)' % (lv.vec, paren(lv.idx))
        if isinstance(lv, LHeap):
            return '(uptr_get %s %s)' % (lv.path, paren(lv.idx))
        if isinstance(lv, LMap):
            return '(umap_get %s %s)' % (lv.path, paren(lv.key))
        if isinstance(lv, LField):
            return '%s.%s' % (self.rd(lv.base), lv.field)
        if isinstance(lv, LOField):
            return '%s.%s' % (lv.path, lv.field)
        if isinstance(lv, LObj):
            return lv.path
        self.err('cannot read lvalue %s' % type(lv).__name__)

    def wr(self, lv, e):
        if isinstance(lv, LVar):
            if not lv.mut:
                self.err('write to immutable ' + lv.name)
            return '%s <- %s' % (lv.name, e)
        if isinstance(lv, LElem):
            return 'vset %s %s %s' % (lv.vec, paren(lv.idx), paren(e))
        if isinstance(lv, LMap):
            return 'umap_set %s %s %s' % (lv.path, paren(lv.key), paren(e))
        if isinstance(lv, LHeap):
            return 'uptr_set %s %s %s' % (lv.path, paren(lv.idx), paren(e))
        if isinstance(lv, LField):
            if '<-' in e:       # effects of the value come before the update
                v = self.fresh('fv')
                return 'let %s = %s in %s' % (v, e, self.wr(lv.base, '{ %s with %s = %s }' % (self.rd(lv.base), lv.field, v)))
            return self.wr(lv.base, '{ %s with %s = %s }' % (self.rd(lv.base), lv.field, e))
        if isinstance(lv, LOField):
            return '%s.%s <- %s' % (lv.path, lv.field, e)
        self.err('cannot write lvalue %s' % type(lv).__name__)

    def lv_ref(self, n):
        rd = n['referencedDecl']
        i = rd['id']
        if i in self.env:
            return self.env[i]
        if rd['kind'] == 'EnumConstantDecl':
            return LVal(str(self.enum_value(i)), 'int')
        d = self.u.ast.by_id.get(i)
        if d is not None and d['kind'] == 'VarDecl':
            t = nty(d)
            if self.u_is_array(t):
                name, cnt, ety, spec = self.u.const_array(d)
                lv = LCarr(name, cnt, ety)
                return lv
            # namespace-scope or static constant
            if d.get('name') == 'SQRT2':
                return LVal('sqrt2l', 'double')
            if ekids(d):
                if d.get('constexpr') or 'const' in d['type']['qualType'].split():
                    try:
                        return LVal(self.u.const_val(ekids(d)[-1]), t)
                    except ExtractError:
                        return LVal(self.ex(ekids(d)[-1]), t)
                self.err('mutable global ' + d['name'], n)
        if d is None and rd.get('name') in KNOWN_GLOBALS:
            return LVal(KNOWN_GLOBALS[rd['name']][0], KNOWN_GLOBALS[rd['name']][1])
        self.err('unknown reference %s' % rd.get('name'), n)

    def lv(self, n):
        k = n['kind']
        if k in PASS:
            if k == 'MaterializeTemporaryExpr':
                s = strip(n)
                if s['kind'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr') and self.lvish(s):
                    return self.lv(s)
                raise NotLV()
            c = ekids(n)
            if not c:
                raise NotLV()
            return self.lv(c[-1] if k == 'SubstNonTypeTemplateParmExpr' else c[0])
        if k in CASTS:
            ck = n.get('castKind')
            if ck in ('NoOp', 'LValueToRValue', 'UncheckedDerivedToBase', 'DerivedToBase', 'ArrayToPointerDecay'):
                return self.lv(ekids(n)[0])
            raise NotLV()
        if k == 'DeclRefExpr':
            return self.lv_ref(n)
        if k == 'CXXThisExpr':
            return self.this
        if k == 'UnaryOperator' and n['opcode'] == '*':
            s = strip(ekids(n)[0])
            if s['kind'] == 'CXXThisExpr':
                return self.this
            b, o = self.ptr_expr(ekids(n)[0])
            return LElem(b, o, nty(n))
        if k == 'MemberExpr':
            c = ekids(n)
            nm = n['name']
            try:
                base = self.lv(c[0])
            except NotLV:
                base = LVal(self.ex(c[0]), nty(c[0]))
            return self.field(base, nm, n, c[0])
        if k == 'ArraySubscriptExpr':
            a, b = ekids(n)
            s = strip(a)
            base = None
            if self.ptr_type(nty(s)):
                bb, o = self.ptr_expr(s)
                return LElem(bb, '(%s + %s)' % (o, self.ex(b)) if o != '0' else self.ex(b), nty(n))
            base = self.lv(a)
            return self.index(base, self.ex(b), n)
        if k == 'CXXOperatorCallExpr':
            cs = ekids(n)
            nm = strip(cs[0]).get('referencedDecl', {}).get('name', '')
            if nm == 'operator[]':
                o = self.lv(cs[1])
                if isinstance(o, LObj) and self.u.wty(o.ty) == 'uptr':
                    return LHeap(o.path, self.ex(cs[2]), nty(n))
                if isinstance(o, LObj) and self.u.wty(o.ty).startswith('(umap'):
                    return LMap(o.path, self.ex(cs[2]), nty(n))
                if isinstance(o, (LObj, LCarr)) and (isinstance(o, LCarr) or self.u.wty(o.ty).startswith('(vec')):
                    return self.index(o, self.ex(cs[2]), n)
            if nm == 'operator=' or nm.endswith('=') and nm not in ('operator==', 'operator!=', 'operator<=', 'operator>='):
                raise NotLV()
            d = self.u.ast.resolve_fn(strip(cs[0]).get('referencedDecl', {}).get('id'))
            if d is not None and d['kind'] == 'CXXMethodDecl':
                return self.lv_inline(d, self.lvo(cs[1]), cs[2:], n)
            raise NotLV()
        if k == 'CXXMemberCallExpr':
            cs = ekids(n)
            me = strip(cs[0])
            d = self.u.ast.resolve_fn(me.get('referencedMemberDecl'))
            if d is not None and self.ret_type(d).endswith('&'):
                return self.lv_inline(d, self.lvo(ekids(me)[0]), cs[1:], n)
            if d is not None:
                raise NotLV()
            o = self.lvo(ekids(me)[0])
            if isinstance(o, LObj) and self.u.wty(o.ty).startswith('(vec') and me['name'] in ('at', 'back', 'front'):
                ety = targs(o.ty)[0]
                if me['name'] == 'at':
                    return LElem(o.path, self.ex(cs[1]), ety)
                if me['name'] == 'back':
                    return LElem(o.path, '(%s.len - 1)' % o.path, ety)
                return LElem(o.path, '0', ety)
            raise NotLV()
        if k == 'ConditionalOperator':
            raise NotLV()
        raise NotLV()

    def lvo(self, n):
        """lvalue of an object expression; rvalue structs allowed"""
        s = strip(n)
        if s['kind'] in CASTS and s.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase'):
            return self.lvo(ekids(s)[0])
        try:
            return self.lv(n)
        except NotLV:
            return LVal(self.ex(n), nty(n))

    def lvish(self, s):
        return s.get('valueCategory') in ('lvalue', 'xvalue')

    def index(self, base, i, n):
        if isinstance(base, LCarr):
            return LVal('%s %s' % (base.name, paren(i)), base.ty)
        if isinstance(base, LObj):
            t = base.ty
            ety = targs(t)[0] if '<' in t else re.fullmatch(r'(.*?)\[(\d+)\]', t).group(1)
            return LElem(base.path, i, ety)
        if isinstance(base, LPtr):
            return LElem(base.vec, '(%s + %s)' % (self.rd(base.idx), i), nty(n))
        self.err('index of %s' % type(base).__name__, n)

    def field(self, base, nm, n, basenode):
        t = base.ty if hasattr(base, 'ty') else ''
        t = strip_ref(t).rstrip('*')
        st = self.u.struct(t)
        if st:
            if nm not in st.fields:
                self.err('unmapped field %s of %s' % (nm, t), n)
            return LField(base, st.fields[nm], nty(n))
        c = self.u.cls(t)
        if c and isinstance(base, LObj):
            if nm not in c.fields:
                self.err('unmapped field %s of %s' % (nm, t), n)
            f = c.fields[nm]
            if f is None:
                return LDrop()
            ft = nty(n)
            if self.u.is_obj(ft):
                return LObj('%s.%s' % (base.path, f), strip_ref(ft))
            return LOField(base.path, f, strip_ref(ft))
        if t.startswith('std::pair<'):
            a = targs(t)
            return LField(base, {'first': 'p1', 'second': 'p2'}[nm], a[0] if nm == 'first' else a[1])
        if isinstance(base, LDrop):
            return LDrop()
        d = self.u.ast.by_id.get(n.get('referencedMemberDecl', ''))
        if d is not None and d['kind'] == 'VarDecl' and ekids(d):      # static data member
            return LVal(self.ex(ekids(d)[-1]), nty(d))
        self.err('field %s of %s' % (nm, t), n)

    def lv_inline(self, d, obj, args, n):
        """reference-returning accessor: inline its single return expression as an lvalue"""
        body = [b for b in kids(d) if b.get('kind') == 'CompoundStmt']
        if not body:
            raise NotLV()
        r = self.only_return(body[0])
        if r is None:
            raise NotLV()
        self.u.inlined.add(d['_qual'])
        ps = [p for p in kids(d) if p.get('kind') == 'ParmVarDecl']
        senv, sscope, sthis = self.env, self.scope, self.this
        vals = []
        for p, a in zip(ps, args):
            if contains(a, is_mutop):
                self.err('side effect in accessor argument', n)
            vals.append(LVal(self.ex(a), strip_ref(nty(p))))
        self.env = dict(senv)
        self.scope = {}
        for p, v in zip(ps, vals):
            self.env[p['id']] = v
        self.this = obj
        try:
            return self.lv(r)
        finally:
            self.env, self.scope, self.this = senv, sscope, sthis

    # ------------------------------------------------------------ expressions
    def wrap(self, e, ty, op):
        """result of integer arithmetic in type ty"""
        ty = strip_ref(ty)
        if ty not in INT:
            return e
        bits, signed = INT[ty]
        if self.u.overflow and signed and bits == 32:
            return '(chk_i32 %s)' % e
        if not signed and bits == 32:
            return '(to_u32 %s)' % e
        if not signed and bits == 64 and op == '-':
            return '(to_u64 %s)' % e
        if bits < 32:
            return '(to_%s%d %s)' % ('i' if signed else 'u', bits, e)
        return e

    def convert(self, e, src, dst):
        src, dst = strip_ref(src), strip_ref(dst)
        if src == dst:
            return e
        if dst == 'void':
            return e
        if dst == 'bool':
            if src == 'bool':
                return e
            if src in INT:
                return '(%s <> 0)' % e
            if src in FLT:
                return '(rne %s 0.0)' % e
        if dst in INT:
            if src == 'bool':
                return {'true': '1', 'false': '0'}.get(e, '(if %s then 1 else 0)' % e)
            if src in INT:
                a, b = irange(src)
                c, d = irange(dst)
                if c <= a and b <= d:
                    return e
                m = re.fullmatch(r'\(?(-?\d+)\)?', e.strip())
                if m and c <= int(m.group(1)) <= d:
                    return e
                bits, sg = INT[dst]
                return '(to_%s%d %s)' % ('i' if sg else 'u', bits, e)
            if src in FLT:
                return '(f2i_%s%d %s)' % ('i' if INT[dst][1] else 'u', INT[dst][0], e)
            if self.u.enum(src):
                return e
        if dst in FLT:
            if src in FLT:
                if dst == 'float' and src != 'float' and not re.fullmatch(r'\(?(-\. ?)?\d+\.\d*\)?', e.strip()):
                    return '(to_f32 %s)' % paren(e)      # narrowing loses digits: only monotonicity is known
                return e
            if src == 'bool':
                return '(if %s then 1.0 else 0.0)' % e
            if src in INT:
                m = re.fullmatch(r'\(?(-?\d+)\)?', e.strip())
                if m:
                    v = int(m.group(1))
                    return '%d.0' % v if v >= 0 else '(-. %d.0)' % -v
                return '(i2r %s)' % e
        if self.u.enum(dst) and (src in INT):
            return e
        self.err('conversion %s -> %s' % (src, dst))

    CMP = {'<': '<', '>': '>', '<=': '<=', '>=': '>=', '==': '=', '!=': '<>'}

    def binop(self, op, a, b, rt, lt, rrt):
        lt, rt = strip_ref(lt), strip_ref(rt)
        if op in ('&&', '||'):
            return '(%s %s %s)' % (a, op, b)
        if op in self.CMP:
            if lt in FLT and self.u.ieee:
                if lt != self.u.ieee or rrt and strip_ref(rrt) != lt:
                    self.err('mixed floating types in comparison')
                return '(f_%s %s %s)' % ({'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}[op], paren(a), paren(b))
            if lt in FLT:
                f = {'<': '<.', '>': '>.', '<=': '<=.', '>=': '>=.'}
                if op in f:
                    return '(%s %s %s)' % (a, f[op], b)
                return '(%s %s %s)' % ('req' if op == '==' else 'rne', paren(a), paren(b))
            if lt == 'bool':
                return '(%s %s %s)' % ('beq' if op == '==' else 'bne', paren(a), paren(b)) if op in ('==', '!=') else self.err('bool compare')
            return '(%s %s %s)' % (a, self.CMP[op], b)
        if rt in FLT:
            if self.u.ieee:
                self.err('floating arithmetic with IEEE semantics')
            if op == '*' and self.u.rmul and not (re.fullmatch(r'[\d.() -]+', a) or re.fullmatch(r'[\d.() -]+', b)):
                return '(%s %s %s)' % (self.u.rmul, paren(a), paren(b))
            if op == '/':
                if self.u.rquot and not re.fullmatch(r'[\d.() -]+', b):
                    return '(%s %s %s)' % (self.u.rquot, paren(a), paren(b))
                return '(rdiv %s %s)' % (paren(a), paren(b))
            f = {'+': '+.', '-': '-.', '*': '*.'}
            if op in f:
                return '(%s %s %s)' % (a, f[op], b)
        if rt in INT:
            if op in '+-*':
                return self.wrap('(%s %s %s)' % (a, op, b), rt, op)
            if op == '/':
                return '(cdiv %s %s)' % (paren(a), paren(b))
            if op == '%':
                return '(cmod %s %s)' % (paren(a), paren(b))
            if op == '<<':
                m = re.fullmatch(r'\d+', a)
                return self.wrap('(shl %s %s)' % (paren(a), paren(b)), rt, '*')
            if op == '>>':
                return '(shr %s %s)' % (paren(a), paren(b))
            if op in '&|^':
                return '(%s %s %s)' % ({'&': 'band', '|': 'bor', '^': 'bxor'}[op], paren(a), paren(b))
        self.err('binary operator %s on %s' % (op, rt))

    def const_int(self, n):
        """compile-time integer, or None"""
        n = strip(n)
        while n['kind'] in CASTS and n.get('castKind') in ('IntegralCast', 'LValueToRValue', 'NoOp'):
            n = strip(ekids(n)[0])
        k = n['kind']
        if k == 'IntegerLiteral':
            return int(n['value'])
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            t = strip_ref(canon(n['argType'].get('desugaredQualType', n['argType']['qualType']))) if 'argType' in n else strip_ref(nty(ekids(n)[0]))
            if t == 'T' or (t not in INT and t not in FLT):
                q = n['argType']['qualType'] if 'argType' in n else ''
                q = re.sub(r'^const\s+', '', q)
                if q == 'char':
                    return 1
                if q.startswith('std::') and q.endswith('::size_type'):
                    return 8
                for td in kids(self.d.get('_owner') or {}):
                    if td.get('kind') in ('TypedefDecl', 'TypeAliasDecl') and td.get('name') == q:
                        t = canon(td['type'].get('desugaredQualType', td['type']['qualType']))
                if q == 'T':
                    m = re.search(r'Array2D<(\w+)>', self.d.get('_qual', '') or '')
                    if m:
                        t = m.group(1)
            if t in INT:
                return INT[t][0] // 8
            return {'double': 8, 'float': 4, 'char': 1}.get(t)
        if k == 'DeclRefExpr' and n['referencedDecl'].get('name') == 'digits' and '_src' in n:
            f, b, e = n['_src']
            m = re.fullmatch(r'std::numeric_limits<(\w+)>::digits', open(f, 'rb').read()[b:e].decode())
            ow = self.d.get('_owner')
            if not m or ow is None:
                return None
            for td in kids(ow):
                if td.get('kind') in ('TypedefDecl', 'TypeAliasDecl') and td.get('name') == m.group(1):
                    t = canon(td['type'].get('desugaredQualType', td['type']['qualType']))
                    t = {'__make_unsigned_selector<long,true>::__type': 'unsigned long'}.get(t, t)
                    if t in INT:
                        return INT[t][0] - (1 if INT[t][1] else 0)
            return None
        if k == 'BinaryOperator' and n['opcode'] in '+-*':
            a, b = [self.const_int(x) for x in ekids(n)]
            if a is None or b is None:
                return None
            return {'+': a + b, '-': a - b, '*': a * b}[n['opcode']]
        return None

    def bvex(self, n):
        """expression of a bit-vector type, or a comparison of such"""
        k = n['kind']
        bv = self.u.bv
        t = strip_ref(nty(n))
        isbv = t in bv
        if isbv:
            v = self.const_int(n)
            if v is not None:
                return '(of_int %d)' % (v % (1 << 64))
        if k == 'UnaryExprOrTypeTraitExpr':
            v = self.const_int(n)
            if v is not None:
                return str(v)
        if k in CASTS and n.get('castKind') == 'IntegralCast' and isbv:
            s = strip_ref(nty(ekids(n)[0]))
            if s in bv:
                return self.bvnarrow(t, self.ex(ekids(n)[0]), s)
            if s == 'bool':
                return '(if %s then (1:t) else (0:t))' % self.ex(ekids(n)[0])
            q = strip(ekids(n)[0])          # int expression made of builtins
            r = self.bvint(q)
            if r is not None:
                return r
            self.err('conversion of %s to a bit vector' % s, n)
        if k in CASTS and n.get('castKind') == 'IntegralToBoolean' and strip_ref(nty(ekids(n)[0])) in bv:
            return '(not (b_eq %s zeros))' % self.ex(ekids(n)[0])
        if k in CASTS and n.get('castKind') == 'UserDefinedConversion' or 'raw_cast<' in t:
            q = strip(n)
            while True:
                if q['kind'] in CASTS or q['kind'] in PASS:
                    q = ekids(q)[0]
                elif q['kind'] == 'CXXMemberCallExpr' and ekids(q)[0].get('name', '').startswith('operator '):
                    q = ekids(ekids(q)[0])[0]
                elif q['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'raw_cast<' in nty(q) and len(ekids(q)) == 1:
                    q = ekids(q)[0]
                    break
                else:
                    self.err('conversion through ' + q['kind'], n)
            self.u.builtin.add('raw_cast')
            return self.ex(q)
        if k == 'BinaryOperator':
            l, r = ekids(n)
            op = n['opcode']
            if op in ('==', '!=', '<', '>', '<=', '>=') and strip_ref(nty(l)) in bv:
                lt = strip_ref(nty(l))
                a, b = self.ex(l), self.ex(r)
                if op == '==':
                    return '(b_eq %s %s)' % (a, b)
                if op == '!=':
                    return '(not (b_eq %s %s))' % (a, b)
                if lt not in INT:
                    self.err('comparison of ' + lt)
                return '(%s%s %s %s)' % ('s' if INT[lt][1] else 'u', {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}[op], a, b)
            if isbv and t in INT:
                f = {'^': 'bw_xor', '|': 'bw_or', '&': 'bw_and', '+': 'add', '-': 'sub', '*': 'mul', '<<': 'lsl_bv', '>>': 'lsr_bv'}
                if op in f and not (op == '>>' and INT[t][1]):
                    fn = f[op]
                    if op in ('<<', '>>'):
                        c = self.const_int(r)
                        if c is not None:
                            b = '(of_int %d)' % c
                        elif strip_ref(nty(r)) in bv:
                            b = self.ex(r)
                            fn = 'cshl' if op == '<<' else 'cshr'
                        else:
                            self.err('shift by a variable int', n)
                    else:
                        b = self.ex(r)
                    return self.bvnarrow(t, '(%s %s %s)' % (fn, self.ex(l), b))
                if op != '=' and op != ',':
                    self.err('bit-vector operator ' + op, n)
        if k == 'UnaryOperator' and isbv and t in INT:
            f = {'-': 'neg', '~': 'bw_not', '+': ''}
            if n['opcode'] in f:
                return self.bvnarrow(t, '(%s %s)' % (f[n['opcode']], self.ex(ekids(n)[0])))
        return None

    def bvnarrow(self, t, e, src=None):
        if t == 'unsigned int' and src != t:
            return '(w32 %s)' % e
        if t == 'int' or (src == 'int' and t != src):
            self.err('int in bit-vector arithmetic')
        return e

    def bvint(self, q):
        """int expression over builtins and constants, as a bit vector; no overflow is possible"""
        c = self.const_int(q)
        if c is not None:
            return '(of_int %d)' % (c % (1 << 64))
        q = strip(q)
        if q['kind'] == 'BinaryOperator' and q['opcode'] in '+-':
            a, b = [self.bvint(x) for x in ekids(q)]
            return '(%s %s %s)' % ('add' if q['opcode'] == '+' else 'sub', a, b) if a and b else None
        if q['kind'] == 'ConditionalOperator':
            cc, a, b = ekids(q)
            a, b = self.bvint(a), self.bvint(b)
            return '(if %s then %s else %s)' % (self.ex(cc), a, b) if a and b else None
        if q['kind'] == 'CallExpr':
            nm = strip(ekids(q)[0])
            while nm['kind'] in CASTS:
                nm = ekids(nm)[0]
            nm = nm.get('referencedDecl', {}).get('name')
            a = ekids(q)[1]
            while a['kind'] in CASTS or a['kind'] in PASS:      # long <-> unsigned long
                a = ekids(a)[0]
            f = {'__builtin_clzll': 'clz64', '__builtin_clzl': 'clz64', '__builtin_ffsll': 'ffs64', '__builtin_ffsl': 'ffs64'}.get(nm)
            if f and strip_ref(nty(a)) in (self.u.bv or ()):
                self.u.builtin.add(nm)
                return '(%s %s)' % (f, self.ex(a))
        return None

    def ex(self, n):
        k = n['kind']
        if self.u.bv:
            r = self.bvex(n)
            if r is not None:
                return r
        if k in PASS:
            c = [x for x in ekids(n) if not x['kind'].endswith('Decl')]
            if not c:
                if k == 'CXXDefaultArgExpr':
                    self.err('default argument without expression', n)
                self.err('empty ' + k, n)
            return self.ex(c[-1] if k == 'SubstNonTypeTemplateParmExpr' else c[0])
        if k in CASTS:
            ck = n.get('castKind')
            sub = ekids(n)[0]
            if ck in ('LValueToRValue', 'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay'):
                return self.ex(sub)
            if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean'):
                return self.convert(self.ex(sub), nty(sub), nty(n))
            if ck == 'ToVoid':
                return '(let _ = %s in ())' % self.ex(sub)
            self.err('cast ' + str(ck), n)
        if k == 'IntegerLiteral':
            v = int(n['value'])
            return str(v)
        if k == 'CharacterLiteral':
            return str(n['value'])
        if k == 'FloatingLiteral':
            return real_lit(n['value'])
        if k == 'CXXBoolLiteralExpr':
            return 'true' if n['value'] else 'false'
        if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
            return {'int': '0', 'real': '0.0', 'bool': 'false'}[self.u.wty(nty(n))]
        if k == 'DeclRefExpr' and n['referencedDecl'].get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.u.ast.resolve_fn(n['referencedDecl']['id'])
            if d is None or self.u.contract_for(d) is None:
                self.err('address of a function without contract', n)
            return 'fp_' + self.u.ensure(d)[0]
        if k == 'DeclRefExpr':
            return self.rd(self.lv(n))
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.rd(self.lv(n))
        if k == 'UnaryOperator':
            op = n['opcode']
            sub = ekids(n)[0]
            if op == '!':
                return '(not %s)' % paren(self.ex(sub))
            if op == '-':
                t = nty(n)
                e = self.ex(sub)
                if t in FLT:
                    return '(-. %s)' % e
                if re.fullmatch(r'\d+', e):
                    return '(-%s)' % e
                return self.wrap('(- %s)' % e, t, '-')
            if op == '+':
                return self.ex(sub)
            if op in ('++', '--'):
                return self.incdec(n, 'post' if n.get('isPostfix') else 'pre')
            if op == '*':
                return self.rd(self.lv(n))
            if op == '~':
                return '(bnot %s)' % paren(self.ex(sub))
            self.err('unary ' + op, n)
        if k == 'BinaryOperator':
            l, r = ekids(n)
            op = n['opcode']
            if op == '=':
                lv = self.lv(l)
                return '((%s); %s)' % (self.wr(lv, self.ex(r)), self.rd(lv))
            if op == ',':
                return '((%s); %s)' % (self.stmt_expr(l), self.ex(r))
            if self.u.heap and op in ('==', '!=') and self.this_vs_param(l, r):
                return 'false' if op == '==' else 'true'
            if self.ptr_type(nty(l)):
                a, o1 = self.ptr_expr(l)
                b, o2 = self.ptr_expr(r)
                if a != b:
                    self.err('comparison of pointers into different objects', n)
                return '(%s %s %s)' % (o1, self.CMP.get(op, op), o2)
            if contains(l, is_mutop) or contains(r, is_mutop):
                if op in ('&&', '||'):
                    return '(%s %s %s)' % (self.ex(l), op, self.ex(r))
                v1, v2 = self.tmp(), self.tmp()
                return '(let %s = %s in let %s = %s in %s)' % (v1, self.ex(l), v2, self.ex(r), self.binop(op, v1, v2, nty(n), nty(l), nty(r)))
            return self.binop(op, self.ex(l), self.ex(r), nty(n), nty(l), nty(r))
        if k == 'CompoundAssignOperator':
            return '((%s); %s)' % (self.compound(n), self.rd(self.lv(ekids(n)[0])))
        if k == 'ConditionalOperator':
            c, a, b = ekids(n)
            return '(if %s then %s else %s)' % (self.ex(c), self.ex(a), self.ex(b))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.call(n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(n)
        if k == 'CXXNewExpr' and self.u.heap:
            if not n.get('isArray') or len(ekids(n)) != 1 or self.u.wty(nty(n)[:-1].strip()) != 'real':
                self.err('new expression', n)
            return '(heap_new %s)' % paren(self.ex(ekids(n)[0]))
        if k == 'InitListExpr':
            t = nty(n)
            c = ekids(n)
            if len(c) == 1 and not self.u.is_obj(t) and not self.u.struct(t):
                return self.ex(c[0])
            if not c and not self.u.is_obj(t) and not self.u.struct(t):
                return {'int': '0', 'real': '0.0', 'bool': 'false'}[self.u.wty(t)]
            st = self.u.struct(t)
            if st:
                d = self.u.records.get(t)
                fl = self.flat_fields(d)
                return '{ %s }' % '; '.join('%s = %s' % (st.fields[f], self.ex(e)) for f, e in zip(fl, c))
            self.err('initialiser list of ' + t, n)
        if k == 'CXXThisExpr':
            return self.rd(self.this)
        if k == 'UnaryExprOrTypeTraitExpr':
            v = self.const_int(n)
            if v is None:
                self.err('sizeof', n)
            return str(v)
        self.err('expression ' + k, n)

    def flat_fields(self, d):
        out = []
        for b in d.get('bases', []):
            bt = norm_type(b['type'])
            bd = self.u.records.get(bt)
            if bd is not None:
                out += self.flat_fields(bd)
        out += [c['name'] for c in kids(d) if c.get('kind') == 'FieldDecl']
        return out

    # ------------------------------------------------------------ construction
    def construct(self, n):
        t = strip_ref(nty(n))
        args = ekids(n)
        st = self.u.struct(t)
        if st:
            ct = canon(n.get('ctorType', {}).get('qualType', ''))
            if len(args) == 1 and strip_ref(nty(args[0])) == t:
                return self.ex(args[0])
            if not args:
                fl = self.ctor_fields(t, ct, [])
                return fl
            return self.ctor_fields(t, ct, args)
        if self.u.is_obj(t):
            return self.obj_init(n, t)
        if t.startswith('std::pair<'):
            if len(args) == 1:
                return self.ex(args[0])
            if len(args) == 2:
                return '{ p1 = %s; p2 = %s }' % (self.ex(args[0]), self.ex(args[1]))
        if len(args) == 1:
            return self.ex(args[0])
        self.err('construction of ' + t, n)

    def find_ctor(self, t, ctype, nargs):
        d = self.u.records.get(t)
        if d is None:
            return None
        best = None
        for c in kids(d):
            ctor = c
            if c.get('kind') == 'CXXConstructorDecl':
                if canon(c['type']['qualType']) == ctype:
                    return c
                ps = [p for p in kids(c) if p.get('kind') == 'ParmVarDecl']
                if ctype is None and len(ps) == nargs and not c.get('isImplicit') and not (nargs == 1 and t in nty(ps[0])):
                    best = c
        return best

    def ctor_fields(self, t, ctype, args, vals=None):
        st = self.u.struct(t)
        c = self.find_ctor(t, ctype, len(args) if vals is None else len(vals))
        if c is None:
            if not args and not vals:
                return '(any %s)' % st.why
            # aggregate initialisation with parentheses / braces
            self.err('constructor of %s not found (%s)' % (t, ctype))
        fl = self.run_ctor(c, [LVal(self.ex(a), nty(a)) for a in args] if vals is None else vals, t)
        if fl is None:
            return '(any %s)' % st.why
        return '{ %s }' % '; '.join('%s = %s' % (st.fields[f], e) for f, e in fl.items())

    def run_ctor(self, c, vals, t):
        """evaluates member initialisers; dict field -> expr"""
        c = self.u.ast.body_by_mangled.get(c.get('mangledName', ''), c)
        ps = [p for p in kids(c) if p.get('kind') == 'ParmVarDecl']
        body = [b for b in kids(c) if b.get('kind') == 'CompoundStmt']
        if body and [x for x in ekids(body[0]) if not self.spec_call(x)]:
            self.err('constructor with a body: ' + t)
        senv, sscope, sthis = self.env, self.scope, self.this
        nenv = dict(senv)
        for p, v in zip(ps, vals):
            pt = strip_ref(nty(p))
            vt = strip_ref(v.ty) if v.ty else pt
            e = self.rd(v)
            if pt in INT or pt in FLT or pt == 'bool':
                e = self.convert(e, vt, pt)
            nenv[p['id']] = LVal(e, pt)
        inits = [x for x in kids(c) if x.get('kind') == 'CXXCtorInitializer']
        if not inits and not body:
            return None
        out = {}
        self.env = nenv
        try:
            for i in inits:
                if 'anyInit' in i:
                    f = i['anyInit']['name']
                    ie = ekids(i)[0]
                    out[f] = self.ex(ie)
                elif 'baseInit' in i:
                    bt = norm_type(i['baseInit'])
                    ce = strip(ekids(i)[0])
                    bc = self.find_ctor(bt, canon(ce.get('ctorType', {}).get('qualType', '')), len(ekids(ce)))
                    if bc is None:
                        self.err('base constructor of ' + t)
                    sub = self.run_ctor(bc, [LVal(self.ex(a), nty(a)) for a in ekids(ce)], bt)
                    if sub:
                        out.update(sub)
        finally:
            self.env, self.scope, self.this = senv, sscope, sthis
        d = self.u.records.get(t)
        for f in self.flat_fields(d):
            if f not in out:
                ft = [nty(x) for x in self.all_fields(d) if x['name'] == f][0]
                out[f] = '(any %s)' % self.u.wty(ft)
        return out

    def all_fields(self, d):
        out = []
        for b in d.get('bases', []):
            bd = self.u.records.get(norm_type(b['type']))
            if bd is not None:
                out += self.all_fields(bd)
        return out + [c for c in kids(d) if c.get('kind') == 'FieldDecl']

    def obj_init(self, n, t, decl=None):
        """expression creating an object of class t"""
        u = self.u
        w = u.wty(t)
        if n is None:
            s = None
            args = []
        else:
            s = strip(n)
            args = ekids(s) if s['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') else None
        if u.io and w == 'stream':
            if s is None or not args:
                return '(st_new ())'
            args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
            if len(args) == 2 and re.match(r'^std::(basic_)?ifstream', t) and self.openmode(args[1], None) == {'in', 'binary'}:
                return '(st_open_r %s)' % paren(self.ex(args[0]))
            self.err('opening of a stream', s)
        if w == 'uptr':
            if s is None or args == []:
                return '(uptr_null ())'
            self.err('initialiser of a unique_ptr', s)
        if w.endswith('.pq'):
            if args == [] or s is None:
                return '%s.pq_new ()' % w[:-3]
        if w.startswith('(lst') and (s is None or args == []):
            return '(lst_new () : %s)' % w
        if w.startswith('(umap') and (s is None or args == []):
            return '(umap_new () : %s)' % w
        if w.startswith('(queue') and (s is None or args == []):
            return '(queue_new () : %s)' % w
        if w.startswith('(stack') and (s is None or args == []):
            return '(stack_new () : %s)' % w
        if w.startswith('(vec'):
            m = re.fullmatch(r'std::array<(.*),\s*(\d+)(?:UL)?>', t) or re.fullmatch(r'(.*)\[(\d+)\]', t)
            if m:
                if s is None or (args == []):
                    return '(vec_uninit %s : %s)' % (m.group(2), w)
                il = s
                while il['kind'] != 'InitListExpr' or any(contains(c, lambda q: q.get('kind') == 'InitListExpr') for c in ekids(il)):
                    nx = [c for c in ekids(il) if contains(c, lambda q: q.get('kind') == 'InitListExpr')]
                    if not nx:
                        self.err('array initialiser', s)
                    il = nx[0]
                vals = [self.ex(x) for x in ekids(il) if x['kind'] != 'ArrayFiller']
                z = {'int': '0', 'real': '0.0', 'bool': 'false'}[u.wty(m.group(1))]
                r = '(let av_ : %s = vec_make %s %s in ' % (w, m.group(2), z)
                for i, e in enumerate(vals):
                    r += 'vset av_ %d %s; ' % (i, paren(e))
                return r + 'av_)'
            ety = targs(t)[0]
            if s is None or args == []:
                return '(vec_empty () : %s)' % w
            if args is not None:
                a = [x for x in args if not (x['kind'] == 'CXXDefaultArgExpr' and 'allocator' in nty(x))]
                a = [x for x in a if 'allocator' not in nty(x)]
                if len(a) == 1 and strip_ref(nty(a[0])) in INT:
                    z = {'int': '0', 'real': '0.0', 'bool': 'false'}.get(u.wty(ety))
                    if z is None:
                        z = '(any %s)' % u.wty(ety)
                    return '(vec_make %s %s : %s)' % (paren(self.ex(a[0])), z, w)
                if len(a) == 2 and strip_ref(nty(a[0])) in INT:
                    return '(vec_make %s %s : %s)' % (paren(self.ex(a[0])), paren(self.ex(a[1])), w)
                if len(a) == 2 and nty(a[0]).endswith('*'):
                    b1, o1 = self.ptr_expr(a[0])
                    b2, o2 = self.ptr_expr(a[1])
                    if b1 != b2:
                        self.err('range of two objects', s)
                    return '(vec_range %s %s %s)' % (b1, paren(o1), paren(o2))
                if len(a) == 1 and strip_ref(nty(a[0])) == t:
                    mv = self.is_move(a[0])
                    o = self.lvo(ekids(strip(a[0]))[1] if mv else a[0])
                    if isinstance(o, LObj):
                        return '(%s %s)' % ('vec_move' if mv else 'vec_copy', o.path)
                    return self.rd(o)
        c = u.cls(t)
        if s is not None and args is not None:
            if len(args) == 1 and strip_ref(nty(args[0])) == t:
                a0 = strip(args[0])
                if a0['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CallExpr', 'CXXMemberCallExpr') and a0.get('valueCategory') == 'prvalue':
                    return self.obj_init(a0, t)
                o = self.lvo(args[0])
                if isinstance(o, LObj) and not (self.u.heap and c):
                    if w.startswith('(a2d'):
                        return '(a2d_copy %s)' % o.path
                    self.err('copy of object of class ' + t, s)
                if not (self.u.heap and c):
                    return self.rd(o)
            if c:
                ct = canon(s.get('ctorType', {}).get('qualType', ''))
                return self.ctor_call(t, ct, args, s)
        if s is None and c:
            return self.ctor_call(t, 'void()', [], decl)
        if s is not None and s['kind'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.call(s)
        if s is not None and s['kind'] == 'DeclRefExpr':
            o = self.lv(s)
            if isinstance(o, LObj) and w.startswith('(vec'):
                return '(vec_copy %s)' % o.path
            if isinstance(o, LObj) and w.startswith('(a2d'):
                return '(a2d_copy %s)' % o.path
        self.err('initialisation of object of type %s from %s' % (t, s['kind'] if s else None), s)

    def is_move(self, n):
        s = strip(n)
        if s['kind'] == 'CallExpr':
            return strip(ekids(s)[0]).get('referencedDecl', {}).get('name') == 'move'
        return False

    def ctor_call(self, t, ctype, args, n):
        """constructor of an object class: through contract"""
        d = self.u.records.get(t)
        cands = []

        def scan(dd):
            for c in kids(dd):
                if c.get('kind') == 'CXXConstructorDecl':
                    cands.append(c)
                elif c.get('kind') == 'FunctionTemplateDecl':
                    scan(c)
        if d is not None:
            scan(d)
        cands.sort(key=lambda c: c.get('mangledName', '') not in self.u.ast.body_by_mangled)
        for c in cands:
            if re.sub(r'noexcept$', '', canon(c['type']['qualType'])) == re.sub(r'noexcept$', '', ctype):
                dd = self.u.ast.body_by_mangled.get(c.get('mangledName', ''), c)
                ct = self.u.contract_for(dd)
                if ct:
                    name, _ = self.u.ensure(dd)
                    return self.apply(dd, ct, name, None, args, n)
        self.err('constructor of %s with type %s has no contract' % (t, ctype), n)

    def ctor_object(self, d, body):
        """body of a contracted constructor of an object class: allocate with default member initialisers, run initialisers, body"""
        owner = d['_owner']
        t = canon(owner['_qual'])
        u = self.u
        c = u.cls(t)
        w = u.wty(t)
        nm = self.fresh('this_')
        self.this = LObj(nm, t)
        pre = ''
        inits = {i['anyInit']['name']: i for i in kids(d) if i.get('kind') == 'CXXCtorInitializer' and 'anyInit' in i}
        deleg = [i for i in kids(d) if i.get('kind') == 'CXXCtorInitializer' and 'anyInit' not in i]
        fields = {f['name']: f for f in kids(owner) if f.get('kind') == 'FieldDecl'}
        recs = []
        for f, wf in c.fields.items():
            if wf is None:
                continue
            fd = fields.get(f)
            if fd is None:
                self.err('class %s has no field %s' % (t, f))
            ft = nty(fd)
            if f in inits:
                e = ekids(inits[f])[0]
                if e['kind'] == 'CXXDefaultInitExpr' and not ekids(e):
                    e = ekids(fd)[-1]
                val = self.obj_init(e, ft) if u.is_obj(ft) else self.ex(e)
            else:
                de = [x for x in ekids(fd) if not x['kind'].endswith('Comment')]
                if de:
                    val = self.obj_init(de[-1], ft) if u.is_obj(ft) else self.ex(de[-1])
                elif u.is_obj(ft):
                    val = self.obj_init(None, ft)
                else:
                    val = '(any %s)' % u.wty(ft)
            recs.append('%s = %s' % (wf, val))
        recs += ['%s = %s' % x for x in c.ghost.items()]
        self.retstack.append({'exn': None, 'rt': 'void', 'void': True})
        b = self.stmts(ekids(body), 'none')
        self.retstack.pop()
        return 'let %s : %s = { %s } in\n(%s);\n%s' % (nm, w, '; '.join(recs), b, nm)

    # ------------------------------------------------------------ calls
    def call(self, n, stmt=False):
        k = n['kind']
        cs = ekids(n)
        u = self.u
        if k == 'CXXOperatorCallExpr':
            cal = strip(cs[0])
            nm = cal.get('referencedDecl', {}).get('name', '')
            did = cal.get('referencedDecl', {}).get('id')
            if nm == 'operator()':
                s1 = strip(cs[1])
                if s1['kind'] == 'DeclRefExpr' and isinstance(self.env.get(s1['referencedDecl']['id']), LLam):
                    return self.call_lambda(self.env[s1['referencedDecl']['id']], cs[2:], n, did)
            if nm in ('operator[]',):
                try:
                    return self.rd(self.lv(n))
                except NotLV:
                    pass
            if nm in ('operator=',):
                t = nty(cs[1])
                return '((%s); %s)' % (self.wr(self.lv(cs[1]), self.ex(cs[2])), self.rd(self.lv(cs[1])))
            d = u.ast.resolve_fn(did)
            if d is not None:
                if d['kind'] == 'CXXMethodDecl':
                    if self.ret_type(d).endswith('&'):
                        try:
                            return self.rd(self.lv(n))
                        except NotLV:
                            pass
                    return self.method(d, self.lvo(cs[1]), cs[2:], n, stmt)
                return self.func(d, cs[1:], n, stmt)
            # builtin operators on std types
            return self.std_operator(nm, cs[1:], n)
        if k == 'CXXMemberCallExpr':
            me = strip(cs[0])
            if me['kind'] != 'MemberExpr':
                self.err('member call through ' + me['kind'], n)
            d = u.ast.resolve_fn(me.get('referencedMemberDecl'))
            obj = self.lvo(ekids(me)[0])
            if isinstance(obj, LDrop):
                return '()'
            if d is not None:
                if self.ret_type(d).endswith('&'):
                    try:
                        return self.rd(self.lv(n))
                    except NotLV:
                        pass
                return self.method(d, obj, cs[1:], n, stmt)
            return self.std_method(obj, me['name'], cs[1:], n, stmt, ekids(me)[0])
        # CallExpr
        cal = strip(cs[0])
        rd = cal.get('referencedDecl')
        if rd is None:
            if cal['kind'] == 'MemberExpr':
                d = u.ast.resolve_fn(cal.get('referencedMemberDecl'))
                if d is not None:
                    return self.func(d, cs[1:], n, stmt)
            self.err('indirect call', n)
        d = u.ast.resolve_fn(rd['id'])
        if d is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return self.func(d, cs[1:], n, stmt)
        if rd['kind'] == 'ParmVarDecl' and re.search(r'\(\*\)\s*\(', rd['type']['qualType'] + rd['type'].get('desugaredQualType', '')) or rd['kind'] == 'ParmVarDecl' and re.search(r'\(\*\)\s*\(', nty(cal)):
            a = []
            for x in cs[1:]:
                try:
                    o = self.lvo(x)
                    a.append(o.path if isinstance(o, LObj) else paren(self.ex(x)))
                except NotLV:
                    a.append(paren(self.ex(x)))
            return '(fp_call %s %s)' % (paren(self.ex(cal)), ' '.join(a))
        return self.std_func(rd, cs[1:], n, stmt, cal)

    def default_args(self, d, args):
        """arguments left to their defaults: the expression comes from the parameter's declaration"""
        out = []
        ps = [p for p in kids(d) if p.get('kind') == 'ParmVarDecl']
        for p, a in zip(ps, args):
            if a.get('kind') == 'CXXDefaultArgExpr' and not ekids(a):
                init = [c for c in ekids(p)]
                if init:
                    a = init[0]
                else:
                    f, b, e = p.get('_src', (None, 0, 0))
                    txt = open(f, 'rb').read()[b:e].decode() if f else ''
                    txt = txt.split('=', 1)[1].strip() if '=' in txt else None
                    if txt is None:
                        self.err('default argument without expression', a)
                    if re.fullmatch(r'-?\d+', txt):
                        a = {'kind': 'IntegerLiteral', 'value': txt, 'type': {'qualType': 'int'}}
                    elif re.fullmatch(r'\w+\(\)', txt):
                        a = {'kind': 'CXXScalarValueInitExpr', 'type': {'qualType': strip_ref(nty(p))}}
                    else:
                        self.err('default argument ' + txt, a)
            out.append(a)
        return out + list(args[len(ps):])

    def apply(self, d, c, name, obj, args, n):
        """call of a contracted function"""
        args = self.default_args(d, args)
        u = self.u
        if u.div.get(name):
            self.diverges = True
        ps = [p for p in kids(d) if p.get('kind') == 'ParmVarDecl']
        out = []
        if obj is not None:
            out.append(self.rd(obj))
        post = []
        pre = ''
        for p, a in zip(ps, args):
            t = nty(p)
            q = p['type']['qualType']
            if self.dropt(strip_ref(t)):
                continue
            byref = q.rstrip().endswith('&') and not q.startswith('const')
            if u.is_obj(t):
                if self.is_move(a) and q.rstrip().endswith('&&'):
                    a = ekids(strip(a))[1]
                try:
                    lv = self.lv(a)
                except NotLV:
                    lv = None
                if lv is None:
                    v = self.tmp()
                    pre += 'let %s = %s in ' % (v, self.obj_init(a, strip_ref(t)))
                    out.append(v)
                elif q.rstrip().endswith('&') or True:
                    out.append(self.rd(lv))
            elif byref and not q.rstrip().endswith('&&'):
                lv = self.lv(a)
                if isinstance(lv, LVar):
                    out.append('&' + lv.name)
                else:
                    v = self.tmp()
                    pre += 'let ref %s = %s in ' % (v, self.rd(lv))
                    out.append('&' + v)
                    post.append(self.wr(lv, v))
            else:
                if contains(a, is_mutop) or len(args) > 1 and contains(a, lambda q: q.get('kind') in ('CallExpr', 'CXXMemberCallExpr') and not self.pure_call(q)):
                    v = self.tmp()
                    pre += 'let %s = %s in ' % (v, self.ex(a))
                    out.append(v)
                else:
                    out.append(paren(self.ex(a)))
        call = '%s %s' % (name, ' '.join(out) or '()')
        if post:
            rt = self.ret_type(d)
            if rt == 'void':
                return '(%s(%s); %s)' % (pre, call, '; '.join(post))
            v = self.tmp()
            return '(%slet %s = %s in %s; %s)' % (pre, v, call, '; '.join(post), v)
        return '(%s%s)' % (pre, call)

    def pure_call(self, q):
        try:
            cal = strip(ekids(q)[0])
            did = cal.get('referencedMemberDecl') or cal.get('referencedDecl', {}).get('id')
            d = self.u.ast.resolve_fn(did)
            if d is None:
                return True
            return ' const' in d['type']['qualType'].rsplit(')', 1)[-1] or d['kind'] == 'FunctionDecl' and False
        except Exception:
            return False

    def method(self, d, obj, args, n, stmt):
        if isinstance(obj, LObj) and obj.ty.startswith('ManagedVector<') and not self.u.heap:
            nm = d['name']
            self.u.builtin.add('ManagedVector::' + nm)
            if nm == 'resize':
                return 'mvec_resize %s %s' % (obj.path, paren(self.ex(args[0])))
            if nm == 'owned':
                return '(any bool)'
            if nm in ('size', 'empty', 'operator[]'):
                return self.std_method(obj, nm, args, n, stmt, None)
            self.err('ManagedVector::%s' % nm, n)
        c = self.u.contract_for(d)
        if c is not None:
            name, c = self.u.ensure(d)
            return self.apply(d, c, name, obj, args, n)
        if isinstance(obj, LObj) and re.match(r'GridCellZk_(low|high)_pq<', obj.ty):
            # the stable queues seen as priority queues on the elevation (the order among equals is the subject of P04)
            self.u.builtin.add(re.sub('<.*', '', obj.ty) + '::' + d['name'])
            return self.std_method(obj, d['name'], args, n, stmt, None)
        return self.inline(d, obj, args, n)

    def func(self, d, args, n, stmt):
        c = self.u.contract_for(d)
        if c is not None:
            name, c = self.u.ensure(d)
            obj = None
            return self.apply(d, c, name, obj, args, n)
        return self.inline(d, None, args, n)

    def inline(self, d, obj, args, n):
        body = [b for b in kids(d) if b.get('kind') == 'CompoundStmt']
        if not body:
            if d['kind'] == 'CXXMethodDecl' and d.get('isImplicit') or d.get('explicitlyDefaulted'):
                self.err('defaulted function ' + d['_qual'], n)
            self.err('no body and no contract for ' + d['_qual'], n)
        if self.inline_depth > 12:
            self.err('inlining too deep (recursion?) at ' + d['_qual'], n)
        self.u.inlined.add(d['_qual'])
        args = self.default_args(d, args)
        F = self
        ps = [p for p in kids(d) if p.get('kind') == 'ParmVarDecl']
        F.prep_mut(body[0])
        pre = ''
        nenv = dict(self.env)
        nscope = {}
        for i, p in enumerate(ps):
            if i >= len(args):
                self.err('missing argument', n)
            a = args[i]
            t = nty(p)
            q = p['type']['qualType']
            if p.get('name'):
                nscope[p['name']] = p['id']
            if self.dropt(strip_ref(t)):
                nenv[p['id']] = LDrop()
                continue
            la = strip(a)
            if la.get('kind') == 'LambdaExpr':
                nenv[p['id']] = LLam(la, None)
                continue
            if la.get('kind') == 'DeclRefExpr' and isinstance(self.env.get(la['referencedDecl']['id']), LLam):
                nenv[p['id']] = self.env[la['referencedDecl']['id']]
                continue
            isref = q.rstrip().endswith('&')
            if self.u_is_array(strip_ref(t)):
                ca = self.try_carr(a)
                if ca is not None:
                    nenv[p['id']] = ca
                    continue
            if isref or self.u.is_obj(t):
                lv = None
                try:
                    lv = self.lv(a)
                except NotLV:
                    lv = None
                if lv is not None and self.u.is_obj(t) and not isref and isinstance(lv, LObj):
                    # by-value object: copy
                    v = self.fresh(p.get('name', 'a'))
                    pre += 'let %s = %s in ' % (v, self.obj_init(a, strip_ref(t)))
                    nenv[p['id']] = LObj(v, strip_ref(t))
                    continue
                if lv is not None:
                    if isinstance(lv, LElem):
                        v = self.tmp()
                        pre += 'let %s = %s in ' % (v, lv.idx)
                        lv = LElem(lv.vec, v, lv.ty)
                    nenv[p['id']] = lv
                    continue
                if self.u.is_obj(t):
                    v = self.fresh(p.get('name', 'a'))
                    pre += 'let %s = %s in ' % (v, self.obj_init(a, strip_ref(t)))
                    nenv[p['id']] = LObj(v, strip_ref(t))
                    continue
            if self.ptr_type(t):
                b, o = self.ptr_expr(a)
                v = self.fresh(p.get('name', 'p'))
                pre += 'let ref %s = %s in ' % (v, o)
                nenv[p['id']] = LPtr(b, LVar(v, 'long', True), t)
                continue
            e = self.ex(a)
            mut = F.is_mut(p['id'])
            if not mut and re.fullmatch(r'[\w.]+', e):
                lv0 = None
                # a mutable variable captured by value must be snapshotted
                if re.fullmatch(r'\d+(\.\d+)?|true|false', e) or not self.maybe_mutable(e):
                    nenv[p['id']] = LVal(e, strip_ref(t))
                    continue
            v = self.fresh(p.get('name', 'a'))
            pre += 'let %s%s = %s in ' % ('ref ' if mut else '', v, paren(e))
            nenv[p['id']] = LVar(v, strip_ref(t), mut)
        senv, sscope, sthis = self.env, self.scope, self.this
        self.env, self.scope = nenv, nscope
        self.this = obj if obj is not None else None
        self.inline_depth += 1
        ls = self.loopstack
        self.loopstack = []
        rt = self.ret_type(d)
        if rt in ('auto', 'auto&', 'decltype(auto)') or self.u_depends(rt):
            rt = nty(n)
        b = self.fn_body(body[0], rt)
        self.loopstack = ls
        self.inline_depth -= 1
        self.env, self.scope, self.this = senv, sscope, sthis
        return '(%s%s)' % (pre, b)

    def u_depends(self, rt):
        try:
            if rt == 'void':
                return False
            self.u.wty(rt)
            return False
        except ExtractError:
            return True

    def maybe_mutable(self, e):
        for lv in self.env.values():
            if isinstance(lv, LVar) and lv.name == e:
                return lv.mut
        return True

    def call_lambda(self, lam, args, n, did):
        node = lam.node
        rec = [c for c in kids(node) if c.get('kind') == 'CXXRecordDecl']
        body = [c for c in kids(node) if c.get('kind') == 'CompoundStmt']
        ms = []

        def scan(x):
            for c in kids(x):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                    ms.append(c)
                elif c.get('kind') in ('FunctionTemplateDecl', 'CXXRecordDecl'):
                    scan(c)
        scan(node)
        ms = [m for m in ms if any(b.get('kind') == 'CompoundStmt' for b in kids(m))]
        pick = [m for m in ms if m['id'] == did] or ms
        if not pick:
            self.err('lambda without body', n)
        m = pick[0]
        # captures by value of mutable variables are treated like by reference only when the lambda is called in place
        sthis = self.this
        r = self.inline(m, self.this, args, n) if True else None
        return r

    # ------------------------------------------------------------ std library
    def std_operator(self, nm, args, n):
        t = strip_ref(nty(args[0]))
        if nm in ('operator==', 'operator!=') and len(args) == 2 and re.match(r'^(const )?std::vector<', t):
            r = []
            for a in args:
                try:
                    r.append(self.rd(self.lv(a)))
                except NotLV:
                    r.append(paren(self.obj_init(a, t)))
            return '(%s(vec_same %s %s))' % ('not ' if nm == 'operator!=' else '', *r)
        self.err('operator %s on %s' % (nm, t), n)

    def std_method(self, obj, nm, args, n, stmt, objnode):
        if self.u.heap and isinstance(obj, LObj) and self.u.wty(obj.ty) == 'uptr':
            args = [x for x in args if x['kind'] != 'CXXDefaultArgExpr']
            if nm == 'reset':
                return 'uptr_reset %s %s' % (obj.path, paren(self.ex(args[0])) if args else '0')
            if nm == 'release':
                return '(ignore_int (uptr_release %s))' % obj.path if stmt else '(uptr_release %s)' % obj.path
            if nm == 'get':
                return '(uptr_ptr %s)' % obj.path
            self.err('unique_ptr::' + nm, n)
        u = self.u
        if isinstance(obj, LObj) and u.cls(obj.ty) and nm == 'emplace':     # std::priority_queue as a base class
            d = u.records.get(obj.ty)
            bs = [norm_type(b['type']) for b in (d or {}).get('bases', [])]
            e = targs(bs[0])[0] if len(bs) == 1 and bs[0].startswith('std::priority_queue<') else None
            if e is None or [x.strip() for x in targs(bs[0])] != [e, 'std::vector<%s>' % e, 'std::greater<%s>' % e]:
                self.err('base class of ' + obj.ty, n)
            return 'pq_push %s.base %s' % (obj.path, paren(self.emplace(e, args)))
        if u.io and isinstance(obj, LObj) and u.wty(obj.ty) == 'stream':
            return self.io_call(obj, nm, args, n)
        if u.io and not isinstance(obj, LObj) and STR_T.match(strip_ref(getattr(obj, 'ty', ''))):
            if nm in ('size', 'length'):
                return '%s.sl' % self.rd(obj)
            if nm == 'empty':
                return '(%s.sl = 0)' % self.rd(obj)
            if nm == 'resize' and len(args) == 2:
                return self.wr(obj, 'str_resize %s %s %s' % (paren(self.rd(obj)), paren(self.ex(args[0])), paren(self.ex(args[1]))))
        if not isinstance(obj, LObj):
            self.err('std method %s on %s' % (nm, getattr(obj, 'ty', '?')), n)
        w = u.wty(obj.ty)
        p = obj.path
        if w.endswith('.pq'):
            m = w[:-3]
            ety = targs(obj.ty)[0]
            if ety not in u.pqs:
                ety = [k for k, v in u.pqs.items() if v == m][0]
            if nm in ('size',):
                return '(%s.pq_size %s)' % (m, p)
            if nm == 'empty':
                return '(%s.pq_empty %s)' % (m, p)
            if nm == 'top':
                return '(%s.pq_top %s)' % (m, p)
            if nm == 'pop':
                return '%s.pq_pop %s' % (m, p)
            if nm == 'push':
                return '%s.pq_push %s %s' % (m, p, paren(self.ex(args[0])))
            if nm == 'emplace':
                return '%s.pq_push %s (%s)' % (m, p, self.emplace(ety, args))
        if w.startswith('(lst'):
            if nm in ('begin', 'back', 'front', 'size', 'empty'):
                return '(lst_%s %s)' % (nm, p)
            if nm == 'pop_back':
                return 'lst_pop_back %s' % p
            if nm == 'push_front':
                return 'lst_push_front %s %s' % (p, paren(self.ex(args[0])))
            if nm == 'splice' and len(args) == 3:      # splice(l.begin(), l, it): move it to the front
                a = [strip(x) for x in args]
                while a[0]['kind'] in CASTS or a[0]['kind'] in ('CXXConstructExpr',) and len(ekids(a[0])) == 1:
                    a[0] = strip(ekids(a[0])[0])
                if (a[0]['kind'] == 'CXXMemberCallExpr' and strip(ekids(a[0])[0]).get('name') == 'begin' and
                        getattr(self.lvo(ekids(strip(ekids(a[0])[0]))[0]), 'path', None) == p and getattr(self.lvo(args[1]), 'path', None) == p):
                    return 'lst_splice_front %s %s' % (p, paren(self.ex(args[2])))
        if w.startswith('(umap'):
            if nm == 'erase' and stmt:
                return '(let _ = umap_erase %s %s in ())' % (p, paren(self.ex(args[0])))
            if nm in ('count', 'erase'):
                return '(umap_%s %s)' % (nm, ' '.join([p] + [paren(self.ex(x)) for x in args]))
        if w.startswith('(queue') or w.startswith('(stack'):
            ety = targs(obj.ty)[0]
            pre = 'queue' if w.startswith('(queue') else 'stack'
            if nm in ('size', 'empty', 'front', 'top', 'back'):
                return '(%s_%s %s)' % (pre, nm, p)
            if nm == 'pop':
                return '%s_pop %s' % (pre, p)
            if nm == 'push':
                return '%s_push %s %s' % (pre, p, paren(self.ex(args[0])))
            if nm == 'emplace':
                return '%s_push %s (%s)' % (pre, p, self.emplace(ety, args))
        if w.startswith('(vec'):
            if nm == 'size':
                return '(vlen %s)' % p
            if nm == 'empty':
                return '(vlen %s = 0)' % p
            if nm in ('push_back',):
                return 'vec_push %s %s' % (p, paren(self.ex(args[0])))
            if nm == 'emplace_back':
                return 'vec_push %s (%s)' % (p, self.emplace(targs(obj.ty)[0], args))
            if nm in ('at', 'operator[]'):
                return '(vget %s %s)' % (p, paren(self.ex(args[0])))
            if nm == 'back':
                return '(vget %s (%s.len - 1))' % (p, p)
            if nm == 'front':
                return '(vget %s 0)' % p
            if nm == 'pop_back':
                return 'vec_pop %s' % p
            if nm == 'clear':
                return 'vec_clear %s' % p
            if nm == 'resize':
                ety = targs(obj.ty)[0]
                if obj.ty.startswith('ManagedVector'):
                    self.err('ManagedVector::resize must have a contract', n)
                a = [x for x in args if x['kind'] != 'CXXDefaultArgExpr']
                if len(a) == 2:
                    return 'vec_resize_val %s %s %s' % (p, paren(self.ex(a[0])), paren(self.ex(a[1])))
                z = {'int': '0', 'real': '0.0', 'bool': 'false'}.get(u.wty(ety), '(any %s)' % u.wty(ety))
                return 'vec_resize_val %s %s %s' % (p, paren(self.ex(a[0])), z)
            if nm == 'fill':
                return 'vec_fill %s %s' % (p, paren(self.ex(args[0])))
            if nm in ('reserve', 'shrink_to_fit'):
                return '()'
        self.err('std method %s::%s' % (obj.ty, nm), n)

    def emplace(self, ety, args):
        st = self.u.struct(ety)
        if st:
            if len(args) == 1 and strip_ref(nty(args[0])) == ety:
                return self.ex(args[0])
            if re.match(r'GridCellZk_', ety) and len(args) == 3 and 'k' not in st.fields:
                return '{ %s }' % '; '.join('%s = %s' % (st.fields[f], self.ex(e)) for f, e in zip('xyz', args))
            vals = [LVal(self.ex(a), strip_ref(nty(a))) for a in args]
            return self.ctor_fields(ety, None, [], vals)
        if len(args) == 1:
            return self.convert(self.ex(args[0]), nty(args[0]), ety)
        self.err('emplace into container of ' + ety)

    def std_func(self, rd, args, n, stmt, cal):
        nm = rd.get('name')
        t = strip_ref(nty(n))
        u = self.u
        if nm in ('max', 'min') and len(args) == 2:
            a, b = self.ex(args[0]), self.ex(args[1])
            return '(%s%s %s %s)' % ('r' if t in FLT else 'i', nm, paren(a), paren(b))
        if nm in ('max', 'min', 'lowest', 'infinity', 'epsilon', 'quiet_NaN') and not args:
            # numeric_limits<T>::x(), T is the return type
            if t in INT:
                lo, hi = irange(t)
                return str(hi) if nm == 'max' else '(%d)' % lo if lo < 0 else str(lo)
            if t in FLT:
                if nm == 'max':
                    return 'flt_maxl'
                if nm == 'infinity':
                    return 'infl'
                if nm == 'lowest':
                    return '(-. flt_maxl)'
            self.err('numeric_limits<%s>::%s' % (t, nm), n)
        if nm in ('abs', 'fabs') and len(args) == 1:
            if t in FLT:
                return '(rabs %s)' % paren(self.ex(args[0]))
            return '(iabs %s)' % paren(self.ex(args[0]))
        FN = {'sqrt': 'c_sqrt', 'pow': 'c_pow', 'atan': 'c_atan', 'atan2': 'c_atan2', 'log': 'c_log', 'sin': 'c_sin', 'cos': 'c_cos', 'tan': 'c_tan', 'exp': 'c_exp',
              'floor': 'c_floor', 'ceil': 'c_ceil', 'fmod': 'c_fmod', 'nextafter': 'c_nextafter', 'hypot': 'c_hypot'}
        if nm in FN:
            return '(%s %s)' % (FN[nm], ' '.join(paren(self.ex(a)) for a in args))
        if nm == 'isnan' and u.ieee:
            return '(f_isnan %s)' % paren(self.ex(args[0]))
        if nm == 'isnan':
            return '(c_isnan %s)' % paren(self.ex(args[0]))
        if nm == 'swap' and len(args) == 2:
            ta = strip_ref(nty(args[0]))
            if u.is_obj(ta):
                a, b = self.lv(args[0]), self.lv(args[1])
                w = u.wty(ta)
                if w.startswith('(vec'):
                    return 'vec_swap %s %s' % (a.path, b.path)
                self.err('swap of objects', n)
            a, b = self.lv(args[0]), self.lv(args[1])
            pre = ''
            if isinstance(a, LElem):
                v = self.tmp()
                pre += 'let %s = %s in ' % (v, a.idx)
                a = LElem(a.vec, v, a.ty)
            if isinstance(b, LElem):
                v = self.tmp()
                pre += 'let %s = %s in ' % (v, b.idx)
                b = LElem(b.vec, v, b.ty)
            v = self.tmp()
            return '(%slet %s = %s in %s; %s)' % (pre, v, self.rd(a), self.wr(a, self.rd(b)), self.wr(b, v))
        if nm in ('move', 'forward', 'as_const'):
            return self.ex(args[0])
        if nm == 'uniform_rand_real':
            return '(c_rand %s)' % ' '.join(paren(self.ex(a)) for a in args)
        if nm and nm.startswith('rdv_spec_'):
            self.err('annotation in expression position', n)
        self.err('call of %s' % nm, n)

    # ------------------------------------------------------------ logic expressions (for auto invariants)
    def logic(self, n):
        s = strip(n)
        k = s['kind']
        if k in CASTS and s.get('castKind') in ('IntegralCast',):
            sub = ekids(s)[0]
            e = self.logic(sub)
            a, b = strip_ref(nty(sub)), strip_ref(nty(s))
            return self.convert(e, a, b)
        if k == 'IntegerLiteral':
            return s['value']
        if k == 'DeclRefExpr':
            lv = self.lv_ref(s)
            if isinstance(lv, (LVar, LVal, LOField)):
                if isinstance(lv, LVar) and lv.mut:
                    return lv.name
                return self.rd(lv)
        if k == 'MemberExpr':
            lv = self.lv(s)
            if isinstance(lv, LOField):
                return self.rd(lv)
        if k == 'BinaryOperator' and s['opcode'] in '+-':
            a, b = ekids(s)
            return self.wrap('(%s %s %s)' % (self.logic(a), s['opcode'], self.logic(b)), nty(s), s['opcode'])
        if k == 'BinaryOperator' and s['opcode'] == '/':
            a, b = ekids(s)
            return '(CD.div %s %s)' % (self.logic(a), self.logic(b))
        if k == 'CXXMemberCallExpr':
            me = strip(ekids(s)[0])
            d = self.u.ast.resolve_fn(me.get('referencedMemberDecl'))
            if d is not None and len(ekids(s)) == 1:
                o = self.lvo(ekids(me)[0])
                c = self.u.contract_for(d)
                if c is not None:
                    if c.logic:
                        return '(' + c.logic.replace('{this}', self.rd(o)) + ')'
                    raise ExtractError('no logic form')
                body = [b for b in kids(d) if b.get('kind') == 'CompoundStmt']
                r = self.only_return(body[0]) if body else None
                if r is not None:
                    st = self.this
                    self.this = o
                    try:
                        return self.logic(r)
                    finally:
                        self.this = st
            elif d is None:
                o = self.lvo(ekids(me)[0])
                if isinstance(o, LObj) and self.u.wty(o.ty).startswith('(vec') and me['name'] == 'size':
                    return '%s.len' % o.path
        if k == 'CallExpr':
            cal = strip(ekids(s)[0])
            d = self.u.ast.resolve_fn(cal.get('referencedDecl', {}).get('id'))
            if d is not None and len(ekids(s)) == 1:
                body = [b for b in kids(d) if b.get('kind') == 'CompoundStmt']
                r = self.only_return(body[0]) if body else None
                if r is not None:
                    return self.logic(r)
        raise ExtractError('no logic form')


class NotLV(Exception):
    pass


KNOWN_GLOBALS = {}


def paren(e):
    e = e.strip()
    if re.fullmatch(r'[\w.]+', e):
        return e
    if e.startswith('(') and e.endswith(')'):
        d = 0
        for i, ch in enumerate(e):
            if ch == '(':
                d += 1
            elif ch == ')':
                d -= 1
                if d == 0 and i < len(e) - 1:
                    break
        else:
            return e
    if e.startswith('{') and e.endswith('}'):
        return e
    return '(%s)' % e


def indent(s, n=2):
    return '\n'.join(' ' * n + l if l else l for l in s.split('\n'))
