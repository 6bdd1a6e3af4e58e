"""Loads clang's JSON AST of a translation unit and indexes its declarations."""
import json, subprocess, re, os, hashlib

REPO = os.environ.get('RDV_REPO', '/repo')
GUARD = 'RICHDEM_VERIFY'
CLANG_FLAGS = ['-std=gnu++17', '-DNDEBUG', '-D' + GUARD, '-I' + REPO + '/include', '-w',
               '-DRICHDEM_GIT_HASH="x"', '-DRICHDEM_COMPILE_TIME="x"', '-fno-exceptions' ]
CLANG_FLAGS.pop()


class ExtractError(Exception):
    pass


def run_clang(tu_path, extra=(), filt='richdem'):
    cmd = ['clang++'] + CLANG_FLAGS + list(extra) + ['-fsyntax-only', '-Xclang', '-ast-dump=json',
                                                    '-Xclang', '-ast-dump-filter=' + filt, tu_path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s:\n%s' % (tu_path, r.stderr[-3000:]))
    return r.stdout


class AST:
    def __init__(self, text):
        dec = json.JSONDecoder()
        i = 0
        self.docs = []
        n = len(text)
        while True:
            while i < n and text[i] in ' \n\r\t':
                i += 1
            if i >= n:
                break
            d, i = dec.raw_decode(text, i)
            self.docs.append(d)
        self.by_id = {}
        self.qual = {}       # id -> qualified name (class instance types included)
        self.owner = {}      # id -> owning record decl
        self.body_by_mangled = {}
        self.file = ''
        self.line = 0
        for d in self.docs:
            self._walk(d, [], None)
        self.prev = {}

    def _loc(self, l):
        if not l:
            return
        for key in ('spellingLoc', 'expansionLoc'):
            if key in l:
                self._loc1(l[key])
        if 'spellingLoc' not in l and 'expansionLoc' not in l:
            self._loc1(l)

    def _loc1(self, l):
        if 'file' in l:
            self.file = l['file']
        if 'line' in l:
            self.line = l['line']

    def _walk(self, d, path, owner):
        if not isinstance(d, dict):
            return
        k = d.get('kind', '')
        if 'loc' in d:
            self._loc(d['loc'])
            lf = (self.file, self.line)
        else:
            lf = None
        if 'range' in d:
            self._loc(d['range'].get('begin'))
            if lf is None:
                lf = (self.file, self.line)
            self._loc(d['range'].get('end'))
        d['_loc'] = lf or (self.file, self.line)
        if k == 'ParmVarDecl' and 'range' in d:
            b, e = d['range'].get('begin', {}), d['range'].get('end', {})
            if 'offset' in b and 'offset' in e:
                d['_src'] = (self.file, b['offset'], e['offset'] + e.get('tokLen', 0))
        if k == 'DeclRefExpr' and d.get('referencedDecl', {}).get('name') == 'digits' and 'range' in d:
            b, e = d['range'].get('begin', {}), d['range'].get('end', {})
            if 'offset' in b and 'offset' in e:
                d['_src'] = (self.file, b['offset'], e['offset'] + e.get('tokLen', 0))
        d.pop('range', None)
        d.pop('loc', None)
        if 'id' in d and k.endswith('Decl'):
            if not ('inner' not in d and 'inner' in self.by_id.get(d['id'], {})):
                self.by_id[d['id']] = d
            nm = d.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                args = [self.targ(c) for c in d.get('inner', []) if c.get('kind') == 'TemplateArgument']
                nm = nm + '<' + ','.join(args) + '>'
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                args = [self.targ(c) for c in d.get('inner', []) if c.get('kind') == 'TemplateArgument']
                if args:
                    nm = nm + '<' + ','.join(args) + '>'
            d['_owner'] = owner
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                path = path + ([nm] if nm and nm != 'richdem' else [])
                if k != 'NamespaceDecl':
                    owner = d
                    d['_qual'] = '::'.join(path)
            else:
                d['_qual'] = '::'.join(path + [nm])
                if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and 'mangledName' in d:
                    has_body = any(isinstance(c, dict) and c.get('kind') == 'CompoundStmt' for c in d.get('inner', []))
                    if has_body:
                        self.body_by_mangled[d['mangledName']] = d
        for c in d.get('inner', []):
            self._walk(c, path, owner)

    @staticmethod
    def targ(c):
        if 'type' in c:
            return norm_type(c['type'])
        if 'value' in c:
            return str(c['value'])
        return '?'

    def resolve_fn(self, declid):
        d = self.by_id.get(declid)
        if d is None:
            return None
        m = d.get('mangledName')
        if m and m in self.body_by_mangled:
            return self.body_by_mangled[m]
        return d

    def find_functions(self, regex):
        r = re.compile(regex)
        return [d for d in self.body_by_mangled.values() if r.fullmatch(d['_qual'])]


_ws = re.compile(r'\s+')


def norm_type(t):
    """canonical spelling of a type: desugared, no cv, no richdem::, no spaces around punctuation"""
    s = t.get('desugaredQualType', t['qualType']) if isinstance(t, dict) else t
    return canon(s)


def canon(s):
    s = s.replace('richdem::', '').replace('struct ', '').replace('class ', '')
    s = re.sub(r'\b(const|volatile|constexpr)\b', '', s)
    s = _ws.sub(' ', s).strip()
    s = re.sub(r'\s*([<>,&\*\(\)\[\]])\s*', r'\1', s)
    s = s.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
    ALI = {'int8_t': 'signed char', 'uint8_t': 'unsigned char', 'int16_t': 'short', 'uint16_t': 'unsigned short',
           'int32_t': 'int', 'uint32_t': 'unsigned int', 'int64_t': 'long', 'uint64_t': 'unsigned long',
           'size_t': 'unsigned long', 'std::size_t': 'unsigned long', 'flowdir_t': 'signed char',
           'd8_flowdir_t': 'unsigned char', 'std::uint32_t': 'unsigned int', 'std::uint64_t': 'unsigned long',
           'std::int32_t': 'int', 'xy_t': 'int', 'i_t': 'unsigned int', 'n_t': 'unsigned char'}
    s = re.sub(r'(?:typename )?Array3D<[^<>]*>::i_t\b', 'unsigned long', s)
    s = re.sub(r'(?:typename )?Array[23]D<[^<>]*>::(xy_t|i_t|n_t)\b', r'\1', s)
    for a, b in ALI.items():
        s = re.sub(r'(?<![\w:])' + re.escape(a) + r'(?!\w)', b, s)
    return s


INT = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
       'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
       'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}
FLT = {'float', 'double', 'long double'}


def irange(t):
    b, s = INT[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def strip_ref(t):
    return t.rstrip('&')
