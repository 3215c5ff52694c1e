"""Front end: runs clang on the real source of /repo and indexes its typed AST.

Nothing is rewritten: every function body that the verifier reasons about is the
clang AST of the file in /repo's working tree, obtained on this run.
"""
import json, os, re, subprocess

REPO = os.environ.get('VERIF_REPO', '/repo')
BASE_FLAGS = ['-std=c++11', '-I' + REPO + '/include', '-DHSMBUILD_DEBUGGING', '-DHSM_ENABLE_SAFE_STRUCTURE',
              '-DHSM_LOGGING_MODE_OFF', '-DPLATFORM_POSIX=1', '-Wno-everything']


class ExtractionError(Exception):
    pass


def run_clang(src, flags, flt):
    cmd = ['clang++', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt] + flags + [src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s:\n%s' % (src, p.stderr[:4000]))
    return p.stdout


def docs_of(text):
    def hook(d):
        i = d.get('inner')
        if i and any(str(c.get('kind', '')).endswith('Comment') for c in i if c):
            d['inner'] = [c for c in i if not str(c.get('kind', '')).endswith('Comment')]
        return d
    dec = json.JSONDecoder(object_hook=hook)
    i, n = 0, len(text)
    out = []
    while i < n:
        while i < n and text[i].isspace():
            i += 1
        if i >= n:
            break
        if text[i] != '{':          # "Dumping foo:" header lines
            i = text.index('\n', i) + 1
            continue
        d, i = dec.raw_decode(text, i)
        out.append(d)
    return out


class TU:
    """One translation unit."""

    def __init__(self, src, flags=None, flt='hsmcpp::', extra=None):
        self.src = src if src.startswith('/') else os.path.join(REPO, src)
        self.flags = (flags if flags is not None else BASE_FLAGS) + (extra or [])
        self.decls = {}       # id -> decl node
        self.records = {}     # record name -> definition node
        self.aliases = {}     # alias name -> qualType
        self.enums = {}       # enum constant id -> int
        self.enum_types = set()
        self.enum_consts = {} # 'Enum::NAME' -> int
        self.methods = {}     # (record, name) -> [definition nodes]
        self.functions = {}   # free functions
        self.parent_record = {}  # method decl id -> record name
        self.globals = {}     # name -> VarDecl node
        self._id2def = {}
        for d in docs_of(run_clang(self.src, self.flags, flt)):
            self._index(d, None)
        for rec_defs in list(self.methods.values()):
            pass

    def _index(self, n, rec):
        k = n.get('kind')
        if not k:
            return
        if 'id' in n:
            self.decls[n['id']] = n
        if k == 'CXXRecordDecl' or k == 'ClassTemplateSpecializationDecl':
            name = n.get('name')
            if n.get('completeDefinition') and name:
                self.records[name] = n
            for c in n.get('inner', []):
                self._index(c, name or rec)
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'FunctionDecl'):
            name = n.get('name')
            r = rec
            if r is None and n.get('previousDecl') in self.parent_record:
                r = self.parent_record[n['previousDecl']]
            if r is None and n.get('parentDeclContextId'):
                pd = self.decls.get(n['parentDeclContextId'])
                if pd is not None and pd.get('kind') == 'CXXRecordDecl':
                    r = pd.get('name')
            if r is None:
                r = self.parent_record.get(n['id'])
            self.parent_record[n['id']] = r
            n['_rec'] = r
            for c in n.get('inner', []):
                if c.get('kind') == 'ParmVarDecl':
                    self.decls[c['id']] = c
            if self.body(n) is not None:
                self.methods.setdefault((r, name), []).append(n)
                self._id2def[n['id']] = n
                p = n.get('previousDecl')
                while p:
                    self._id2def[p] = n
                    p = self.decls.get(p, {}).get('previousDecl')
            elif n.get('previousDecl') in self._id2def:
                self._id2def[n['id']] = self._id2def[n['previousDecl']]
        elif k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl'):
                    self._index(c, rec)
        elif k in ('TypeAliasDecl', 'TypedefDecl'):
            self.aliases[n['name']] = n['type'].get('qualType')
        elif k == 'EnumDecl':
            self.enum_types.add(n.get('name'))
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    lit = self._find_value(c)
                    if lit is not None:
                        v = lit
                    self.enums[c['id']] = v
                    self.enum_consts['%s::%s' % (n.get('name'), c['name'])] = v
        elif k == 'VarDecl':
            self.globals[n.get('name')] = n
        elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', []):
                self._index(c, rec)

    @staticmethod
    def _find_value(n):
        for c in n.get('inner', []):
            if c.get('kind') == 'ConstantExpr' and 'value' in c:
                return int(c['value'])
            r = TU._find_value(c)
            if r is not None:
                return r
        return None

    @staticmethod
    def body(n):
        for c in n.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    @staticmethod
    def params(n):
        return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def find(self, rec, name, nparams=None, pick=None):
        c = self.methods.get((rec, name), [])
        if nparams is not None:
            c = [x for x in c if len(self.params(x)) == nparams]
        if pick:
            c = [x for x in c if pick(x)]
        if not c:
            raise ExtractionError('%s::%s not found in %s' % (rec, name, self.src))
        return c[0]

    def definition(self, declid):
        return self._id2def.get(declid)


def strip_type(t):
    """qualType -> normalised type string without cv/ref qualifiers."""
    t = t.replace('hsmcpp::', '').replace('HierarchicalStateMachine::', '').replace('HsmEventDispatcherBase::', '')
    t = re.sub(r'\b(const|volatile|typename|struct|class|enum)\b', ' ', t)
    t = t.replace('&', ' ')
    t = re.sub(r'\s+', ' ', t).strip()
    if '<' in t:
        t = re.sub(r'\b_NonArray<(.*?>?)>(?=>|$)', r'\1', t)
        t = re.sub(r', (std::)?allocator<[\w: ]+>', '', t)
        t = re.sub(r'(?<![\w:])(list|vector|map|multimap)<', r'std::\1<', t)
        t = re.sub(r'std::vector<Variant ?>', 'VariantVector_t', t)
        t = re.sub(r'\s+>', '>', t).strip()
    return t


def parse_template(t):
    """'std::map<A, B>' -> ('std::map', ['A','B'])"""
    i = t.find('<')
    if i < 0 or not t.rstrip().endswith('>'):
        return t.strip(), []
    head, body = t[:i].strip(), t[i + 1:t.rindex('>')]
    args, depth, cur = [], 0, ''
    for ch in body:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        args.append(cur.strip())
    return head, args
