"""Verification-condition generator: symbolic execution of the clang AST, function by function.

A function with a contract is verified against it; calls to functions with a contract use the
contract only; calls to functions without one are inlined; loops are cut by invariants with the
set of assigned locations computed to a fixpoint.  Exploration is by re-execution: `branch`
consults the decision prefix of the current path, so the evaluator itself is straight-line code.
"""
import hashlib, json, mmap, os, pickle, re, signal, subprocess, sys, tempfile, time, z3
from values import *
import values as val
import select as sel
from cast import strip_type, parse_template, ExtractionError, TU


class Unsupported(Exception):
    """construct outside the verifier's subset"""


class AnnotationMismatch(Exception):
    """the loop/variable an annotation refers to is no longer there"""


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ThrowEx(Exception):
    """a C++ exception"""


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def f(self, *acc):
        return Loc(self.root, self.path + (acc,))

    def key(self):
        return (self.root, tuple((a[0], a[1] if isinstance(a[1], str) else a[1].sexpr()) for a in self.path))

    def __repr__(self):
        return 'Loc(%r,%r)' % (self.root, self.path)


class Moved:
    def __init__(self, loc):
        self.loc = loc


class Iter:
    """iterator: seq/multi -> Int position; map -> (end flag, key)."""
    __slots__ = ('loc', 'kind', 'pos', 'end', 'rev')

    def __init__(self, loc, kind, pos, end=None, rev=False):
        self.loc, self.kind, self.pos, self.end, self.rev = loc, kind, pos, end, rev


class Rec:
    """record with verifier-level fields (iterator pairs etc.)"""

    def __init__(self, fields):
        self.fields = fields


class FunVal:
    def __init__(self, h, alias):
        self.h, self.alias = h, alias


class PtrVal:
    def __init__(self, a, t):
        self.a, self.t = a, t      # t: TPtr


class PtrTo:
    """pointer to an lvalue (result of &lv, this, operator->)"""

    def __init__(self, loc):
        self.loc = loc


class Closure:
    def __init__(self, node, frame, caps):
        self.node, self.frame, self.caps = node, frame, caps


class StrVal:
    pass


class Frame:
    def __init__(self, fn, this, uid, parent=None):
        self.fn, self.this, self.uid, self.parent = fn, this, uid, parent
        self.refs = {}
        self.names = {}     # name -> declid (latest)
        self.scopes = []


def ast_text(n):
    """the part of an AST that determines the meaning (no positions, no identities)"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            out.append('{')
            for k in sorted(x):
                if k[0] == '_' or k in ('id', 'loc', 'range', 'referencedMemberDecl', 'previousDecl', 'parentDeclContextId', 'mangledName', 'isUsed', 'isReferenced') or k.endswith('Id'):
                    continue
                out.append(k + ':')
                walk(x[k])
            out.append('}')
        elif isinstance(x, list):
            for y in x:
                walk(y)
        else:
            out.append(re.sub(r'\((lambda|anonymous[^)]*?) at [^)]*\)', r'(\1)', x if isinstance(x, str) else str(x)) + ';' if not (isinstance(x, str) and x.startswith('0x')) else ';')
    walk({k: v for k, v in n.items() if not k.startswith('_')})
    return ''.join(out)


class Prog:
    def __init__(self, tus):
        self.tus = tus
        self.tu_of = {}
        self._types = None

    def types_text(self):
        if self._types is None:
            out = []
            for tu in self.tus:
                for name, r in sorted(tu.records.items()):
                    out.append(name + '=' + ','.join('%s %s' % (c.get('name'), c['type'].get('qualType')) for c in r.get('inner', [])
                                                      if c.get('kind') == 'FieldDecl'))
                out.append(str(sorted(tu.aliases.items())))
                out.append(str(sorted(tu.enum_consts.items())))
            self._types = ';'.join(out)
        return self._types

    def record(self, name):
        best = None
        for tu in self.tus:
            r = tu.records.get(name)
            if r is not None:
                return r, tu
        return None, None

    def method_defs(self, rec, name):
        out = []
        for tu in self.tus:
            for d in tu.methods.get((rec, name), []):
                d['_tu'] = tu
                out.append(d)
        return out

    def alias(self, n):
        for tu in self.tus:
            if n in tu.aliases:
                return tu.aliases[n]
        return None

    def is_enum(self, n):
        return any(n in tu.enum_types for tu in self.tus)


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = {}       # label -> [ (status, seconds, detail, backend) ]
        self.error = None    # (kind, text)
        self.paths = 0
        self.covered = 0
        self.inlined = set()
        self.hint = None
        self.used = set()
        self.assumed = set()
        self.smt_time = 0.0
        self.wall = 0.0
        self.loops = 0
        self.t_dry = 0.0

    def failed(self):
        return [l for l, xs in self.obls.items() if any(x[0] != 'discharged' for x in xs)]


OPAQUE_TYPES = {'std::string', 'std::bad_weak_ptr'}


class Engine:
    dry = False

    def __init__(self, prog, specs, timeout_ms=10000, pool=None, hint=None):
        self.pool = pool or Pool(None)
        self.feasible = {}
        self.hint = hint        # what an earlier run on the same code found out (saves time only, see `verify`)
        self.both = set()       # branch points where neither side was refuted
        self.inl_defs = {}
        self.prog, self.specs = prog, specs
        self.timeout = timeout_ms
        self.type_cache = {}

    # ------------------------------------------------------------------ types
    def ty(self, s):
        s = strip_type(s)
        if s in self.type_cache:
            return self.type_cache[s]
        t = self._ty(s)
        self.type_cache[s] = t
        return t

    def _ty(self, s):
        ov = self.specs.type_override(s)
        if ov is not None:
            return ov
        if s.endswith('*'):
            return TPtr(s[:-1].strip(), 'raw')
        if s == 'bool':
            return TBOOL
        s2 = ALIASES.get(s, s)
        if s2 == 'bool':
            return TBOOL
        if s2 in INT_RANGES:
            return TInt(s2, INT_RANGES[s2])
        if s in ('double', 'float', 'long double'):
            return TInt(s)      # opaque number
        head, args = parse_template(s)
        h = head.replace('std::', '').replace('__cxx11::', '')
        if h in ('list', 'vector', 'deque'):
            return TSeq(self.ty(args[0]), h)
        if h in ('map',):
            return TMap(self.ty(args[0]), self.ty(args[1]))
        if h in ('multimap',):
            return TMulti(self.ty(args[0]), self.ty(args[1]))
        if h == 'pair':
            return TStruct('pair', {'first': self.ty(args[0]), 'second': self.ty(args[1])})
        if h in ('shared_ptr', '__shared_ptr', '__shared_ptr_access', 'unique_ptr'):
            return TPtr(strip_type(args[0]), 'shared')
        if h in ('weak_ptr', '__weak_ptr'):
            return TPtr(strip_type(args[0]), 'weak')
        if h == 'function':
            return TFun(s)
        if h == 'atomic':
            return self.ty(args[0])
        al = self.prog.alias(s)
        if al is None and '::' in s:
            al = self.prog.alias(s.split('::')[-1])
        if al is not None:
            t = self.ty(al)
            if isinstance(t, TFun):
                return TFun(s.split('::')[-1])
            return t
        last = s.split('::')[-1]
        if self.prog.is_enum(last):
            return TInt(last, (0, 63))
        r, tu = self.prog.record(last)
        if r is not None:
            fields = {}
            for b in r.get('bases', []):
                bt = strip_type(b['type']['qualType'])
                br, _ = self.prog.record(bt.split('::')[-1])
                if br is not None:
                    fields.update(self.ty(bt).fields)
            st = TStruct(last, fields)
            self.type_cache[s] = st
            for c in r.get('inner', []):
                if c.get('kind') == 'FieldDecl' and c.get('name'):
                    try:
                        fields[c['name']] = self.ty(c['type']['qualType'])
                        shape(fields[c['name']])
                    except (Unsupported, NotImplementedError, RecursionError):
                        fields[c['name']] = TInt('opaque')   # never interpreted
            return st
        raise Unsupported('type ' + s)

    # ------------------------------------------------------------------ verify
    def verify(self, key):
        """verify the function registered under `key` in the specs; returns Result"""
        spec = self.specs.contracts[key]
        res = Result(key)
        self.res = res
        self.havoc = {}
        self.cur_key = key
        t0 = time.time()
        try:
            fn = self.specs.lookup(self.prog, key)
            loops = self.static_loops(fn, key)
            res.loops = len(loops)
            self.loop_ord = {id(n): i for i, (n, _) in enumerate(loops)}
            # first without proving, until the sets of locations changed by the loops are stable
            # (`hint`: start from the sets of an earlier run; too large a set loses precision, not soundness; a branch
            # point in hint['both'] is explored on both sides without asking the solver whether it needs to be)
            h = self.hint
            if h is not None and h.get('sig') == self.signature(fn, h):
                self.same_code = True
                self.hint_both = set(h['both'])
                names = {v: k for k, v in self.node_names(fn, h['inl']).items()}
                for o, hv in h['havoc'].items():
                    d = self.havoc.setdefault((key, int(o)), {'__first__': True})
                    for root, parts in hv:
                        d[tuple(re.sub(r'@[\d.]+@', lambda m: names[m.group(0)], x) if isinstance(x, str) else x for x in root)] = None if parts is None else set(parts)
            self.dry = not self.same_code
            for _ in range(30 if self.dry else 0):
                try:
                    self._explore(fn, spec)
                    break
                except Restart:
                    continue
            else:
                if self.dry:
                    raise Unsupported('havoc sets did not stabilise')
            res.t_dry = time.time() - t0
            self.dry = False
            for _ in range(30):
                res.obls.clear()
                self.pool.restart()
                res.covered = res.paths = 0
                try:
                    self._explore(fn, spec)
                    break
                except Restart:
                    continue
            else:
                raise Unsupported('havoc sets did not stabilise')
            self.pool.finish(res)
            res.hint = self.make_hint(fn)
            if len(loops) < len(spec.loops) and spec.loops:
                raise AnnotationMismatch('%d loops annotated, %d found' % (len(spec.loops), len(loops)))
            if res.covered == 0:
                res.obls.setdefault('cover', []).append(('failed', 0, 'no feasible path reaches the end of the function', '-'))
        except Unsupported as e:
            res.error = ('unsupported', str(e))
        except AnnotationMismatch as e:
            res.error = ('annotation', str(e))
        except ExtractionError as e:
            res.error = ('extraction', str(e))
        finally:
            res.wall = time.time() - t0 + self.pool.children_s
            self.pool.restart()
        return res

    same_code = False
    hint_both = frozenset()

    def make_hint(self, fn):
        hv = {}
        inl = sorted([r, n, i] for r, n, i in self.inl_defs)
        names = self.node_names(fn, inl)
        canon = lambda x: re.sub(r'0x[0-9a-f]+', lambda m: names.get(m.group(0), m.group(0)), x) if isinstance(x, str) else x
        for (k, o), d in self.havoc.items():
            hv[str(o)] = sorted([[[canon(x) for x in r], None if p is None else sorted(p)] for r, p in d.items() if r != '__first__'], key=str)
        h = {'havoc': hv, 'both': sorted(self.both), 'inl': inl}
        h['sig'] = self.signature(fn, h)
        try:
            json.dumps(h)
        except TypeError:
            return None
        return h

    def node_names(self, fn, inl):
        """clang's node ids -> names that do not depend on the run"""
        out = {}

        def walk(x, p):
            if isinstance(x, dict):
                if 'id' in x and x['id'] not in out:
                    out[x['id']] = '@%s.%d@' % (p, len(out))
                for k in sorted(x):
                    if k[0] != '_' and isinstance(x[k], (dict, list)):
                        walk(x[k], p)
            elif isinstance(x, list):
                for y in x:
                    walk(y, p)
        walk(fn, 0)
        for j, (r, n, i) in enumerate(inl):
            ds = self.prog.method_defs(r, n)
            if i < len(ds):
                walk(ds[i], j + 1)
        return out

    def signature(self, fn, h):
        """identifies the code of the function, of what was inlined into it and of the types"""
        m = hashlib.sha1()
        m.update(ast_text(fn).encode())
        for r, n, i in h['inl']:
            ds = self.prog.method_defs(r, n)
            m.update((ast_text(ds[i]) if i < len(ds) else 'gone').encode())
        m.update(self.prog.types_text().encode())
        return m.hexdigest()

    def static_loops(self, fn, key, depth=0, seen=()):
        out = []

        def walk(n):
            if not isinstance(n, dict):
                return
            k = n.get('kind')
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                out.append((n, key))
            if k in ('CXXMemberCallExpr', 'CallExpr'):
                d = self._static_callee(n, fn['_tu'])
                for c in n.get('inner', []):
                    walk(c)
                if d is not None and depth < 4 and d['id'] not in seen:
                    if self.specs.contract_for(d['_rec'], d['name'], len(TU.params(d))) is None:
                        out.extend(self.static_loops(d, key, depth + 1, seen + (d['id'],)))
                return
            for c in n.get('inner', []):
                walk(c)

        b = TU.body(fn)
        walk(b)
        return out

    def _static_callee(self, n, tu):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c.get('kind') == 'MemberExpr':
            did = c.get('referencedMemberDecl')
        elif c.get('kind') == 'DeclRefExpr':
            did = c.get('referencedDecl', {}).get('id')
        else:
            return None
        return self.resolve_def(did, tu)

    def resolve_def(self, did, tu):
        d = tu.definition(did)
        if d is not None:
            d['_tu'] = tu
            return d
        decl = tu.decls.get(did)
        if decl is None:
            return None
        rec = tu.parent_record.get(did)
        n = len(TU.params(decl))
        for x in self.prog.method_defs(rec, decl.get('name')):
            if len(TU.params(x)) == n and x['type']['qualType'] == decl['type']['qualType']:
                return x
        return None

    def _explore(self, fn, spec):
        todo = [()]
        self.res.paths = 0
        while todo:
            self.prefix = todo.pop()
            self.todo = todo
            self.res.paths += 1
            if self.res.paths > 3000:
                raise Unsupported('too many paths')
            try:
                self._run(fn, spec)
            except PathEnd:
                pass

    def _run(self, fn, spec):
        reset_names()
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 250)
        self.solver.set('auto_config', False)
        self.solver.set('smt.mbqi', False)
        self.pc = []
        self.store, self.rtype = {}, {}
        self.ptrkeys = {}
        self.closures = {}
        self.frames = []
        self.uid = 0
        self.pure = 0
        self.callback_depth = 0
        for ax in cast_axioms() + list(self.specs.axioms(self)):
            self.assume(ax)
        # this object and ghost state
        rec = fn.get('_rec')
        this = None
        if rec is not None and fn.get('storageClass') != 'static':
            self.new_root(('this',), self.ty(rec))
            this = Loc(('this',))
        for g, t in self.specs.ghosts(self).items():
            self.new_root(('ghost', g), t)
        fr = Frame(fn, this, self.next_uid())
        self.frames.append(fr)
        self.args = {}
        self.param_refs = []
        for i, p in enumerate(TU.params(fn)):
            if self.specs.aliased and this is not None and fn.get('kind') != 'CXXConstructorDecl' and '&' in p['type']['qualType'] \
                    and repr(self.ty(p['type']['qualType'])) == repr(self.rtype[('this',)]) and self.choose('the argument is the object itself'):
                nm = p.get('name', '_p%d' % i)
                fr.names[nm] = p['id']
                fr.refs[p['id']] = this
                self.args[nm] = self.args[i] = ('this',)
                continue
            self.bind_fresh_param(fr, p, i)
        if fn.get('kind') == 'CXXConstructorDecl' and self.specs.member_defaults:
            t = self.rtype[('this',)]
            self.store[('this',)] = V(t, self.default_tree(t))
        self.pre = Snap(self, dict(self.store), fr)
        for h in self.specs.heaps:
            self.ensure_heap(h)
        ctx = Ctx(self, spec, self.pre, self.pre, self.args, None)
        for lab, f in self.specs.invariant(ctx) if spec.use_inv else []:
            self.assume(f)
        for lab, f in spec.requires(ctx):
            self.assume(f)
        if spec.entry is not None:
            spec.entry(self, ctx)
        ret = None
        self.exec_ctor_inits(fn, this)
        try:
            self.exec(TU.body(fn))
        except ReturnEx as e:
            ret = e.v
        except ThrowEx:
            self.oblige('safe:no-exception-escapes', z3.BoolVal(False))
            raise PathEnd()
        if not self.is_replay() or True:
            self.solver.set('timeout', 250 if self.res.covered or self.same_code else 2000)
            if self.solver.check() != z3.unsat:
                self.res.covered += 1
            else:
                return
        if spec.exit is not None:
            spec.exit(self, Ctx(self, spec, self.pre, Snap(self, self.store, fr), self.args, ret))
        post = Snap(self, self.store, fr)
        rt = fn['type']['qualType'].split('(')[0].strip()
        if ret is not None and isinstance(ret, Loc) and '&' not in rt:
            ret = self.rv(ret)
        ctx = Ctx(self, spec, self.pre, post, self.args, ret)
        if spec.use_inv:
            for lab, f in self.specs.invariant(ctx):
                self.oblige('inv:' + lab, f)
        for lab, f in spec.ensures(ctx):
            self.oblige('post:' + lab, f)
        # frame
        mods = spec.modifies
        thisv0, thisv1 = self.pre.store.get(('this',)), self.store.get(('this',))
        if thisv0 is not None:
            for f in thisv0.t.fields:
                if f in mods or f in self.specs.unframed:
                    continue
                a, b = thisv0.tree[f], thisv1.tree[f]
                if not t_same(a, b):
                    self.oblige('frame:' + f, z3.And([x == y for x, y in zip(t_leaves(a), t_leaves(b))]))
        for g in self.specs.ghosts(self):
            if ('ghost:' + g) in mods:
                continue
            a, b = self.pre.store[('ghost', g)].tree, self.store[('ghost', g)].tree
            if not t_same(a, b):
                self.oblige('frame:ghost:' + g, z3.And([x == y for x, y in zip(t_leaves(a), t_leaves(b))]))
        for root, v0 in list(self.pre.store.items()):
            if root[0] == 'heap' and ('heap:' + root[1]) not in mods and not t_same(v0.tree, self.store[root].tree):
                q = z3.Int(fresh_name('hq'))
                lim = self.pre.store[('ghost', 'alloc')].tree if ('ghost', 'alloc') in self.pre.store and root[1] != 'Mutex' else None
                for a, b in zip(t_leaves(self.store[root].tree), t_leaves(v0.tree)):
                    self.oblige('frame:heap:' + root[1], forall([q], z3.Implies(q < lim, z3.Select(a, q) == z3.Select(b, q)) if lim is not None
                                                                else z3.Select(a, q) == z3.Select(b, q), patterns=[z3.Select(a, q)]))
        for nm, loc, i in self.param_refs:
            if nm in mods or ('#%d' % i) in mods:
                continue
            a, b = self.pre.store[loc.root].tree, self.store[loc.root].tree
            if not t_same(a, b):
                self.oblige('frame:arg:' + nm, z3.And([x == y for x, y in zip(t_leaves(a), t_leaves(b))]))

    def bind_fresh_param(self, fr, p, i):
        qt = p['type']['qualType']
        name = p.get('name', '_p%d' % i)
        fr.names[name] = p['id']
        t = self.ty(qt)
        root = ('p', i)
        self.new_root(root, t, name)
        if '&' in qt:
            fr.refs[p['id']] = Loc(root)
            self.param_refs.append((name, Loc(root), i))
        else:
            r2 = ('v', fr.uid, p['id'])
            self.store[r2] = self.store[root]
            self.rtype[r2] = t
        self.args[name] = root
        self.args[i] = root

    # ------------------------------------------------------------------ state
    def next_uid(self):
        self.uid += 1
        return self.uid

    def new_root(self, root, t, name=None):
        v = self.fresh(t, name or str(root[-1]))
        self.store[root] = v if isinstance(v, V) else V(t, v)
        self.rtype[root] = t
        return Loc(root)

    def fresh(self, t, name):
        tree = fresh_tree(shape(t), name)
        for f in wf(t, tree):
            self.assume(f)
        return V(t, tree)

    def temp(self, value, t=None):
        root = ('t', self.next_uid())
        if t is None and isinstance(value, V):
            t = value.t
        if t is not None and not isinstance(value, (Iter, Rec, Closure, PtrTo)):
            value = V(t, self.to_tree(t, value))
        self.store[root] = value
        self.rtype[root] = t
        return Loc(root)

    def locate(self, loc):
        """(type, tree) at loc, or a verifier-level value"""
        base = self.store[loc.root]
        return self.locate_in(base, loc.path)

    def locate_in(self, base, path):
        if not isinstance(base, V):
            for j, a in enumerate(path):
                if isinstance(base, Rec) and a[0] == 'f':
                    base = base.fields[a[1]]
                    if isinstance(base, V):
                        return self.locate_in(base, path[j + 1:])
                else:
                    raise Unsupported('path %r in %r' % (path, base))
            return None, base
        t, tree = base.t, base.tree
        for a in path:
            if a[0] == 'f':
                if not isinstance(t, TStruct) or a[1] not in t.fields:
                    raise Unsupported('field %s of %r' % (a[1], t))
                t, tree = t.fields[a[1]], tree[a[1]]
            elif a[0] == 'i':
                t, tree = t.elem, t_select(tree['d'], a[1])
            elif a[0] == 'k':
                t, tree = t.val, t_select(tree['d'], a[1])
            elif a[0] == 'm':
                t, tree = t.val, t_select(tree['d'], a[1])
            elif a[0] == 'h':    # heap cell
                t, tree = t.val, t_select(tree['d'], a[1])
            else:
                raise Unsupported('path elem %r' % (a,))
        return t, tree

    def loc_type(self, loc):
        t, x = self.locate(loc)
        return t

    def wrap(self, t, tree):
        if isinstance(t, TFun):
            return FunVal(tree, t.alias)
        if isinstance(t, TPtr):
            return PtrVal(tree, t)
        if t.leaf() is not None:
            return tree
        return V(t, tree)

    def get(self, loc):
        t, x = self.locate(loc)
        if t is None:
            return x
        if isinstance(t, TPtr) and ('ghost', 'alloc') in self.store and self.pure == 0:
            a = z3.simplify(x)
            if not z3.is_int_value(a):
                k = a.get_id()
                if k not in self.ptrkeys:
                    self.ptrkeys[k] = a
                    self.assume(z3.And(x >= 0, x < self.store[('ghost', 'alloc')].tree))
        return self.wrap(t, x)

    nohook = 0
    noaccess = 0

    def put(self, loc, value):
        base = self.store[loc.root]
        if not self.nohook:
            self.specs.on_write(self, loc)
        if not loc.path:
            if isinstance(base, V):
                self.store[loc.root] = V(base.t, self.named(self.to_tree(base.t, value)))
            else:
                self.store[loc.root] = value
            return
        if isinstance(base, Rec):
            assert len(loc.path) == 1
            base.fields[loc.path[0][1]] = value
            return
        self.store[loc.root] = V(base.t, self.named(self._put(base.t, base.tree, loc.path, value)))

    def named(self, tree):
        """give compound array terms a name (keeps terms small and usable in triggers)"""
        if isinstance(tree, dict):
            return {k: self.named(v) for k, v in tree.items()}
        if tree.sort().kind() == z3.Z3_ARRAY_SORT and tree.num_args() > 0 and tree.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE):
            c = z3.Const(fresh_name('a'), tree.sort())
            self.assume(c == tree)
            return c
        return tree

    def _put(self, t, tree, path, value):
        if not path:
            return self.to_tree(t, value)
        a = path[0]
        new = dict(tree)
        if a[0] == 'f':
            new[a[1]] = self._put(t.fields[a[1]], tree[a[1]], path[1:], value)
            return new
        et = t.elem if a[0] == 'i' else t.val
        if a[0] == 'i' and t.indexed:
            # overwriting an element of an indexed list: refresh membership index
            sub = self.to_tree(et, value)
            fv = self.fresh(t, 'upd').tree
            self.assume(z3.And(fv['lo'] == tree['lo'], fv['hi'] == tree['hi'], fv['cap'] == tree['cap']))
            nd = z3.Store(tree['d'], a[1], sub)
            self.assume(fv['d'] == nd)
            return fv
        sub = self._put(et, t_select(tree['d'], a[1]), path[1:], value)
        new['d'] = t_store(tree['d'], a[1], sub)
        return new

    def to_tree(self, t, v):
        if isinstance(v, (Loc, Moved)):
            v = self.rv(v)
        if isinstance(v, V):
            if isinstance(v.t, TSeq) and isinstance(t, TSeq) and v.t.indexed != t.indexed:
                raise Unsupported('seq conversion')
            return v.tree
        if isinstance(v, FunVal):
            return v.h
        if isinstance(v, PtrVal):
            return v.a
        if isinstance(v, Closure):
            h = self.closure_handle(v)
            return h
        if isinstance(v, PtrTo):
            return self.encode_ptr(v.loc)
        if isinstance(v, Rec) and isinstance(t, TStruct):
            return {f: self.to_tree(ft, v.fields[f]) for f, ft in t.fields.items()}
        if isinstance(v, Rec) and t.leaf() is not None and '__items__' in v.fields:
            it = v.fields['__items__']
            if len(it) == 1 and z3.is_expr(it[0]):
                return self.to_tree(t, it[0])
            return z3.Const(fresh_name('braces'), t.leaf())       # an aggregate that is one opaque value
        if isinstance(v, z3.ExprRef):
            if t.leaf() is not None:
                if v.sort() != t.leaf():
                    if t.leaf() == BoolS and v.sort() == IntS:
                        return v != 0
                    if t.leaf() == IntS and v.sort() == BoolS:
                        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
                return v
        if v is None and t.leaf() == IntS:
            return z3.IntVal(0)
        raise Unsupported('value %r for type %r' % (v, t))

    def encode_ptr(self, loc):
        keyed = [a for a in loc.path if a[0] != 'f']
        nm = 'addr_' + '_'.join(str(a[1]) if a[0] == 'f' else '@' for a in ((('f', loc.root[0]),) + loc.path))
        if not keyed:
            return z3.Int(nm)
        if len(keyed) == 1 and keyed[0][1].sort() == IntS:
            f = z3.Function(nm, IntS, IntS)
            g = z3.Function(nm + '_inv', IntS, IntS)
            self.assume(g(f(keyed[0][1])) == keyed[0][1])
            self.assume(f(keyed[0][1]) > 0)
            return f(keyed[0][1])
        raise Unsupported('address of %r' % (loc,))

    def closure_handle(self, c):
        h = z3.Int(fresh_name('closure'))
        self.assume(h > 0)
        self.closures[h.get_id()] = (h, c)
        self.specs.on_closure(self, h, c)
        return h

    def rv(self, x):
        if isinstance(x, Loc):
            return self.get(x)
        if isinstance(x, Moved):
            v = self.get(x.loc)
            self.reset_moved(x.loc)
            return v
        return x

    def reset_moved(self, loc):
        t, tree = self.locate(loc)
        if t is None:
            return
        nt = self.moved_tree(t, tree)
        if nt is not tree:
            self.put(loc, self.wrap(t, nt))

    def moved_tree(self, t, tree):
        if isinstance(t, TSeq) or isinstance(t, (TMap, TMulti)):
            return self.default_tree(t)
        if isinstance(t, (TFun, TPtr)):
            return z3.IntVal(0)
        if isinstance(t, TStruct):
            new = {f: self.moved_tree(ft, tree[f]) for f, ft in t.fields.items()}
            return new
        return tree

    def default_tree(self, t):
        if isinstance(t, TStruct) and t.name == 'pair':
            return {f: self.default_tree(ft) for f, ft in t.fields.items()}
        if isinstance(t, TStruct):
            out = {}
            r, tu = self.prog.record(t.name)
            inits = {}
            for c in (r or {}).get('inner', []):
                if c.get('kind') == 'FieldDecl' and c.get('hasInClassInitializer'):
                    inits[c.get('name')] = c['inner'][-1]
            for f, ft in t.fields.items():
                if f in inits:
                    fr = Frame({'_tu': tu}, None, self.next_uid())
                    self.frames.append(fr)
                    try:
                        v = self.rv(self.ev(inits[f]))
                    finally:
                        self.frames.pop()
                    out[f] = self.to_tree(ft, v) if not isinstance(v, StrVal) else const_tree(shape(ft))
                elif ft.leaf() is not None and not isinstance(ft, (TFun, TPtr)) and ft.name != 'opaque':
                    out[f] = fresh_tree(shape(ft), 'uninit_' + f)
                else:
                    out[f] = self.default_tree(ft)
            return out
        return const_tree(shape(t))

    def default(self, t):
        return self.wrap(t, self.default_tree(t))

    # ------------------------------------------------------------------ logic
    def assume(self, f):
        if f is True or (isinstance(f, z3.ExprRef) and z3.is_true(f)):
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append(f)
        self.solver.add(f)

    def is_replay(self):
        return len(self.decisions) < len(self.prefix)

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pure:
            raise Unsupported('branch in pure context')
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        elif self.dstr() in self.hint_both:
            self.both.add(self.dstr())
            d = True
            self.todo.append(tuple(self.decisions) + (False,))
        else:
            # the same question comes up again when the function is executed a second time: same formulas, same answer
            me = tuple(f.get_id() for f in self.pc) + (cond.get_id(),)
            if me in self.feasible:
                rt, rf = self.feasible[me][0]
            else:
                t0 = time.time()
                self.solver.push()
                self.solver.add(cond)
                rt = self.solver.check()
                self.solver.pop()
                self.solver.push()
                self.solver.add(z3.Not(cond))
                rf = self.solver.check()
                self.solver.pop()
                self.res.smt_time += time.time() - t0
                self.feasible[me] = (rt, rf), tuple(self.pc), cond      # (keeps the formulas and so their ids)
            if rt == z3.unsat and rf == z3.unsat:
                raise PathEnd()
            if rt == z3.unsat:
                d = False
            elif rf == z3.unsat:
                d = True
            else:
                d = True
                self.both.add(self.dstr())
                self.todo.append(tuple(self.decisions) + (False,))
        self.decisions.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def dstr(self):
        return ''.join('T' if d else 'F' for d in self.decisions)

    def choose(self, name='choice'):
        """nondeterministic choice"""
        b = z3.Bool(fresh_name(name))
        return self.branch(b)

    def oblige(self, label, goal):
        if self.dry or self.is_replay():
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.res.obls.setdefault(label, []).append(('discharged', 0.0, '', 'simplify'))
            return
        if z3.is_and(goal) and goal.num_args() > 1:
            for i in range(goal.num_args()):
                self.oblige(label, goal.arg(i))
            return
        self.pool.add(Job(self.cur_key, label, tuple(self.pc), goal, self.timeout, self.dstr()))

    # ------------------------------------------------------------------ statements
    @property
    def fr(self):
        return self.frames[-1]

    def exec(self, n):
        k = n.get('kind')
        m = getattr(self, 'x_' + k, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def x_CompoundStmt(self, n):
        guards = []
        self.fr.scopes.append(guards)
        try:
            for c in n.get('inner', []):
                self.exec(c)
        except (BreakEx, ContinueEx, ReturnEx, ThrowEx):
            self.close_scope(guards)
            self.fr.scopes.pop()
            raise
        self.close_scope(guards)
        self.fr.scopes.pop()

    def close_scope(self, guards):
        for g in reversed(guards):
            g()

    def x_NullStmt(self, n):
        pass

    def x_DeclStmt(self, n):
        for c in n.get('inner', []):
            if c['kind'] == 'VarDecl':
                self.decl_var(c)

    def decl_var(self, c):
        qt = c['type']['qualType']
        fr = self.fr
        fr.names[c['name']] = c['id']
        inner = [x for x in c.get('inner', []) if x.get('kind')]
        root = ('v', fr.uid, c['id'])
        st = strip_type(qt)
        if self.specs.scoped_values and not qt.rstrip().endswith('&'):
            self.fr.scopes[-1].append(lambda: self.specs.scope_end(self, Loc(root)))
        if st == 'UniqueLock' and '&' not in qt and inner and self.is_lock_ctor(inner[0]) and not self.specs.scoped_values:
            lk = ULock(self.ctor_args(inner[0])[0])
            lk.lock(self)
            self.fr.scopes[-1].append(lambda: lk.release(self))
            self.store[root] = lk
            self.rtype[root] = None
            fr.refs.pop(c['id'], None)
            return
        if st in ('LockGuard', 'CriticalSection', 'InterruptsFreeSection', 'std::lock_guard<std::mutex>', 'lock_guard<mutex>') and '&' not in qt and not (
                self.specs.scoped_values and 'lock_guard' in st):
            args = self.ctor_args(inner[0]) if inner else []
            g = self.specs.guard_object(self, st, args)
            self.fr.scopes[-1].append(g)
            self.store[root] = Rec({})
            return
        if c.get('storageClass') == 'static':
            # function-local static: treated as its initial value when const-like
            pass
        if qt.rstrip().endswith('&') and inner:
            v = self.ev(inner[-1])
            if isinstance(v, Moved):
                v = v.loc
            if not isinstance(v, Loc):
                v = self.temp(v, None if isinstance(v, (V, Iter, Rec, Closure, PtrTo)) else self.ty_of_value(v, qt))
            fr.refs[c['id']] = v
            return
        if not inner:
            self.store[root] = V(self.ty(qt), fresh_tree(shape(self.ty(qt)), c['name'])) if self.ty(qt).leaf() is not None \
                else self.as_value(self.default(self.ty(qt)), self.ty(qt))
            self.rtype[root] = self.ty(qt)
            fr.refs.pop(c['id'], None)
            return
        v = self.rv(self.ev(inner[-1]))
        fr.refs.pop(c['id'], None)
        if isinstance(v, (Iter, Rec, Closure, PtrTo, StrVal)):
            self.store[root] = v
            self.rtype[root] = None
            g = self.specs.on_declared(self, st, v)
            if g:
                self.fr.scopes[-1].append(g)
            return
        if isinstance(v, V):
            t = v.t
        else:
            t = self.ty_of_value(v, qt)
        self.store[root] = V(t, self.to_tree(t, v))
        self.rtype[root] = t

    def is_lock_ctor(self, n):
        while n.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr'):
            n = n['inner'][0]
        return n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(n.get('inner', [])) == 1 and \
            'UniqueLock' not in n['inner'][0]['type']['qualType']

    def ty_of_value(self, v, qt):
        if isinstance(v, FunVal):
            return TFun(v.alias)
        if isinstance(v, PtrVal):
            return v.t
        if isinstance(v, z3.ExprRef):
            try:
                t = self.ty(qt)
                if t.leaf() is not None:
                    return t
            except Unsupported:
                pass
            return TBOOL if v.sort() == BoolS else TInt('int')
        return self.ty(qt)

    def as_value(self, v, t):
        return v if isinstance(v, V) else V(t, self.to_tree(t, v))

    def x_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner:
            raise ReturnEx(None)
        v = self.ev(inner[0])
        if isinstance(v, Moved):
            v = self.rv(v)
        if isinstance(v, Loc) and not self.returns_ref():
            v = self.rv(v)
        raise ReturnEx(v)

    def returns_ref(self):
        fn = self.fr.fn
        qt = fn.get('type', {}).get('qualType', '')
        return '&' in qt.split('(')[0]

    def x_BreakStmt(self, n):
        raise BreakEx()

    def x_ContinueStmt(self, n):
        raise ContinueEx()

    def x_IfStmt(self, n):
        inner = n['inner']
        i = 0
        guards = []
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with init')
        c = self.cond(inner[0])
        if self.branch(c):
            self.exec(inner[1])
        elif len(inner) > 2:
            self.exec(inner[2])

    def x_SwitchStmt(self, n):
        v = self.rv(self.ev(n['inner'][0]))
        body = n['inner'][1]
        # flatten: list of (labels, stmts) in order
        items = []

        def add(s):
            if s['kind'] == 'CaseStmt':
                items.append(('case', s['inner'][0]))
                add(s['inner'][1])
            elif s['kind'] == 'DefaultStmt':
                items.append(('default', None))
                add(s['inner'][0])
            else:
                items.append(('stmt', s))
        for s in body.get('inner', []):
            add(s)
        start = None
        default = None
        for i, (k, x) in enumerate(items):
            if k == 'default':
                default = i
            if k == 'case':
                cv = self.rv(self.ev(x))
                if self.branch(self.eq(v, cv)):
                    start = i
                    break
        if start is None:
            start = default
        if start is None:
            return
        self.fr.scopes.append([])
        try:
            for k, x in items[start:]:
                if k == 'stmt':
                    self.exec(x)
        except BreakEx:
            pass
        finally:
            self.fr.scopes.pop()

    def x_CXXTryStmt(self, n):
        # exceptions are not modelled: the handler is unreachable unless the specs say the body may throw
        if self.specs.may_throw(self, n):
            if self.choose('throws'):
                h = n['inner'][1]
                self.exec(h['inner'][-1])
                return
        try:
            self.exec(n['inner'][0])
        except ThrowEx:
            self.exec(n['inner'][1]['inner'][-1])

    # ------------------------------------------------------------------ loops
    def x_ForStmt(self, n):
        init, _, cond, inc, body = n['inner'][:5]
        guards = []
        self.fr.scopes.append(guards)
        try:
            if init.get('kind'):
                self.exec(init)
            self.loop(n, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
        finally:
            self.fr.scopes.pop()

    def x_WhileStmt(self, n):
        self.loop(n, n['inner'][0], None, n['inner'][-1])

    def x_DoStmt(self, n):
        self.loop(n, n['inner'][1], None, n['inner'][0], dowhile=True)

    def x_CXXForRangeStmt(self, n):
        inner = [c for c in n['inner']]
        # [init?, rangeDecl, beginDecl, endDecl, cond, inc, loopVarDecl, body]
        rng = begin = None
        decls = [c for c in inner if c.get('kind') == 'DeclStmt']
        body = inner[-1]
        rangedecl = decls[0]['inner'][0]
        loopvar = decls[-1]['inner'][0]
        src = self.ev(rangedecl['inner'][-1])
        if isinstance(src, Moved):
            src = src.loc
        if not isinstance(src, Loc):
            src = self.temp(src)
        t = self.loc_type(src)
        if t is not None and t.leaf() is not None:
            r = self.specs.range_of(self, src)
            if r is not None:
                src, t = r, self.loc_type(r)
        if isinstance(t, TSeq):
            b = self.locate(src)[1]
            it = Iter(src, 'seq', b['lo'])
        elif isinstance(t, TMulti):
            it = Iter(src, 'multi', z3.IntVal(0))
        elif isinstance(t, TMap):
            it = self.map_begin(src)
        else:
            raise Unsupported('range-for over %r' % t)
        root = ('v', self.fr.uid, 'range:' + n['id'])
        self.store[root] = it
        self.rtype[root] = None

        def cond():
            i = self.store[root]
            return z3.Not(self.iter_eq(i, self.iter_end(i.loc, i.kind)))

        def inc():
            self.store[root] = self.iter_step(self.store[root], 1)

        def bind():
            place = self.deref(self.store[root])
            fr = self.fr
            fr.names[loopvar['name']] = loopvar['id']
            if '&' in loopvar['type']['qualType']:
                fr.refs[loopvar['id']] = place if isinstance(place, Loc) else self.temp(place)
            else:
                v = self.rv(place)
                r = ('v', fr.uid, loopvar['id'])
                fr.refs.pop(loopvar['id'], None)
                if isinstance(v, V):
                    self.store[r], self.rtype[r] = v, v.t
                elif isinstance(v, (Iter, Rec, PtrTo)):
                    self.store[r], self.rtype[r] = v, None
                else:
                    tt = self.ty_of_value(v, loopvar['type']['qualType'])
                    self.store[r], self.rtype[r] = V(tt, self.to_tree(tt, v)), tt
        self.loop(n, cond, inc, body, bind=bind, cursor=root)

    def loop(self, n, cond, inc, body, dowhile=False, bind=None, cursor=None):
        fr = self.fr
        ordn = self.loop_ord.get(id(n))
        spec = self.specs.contracts[self.cur_key].loops.get(ordn)
        ghost_code = ghost_end = None
        if isinstance(spec, dict):
            ghost_code, ghost_end = spec.get('ghost'), spec.get('end')
            spec = spec['inv']

        def run_ghost(code):
            gctx = Ctx(self, None, self.pre, Snap(self, self.store, fr), self.args, None)
            gctx.entry = entry
            gctx.cursor_root = cursor
            gctx.havoc = self.havoc.get((self.cur_key, ordn), {})
            code(self, gctx)
        entry = None

        def test():
            if cond is None:
                return True
            c = cond() if callable(cond) else self.cond(cond)
            return c

        def step():
            if inc is not None:
                inc() if callable(inc) else self.ev(inc)

        def run_body():
            """returns False when the loop was left by break"""
            try:
                if ghost_code is not None:
                    run_ghost(ghost_code)
                if bind:
                    bind()
                fr.scopes.append([])
                nsc = len(fr.scopes)
                try:
                    self.exec(body)
                except ContinueEx:
                    pass
                finally:
                    del fr.scopes[nsc - 1:]
                step()
                return True
            except BreakEx:
                return False

        if spec is None:
            # no invariant: only loops whose trip count is determined by the path condition
            for it in range(12):
                if it > 0 or not dowhile:
                    c = test()
                    if not self.decided(c):
                        raise AnnotationMismatch('loop %s without invariant in %s' % (ordn, self.cur_key))
                    if not self.branch(c):
                        return
                if not run_body():
                    return
                if dowhile:
                    c = test()
                    if not self.decided(c):
                        raise AnnotationMismatch('loop %s without invariant in %s' % (ordn, self.cur_key))
                    if not self.branch(c):
                        return
            raise Unsupported('unrolled loop too long')

        lkey = (self.cur_key, ordn)
        entry = Snap(self, dict(self.store), fr)
        hv = self.havoc.setdefault(lkey, {})

        def invs():
            ctx = Ctx(self, None, self.pre, Snap(self, self.store, fr), self.args, None)
            ctx.entry = entry
            ctx.cursor_root = cursor
            ctx.havoc = hv
            return spec(ctx)

        if any(True for _ in hv) or True:
            if not hv.get('__first__'):
                hv['__first__'] = True
        # 1. established on entry
        for lab, f in invs():
            self.oblige('loop%d-init:%s' % (ordn, lab), f)
        # 2. arbitrary iteration: havoc
        self.havoc_locs(hv)
        head = dict(self.store)
        for lab, f in invs():
            self.assume(f)
        if dowhile:
            cont = True
        else:
            cont = self.branch(test())
        if cont:
            if not run_body():
                return          # break: continues after the loop
            if dowhile:
                if not self.branch(test()):
                    return
            # 3. preserved
            if ghost_end is not None:
                run_ghost(ghost_end)
            self.check_frame(lkey, head)
            for root, parts in hv.items():
                base = self.store.get(root) if root != '__first__' else None
                if isinstance(base, V) and isinstance(base.t, THeap) and isinstance(base.t.val, TLock):
                    self.oblige('loop%d-keep:C17:event-lock-state' % ordn, z3.And([a == b for a, b in zip(t_leaves(base.tree), t_leaves(head[root].tree))]))
                if isinstance(base, V) and isinstance(base.t, TStruct) and parts:
                    for f in sorted(parts):
                        if isinstance(base.t.fields[f], TLock):
                            self.oblige('loop%d-keep:C17:lock-state' % ordn, base.tree[f]['held'] == head[root].tree[f]['held'])
            for lab, f in invs():
                self.oblige('loop%d-keep:%s' % (ordn, lab), f)
            raise PathEnd()
        return

    def decided(self, c):
        if isinstance(c, bool):
            return True
        s = z3.simplify(c)
        if z3.is_true(s) or z3.is_false(s):
            return True
        self.solver.push()
        self.solver.add(c)
        a = self.solver.check()
        self.solver.pop()
        if a == z3.unsat:
            return True
        self.solver.push()
        self.solver.add(z3.Not(c))
        b = self.solver.check()
        self.solver.pop()
        return b == z3.unsat

    def havoc_locs(self, hv):
        for root in sorted([r for r in hv if r != '__first__'], key=str):
            parts = hv[root]
            if root not in self.store:
                continue
            base = self.store[root]
            if isinstance(base, Iter):
                nm = 'pos_%s' % (root[-1] if isinstance(root[-1], str) else '')
                if base.kind == 'map':
                    self.store[root] = Iter(base.loc, 'map', z3.Const(fresh_name('key'), base.pos.sort()),
                                            z3.Bool(fresh_name('end')), base.rev)
                else:
                    self.store[root] = Iter(base.loc, base.kind, z3.Int(fresh_name('pos')), None, base.rev)
                self.assume_iter_range(self.store[root])
            elif isinstance(base, V) and isinstance(base.t, THeap):
                if isinstance(base.t.val, TLock):
                    continue            # lock state: built-in invariant
                self.store[root] = V(base.t, fresh_tree(shape_heap(base.t.val), 'h_heap'))
                for f in wf_heap(base.t.val, self.store[root].tree):
                    self.assume(f)
            elif isinstance(base, V):
                if parts is None or base.t.leaf() is not None or not isinstance(base.t, TStruct):
                    self.store[root] = self.fresh(base.t, 'h_' + str(root[-1]))
                else:
                    tree = dict(base.tree)
                    for f in sorted(parts):
                        # lock state is a built-in loop invariant (checked at the end of the body)
                        if not isinstance(base.t.fields[f], TLock):
                            tree[f] = self.fresh(base.t.fields[f], 'h_' + f).tree
                    self.store[root] = V(base.t, tree)
            else:
                raise Unsupported('loop assigns %r' % (base,))

    def assume_iter_range(self, it):
        # position stays within [begin,end] : checked by the deref/step obligations, assumed as the C++ iterator's type invariant
        t, tree = self.locate(it.loc)
        if it.kind == 'seq':
            self.assume(z3.And(tree['lo'] <= it.pos, it.pos <= tree['hi']))
        elif it.kind == 'multi':
            self.assume(z3.And(0 <= it.pos, it.pos <= tree['n']))

    def check_frame(self, lkey, head):
        hv = self.havoc[lkey]
        changed = False
        for root, base in head.items():
            now = self.store[root]
            if now is base:
                continue
            if isinstance(base, Iter):
                if isinstance(now, Iter) and now.pos.eq(base.pos):
                    continue
                if root not in hv:
                    hv[root] = None
                    changed = True
            elif isinstance(base, V):
                if isinstance(base.t, TStruct) and root[0] in ('this',):
                    for f in base.t.fields:
                        if not t_same(base.tree[f], now.tree[f]):
                            s = hv.setdefault(root, set())
                            if f not in s:
                                s.add(f)
                                changed = True
                elif not t_same(base.tree, now.tree):
                    if root not in hv:
                        hv[root] = None
                        changed = True
            else:
                if root not in hv:
                    raise Unsupported('loop modifies verifier-level value %r' % (root,))
        if changed:
            raise Restart()

    # ------------------------------------------------------------------ expressions
    def cond(self, n):
        return self.to_bool(self.ev(n))

    def to_bool(self, v):
        v = self.rv(v)
        if isinstance(v, FunVal):
            return v.h != 0
        if isinstance(v, PtrVal):
            return v.a != 0
        if isinstance(v, (PtrTo, Closure)):
            return z3.BoolVal(True)
        if isinstance(v, z3.ExprRef):
            if v.sort() == BoolS:
                return v
            return v != 0
        raise Unsupported('condition %r' % (v,))

    def ev(self, n):
        k = n.get('kind')
        if self.cur_key in self.specs.diag_functions and self.is_diag(n):
            return self.diag_value(n)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(n)

    # Diagnostics: in the functions listed by the specs, library values that only serve the output of text (streams, texts,
    # clock values) are opaque: their operations have no effect on verified state, operands are evaluated all the same.
    def is_diag(self, n):
        k, rx = n.get('kind'), self.specs.diag_types
        if k in ('ExprWithCleanups', 'ParenExpr'):
            return False
        if rx.search(n.get('type', {}).get('qualType', '')) or rx.search(n.get('type', {}).get('desugaredQualType', '')):
            return not (k == 'CXXMemberCallExpr' or k == 'CallExpr') or self.is_diag_call(n)
        if k == 'CXXOperatorCallExpr' and any(rx.search(c.get('type', {}).get('qualType', '')) for c in n['inner'][1:]):
            return True
        return k in ('CXXMemberCallExpr', 'CallExpr') and self.is_diag_call(n)

    def is_diag_call(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if n['kind'] == 'CXXMemberCallExpr':
            o = c['inner'][0]
            if c.get('name') in self.specs.diag_calls:
                return True
            q = o.get('type', {})
            return bool(self.specs.diag_types.search(q.get('qualType', '')) or self.specs.diag_types.search(q.get('desugaredQualType', ''))) or self.is_diag(o)
        did = c.get('referencedDecl', {}).get('id')
        return self.resolve_def(did, self.fr.fn['_tu']) is None or c.get('referencedDecl', {}).get('name') in self.specs.diag_calls

    def diag_value(self, n):
        self.diag_sweep(n)
        q = n.get('type', {}).get('qualType', '')
        if strip_type(q) == 'bool':
            return z3.Const(fresh_name('diag'), z3.BoolSort())
        return z3.Int(fresh_name('diag'))

    @staticmethod
    def is_assignment(n):
        return n.get('opcode', '') in ('=', '++', '--', ',')

    def diag_sweep(self, n):
        if n.get('kind') in ('LambdaExpr', 'StringLiteral', 'DeclRefExpr', 'CXXThisExpr', 'CXXDefaultArgExpr', 'UnaryExprOrTypeTraitExpr'):
            return
        for c in n.get('inner', [])[1 if n.get('kind') in ('CallExpr', 'CXXOperatorCallExpr') else 0:]:
            k = c.get('kind', '')
            if k in ('MemberExpr', 'ImplicitCastExpr', 'ParenExpr', 'InitListExpr', 'CXXStdInitializerListExpr', 'MaterializeTemporaryExpr',
                     'CXXBindTemporaryExpr', 'ConditionalOperator', 'UnaryOperator', 'BinaryOperator', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr',
                     'CXXConstructExpr', 'ArrayInitLoopExpr') and not self.is_assignment(c) or self.is_diag(c):
                self.diag_sweep(c)
            elif k.endswith('Expr'):
                self.ev(c)

    def _first(self, n):
        return self.ev(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = \
        e_SubstNonTypeTemplateParmExpr = _first

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default init expr')

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, n):
        return self.specs.float_literal(self, n)

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_CXXNullPtrLiteralExpr(self, n):
        return None

    def e_GNUNullExpr(self, n):
        return None

    def e_StringLiteral(self, n):
        return self.specs.string_literal(self, n)

    def e_ImplicitValueInitExpr(self, n):
        t = self.ty(n['type']['qualType'])
        return self.default(t)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, n):
        fr = self.fr
        while fr is not None and fr.this is None:
            fr = fr.parent
        if fr is None:
            raise Unsupported('this')
        return PtrTo(fr.this)

    def find_var(self, did, name):
        fr = self.fr
        while fr is not None:
            if did in fr.refs:
                return fr.refs[did]
            r = ('v', fr.uid, did)
            if r in self.store:
                return Loc(r)
            fr = fr.parent
        return None

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            loc = self.find_var(rd['id'], rd['name'])
            if loc is not None:
                return loc
            sv = self.specs.static_var(self, rd['name'])
            if sv is not None:
                return sv
            tu = self.fr.fn['_tu']
            g = tu.globals.get(rd['name'])
            if g is None:
                g = tu.decls.get(rd['id'])
            if g is not None and g.get('inner'):
                return self.rv(self.ev(g['inner'][-1]))
            ex = self.specs.external_global(self, rd['name'])
            if ex is not None:
                return ex
            raise Unsupported('variable %s' % rd['name'])
        if k == 'EnumConstantDecl':
            tu = self.fr.fn['_tu']
            if rd['id'] in tu.enums:
                return z3.IntVal(tu.enums[rd['id']])
            ty = strip_type(rd['type']['qualType']).split('::')[-1]
            v = tu.enum_consts.get(ty + '::' + rd['name'])
            if v is not None:
                return z3.IntVal(v)
            ex = self.specs.external_enum(self, ty, rd['name'])
            if ex is not None:
                return ex
            raise Unsupported('enumerator ' + rd['name'])
        raise Unsupported('reference to %s %s' % (k, rd.get('name')))

    def e_MemberExpr(self, n):
        base = self.ev(n['inner'][0])
        r = self.member(base, n['name'], n.get('isArrow'), n)
        if isinstance(r, Loc) and not self.pure and not self.noaccess:
            self.specs.on_access(self, r)
        return r

    def member(self, base, name, arrow, n=None):
        if isinstance(base, Moved):
            base = base.loc
        if isinstance(base, Loc):
            t, x = self.locate(base)
            if t is None:
                base = x            # verifier-level value
            elif isinstance(t, TPtr):
                return self.pointee(self.wrap(t, x)).f('f', name)
            else:
                r = self.specs.deref_value(self, x, n) if arrow and n is not None and z3.is_expr(x) else None
                return (r or base).f('f', name)
        if isinstance(base, PtrTo):
            if isinstance(base.loc, Loc):
                return base.loc.f('f', name)
            base = base.loc
        if isinstance(base, PtrVal):
            return self.pointee(base).f('f', name)
        if isinstance(base, Rec):
            return base.fields[name]
        if isinstance(base, V):
            return self.temp(base).f('f', name)
        if arrow and n is not None and z3.is_expr(base):
            r = self.specs.deref_value(self, base, n)
            if r is not None:
                return r.f('f', name)
        raise Unsupported('member %s of %r' % (name, base))

    def pointee(self, p, why='deref-nonnull'):
        """location a non-null pointer points to"""
        if isinstance(p, PtrTo):
            return p.loc
        if p.a is None:
            raise Unsupported('null deref')
        self.oblige('safe:' + why, p.a != 0) if not self.pure else None
        tn = self.specs.canonical(p.t.pointee)
        if self.specs.self_type is not None and isinstance(tn, str) and strip_type(tn).split('::')[-1] == self.specs.self_type:
            return self.specs.deref_self(self, p)
        t = self.ty(tn) if isinstance(tn, str) else tn
        root = ('heap', strip_type(tn) if isinstance(tn, str) else str(tn))
        if root not in self.store:
            hv = THeap(t)
            self.store[root] = V(hv, fresh_tree(shape_heap(t), 'heap_' + root[1]))
            for f in wf_heap(t, self.store[root].tree):
                self.assume(f)
            self.rtype[root] = hv
            if root not in self.pre.store:
                self.pre.store[root] = self.store[root]
        r = Loc(root, (('h', p.a),))
        self.specs.on_pointee(self, p, r)
        return r

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        inner = n['inner'][0]
        if ck in ('LValueToRValue',):
            return self.rv(self.ev(inner))
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion',
                  'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived', 'AtomicToNonAtomic',
                  'NonAtomicToAtomic', 'LValueBitCast', 'BitCast', 'Dependent'):
            return self.ev(inner)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return None
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            return self.int_cast(self.rv(self.ev(inner)), inner['type'], n['type'])
        if ck == 'PointerToBoolean':
            return self.to_bool(self.ev(inner))
        if ck == 'ToVoid':
            self.ev(inner)
            return None
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            return self.specs.float_cast(self, ck, self.rv(self.ev(inner)), inner['type'], n['type'])
        raise Unsupported('cast ' + str(ck))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, n):
        return self.specs.reinterpret(self, self.rv(self.ev(n['inner'][0])), n)

    def qual(self, ty):
        return ty.get('desugaredQualType') or ty['qualType']

    def int_cast(self, v, fty, tty):
        if v is None:
            return z3.IntVal(0)
        t = self.ty(self.qual(tty)) if self._known(tty) else None
        if isinstance(v, z3.ExprRef) and v.sort() == BoolS:
            if t is TBOOL:
                return v
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if t is TBOOL:
            return v != 0
        f = self.ty(self.qual(fty)) if self._known(fty) else None
        if t is not None and t.rng is not None and t.name in INT_RANGES:
            if f is not None and f.rng is not None and t.rng[0] <= f.rng[0] and f.rng[1] <= t.rng[1]:
                return v
            if z3.is_int_value(v) and t.rng[0] <= v.as_long() <= t.rng[1]:
                return v
            return cast_int(v, t.rng)
        return v

    def _known(self, ty):
        try:
            self.ty(self.qual(ty))
            return True
        except Unsupported:
            return False

    def eq(self, a, b):
        if isinstance(a, (Loc, Moved)):
            a = self.rv(a)
        if isinstance(b, (Loc, Moved)):
            b = self.rv(b)
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iter_eq(a, b)

        def num(x):
            if x is None:
                return z3.IntVal(0)
            if isinstance(x, FunVal):
                return x.h
            if isinstance(x, PtrVal):
                return x.a
            if isinstance(x, PtrTo):
                return self.encode_ptr(x.loc)
            return x
        if isinstance(a, V) and isinstance(b, V):
            return self.v_eq(a, b)
        if isinstance(a, PtrTo) and isinstance(b, PtrTo) and a.loc.root != b.loc.root:
            ra, rb = a.loc.root[0], b.loc.root[0]
            if {ra, rb} <= {'this', 'p'} and not self.specs.aliased:       # two references handed in by the caller may be the same object
                return z3.Bool('same_object_%s_%s' % tuple(sorted(str(l.root) for l in (a.loc, b.loc))))
            return z3.BoolVal(False)            # distinct objects
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PtrTo) and (y is None or z3.is_expr(y) and z3.is_int_value(y) and y.as_long() == 0):
                return z3.BoolVal(False)        # the address of an object
        a, b = num(a), num(b)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported('compare %r %r' % (a, b))
        if a.sort() != b.sort():
            if a.sort() == BoolS:
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if b.sort() == BoolS:
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        # (x ? 1 : 0) == (y ? 1 : 0)  ->  x == y
        ba, bb = as_bool01(a), as_bool01(b)
        if ba is not None and bb is not None:
            return ba == bb
        return a == b

    def v_eq(self, a, b):
        if isinstance(a.t, TStruct) and isinstance(b.t, TStruct) and a.t.name == 'pair':
            return z3.And([x == y for x, y in zip(t_leaves(a.tree), t_leaves(b.tree))])
        r = self.specs.value_eq(self, a, b)
        if r is not None:
            return r
        raise Unsupported('== on %r' % a.t)

    def is_simple(self, n):
        """side-effect free and unconditionally evaluable"""
        k = n.get('kind')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'LambdaExpr', 'CXXConstructExpr', 'CXXNewExpr'):
            if k == 'CXXMemberCallExpr':
                me = n['inner'][0]
                if me.get('name') in ('end', 'begin', 'empty', 'size', 'operator bool', 'rend', 'rbegin', 'cend', 'cbegin', 'expired'):
                    return all(self.is_simple(c) for c in n.get('inner', []))
            return False
        if k == 'CXXOperatorCallExpr':
            c = n['inner'][0]
            nm = c['inner'][0].get('referencedDecl', {}).get('name') if c.get('inner') else None
            if nm not in ('operator==', 'operator!=', 'operator->', 'operator*'):
                return False
        if k in ('UnaryOperator',) and n.get('opcode') in ('++', '--', '*'):
            return False
        if k == 'BinaryOperator' and n.get('opcode') in ('=', ','):
            return False
        if k == 'CompoundAssignOperator':
            return False
        return all(self.is_simple(c) for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind'))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op in ('&&', '||'):
            a = self.to_bool(self.ev(l))
            if self.pure or self.is_simple(r):
                sa = z3.simplify(a)
                if op == '&&' and z3.is_false(sa):
                    return z3.BoolVal(False)
                if op == '||' and z3.is_true(sa):
                    return z3.BoolVal(True)
                self.guard_push(a if op == '&&' else z3.Not(a))
                try:
                    b = self.to_bool(self.ev(r))
                finally:
                    self.guard_pop()
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            if self.branch(a):
                return self.to_bool(self.ev(r)) if op == '&&' else z3.BoolVal(True)
            return z3.BoolVal(False) if op == '&&' else self.to_bool(self.ev(r))
        if op == '=':
            v = self.rv(self.ev(r))
            lv = self.ev(l)
            self.assign(lv, v)
            return lv
        if op == ',':
            self.ev(l)
            return self.ev(r)
        a, b = self.rv(self.ev(l)), self.rv(self.ev(r))
        if op in ('==', '!='):
            sp = self.specs.arith(self, op, a, b, n)
            if sp is not None:
                return sp
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return z3.Not(self.eq(a, b))
        return self.arith(op, a, b, n)

    def guard_push(self, g):
        self.solver.push()
        self._gpc = getattr(self, '_gpc', [])
        self._gpc.append(len(self.pc))
        self.pc.append(g)
        self.solver.add(g)

    def guard_pop(self):
        k = self._gpc.pop()
        g = self.pc[k]
        extra = self.pc[k + 1:]
        del self.pc[k:]
        self.solver.pop()
        for f in extra:
            self.assume(z3.Implies(g, f) if not self.closed_fact(f) else f)

    def closed_fact(self, f):
        return False

    def arith(self, op, a, b, n):
        if a is None:
            a = z3.IntVal(0)
        if b is None:
            b = z3.IntVal(0)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported('arith %s on %r %r' % (op, a, b))
        sp = self.specs.arith(self, op, a, b, n)
        if sp is not None:
            return sp
        if a.sort() == BoolS:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == BoolS:
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        if op == '>=':
            return a >= b
        rng = None
        if self._known(n['type']):
            rng = self.ty(self.qual(n['type'])).rng
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        else:
            raise Unsupported('operator ' + op)
        if rng is not None and rng[0] == 0:
            return wrap_int(r, rng)      # unsigned arithmetic wraps
        if rng is not None and self.specs.check_overflow:
            self.oblige('safe:no-signed-overflow', z3.And(rng[0] <= r, r <= rng[1]))
        return r

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        lv = self.ev(n['inner'][0])
        b = self.rv(self.ev(n['inner'][1]))
        v = self.arith(op, self.rv(lv), b, n)
        self.assign(lv, v)
        return lv

    def e_UnaryOperator(self, n):
        op = n['opcode']
        if op == '&':
            c = n['inner'][0]
            if c.get('kind') == 'DeclRefExpr' and c['referencedDecl'].get('kind') == 'CXXMethodDecl':
                return Rec({'__method__': c['referencedDecl'].get('name')})
        x = self.ev(n['inner'][0])
        if op == '!':
            return z3.Not(self.to_bool(x))
        if op == '-':
            return -self.rv(x)
        if op == '+':
            return self.rv(x)
        if op == '&':
            if isinstance(x, Loc):
                a = self.specs.address_of(self, x)
                return PtrTo(x) if a is None else a
            if isinstance(x, Rec) and 'mem' in x.fields:
                return x
            raise Unsupported('&')
        if op == '*':
            v = self.rv(x)
            if isinstance(v, PtrTo):
                return v.loc
            if isinstance(v, PtrVal):
                r = self.pointee(v)
                if not self.pure:
                    self.specs.on_deref(self, r)
                return r
            r = self.specs.deref_value(self, v, n) if z3.is_expr(v) else None
            if r is not None:
                return r
            raise Unsupported('* on %r' % (v,))
        if op in ('++', '--'):
            old = self.rv(x)
            d = 1 if op == '++' else -1
            if isinstance(old, Iter):
                new = self.iter_step(old, d)
            else:
                rng = self.ty(self.qual(n['type'])).rng if self._known(n['type']) else None
                new = old + d
                if rng is not None and rng[0] == 0:
                    new = wrap_int(new, rng)
            self.put(x, new)
            return old if n.get('isPostfix') else x
        raise Unsupported('unary ' + op)

    def e_ConditionalOperator(self, n):
        c = self.cond(n['inner'][0])
        if self.pure:
            a, b = self.rv(self.ev(n['inner'][1])), self.rv(self.ev(n['inner'][2]))
            return z3.If(c, a, b)
        if all(self.constant(x) for x in n['inner'][1:]):       # no need to look at the two cases separately
            a, b = self.rv(self.ev(n['inner'][1])), self.rv(self.ev(n['inner'][2]))
            if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
                return z3.If(c, a, b)
        return self.ev(n['inner'][1]) if self.branch(c) else self.ev(n['inner'][2])

    @staticmethod
    def constant(n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
            n = n['inner'][0]
        return n.get('kind') in ('IntegerLiteral', 'CXXBoolLiteralExpr') or \
            (n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'EnumConstantDecl')

    def assign(self, lv, v):
        if isinstance(lv, Loc):
            self.put(lv, v)
        else:
            raise Unsupported('assignment to %r' % (lv,))

    def e_LambdaExpr(self, n):
        caps = {}
        rec = None
        body = None
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl':
                rec = c
            if c.get('kind') == 'CompoundStmt':
                body = c
        op = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
        return Closure({'op': op, 'body': body, 'id': n.get('id')}, self.fr, caps)

    def e_InitListExpr(self, n):
        items = [self.rv(self.ev(c)) for c in n.get('inner', [])]
        return Rec({'__items__': items})

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def e_CXXDefaultArgExpr(self, n):
        return DefaultArg()

    def e_CXXNewExpr(self, n):
        return self.specs.new_object(self, n)

    def e_CXXDeleteExpr(self, n):
        return self.specs.delete_object(self, self.rv(self.ev(n['inner'][0])), n)

    def e_ArraySubscriptExpr(self, n):
        return self.specs.subscript(self, n)

    def e_CXXThrowExpr(self, n):
        raise Unsupported('throw')

    # ------------------------------------------------------------------ construction
    def ctor_args(self, n):
        while n.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr'):
            n = n['inner'][0]
        if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return [self.ev(c) for c in n.get('inner', []) if c.get('kind') != 'CXXDefaultArgExpr']
        return [self.ev(n)]

    def e_CXXConstructExpr(self, n):
        args = [self.ev(c) for c in n.get('inner', []) if c.get('kind') != 'CXXDefaultArgExpr']
        qt = n['type']['qualType']
        outer, self.ctor_type = self.ctor_type, n.get('ctorType', {}).get('qualType')
        try:
            return self.construct(qt, args)
        finally:
            self.ctor_type = outer

    ctor_type = None

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, qt, args):
        # iterators, closures and other verifier-level values copy through
        if len(args) == 1:
            a = args[0]
            v = a.loc if isinstance(a, Moved) else a
            pv = self.get(v) if isinstance(v, Loc) else v
            if isinstance(pv, (Iter, Closure, StrVal)):
                return pv
            if isinstance(pv, Rec) and '__items__' not in pv.fields:
                return pv
        st = strip_type(qt)
        sp = self.specs.construct(self, st, args)
        if sp is not NotImplemented:
            return sp
        t = self.ty(qt)
        return self.construct_t(t, args)

    def construct_t(self, t, args):
        if len(args) == 0:
            if isinstance(t, TStruct):
                return self.construct_struct(t, args)
            return self.default(t)
        if len(args) == 1:
            a = args[0]
            pv = self.get(a.loc) if isinstance(a, Moved) else (self.get(a) if isinstance(a, Loc) else a)
            if t.leaf() is not None:
                if isinstance(a, Moved):
                    self.reset_moved(a.loc)
                if isinstance(t, TFun):
                    return FunVal(self.to_tree(t, pv), t.alias)
                if isinstance(t, TPtr):
                    if pv is None:
                        return PtrVal(z3.IntVal(0), t)
                    if isinstance(pv, PtrVal):
                        return PtrVal(pv.a, t)
                    return PtrVal(self.to_tree(t, pv), t)
                return pv
            if isinstance(pv, V) and type(pv.t) == type(t):
                if isinstance(t, TStruct) and pv.t.name == t.name:
                    return self.construct_struct(t, args)
                if isinstance(t, TStruct) and self.ctor_type is not None and self.prog.record(t.name)[0] is not None:
                    return self.construct_struct(t, args)
                return self.rv(a)
            if isinstance(pv, Rec) and '__items__' in pv.fields and isinstance(t, TSeq):
                v = self.default(t)
                loc = self.temp(v)
                for x in pv.fields['__items__']:
                    self.seq_push_back(loc, x)
                return self.get(loc)
        if isinstance(t, TStruct):
            if t.name == 'pair' and len(args) == 2:
                return V(t, {'first': self.to_tree(t.fields['first'], args[0]), 'second': self.to_tree(t.fields['second'], args[1])})
            return self.construct_struct(t, args)
        raise Unsupported('construct %r from %d args' % (t, len(args)))

    @staticmethod
    def same_signature(a, b):
        return a.replace('hsmcpp::', '') == b.replace('hsmcpp::', '')

    def find_ctor(self, t, args):
        cands = []
        for d in self.prog.method_defs(t.name, t.name):
            ps = TU.params(d)
            nreq = len([p for p in ps if not any(c.get('kind') for c in p.get('inner', []) if 'Expr' in c.get('kind', '') or 'Literal' in c.get('kind', ''))])
            if nreq <= len(args) <= len(ps):
                cands.append(d)
        if self.ctor_type is not None:      # the overload the compiler chose
            exact = [d for d in cands if self.same_signature(d['type']['qualType'], self.ctor_type)]
            if len(exact) == 1:
                return exact[0]
        if len(args) == 1:
            a = args[0]
            pv = self.get(a.loc) if isinstance(a, Moved) else (self.get(a) if isinstance(a, Loc) else a)
            same = isinstance(pv, V) and isinstance(pv.t, TStruct) and pv.t.name == t.name
            out = []
            for d in cands:
                pt = TU.params(d)[0]['type']['qualType']
                is_self = strip_type(pt).split('::')[-1] == t.name
                if is_self != same:
                    continue
                if same and ('&&' in pt) != isinstance(a, Moved):
                    # rvalue temporaries bind to && too
                    if not (('&&' in pt) and not isinstance(a, (Loc, Moved))):
                        continue
                out.append(d)
            cands = out
        return cands[0] if cands else None

    def construct_struct(self, t, args):
        d = self.find_ctor(t, args)
        if d is None:
            if not args:
                return self.default(t)
            if len(args) == 1:
                v = self.rv(args[0])
                if isinstance(v, V) and v.t.name == t.name:
                    return v
            raise Unsupported('no constructor of %s for %d args' % (t.name, len(args)))
        loc = self.temp(self.default(t), t)
        self.res.inlined.add('%s::%s(ctor)' % (t.name, t.name))
        self.call_def(d, loc, args)
        return self.get(loc)

    def exec_ctor_inits(self, fn, this):
        for c in fn.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer':
                ai = c.get('anyInit')
                if c.get('delegatingInit') is not None:
                    self.put(this, self.rv(self.ev(c['inner'][0])))
                    continue
                if ai is None:
                    continue
                e = c['inner'][0]
                loc = this.f('f', ai['name'])
                t = self.loc_type(loc)
                if e.get('kind') == 'CXXDefaultInitExpr':
                    if self.specs.member_defaults:
                        self.put(loc, self.wrap(t, self.default_tree(self.loc_type(this))[ai['name']]))
                    continue
                if t is not None and getattr(t, 'name', '') == 'opaque':
                    continue
                if isinstance(t, TLock):
                    continue
                v = self.ev(e)
                if isinstance(v, DefaultArg):
                    continue
                self.put(loc, self.rv(v))

    # ------------------------------------------------------------------ calls
    def e_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member call through %s' % me.get('kind'))
        name = me['name']
        # (the end of a map is a fixed place: asking for it reads nothing that changes)
        if name in ('end', 'cend') and 'map<' in me['inner'][0].get('type', {}).get('qualType', ''):
            self.noaccess += 1
            try:
                obj = self.ev(me['inner'][0])
            finally:
                self.noaccess -= 1
        else:
            obj = self.ev(me['inner'][0])
        argn = n['inner'][1:]
        if isinstance(obj, Moved):
            obj = obj.loc
        if isinstance(obj, PtrTo):
            obj = obj.loc
        did = me.get('referencedMemberDecl')
        tu = self.fr.fn['_tu']
        # library object?
        tgt = obj
        if me.get('isArrow') and (z3.is_expr(obj) or isinstance(obj, Loc)):
            pv = self.rv(obj)
            pv = self.specs.deref_value(self, pv, me) if z3.is_expr(pv) else None
            obj = tgt = pv if pv is not None else obj
        if isinstance(obj, Loc):
            t, x = self.locate(obj)
            if t is None:
                tgt = x
        elif isinstance(obj, V):
            obj = self.temp(obj)
            t = self.loc_type(obj)
            tgt = obj
        elif z3.is_expr(obj) and z3.is_int(obj) and self.specs.canonical(me['inner'][0]['type']['qualType']) in self.specs.opaque:
            # (a value of a library type that is one opaque value)
            obj = self.temp(obj, self.ty(me['inner'][0]['type']['qualType']))
            t = self.loc_type(obj)
            tgt = obj
        else:
            t = None
        if isinstance(tgt, ULock):
            return tgt.method(self, name)
        r = self.lib_method(obj, tgt, t, name, argn, n, did, tu)
        if r is not NotImplemented:
            return r[0]
        if me.get('isArrow') and (isinstance(tgt, PtrVal) or isinstance(t, TPtr)):
            # pointer to a library container: dispatch on the object it points to
            pv = tgt if isinstance(tgt, PtrVal) else self.get(obj)
            pt = pv.t.pointee
            if isinstance(pt, str) and pv.a is not None and strip_type(pt).startswith('std::'):
                loc = self.pointee(pv)
                r = self.lib_method(loc, loc, self.loc_type(loc), name, argn, n, did, tu)
                if r is not NotImplemented:
                    return r[0]
        # method of a repo class
        if isinstance(tgt, PtrVal):
            rec = strip_type(tgt.t.pointee).split('::')[-1] if isinstance(tgt.t.pointee, str) else None
            if not me.get('isArrow'):
                raise Unsupported('method %s on smart pointer' % name)
        elif isinstance(t, TStruct):
            rec = t.name
        elif isinstance(t, TPtr):
            rec = strip_type(t.pointee).split('::')[-1]
            tgt = self.get(obj)
        elif isinstance(t, TLeaf):
            rec = t.name.split('::')[-1]
        else:
            r = self.specs.value_method(self, name, obj, argn, me)
            if r is not NotImplemented:
                return r
            raise Unsupported('call %s on %r' % (name, obj))
        decl = tu.decls.get(did)
        return self.call_method(rec, name, tgt if isinstance(tgt, (Loc, PtrVal)) else obj, argn, decl, did, tu, n)

    def call_method(self, rec, name, obj, argn, decl, did, tu, n):
        drec = tu.parent_record.get(did) or rec
        nparams = len(TU.params(decl)) if decl else len(argn)
        args = []
        params = TU.params(decl) if decl else []
        for i, a in enumerate(argn):
            if a.get('kind') == 'CXXDefaultArgExpr':
                if decl is None:
                    continue        # of a library function
                v = self.default_arg(decl, i, tu)
            else:
                v = self.ev(a)
            args.append(v)
        # external (interface) contract
        ext = self.specs.external_method(self, drec, name, obj, args, n)
        if ext is not NotImplemented:
            return ext
        ck = self.specs.contract_for(drec, name, nparams)
        # (a method of the derived class that names the base's version asks for that one)
        if ck is None and rec != drec and self.fr.fn.get('_rec') != rec:
            ck = self.specs.contract_for(rec, name, nparams)
        if isinstance(obj, PtrVal):
            obj = self.pointee(obj)
        if ck is not None:
            return self.call_contract(ck, decl, obj, args, tu)
        d = self.resolve_def(did, tu)
        if d is None:
            raise Unsupported('no body for %s::%s' % (drec, name))
        self.res.inlined.add('%s::%s' % (drec, name))
        return self.call_def(d, obj, args)

    def default_arg(self, decl, i, tu):
        ps = TU.params(decl)
        p = ps[i]
        inner = [c for c in p.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment') and c['kind'] != 'FullComment']
        if not inner:
            raise Unsupported('default argument')
        fr = Frame({'_tu': tu}, None, self.next_uid())
        self.frames.append(fr)
        try:
            return self.ev(inner[-1])
        finally:
            self.frames.pop()

    def call_def(self, d, this, args):
        """inline"""
        if len(self.frames) > 14:
            raise Unsupported('inlining too deep (%s)' % d.get('name'))
        ds = self.prog.method_defs(d.get('_rec'), d.get('name'))
        for i, x in enumerate(ds):
            if x is d:
                self.inl_defs[(d.get('_rec'), d.get('name'), i)] = d
        fr = Frame(d, this, self.next_uid(), None)
        ps = TU.params(d)
        full = list(args)
        for i in range(len(full), len(ps)):
            full.append(self.default_arg(d, i, d['_tu']))
        self.bind_params(fr, ps, full)
        self.frames.append(fr)
        try:
            self.exec_ctor_inits(d, this)
            self.exec(TU.body(d))
            ret = None
        except ReturnEx as e:
            ret = e.v
        finally:
            self.frames.pop()
        return ret

    def bind_params(self, fr, ps, args):
        for p, a in zip(ps, args):
            qt = p['type']['qualType']
            if p.get('name'):
                fr.names[p['name']] = p['id']
            if isinstance(a, DefaultArg):
                raise Unsupported('default argument')
            if '&' in qt:
                if isinstance(a, Moved):
                    a = a.loc
                if not isinstance(a, Loc):
                    if a is None:
                        a = self.default(self.ty(qt))
                    if isinstance(a, (V, Iter, Rec, PtrTo, Closure, StrVal)) and not (isinstance(a, Closure)):
                        a = self.temp(a)
                    elif isinstance(a, Closure):
                        t = self.ty(qt)
                        a = self.temp(FunVal(self.closure_handle(a), getattr(t, 'alias', '')), t)
                    else:
                        a = self.temp(a, self.ty_of_value(a, qt))
                fr.refs[p['id']] = a
            else:
                v = self.rv(a)
                root = ('v', fr.uid, p['id'])
                if isinstance(v, (Iter, Rec, PtrTo, StrVal)):
                    self.store[root], self.rtype[root] = v, None
                elif isinstance(v, V):
                    self.store[root], self.rtype[root] = v, v.t
                else:
                    t = self.ty(qt)
                    self.store[root], self.rtype[root] = V(t, self.to_tree(t, v)), t

    def call_contract(self, ck, decl, obj, args, tu):
        spec = self.specs.contracts[ck]
        self.res.used.add(ck)
        params = TU.params(decl)
        # bind argument roots
        argroots = {}
        refs = []
        for i, (p, a) in enumerate(zip(params, args)):
            qt = p['type']['qualType']
            if isinstance(a, Moved):
                a = a.loc if '&' in qt else self.rv(a)
            if isinstance(a, Loc) and '&' in qt:
                argroots[p.get('name', '_p%d' % i)] = a
                argroots[i] = a
            else:
                v = self.rv(a)
                if isinstance(v, (Closure,)):
                    t = self.ty(qt)
                    v = FunVal(self.closure_handle(v), t.alias)
                if v is None:
                    t = self.ty(qt)
                    v = self.default(t)
                t = self.ty(qt)
                loc = self.temp(v, t)
                argroots[p.get('name', '_p%d' % i)] = loc
                argroots[i] = loc
        if self.pure:
            if spec.defn is None:
                raise Unsupported('call of %s in pure context' % ck)
            pre = Snap(self, self.store, self.fr, this=obj)
            return spec.defn(Ctx(self, spec, pre, pre, argroots, None))
        pre = Snap(self, dict(self.store), self.fr, this=obj)
        cctx = Ctx(self, spec, pre, pre, argroots, None)
        if spec.use_inv:
            for lab, f in self.specs.invariant(cctx):
                self.oblige('call-inv:%s:%s' % (ck.split('::')[-1], lab), f)
        for lab, f in spec.requires(cctx):
            self.oblige('call-pre:%s:%s' % (ck.split('::')[-1], lab), f)
        # frame
        for m in spec.modifies:
            if m.startswith('ghost:'):
                r = ('ghost', m[6:])
                self.store[r] = self.fresh(self.rtype[r], 'c_' + m[6:])
            elif m.startswith('heap:'):
                r = ('heap', m[5:])
                if r not in self.store:
                    self.pointee(PtrVal(z3.IntVal(1), TPtr(m[5:])))
                hv = self.store[r]
                self.store[r] = V(hv.t, fresh_tree(shape_heap(hv.t.val), 'heap_' + m[5:]))
                for f in wf_heap(hv.t.val, self.store[r].tree):
                    self.assume(f)
            elif m in argroots or (m.startswith('#') and int(m[1:]) in argroots):
                loc = argroots[m] if m in argroots else argroots[int(m[1:])]
                t = self.loc_type(loc)
                self.put(loc, self.fresh(t, 'c_' + str(m)) if t.leaf() is None else self.wrap(t, self.fresh(t, 'c_' + str(m)).tree))
            else:
                loc = obj.f('f', m)
                t = self.loc_type(loc)
                self.nohook += 1
                self.put(loc, self.fresh(t, 'c_' + m) if t.leaf() is None else self.wrap(t, self.fresh(t, 'c_' + m).tree))
                self.nohook -= 1
        rt = decl['type']['qualType'].split('(')[0].strip()
        ret = None
        if rt != 'void':
            if spec.defn is not None:
                ret = spec.defn(cctx)
            elif spec.ret_ref is not None:
                ret = spec.ret_ref(self, obj)
            else:
                t = self.ty(rt)
                ret = self.fresh(t, 'r_' + ck.split('::')[-1])
                ret = self.wrap(t, ret.tree)
        post = Snap(self, self.store, self.fr, this=obj)
        ctx = Ctx(self, spec, pre, post, argroots, ret)
        if spec.use_inv:
            for lab, f in self.specs.invariant(ctx):
                self.assume(f)
        for lab, f in spec.ensures(ctx):
            self.assume(f)
        hook = self.specs.contracts[self.cur_key].after.get(ck.split('::', 1)[-1])
        if hook is not None:        # ghost code of the function under verification, behind this call
            hook(self, Ctx(self, None, self.pre, Snap(self, self.store, self.fr), self.args, None), ctx)
        return ret

    def e_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get('argType') or (n['inner'][0]['type'] if n.get('inner') else {})
        size = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
                'long': 8, 'unsigned long': 8, 'double': 8}.get(at.get('desugaredQualType', at.get('qualType')))
        if n.get('name') == 'sizeof' and size:
            return z3.IntVal(size)
        raise Unsupported('sizeof %s' % at.get('qualType'))

    def e_CXXOperatorCallExpr(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        op = c['referencedDecl']['name']
        argn = n['inner'][1:]
        a0 = self.ev(argn[0])
        if op == 'operator()':
            return self.call_callable(a0, [self.ev(x) for x in argn[1:]], argn[0], n)
        v0 = self.get(a0.loc) if isinstance(a0, Moved) else (self.get(a0) if isinstance(a0, Loc) else a0)
        if op == 'operator->':
            if isinstance(v0, Iter):
                return PtrTo(self.deref(v0))
            if isinstance(v0, PtrVal):
                return v0
            if isinstance(v0, PtrTo):
                return v0
        elif op == 'operator*':
            if isinstance(v0, Iter):
                return self.deref(v0)
            if isinstance(v0, PtrVal):
                r = self.pointee(v0)
                if not self.pure:
                    self.specs.on_deref(self, r)
                return r
        elif op in ('operator++', 'operator--') and isinstance(v0, Iter):
            new = self.iter_step(v0, 1 if op == 'operator++' else -1)
            self.put(a0, new)
            return v0 if len(argn) > 1 else a0
        elif op in ('operator==', 'operator!='):
            a1 = self.ev(argn[1])
            d = self.resolve_def(c['referencedDecl']['id'], self.fr.fn['_tu'])
            r = None
            if d is not None and isinstance(v0, V):
                sr = self.specs.external_method(self, d.get('_rec'), op, a0, [a1], n)
                if sr is not NotImplemented:
                    return sr
                r = self.to_bool(self.call_def(d, a0, [a1]))
                return r
            sp = self.specs.stored_operator(self, op, a0, a1, n)
            if sp is not NotImplemented:
                return sp
            e = self.eq(a0, a1)
            return e if op == 'operator==' else z3.Not(e)
        elif op == 'operator=':
            return self.op_assign(a0, argn[1], c, n)
        elif op == 'operator[]':
            return self.op_index(a0, argn[1])
        elif op in ('operator-', 'operator+') and isinstance(v0, Iter):
            a1 = self.rv(self.ev(argn[1]))
            if isinstance(a1, Iter):
                return v0.pos - a1.pos
            s = a1 if op == 'operator+' else -a1
            return Iter(v0.loc, v0.kind, v0.pos + (-s if v0.rev else s), None, v0.rev)
        elif op in ('operator<', 'operator>', 'operator<=', 'operator>='):
            a1 = self.ev(argn[1])
            d = self.resolve_def(c['referencedDecl']['id'], self.fr.fn['_tu'])
            if d is not None and isinstance(v0, V):
                return self.to_bool(self.call_def(d, a0, [a1]))
            sp = self.specs.stored_operator(self, op, a0, a1, n)
            if sp is not NotImplemented:
                return sp
            a1 = self.rv(a1)
            sp = self.specs.compare(self, op, v0, a1, n)
            if sp is not NotImplemented:
                return sp
        sp = self.specs.operator_call(self, op, a0, argn[1:], n)
        if sp is not NotImplemented:
            return sp
        raise Unsupported('operator %s on %r' % (op, v0))

    def op_assign(self, a0, argnode, c, n):
        a1 = self.ev(argnode)
        if isinstance(a0, Loc):
            t, x = self.locate(a0)
            if isinstance(t, TStruct) and t.name != 'pair':
                # user-defined operator= ?
                pv = self.get(a1.loc) if isinstance(a1, Moved) else (self.get(a1) if isinstance(a1, Loc) else a1)
                want_move = isinstance(a1, Moved) or not isinstance(a1, Loc)
                chosen = self.resolve_def(c['referencedDecl']['id'], self.fr.fn['_tu'])
                if chosen is not None and chosen.get('_rec') == t.name:
                    ck = self.specs.contract_for(t.name, 'operator=', 1)
                    if not isinstance(a1, (Loc, Moved)):
                        a1 = self.temp(a1, None if isinstance(a1, (V, Iter, Rec, PtrTo)) else self.ty_of_value(a1, TU.params(chosen)[0]['type']['qualType']))
                    self.res.inlined.add('%s::operator=' % t.name)
                    self.call_def(chosen, a0, [a1])
                    return a0
                for d in self.prog.method_defs(t.name, 'operator='):
                    pt = TU.params(d)[0]['type']['qualType']
                    if strip_type(pt).split('::')[-1] != t.name:
                        continue
                    if ('&&' in pt) == want_move:
                        self.res.inlined.add('%s::operator=' % t.name)
                        if not isinstance(a1, (Loc, Moved)):
                            a1 = self.temp(a1)
                        self.call_def(d, a0, [a1])
                        return a0
            if t is None:
                self.put(a0, self.rv(a1))
                return a0
            if isinstance(a1, Moved) and a1.loc.key() == a0.key():
                return a0
            v = self.rv(a1)
            if isinstance(v, DefaultArg):
                raise Unsupported('assign default')
            self.put(a0, v if v is not None else self.wrap(t, z3.IntVal(0)))
            return a0
        raise Unsupported('operator= on %r' % (a0,))

    def op_index(self, a0, idxnode):
        t, x = self.locate(a0)
        i = self.rv(self.ev(idxnode))
        if isinstance(t, TSeq):
            p = x['lo'] + i
            self.oblige('safe:index-in-range', z3.And(0 <= i, p < x['hi']))
            return a0.f('i', p)
        if isinstance(t, TMap):
            k = self.key_of(t.key, i)
            # inserts a default value when absent
            present = z3.Select(x['dom'], k)
            dflt = self.zero_tree(t.val)
            newd = tmap(lambda arr, dv: z3.If(present, arr, z3.Store(arr, k, dv)), x['d'], dflt)
            self.put(a0, V(t, {'dom': z3.Store(x['dom'], k, z3.BoolVal(True)), 'd': newd}))
            return a0.f('k', k)
        r = self.specs.index(self, t, x, i)
        if r is not NotImplemented:
            return r
        raise Unsupported('[] on %r' % t)

    def zero_tree(self, t):
        if isinstance(t, TStruct):
            return self.default_tree(t)
        return const_tree(shape(t))

    def key_of(self, kt, v):
        v = self.rv(v)
        if isinstance(v, V) and v.t.name == 'pair':
            return PairS.pair(v.tree['first'], v.tree['second'])
        if isinstance(v, Rec):
            return PairS.pair(self.rv(v.fields['first']), self.rv(v.fields['second']))
        return v

    def call_callable(self, f, args, node, n):
        fv = self.get(f.loc) if isinstance(f, Moved) else (self.get(f) if isinstance(f, Loc) else f)
        if isinstance(fv, Closure):
            return self.call_closure(fv, args)
        if isinstance(fv, FunVal):
            if fv.h.get_id() in self.closures and self.closures[fv.h.get_id()][0].eq(fv.h):
                return self.call_closure(self.closures[fv.h.get_id()][1], args)
            if not self.pure:
                self.oblige('safe:callback-not-null', fv.h != 0)
            rt = n['type']['qualType']
            alias = fv.alias
            m = strip_type(node['type']['qualType'])
            return self.specs.callback(self, fv.h, alias, args, rt, m)
        raise Unsupported('call of %r' % (fv,))

    def call_closure(self, c, args):
        op = c.node['op']
        fr = Frame({'_tu': c.frame.fn['_tu'], 'type': op['type'], 'name': 'lambda'}, None, self.next_uid(), c.frame)
        self.bind_params(fr, TU.params(op), args)
        self.frames.append(fr)
        try:
            self.exec(c.node['body'])
            return None
        except ReturnEx as e:
            return self.rv(e.v)
        finally:
            self.frames.pop()

    def e_CallExpr(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c.get('kind') == 'DeclRefExpr':
            name = c['referencedDecl'].get('name')
            did = c['referencedDecl'].get('id')
            argn = n['inner'][1:]
            r = self.lib_function(name, argn, n)
            if r is not NotImplemented:
                return r[0]
            tu = self.fr.fn['_tu']
            decl = tu.decls.get(did)
            if decl is not None:
                rec = tu.parent_record.get(did)
                return self.call_method(rec, name, None, argn, decl, did, tu, n)
            ext = self.specs.external_function(self, name, argn, n)
            if ext is not NotImplemented:
                return ext
            raise Unsupported('call of %s' % name)
        raise Unsupported('call through %s' % c.get('kind'))

    # library: implemented in stl.py
    from stl import (lib_method, lib_function, iter_eq, iter_end, iter_begin, iter_step, deref, map_begin, map_next,
                     seq_push_back, seq_push_front, seq_pop_front, seq_remove, seq_erase, find_algo, construct_elem,
                     seq_like, multi_insert, seq_append, deref_pure)
    from stl import _reslice as _seq_reslice


class DefaultArg:
    pass


class THeap(TMap):
    def __init__(self, valt):
        self.key, self.val = TINT, valt


def shape_heap(t):
    return {'d': lift_shape(shape(t), IntS)}


def wf_heap(t, tree):
    i = z3.Const(fresh_name('ha'), IntS)
    return wf(t, t_select(tree['d'], i), (i,), 1)


def as_bool01(e):
    """If(b,1,0) -> b ; numerals 0/1 -> bool"""
    if z3.is_int_value(e):
        if e.as_long() == 1:
            return z3.BoolVal(True)
        if e.as_long() == 0:
            return z3.BoolVal(False)
        return None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a, b = e.arg(1), e.arg(2)
        if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0:
            return e.arg(0)
    return None


def wrap_int(v, rng):
    size = rng[1] - rng[0] + 1
    if z3.is_int_value(v):
        x = (v.as_long() - rng[0]) % size + rng[0]
        return z3.IntVal(x)
    return z3.If(z3.And(rng[0] <= v, v <= rng[1]), v, (v - rng[0]) % size + rng[0])


_casts = {}


def cast_int(v, rng):
    """integer conversion to a type of range rng (modular)"""
    if z3.is_int_value(v):
        return wrap_int(v, rng)
    f = _casts.get(rng)
    if f is None:
        f = _casts[rng] = z3.Function('cast[%d,%d]' % rng, IntS, IntS)
    return f(v)


def cast_axioms():
    x = z3.Int('cx')
    return [forall([x], f(x) == wrap_int(x, rng), patterns=[f(x)]) for rng, f in _casts.items()]


for _r in INT_RANGES.values():
    if _r is None or None in _r:
        continue
    cast_int(z3.Int('cx'), _r)


class SeqView:
    def __init__(self, v):
        self.v = v
        self.t, self.tr = v.t, v.tree
        self.lo, self.hi = self.tr['lo'], self.tr['hi']
        self.n = self.hi - self.lo

    def at(self, i, f=None):
        x = self.tr['d']
        if f is not None:
            for p in f.split('.'):
                x = x[p]
        return t_select(x, i)

    def has(self, x):
        return z3.Select(self.tr['S'], x)

    def pos(self, x):
        return z3.Select(self.tr['W'], x)

    def inr(self, i):
        return z3.And(self.lo <= i, i < self.hi)

    def same(self, o):
        return z3.And([a == b for a, b in zip(t_leaves(self.tr), t_leaves(o.tr))])


class MapView:
    def __init__(self, v):
        self.tr, self.t = v.tree, v.t

    def has(self, k):
        return z3.Select(self.tr['dom'], k)

    def at(self, k, f=None):
        x = self.tr['d']
        if f is not None:
            for p in f.split('.'):
                x = x[p]
        return t_select(x, k)

    def same(self, o):
        return z3.And([a == b for a, b in zip(t_leaves(self.tr), t_leaves(o.tr))])


class MultiView:
    def __init__(self, v):
        self.tr, self.t = v.tree, v.t
        self.n = self.tr['n']

    def lo(self, k):
        return z3.Select(self.tr['lo'], k)

    def hi(self, k):
        return z3.Select(self.tr['hi'], k)

    def key(self, i):
        return z3.Select(self.tr['keys'], i)

    def at(self, i, f=None):
        x = self.tr['d']
        if f is not None:
            for p in f.split('.'):
                x = x[p]
        return t_select(x, i)

    def same(self, o):
        return z3.And([a == b for a, b in zip(t_leaves(self.tr), t_leaves(o.tr))])


def view(v):
    if isinstance(v, V):
        if isinstance(v.t, TSeq):
            return SeqView(v)
        if isinstance(v.t, (TMulti,)):
            return MultiView(v)
        if isinstance(v.t, (TMap, THeap)):
            return MapView(v)
        if v.t.leaf() is not None:
            return v.tree
        return v
    if isinstance(v, FunVal):
        return v.h
    if isinstance(v, PtrVal):
        return v.a
    return v


class Snap:
    """a state seen by specifications"""

    def __init__(self, eng, store, fr, this=None):
        self.eng, self.store, self.fr = eng, store, fr
        self._this = this if this is not None else (fr.this if fr else None)

    def at(self, loc):
        t, x = self.eng.locate_in(self.store[loc.root], loc.path)
        return x if t is None else self.eng.wrap(t, x)

    def field(self, name):
        loc = self._this.f('f', name)
        if name not in self.store[loc.root].t.fields if not self._this.path else False:
            raise AnnotationMismatch('no field ' + name)
        return view(self.at(loc))

    def ghost(self, name):
        return view(self.store[('ghost', name)])

    def heap(self, tn):
        r = ('heap', tn)
        if r not in self.store:
            self.eng.pointee(PtrVal(z3.IntVal(1), TPtr(tn)), 'spec') if False else self.eng.ensure_heap(tn)
            if r not in self.store:
                self.store[r] = self.eng.pre.store[r]
        return view(self.store[r])

    def var(self, name):
        fr = self.fr
        for f in [fr] + list(reversed(self.eng.frames)):
            if f is None:
                continue
            did = f.names.get(name)
            if did is None:
                continue
            if did in f.refs:
                return view(self.at(f.refs[did]))
            r = ('v', f.uid, did)
            if r in self.store:
                x = self.store[r]
                if isinstance(x, V):
                    return view(self.eng.wrap(x.t, x.tree))
                return x
        raise AnnotationMismatch('no local ' + name)


def _ensure_heap(self, tn):
    root = ('heap', tn)
    if root not in self.store:
        t = self.ty(tn)
        self.store[root] = V(THeap(t), fresh_tree(shape_heap(t), 'heap_' + tn))
        self.rtype[root] = self.store[root].t
        for f in wf_heap(t, self.store[root].tree):
            self.assume(f)
        self.pre.store[root] = self.store[root]


Engine.ensure_heap = _ensure_heap


class ULock:
    """UniqueLock: owns its mutex until unlock() or the end of its scope"""
    def __init__(self, mutex):
        self.mutex = mutex.loc if isinstance(mutex, Moved) else mutex
        self.owns = False

    def lock(self, eng):
        t, x = eng.locate(self.mutex)
        eng.oblige('safe:' + eng.specs.lock_label + 'lock-not-already-held', z3.Not(x['held']))
        eng.specs.on_acquire(eng, self.mutex)
        eng.put(self.mutex, V(t, {'held': z3.BoolVal(True)}))
        self.owns = True

    def release(self, eng):
        if self.owns:
            t, _ = eng.locate(self.mutex)
            eng.specs.on_release(eng, self.mutex)
            eng.put(self.mutex, V(t, {'held': z3.BoolVal(False)}))
            self.owns = False

    def method(self, eng, name):
        if name == 'unlock':
            self.release(eng)       # the wrapper ignores it without ownership
            return None
        if name == 'lock':
            self.lock(eng)
            return None
        if name in ('owns_lock', 'operator bool'):
            return z3.BoolVal(self.owns)
        raise Unsupported('UniqueLock::' + name)


class Ctx:
    def __init__(self, eng, spec, pre, post, args, ret):
        self.eng, self.spec, self.pre, self.post, self.args = eng, spec, pre, post, args
        self._ret = ret
        self.entry = None
        self.cursor_root = None
        self.havoc = {}

    @property
    def now(self):
        return self.post

    def arg(self, key, snap=None):
        r = self.args.get(key)
        if r is None and isinstance(key, str):
            raise AnnotationMismatch('no parameter ' + key)
        s = snap or self.pre
        if isinstance(r, Loc):
            return view(s.at(r))
        x = s.store[r]
        return view(self.eng.wrap(x.t, x.tree)) if isinstance(x, V) else x

    def argp(self, key):
        return self.arg(key, self.post)

    @property
    def ret(self):
        r = self._ret
        if isinstance(r, Loc):
            r = self.post.at(r)
        return view(r)

    @property
    def retloc(self):
        return self._ret

    def F(self, name):
        return self.post.field(name)

    def F0(self, name):
        return self.pre.field(name)

    def G(self, name):
        return self.post.ghost(name)

    def G0(self, name):
        return self.pre.ghost(name)

    def L(self, name):
        return self.post.var(name)

    # loop cursor
    @property
    def cursor(self):
        st = self.post.store
        if self.cursor_root is not None:
            return st[self.cursor_root]
        c = [r for r in self.havoc if r != '__first__' and isinstance(st.get(r), Iter)]
        if len(c) == 1:
            return st[c[0]]
        if not c:
            # before the havoc set is known: any iterator declared in this frame, most recent first
            c = [r for r in st if r[0] == 'v' and r[1] == self.eng.fr.uid and isinstance(st[r], Iter)]
            if c:
                return st[c[-1]]
        raise AnnotationMismatch('loop cursor')

    @property
    def pos(self):
        return self.cursor.pos


def _spawn(cmd):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)


def portfolio(files, secs):
    """external solvers on SMT-LIB files [(variant, path)], first `unsat` wins -> (backend or None, answers)"""
    cmds = {}
    for v, path in files:
        cmds['z3-4.8' + v] = ['z3', 'smt.mbqi=false', 'auto_config=false', '-T:%d' % secs, path]
        if v in ('', '/f2'):
            cmds['cvc5' + v] = ['cvc5', '--tlimit=%d' % (secs * 1000), path]
        if v == '':
            cmds['z3-4.8/s7'] = ['z3', 'smt.mbqi=false', 'auto_config=false', 'smt.random_seed=7', 'smt.arith.solver=2', '-T:%d' % secs, path]
    procs = {k: _spawn(c) for k, c in cmds.items()}
    ans = {}
    deadline = time.time() + secs + 5
    won = None
    while procs and won is None and time.time() < deadline:
        for k, p in list(procs.items()):
            if p.poll() is None:
                continue
            out = p.stdout.read().decode(errors='replace').strip().split('\n')[0][:60]
            ans[k] = out
            del procs[k]
            if out == 'unsat':
                won = k
        if procs and won is None:
            time.sleep(0.01)
    for p in procs.values():
        p.kill()
        p.wait()
    return won, ans


_syms = {}


def symbols(f):
    """array constants and specification functions of a formula; (symbols, has quantifier)"""
    r = _syms.get(f.get_id())
    if r is not None:
        return r[1], r[2]
    out, quant = set(), False
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            quant = True
            todo.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or x.sort().kind() == z3.Z3_ARRAY_SORT):
                out.add(d.name())
            todo.extend(x.children())
    _syms[f.get_id()] = (f, out, quant)
    return out, quant


def filtered(pc, goal, ratio, step):
    """hypotheses relevant to the goal: the ground ones and the quantified ones over the goal's symbols"""
    G = set(symbols(goal)[0])
    qs = []
    for h in pc:
        sy, q = symbols(h)
        if q:
            qs.append((h, sy))
        else:
            if z3.is_eq(h) and z3.is_const(h.arg(0)) and h.arg(0).decl().name() in G:
                G |= sy
    # definitions of named intermediate values, latest first
    for h in reversed(pc):
        sy, q = symbols(h)
        if not q and z3.is_eq(h) and z3.is_const(h.arg(0)) and h.arg(0).decl().name() in G:
            G |= sy
    rel = lambda sy: not sy or len(sy & G) >= ratio * len(sy)
    if step:
        add = set()
        for h, sy in qs:
            if rel(sy):
                add |= sy
        G |= add
        keep = {h.get_id() for h, sy in qs if sy <= G}
    else:
        keep = {h.get_id() for h, sy in qs if rel(sy)}
    drop = {h.get_id() for h, sy in qs} - keep
    return [h for h in pc if h.get_id() not in drop], len(drop)


def has_quantifier(g):
    todo, seen = [g], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def split_goal(goal, hyps=(), out=None):
    """goal -> [(hypotheses, leaf goal)] (skolemised, conjunctions separated)"""
    if out is None:
        out = []
    if z3.is_and(goal):
        ch = goal.children()
        flat = [g for g in ch if not has_quantifier(g)] if len(ch) < 40 else []
        seen = tuple(g == z3.Const(fresh_name('tb'), BoolS) for g in flat)
        for g in ch:
            split_goal(g, hyps + seen, out)
    elif z3.is_implies(goal):
        split_goal(goal.arg(1), hyps + (goal.arg(0),), out)
    elif z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const(fresh_name('sk'), goal.var_sort(i)) for i in range(goal.num_vars())]
        for i in range(goal.num_patterns()):        # keep the trigger terms of the goal visible
            for t in z3.substitute_vars(goal.pattern(i), *reversed(vs)).children():
                hyps += (t == z3.Const(fresh_name('tt'), t.sort()),)
        split_goal(z3.substitute_vars(goal.body(), *reversed(vs)), hyps, out)
    elif z3.is_app_of(goal, z3.Z3_OP_ITE) and goal.sort() == BoolS:
        split_goal(goal.arg(1), hyps + (goal.arg(0),), out)
        split_goal(goal.arg(2), hyps + (z3.Not(goal.arg(0)),), out)
    else:
        out.append((hyps, goal))
    return out


class Job:
    """one obligation"""
    __slots__ = ('key', 'label', 'pc', 'goal', 'timeout', 'path', 'flag', 'pool')

    def __init__(self, *a):
        self.key, self.label, self.pc, self.goal, self.timeout, self.path = a

    def run(self):
        t0 = time.time()
        fl = self.pool.flags
        if fl[0] or fl[self.flag]:      # it failed with full effort on another path already
            st, detail, be = prove1(self.pc, self.goal, 500, 500)
        else:
            st, detail, be = prove(self.pc, self.goal, self.timeout)
            if st != 'discharged':
                fl[self.flag] = 1
                if self.pool.decisive(self.label):
                    fl[0] = 1
        if st != 'discharged':
            if os.environ.get('VC_DUMP'):
                sv = z3.Solver()
                sv.add(*self.pc)
                sv.add(z3.Not(self.goal))
                nm = '%s-%s-%s' % (self.key.split('::')[-1].replace('/', '_'), self.label.replace(':', '_').replace('/', '_'), self.path)
                with open(os.environ['VC_DUMP'] + '/%s.smt2' % nm[:200], 'w') as fh:
                    fh.write(sv.to_smt2())
            if os.environ.get('VC_TRACE'):
                print('   FAIL', self.key, self.label, 'decisions', self.path, detail[:200])
                if os.environ.get('VC_TRACE') == '2':
                    print('   goal', self.goal)
        return self.label, (st, time.time() - t0, detail, be)


class Pool:
    """The obligations of one function.  They are proved by forks of the process that generates them, as many as `sem` has
    room for, and by that process itself once the function is executed."""

    def __init__(self, sem, width=8, held=None, decisive=None):
        self.sem, self.width, self.held = sem, width, held       # held: number of forks, for whoever ends this process
        # which labels failed, seen by all forks; once a decisive one failed the rest is tried briefly only
        self.decisive = decisive or (lambda label: False)
        self.flags, self.ids = mmap.mmap(-1, 65536), {}
        self.restart()

    def restart(self):
        for pid, fd, _ in getattr(self, 'kids', []):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(fd)
            os.waitpid(pid, 0)
            self.free()
        self.queue, self.kids, self.done, self.children_s = [], [], [], 0.0
        self.flags[:] = bytes(len(self.flags))

    def free(self):
        self.sem.release()
        if self.held is not None:
            self.held.value -= 1

    def add(self, job):
        job.pool = self
        job.flag = self.ids.setdefault(job.label, 1 + len(self.ids) % 65000)
        self.queue.append(job)
        if self.sem is not None and len(self.queue) >= 16:
            self.reap(False)
            self.spawn(len(self.queue))

    def spawn(self, n):
        """hand the last n obligations to a fork if one may run"""
        if self.sem is None or len(self.kids) >= self.width - 1 or not self.sem.acquire(block=False):
            return False
        if self.held is not None:
            self.held.value += 1
        jobs = self.queue[-n:]
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                data = pickle.dumps([j.run() for j in jobs])
                with os.fdopen(w, 'wb') as fh:
                    fh.write(data)
                sys.stdout.flush()
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        del self.queue[-n:]
        self.kids.append((pid, r, jobs))
        return True

    def reap(self, block):
        """collect the results of forks that are through"""
        while self.kids:
            ready, _, _ = sel.select([k[1] for k in self.kids], [], [], None if block else 0)
            if not ready:
                return
            for k in [k for k in self.kids if k[1] in ready]:
                self.kids.remove(k)
                with os.fdopen(k[1], 'rb') as fh:
                    data = fh.read()
                os.waitpid(k[0], 0)
                self.free()
                if data:
                    self.done += pickle.loads(data)
                    self.children_s += sum(x[1][1] for x in self.done[-len(k[2]):])
                else:       # the fork died: prove them here
                    self.queue += k[2]
            if block:
                return

    def finish(self, res):
        while self.queue or self.kids:
            self.reap(False)
            while len(self.queue) > 1 and self.spawn(max(1, len(self.queue) // (2 * self.width))):
                pass
            if self.queue:
                self.done.append(self.queue.pop(0).run())
            else:
                self.reap(True)
        for label, x in self.done:
            res.obls.setdefault(label, []).append(x)
            res.smt_time += x[1]


def prove(pc, goal, timeout, quick=2000):
    st, d, be = prove1(pc, goal, quick, quick)
    if st == 'discharged':
        return st, d, be
    leaves = split_goal(goal)
    if len(leaves) == 1:
        return prove1(pc, goal, timeout, 1)
    deadline = time.time() + 2 * timeout / 1000
    bes = set()
    for h, g in leaves:
        st, d, be = prove1(list(pc) + list(h), g, timeout, min(quick, 1000))
        bes.add(be)
        if st != 'discharged' or time.time() > deadline:
            return 'failed', d + ' [leaf %s]' % re.sub(r'\s+', ' ', str(g))[:120], be
    return 'discharged', '', sorted(bes)[-1]


def _check(pc, goal, ms):
    s = z3.SimpleSolver()
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('timeout', ms)
    s.add(*pc)
    s.add(z3.Not(goal))
    return s.check(), s


def _check_simplified(pc, goal, ms):
    """the same after equalities with values were propagated"""
    s = z3.Then('simplify', 'propagate-values', 'smt').solver()
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('timeout', ms)
    s.add(*pc)
    s.add(z3.Not(goal))
    return s.check()


def prove1(pc, goal, timeout, quick=2000):
    """-> (status, detail, backend).  Quick in-process attempts, then an external portfolio."""
    first = min(quick, 700)
    r, s = _check(pc, goal, first)
    if r == z3.unsat:
        return 'discharged', '', 'z3'
    if _check_simplified(pc, goal, quick) == z3.unsat:
        return 'discharged', '', 'z3/pv'
    if first < quick:
        r, s = _check(pc, goal, quick)
        if r == z3.unsat:
            return 'discharged', '', 'z3'
    if timeout <= quick:
        return 'failed', 'z3: %s' % r, 'z3'
    solvers = [('', s)]
    for v, ratio, step in (('/f1', 0.6, False), ('/f2', 0.4, False), ('/f3', 0.6, True)):
        sub, n = filtered(pc, goal, ratio, step)
        if n:
            r1, s1 = _check(sub, goal, 700)
            if r1 == z3.unsat:
                return 'discharged', '', 'z3' + v
            solvers.append((v, s1))
    files = []
    try:
        for v, sv in solvers:
            fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vc-', dir=os.environ.get('VC_TMP'))
            with os.fdopen(fd, 'w') as fh:
                fh.write('(set-logic ALL)\n' + sv.to_smt2())
            files.append((v, path))
        won, ans = portfolio(files, max(1, timeout // 1000))
        if won:
            return 'discharged', '', won
        detail = 'z3(api): %s; %s' % (r, ', '.join('%s: %s' % kv for kv in sorted(ans.items())))
        return 'failed', detail, 'portfolio'
    finally:
        for _, path in files:
            os.unlink(path)
