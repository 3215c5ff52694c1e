"""Types and symbolic values. A value is V(type, tree); a tree is a z3 term (leaf) or a dict of trees."""
import z3

IntS, BoolS = z3.IntSort(), z3.BoolSort()
_pair = z3.Datatype('Pair')
_pair.declare('pair', ('fst', IntS), ('snd', IntS))
PairS = _pair.create()


def _bad(e):
    if z3.is_quantifier(e):
        return True
    if z3.is_app(e):
        if e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE):
            return True
        return any(_bad(c) for c in e.children())
    return False


_fa = z3.ForAll


def forall(vs, body, patterns=()):
    """ForAll that drops triggers the solver cannot use"""
    ps = []
    for p in patterns:
        if isinstance(p, z3.PatternRef):
            ps.append(p)
        elif not _bad(p):
            ps.append(p)
    try:
        return _fa(vs, body, patterns=ps) if ps else _fa(vs, body)
    except z3.Z3Exception:
        return _fa(vs, body)


class T:
    def leaf(self):
        return None


class TLeaf(T):
    def __init__(self, name, sort, rng=None, cppwidth=None):
        self.name, self._s, self.rng = name, sort, rng

    def leaf(self):
        return self._s

    def __repr__(self):
        return self.name


INT_RANGES = {
    'bool': None, 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
    'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1),
    'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
    'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
}
ALIASES = {'int8_t': 'signed char', 'uint8_t': 'unsigned char', 'int16_t': 'short', 'uint16_t': 'unsigned short',
           'int32_t': 'int', 'uint32_t': 'unsigned int', 'int64_t': 'long', 'uint64_t': 'unsigned long',
           'size_t': 'unsigned long', 'std::size_t': 'unsigned long', 'unsigned': 'unsigned int', 'size_type': 'unsigned long',
           'std::atomic_bool': 'bool', 'std::atomic<bool>': 'bool'}


class TInt(TLeaf):
    def __init__(self, name, rng=None):
        super().__init__(name, IntS, rng)


TBOOL = TLeaf('bool', BoolS)
TINT = TInt('int', INT_RANGES['int'])


class TFun(TLeaf):
    def __init__(self, alias):
        super().__init__('fun:' + alias, IntS)
        self.alias = alias


class TPtr(TLeaf):
    """shared/weak/raw pointer; address 0 is null"""

    def __init__(self, pointee, kind='shared'):
        super().__init__('ptr:%r' % (pointee,), IntS)
        self.pointee, self.kind = pointee, kind


class TStruct(T):
    def __init__(self, name, fields, opaque=False):
        self.name, self.fields = name, fields

    def __repr__(self):
        return 'struct ' + self.name


class TSeq(T):
    def __init__(self, elem, kind='list'):
        self.elem, self.kind = elem, kind

    @property
    def indexed(self):
        return self.elem.leaf() is not None and self.elem.leaf() == IntS

    def __repr__(self):
        return '%s<%r>' % (self.kind, self.elem)


class TMap(T):
    def __init__(self, key, val):
        self.key, self.val = key, val

    def __repr__(self):
        return 'map<%r,%r>' % (self.key, self.val)


class TMulti(T):
    def __init__(self, key, val):
        self.key, self.val = key, val

    def __repr__(self):
        return 'multimap<%r,%r>' % (self.key, self.val)


class TLock(T):
    """Mutex-like object: ghost 'held' flag"""
    name = 'Mutex'

    def __repr__(self):
        return 'Mutex'


def key_sort(t):
    if t.leaf() is not None:
        return t.leaf()
    if isinstance(t, TStruct) and t.name == 'pair':
        return PairS
    raise NotImplementedError('key type %r' % t)


def shape(t):
    s = t.leaf()
    if s is not None:
        return s
    if isinstance(t, TStruct):
        return {f: shape(ft) for f, ft in t.fields.items()}
    if isinstance(t, TSeq):
        d = {'lo': IntS, 'hi': IntS, 'd': lift_shape(shape(t.elem), IntS)}
        if t.indexed:
            d['S'] = z3.ArraySort(IntS, BoolS)
            d['W'] = z3.ArraySort(IntS, IntS)
        d['cap'] = IntS
        return d
    if isinstance(t, TMap):
        k = key_sort(t.key)
        return {'dom': z3.ArraySort(k, BoolS), 'd': lift_shape(shape(t.val), k)}
    if isinstance(t, TMulti):
        k = key_sort(t.key)
        return {'n': IntS, 'keys': z3.ArraySort(IntS, k), 'd': lift_shape(shape(t.val), IntS),
                'lo': z3.ArraySort(k, IntS), 'hi': z3.ArraySort(k, IntS)}
    if isinstance(t, TLock):
        return {'held': BoolS}
    raise NotImplementedError('shape of %r' % t)


def lift_shape(sh, idx):
    if isinstance(sh, dict):
        return {k: lift_shape(v, idx) for k, v in sh.items()}
    return z3.ArraySort(idx, sh)


_cnt = [0]


def reset_names():
    _cnt[0] = 0


def fresh_name(p):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])


def fresh_tree(sh, name):
    if isinstance(sh, dict):
        return {k: fresh_tree(v, name + '.' + k) for k, v in sh.items()}
    return z3.Const(fresh_name(name), sh)


def tmap(f, *trees):
    if isinstance(trees[0], dict):
        return {k: tmap(f, *[t[k] for t in trees]) for k in trees[0]}
    return f(*trees)


_ctx = z3.main_ctx()
_mk_select = z3.Z3_mk_select
_to_ref = z3.z3._to_expr_ref


def select(a, i):
    """z3.Select without its per-call overhead (index already of the index sort)"""
    if isinstance(i, z3.ExprRef):
        return _to_ref(_mk_select(_ctx.ref(), a.as_ast(), i.as_ast()), _ctx)
    return z3.Select(a, i)


def t_select(tree, i):
    return tmap(lambda a: select(a, i), tree)


def t_store(tree, i, sub):
    return tmap(lambda a, v: z3.Store(a, i, v), tree, sub)


def t_leaves(tree):
    if isinstance(tree, dict):
        for k in sorted(tree):
            yield from t_leaves(tree[k])
    else:
        yield tree


def t_same(a, b):
    return all(x.eq(y) for x, y in zip(t_leaves(a), t_leaves(b)))


def const_tree(sh, t=None):
    """default value for a shape: ints 0, bools False, arrays constant"""
    if isinstance(sh, dict):
        return {k: const_tree(v) for k, v in sh.items()}
    if sh == IntS:
        return z3.IntVal(0)
    if sh == BoolS:
        return z3.BoolVal(False)
    if sh == PairS:
        return PairS.pair(z3.IntVal(0), z3.IntVal(0))
    if sh.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(sh.domain(), const_tree(sh.range()))
    raise NotImplementedError(str(sh))


class V:
    """structured value"""
    __slots__ = ('t', 'tree')

    def __init__(self, t, tree):
        self.t, self.tree = t, tree

    def __repr__(self):
        return 'V(%r)' % self.t


def wf(t, tree, idx=(), depth=0):
    """well-formedness facts that every C++ value of this type satisfies (list of formulas)."""
    out = []

    def close(f, pats, extra=()):
        vs = list(idx) + list(extra)
        if not vs:
            return f
        return forall(vs, f, patterns=pats)

    def sub(a):
        return a

    if t.leaf() is not None:
        if t.rng is not None and t.leaf() == IntS:
            f = z3.And(tree >= t.rng[0], tree <= t.rng[1])
            out.append(close(f, [tree]) if idx else f)
        elif isinstance(t, (TFun, TPtr)):
            f = tree >= 0
            out.append(close(f, [tree]) if idx else f)
        return out
    if isinstance(t, TStruct):
        for f, ft in t.fields.items():
            out += wf(ft, tree[f], idx, depth)
        return out
    if isinstance(t, TSeq):
        out.append(close(tree['lo'] <= tree['hi'], [tree['hi']]))
        if t.indexed:
            i = z3.Const(fresh_name('wi'), IntS)
            x = z3.Const(fresh_name('wx'), IntS)
            a = z3.Select(tree['d'], i)
            out.append(close(z3.Implies(z3.And(tree['lo'] <= i, i < tree['hi']), z3.Select(tree['S'], a)), [a], (i,)))
            sx = z3.Select(tree['S'], x)
            w = z3.Select(tree['W'], x)
            out.append(close(z3.Implies(sx, z3.And(tree['lo'] <= w, w < tree['hi'], z3.Select(tree['d'], w) == x)), [sx], (x,)))
            if t.elem.rng is not None and not idx:
                pass
        elif depth < 2:
            i = z3.Const(fresh_name('wj'), IntS)
            out += wf(t.elem, t_select(tree['d'], i), tuple(idx) + (i,), depth + 1)
        return out
    if isinstance(t, TMap):
        k = z3.Const(fresh_name('wk'), key_sort(t.key))
        if depth < 2:
            out += wf(t.val, t_select(tree['d'], k), tuple(idx) + (k,), depth + 1)
        return out
    if isinstance(t, TMulti):
        k = z3.Const(fresh_name('mk'), key_sort(t.key))
        i = z3.Const(fresh_name('mi'), IntS)
        lo, hi = z3.Select(tree['lo'], k), z3.Select(tree['hi'], k)
        n = tree['n']
        out.append(close(z3.And(0 <= lo, lo <= hi, hi <= n), [lo], (k,)))
        out.append(close(z3.And(0 <= lo, lo <= hi, hi <= n), [hi], (k,)))
        ki = z3.Select(tree['keys'], i)
        out.append(close(z3.Implies(z3.And(0 <= i, i < n),
                                    z3.And(z3.Select(tree['lo'], ki) <= i, i < z3.Select(tree['hi'], ki))), [ki], (i,)))
        out.append(close(z3.Implies(z3.And(lo <= i, i < hi), ki == k), [z3.MultiPattern(lo, ki)], (k, i)))
        out.append(close(z3.Implies(z3.And(lo <= i, i < hi), ki == k), [z3.MultiPattern(hi, ki)], (k, i)))
        if not idx:
            out.append(n >= 0)
            if depth < 2:
                j = z3.Const(fresh_name('mj'), IntS)
                out += wf(t.val, t_select(tree['d'], j), (j,), depth + 1)
        return out
    return out
