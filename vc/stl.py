"""Assumed contracts of the C++ standard library containers and algorithms used by hsmcpp.

These functions are bound as methods of engine.Engine.  Every container operation is given its
standard semantics over the mathematical value (finite sequence / finite map / multimap); iterator
validity (dereference only inside [begin,end)) is an obligation, not an assumption.
"""
import z3
import values as val
from values import *


def _E():
    import engine
    return engine


# ---------------------------------------------------------------- iterators
def iter_begin(self, loc, t, rev=False):
    E = _E()
    x = self.locate(loc)[1]
    if isinstance(t, TSeq):
        return E.Iter(loc, 'seq', x['hi'] if rev else x['lo'], None, rev)
    if isinstance(t, TMulti):
        return E.Iter(loc, 'multi', x['n'] if rev else z3.IntVal(0), None, rev)
    if isinstance(t, TMap):
        if rev:
            raise E.Unsupported('reverse map iteration')
        return self.map_begin(loc)
    raise E.Unsupported('begin of %r' % t)


def iter_end(self, loc, kind, rev=False):
    E = _E()
    t, x = self.locate(loc)
    if kind == 'seq':
        return E.Iter(loc, 'seq', x['lo'] if rev else x['hi'], None, rev)
    if kind == 'multi':
        return E.Iter(loc, 'multi', z3.IntVal(0) if rev else x['n'], None, rev)
    ks = key_sort(t.key)
    z = z3.IntVal(0) if ks == IntS else PairS.pair(z3.IntVal(0), z3.IntVal(0))
    return E.Iter(loc, 'map', z, z3.BoolVal(True))


def iter_eq(self, a, b):
    E = _E()
    if not (isinstance(a, E.Iter) and isinstance(b, E.Iter)):
        raise E.Unsupported('iterator comparison')
    if a.kind != b.kind or a.loc.key() != b.loc.key() or a.rev != b.rev:
        raise E.Unsupported('comparison of iterators of different containers')
    if a.kind == 'map':
        return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.pos == b.pos))
    return a.pos == b.pos


def map_begin(self, loc):
    E = _E()
    t, x = self.locate(loc)
    if key_sort(t.key) != IntS:
        raise E.Unsupported('iteration over a map with structured keys')
    if self.pure:
        raise E.Unsupported('map begin in pure context')
    k, e = z3.Int(fresh_name('first')), z3.Bool(fresh_name('noFirst'))
    j = z3.Int(fresh_name('j'))
    dj = z3.Select(x['dom'], j)
    self.assume(forall([j], z3.Implies(dj, z3.And(z3.Not(e), k <= j)), patterns=[dj]))
    self.assume(z3.Implies(z3.Not(e), z3.Select(x['dom'], k)))
    return E.Iter(loc, 'map', k, e)


def map_next(self, it):
    E = _E()
    t, x = self.locate(it.loc)
    if key_sort(t.key) != IntS:
        raise E.Unsupported('iteration over a map with structured keys')
    k, e = z3.Int(fresh_name('next')), z3.Bool(fresh_name('noNext'))
    j = z3.Int(fresh_name('j'))
    dj = z3.Select(x['dom'], j)
    self.assume(forall([j], z3.Implies(z3.And(dj, j > it.pos), z3.And(z3.Not(e), k <= j)), patterns=[dj]))
    self.assume(z3.Implies(z3.Not(e), z3.And(z3.Select(x['dom'], k), k > it.pos)))
    return E.Iter(it.loc, 'map', k, e)


def iter_step(self, it, d):
    E = _E()
    if it.kind == 'map':
        if d != 1:
            raise E.Unsupported('-- on map iterator')
        self.oblige('safe:iterator-increment', z3.Not(it.end))
        return self.map_next(it)
    t, x = self.locate(it.loc)
    lo, hi = (x['lo'], x['hi']) if it.kind == 'seq' else (z3.IntVal(0), x['n'])
    np = it.pos + (-d if it.rev else d)
    self.oblige('safe:iterator-increment', z3.And(lo <= np, np <= hi))
    return E.Iter(it.loc, it.kind, np, None, it.rev)


def elem_pos(it):
    return it.pos - 1 if it.rev else it.pos


def deref(self, it):
    E = _E()
    t, x = self.locate(it.loc)
    if not self.pure:
        self.specs.on_access(self, it.loc)
    if it.kind == 'seq':
        p = elem_pos(it)
        if not self.pure:
            self.oblige('safe:valid-iterator', z3.And(x['lo'] <= p, p < x['hi']))
        return it.loc.f('i', p)
    if it.kind == 'multi':
        p = elem_pos(it)
        if not self.pure:
            self.oblige('safe:valid-iterator', z3.And(0 <= p, p < x['n']))
        k = z3.Select(x['keys'], p)
        return E.Rec({'first': key_value(t.key, k), 'second': it.loc.f('m', p)})
    if not self.pure:
        self.oblige('safe:valid-iterator', z3.And(z3.Not(it.end), z3.Select(x['dom'], it.pos)))
    return E.Rec({'first': key_value(t.key, it.pos), 'second': it.loc.f('k', it.pos)})


def key_value(kt, k):
    if kt.leaf() is not None:
        return k
    return V(kt, {'first': PairS.fst(k), 'second': PairS.snd(k)})


# ---------------------------------------------------------------- sequences
def seq_like(self, t, **kw):
    """fresh sequence value"""
    return self.fresh(t, kw.get('name', 'seq'))


def seq_push_back(self, loc, x):
    t, s = self.locate(loc)
    e = self.to_tree(t.elem, x)
    n = dict(s)
    n['d'] = t_store(s['d'], s['hi'], e)
    n['hi'] = s['hi'] + 1
    if t.indexed:
        n['S'] = z3.Store(s['S'], e, z3.BoolVal(True))
        n['W'] = z3.Store(s['W'], e, s['hi'])
    if t.kind == 'vector':
        c = z3.Int(fresh_name('cap'))
        sz = n['hi'] - n['lo']
        self.assume(z3.And(c >= sz, c >= s['cap'], z3.Implies(sz <= s['cap'], c == s['cap'])))
        n['cap'] = c
    self.put(loc, V(t, n))


def seq_push_front(self, loc, x):
    t, s = self.locate(loc)
    e = self.to_tree(t.elem, x)
    n = dict(s)
    n['lo'] = s['lo'] - 1
    n['d'] = t_store(s['d'], s['lo'] - 1, e)
    if t.indexed:
        n['S'] = z3.Store(s['S'], e, z3.BoolVal(True))
        n['W'] = z3.Store(s['W'], e, s['lo'] - 1)
    self.put(loc, V(t, n))


def seq_pop_front(self, loc):
    t, s = self.locate(loc)
    self.oblige('safe:pop-nonempty', s['lo'] < s['hi'])
    self._seq_reslice(loc, t, s, s['lo'] + 1, s['hi'])


def seq_pop_back(self, loc):
    t, s = self.locate(loc)
    self.oblige('safe:pop-nonempty', s['lo'] < s['hi'])
    _reslice(self, loc, t, s, s['lo'], s['hi'] - 1)


def _reslice(self, loc, t, s, lo, hi):
    if not t.indexed:
        n = dict(s)
        n['lo'], n['hi'] = lo, hi
        self.put(loc, V(t, n))
        return
    v = self.fresh(t, 'slice')
    r = v.tree
    self.assume(z3.And(r['lo'] == lo, r['hi'] == hi, r['d'] == s['d'], r['cap'] == s['cap']))
    self.put(loc, v)


def seq_remove(self, loc, x):
    """std::list::remove / the filter relation, with explicit order-preserving position maps"""
    t, s = self.locate(loc)
    E = _E()
    if not t.indexed:
        raise E.Unsupported('remove on structured list')
    x = self.rv(x)
    v = self.fresh(t, 'removed')
    r = v.tree
    up = z3.Const(fresh_name('up'), z3.ArraySort(IntS, IntS))
    dn = z3.Const(fresh_name('dn'), z3.ArraySort(IntS, IntS))
    i, j = z3.Int(fresh_name('ri')), z3.Int(fresh_name('rj'))
    inr = lambda k: z3.And(r['lo'] <= k, k < r['hi'])
    ins = lambda k: z3.And(s['lo'] <= k, k < s['hi'])
    u = z3.Select(up, i)
    self.assume(forall([i], z3.Implies(inr(i), z3.And(ins(u), r['d'][i] == s['d'][u], s['d'][u] != x,
                                                         z3.Select(dn, u) == i)), patterns=[r['d'][i]]))
    self.assume(forall([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), z3.Select(up, i) < z3.Select(up, j)),
                          patterns=[z3.MultiPattern(z3.Select(up, i), z3.Select(up, j))]))
    w = z3.Select(dn, j)
    self.assume(forall([j], z3.Implies(z3.And(ins(j), s['d'][j] != x), z3.And(inr(w), z3.Select(up, w) == j)),
                          patterns=[s['d'][j]]))
    self.assume(r['S'] == z3.Store(s['S'], x, z3.BoolVal(False)))
    self.assume(r['lo'] == s['lo'])
    self.put(loc, v)


def seq_erase(self, loc, it):
    """erase one element; returns iterator to the following one"""
    E = _E()
    t, s = self.locate(loc)
    if it.rev:
        raise E.Unsupported('erase reverse iterator')
    p = it.pos
    self.oblige('safe:valid-iterator', z3.And(s['lo'] <= p, p < s['hi']))
    v = self.fresh(t, 'erased')
    r = v.tree
    i = z3.Int(fresh_name('ei'))
    self.assume(z3.And(r['lo'] == s['lo'], r['hi'] == s['hi'] - 1, r['cap'] == s['cap']))
    for a, b in zip(t_leaves(r['d']), t_leaves(s['d'])):
        self.assume(forall([i], z3.Select(a, i) == z3.If(i < p, z3.Select(b, i), z3.Select(b, i + 1)),
                              patterns=[z3.Select(a, i)]))
    if t.indexed:
        x = z3.Int(fresh_name('ex'))
        e = s['d'][p]
        self.assume(forall([x], z3.Implies(x != e, r['S'][x] == s['S'][x]), patterns=[r['S'][x]]))
        self.assume(forall([x], z3.Implies(x != e, r['S'][x] == s['S'][x]), patterns=[s['S'][x]]))
        # e survives iff it occurs at another position; expressed through the witnesses of r
        j = z3.Int(fresh_name('ej'))
        self.assume(forall([j], z3.Implies(z3.And(s['lo'] <= j, j < s['hi'], j != p, s['d'][j] == e), r['S'][e]),
                              patterns=[s['d'][j]]))
    self.put(loc, v)
    return E.Iter(loc, 'seq', p)


def seq_append(self, loc, src, first, last, front=False):
    """append (or prepend) the elements [first,last) of sequence tree `src`"""
    t, s = self.locate(loc)
    v = self.fresh(t, 'append')
    r = v.tree
    cnt = last - first
    i = z3.Int(fresh_name('ai'))
    ok = z3.And(self_in(first, last), True)
    if not front:
        self.assume(z3.And(r['lo'] == s['lo'], r['hi'] == s['hi'] + cnt))
        off = s['hi'] - first
        for a, b, c in zip(t_leaves(r['d']), t_leaves(s['d']), t_leaves(src['d'])):
            self.assume(forall([i], z3.Implies(z3.And(s['lo'] <= i, i < s['hi']), z3.Select(a, i) == z3.Select(b, i)),
                                  patterns=[z3.Select(a, i)]))
            self.assume(forall([i], z3.Implies(z3.And(s['hi'] <= i, i < r['hi']), z3.Select(a, i) == z3.Select(c, i - off)),
                                  patterns=[z3.Select(a, i)]))
            self.assume(forall([i], z3.Implies(z3.And(s['lo'] <= i, i < s['hi']), z3.Select(a, i) == z3.Select(b, i)),
                                  patterns=[z3.Select(b, i)]))
            self.assume(forall([i], z3.Implies(z3.And(first <= i, i < last), z3.Select(a, i + off) == z3.Select(c, i)),
                                  patterns=[z3.Select(c, i)]))
    else:
        self.assume(z3.And(r['hi'] == s['hi'], r['lo'] == s['lo'] - cnt))
        off = s['lo'] - last
        for a, b, c in zip(t_leaves(r['d']), t_leaves(s['d']), t_leaves(src['d'])):
            self.assume(forall([i], z3.Implies(z3.And(s['lo'] <= i, i < s['hi']), z3.Select(a, i) == z3.Select(b, i)),
                                  patterns=[z3.Select(a, i)]))
            self.assume(forall([i], z3.Implies(z3.And(r['lo'] <= i, i < s['lo']), z3.Select(a, i) == z3.Select(c, i - off)),
                                  patterns=[z3.Select(a, i)]))
            self.assume(forall([i], z3.Implies(z3.And(s['lo'] <= i, i < s['hi']), z3.Select(a, i) == z3.Select(b, i)),
                                  patterns=[z3.Select(b, i)]))
            self.assume(forall([i], z3.Implies(z3.And(first <= i, i < last), z3.Select(a, i + off) == z3.Select(c, i)),
                                  patterns=[z3.Select(c, i)]))
    self.put(loc, v)


def self_in(a, b):
    return a <= b


def construct_elem(self, t, args):
    """element constructed from emplace arguments"""
    E = _E()
    if len(args) == 1 and not isinstance(t, TStruct):
        return self.construct_t(t, args)
    if isinstance(t, TStruct):
        if t.name == 'pair' and len(args) == 2:
            return V(t, {'first': self.to_tree(t.fields['first'], args[0]), 'second': self.to_tree(t.fields['second'], args[1])})
        return self.construct_t(t, args)
    return self.construct_t(t, args)


# ---------------------------------------------------------------- multimap
def multi_insert(self, loc, key, value):
    E = _E()
    t, s = self.locate(loc)
    k = self.key_of(t.key, key)
    e = self.to_tree(t.val, value)
    v = self.fresh(t, 'minsert')
    r = v.tree
    p = z3.Int(fresh_name('insertPos'))
    i = z3.Int(fresh_name('mi'))
    j = z3.Const(fresh_name('mk'), key_sort(t.key))
    lo, hi = z3.Select(s['lo'], k), z3.Select(s['hi'], k)
    self.assume(z3.And(0 <= p, p <= s['n'], r['n'] == s['n'] + 1))
    self.assume(z3.Implies(lo < hi, z3.And(p == hi, r['lo'][k] == lo, r['hi'][k] == hi + 1)))
    self.assume(z3.Implies(lo >= hi, z3.And(r['lo'][k] == p, r['hi'][k] == p + 1)))
    lj, hj = z3.Select(s['lo'], j), z3.Select(s['hi'], j)
    sh = z3.If(lj >= p, z3.IntVal(1), z3.IntVal(0))
    f = z3.Implies(j != k, z3.And(r['lo'][j] == lj + sh, r['hi'][j] == hj + sh, z3.Or(hj <= p, p <= lj)))
    self.assume(forall([j], f, patterns=[r['lo'][j]]))
    self.assume(forall([j], f, patterns=[r['hi'][j]]))
    self.assume(forall([j], f, patterns=[lj]))
    pairs = [(r['keys'], s['keys'], k)] + list(zip(t_leaves(r['d']), t_leaves(s['d']), t_leaves(e)))
    for a, b, x in pairs:
        self.assume(forall([i], z3.Select(a, i) == z3.If(i < p, z3.Select(b, i), z3.If(i == p, x, z3.Select(b, i - 1))),
                              patterns=[z3.Select(a, i)]))
    self.put(loc, v)
    return E.Iter(loc, 'multi', p)


# ---------------------------------------------------------------- dispatch
_BEGIN = {'begin': False, 'cbegin': False, 'rbegin': True, 'crbegin': True}
_END = {'end': False, 'cend': False, 'rend': True, 'crend': True}


def lib_method(self, obj, tgt, t, name, argn, n, did, tu):
    E = _E()

    def args():
        return [self.ev(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']

    own = self.specs.lib_method(self, obj, tgt, t, name, args, n)
    if own is not NotImplemented:
        return own
    if isinstance(t, TSeq):
        return (_seq_method(self, obj, t, name, args, n),)
    if isinstance(t, TMulti):
        return (_multi_method(self, obj, t, name, args, n),)
    if isinstance(t, TMap):
        return (_map_method(self, obj, t, name, args, n),)
    if isinstance(t, TLock):
        r = self.specs.external_method(self, 'Mutex', name, obj, args(), n)
        if r is NotImplemented:
            raise E.Unsupported('Mutex::' + name)
        return (r,)
    if isinstance(t, TPtr) or isinstance(tgt, E.PtrVal):
        arrow = False
        me = n['inner'][0]
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me.get('isArrow'):
            return NotImplemented
        if name not in ('get', 'reset', 'lock', 'expired', 'operator bool', 'use_count', 'swap'):
            return NotImplemented
        v = self.get(obj) if isinstance(obj, E.Loc) else tgt
        if name == 'get' or name == 'operator bool':
            return (v if name == 'get' else (v.a != 0),)
        if name == 'lock' and isinstance(v.t.pointee, str) and strip(v.t.pointee).split('::')[-1] == self.specs.self_type:
            return (E.PtrVal(self.specs.lock_self(self, v.a), TPtr(v.t.pointee, 'shared')),)
        if name == 'lock':
            return (E.PtrVal(v.a, TPtr(v.t.pointee, 'shared')),)
        if name == 'expired':
            return (v.a == 0,)
        if name == 'reset':
            a = args()
            if not a:
                self.put(obj, E.PtrVal(z3.IntVal(0), v.t))
            else:
                pv = self.rv(a[0])
                self.put(obj, pv if pv is not None else E.PtrVal(z3.IntVal(0), v.t))
            return (None,)
        raise E.Unsupported('pointer method ' + name)
    if isinstance(t, TFun) or isinstance(tgt, E.FunVal):
        v = self.get(obj) if isinstance(obj, E.Loc) else tgt
        if name == 'operator bool':
            return (v.h != 0,)
        raise E.Unsupported('function method ' + name)
    if t is not None and t.leaf() is not None:
        # std::atomic<T>
        v = self.get(obj)
        if name in ('load', 'operator bool', 'operator int') or name.startswith('operator '):
            return (v,)
        if name == 'store':
            self.put(obj, self.rv(args()[0]))
            return (None,)
        if name == 'exchange':
            self.put(obj, self.rv(args()[0]))
            return (v,)
        return NotImplemented
    if isinstance(tgt, E.PtrTo):
        return NotImplemented
    if isinstance(tgt, E.Closure) and name == 'operator()':
        return (self.call_closure(tgt, args()),)
    return NotImplemented


def _seq_method(self, obj, t, name, args, n):
    E = _E()
    s = self.locate(obj)[1]
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'pop_front', 'pop_back', 'clear', 'erase', 'insert',
                'splice', 'remove', 'swap'):
        a0 = args
        memo = []

        def args():
            if not memo:
                memo.append(a0())
            return memo[0]
        r = _seq_method_(self, obj, t, name, args, n, s)
        self.specs.on_seq(self, name, obj, t, s)
        return r
    return _seq_method_(self, obj, t, name, args, n, s)


def _seq_method_(self, obj, t, name, args, n, s):
    E = _E()
    if name in _BEGIN:
        return self.iter_begin(obj, t, _BEGIN[name])
    if name in _END:
        return self.iter_end(obj, 'seq', _END[name])
    if name == 'size':
        return s['hi'] - s['lo']
    if name == 'empty':
        return s['lo'] == s['hi'] if False else z3.Not(s['lo'] < s['hi'])
    if name == 'capacity':
        return s['cap']
    if name == 'reserve':
        a = self.rv(args()[0])
        c = z3.Int(fresh_name('cap'))
        self.assume(z3.And(c >= a, c >= s['cap'], z3.Implies(a <= s['cap'], c == s['cap'])))
        nn = dict(s)
        nn['cap'] = c
        self.put(obj, V(t, nn))
        return None
    if name == 'clear':
        nn = dict(self.default_tree(t))
        nn['cap'] = s['cap']
        self.put(obj, V(t, nn))
        return None
    if name in ('push_back', 'emplace_back'):
        a = args()
        self.seq_push_back(obj, self.construct_elem(t.elem, a))
        return None
    if name in ('push_front', 'emplace_front'):
        a = args()
        self.seq_push_front(obj, self.construct_elem(t.elem, a))
        return None
    if name == 'pop_front':
        self.seq_pop_front(obj)
        return None
    if name == 'pop_back':
        seq_pop_back(self, obj)
        return None
    if name == 'front':
        self.oblige('safe:front-nonempty', s['lo'] < s['hi']) if not self.pure else None
        return obj.f('i', s['lo'])
    if name == 'back':
        self.oblige('safe:back-nonempty', s['lo'] < s['hi']) if not self.pure else None
        return obj.f('i', s['hi'] - 1)
    if name == 'at':
        i = self.rv(args()[0])
        self.oblige('safe:index-in-range', z3.And(0 <= i, s['lo'] + i < s['hi']))
        return obj.f('i', s['lo'] + i)
    if name == 'remove':
        self.seq_remove(obj, args()[0])
        return None
    if name == 'erase':
        a = [self.rv(x) for x in args()]
        if len(a) == 1 and isinstance(a[0], E.Iter):
            return self.seq_erase(obj, a[0])
        raise E.Unsupported('range erase')
    if name == 'insert':
        a = [self.rv(x) for x in args()]
        if len(a) == 3 and all(isinstance(x, E.Iter) for x in a) and a[1].kind == 'seq' and not a[1].rev:
            src = self.locate(a[1].loc)[1]
            self.oblige('safe:valid-range', z3.And(src['lo'] <= a[1].pos, a[1].pos <= a[2].pos, a[2].pos <= src['hi']))
            if z3.is_true(z3.simplify(a[0].pos == s['hi'])):
                self.seq_append(obj, src, a[1].pos, a[2].pos)
                return None
            if z3.is_true(z3.simplify(a[0].pos == s['lo'])):
                self.seq_append(obj, src, a[1].pos, a[2].pos, front=True)
                return None
        if len(a) == 2 and isinstance(a[0], E.Iter):
            if z3.is_true(z3.simplify(a[0].pos == s['hi'])):
                self.seq_push_back(obj, a[1])
                return None
            if z3.is_true(z3.simplify(a[0].pos == s['lo'])):
                self.seq_push_front(obj, a[1])
                return None
        raise E.Unsupported('insert')
    if name == 'splice':
        a = args()
        if len(a) == 2:
            it = self.rv(a[0])
            src = a[1].loc if isinstance(a[1], E.Moved) else a[1]
            st, ss = self.locate(src)
            if z3.is_true(z3.simplify(it.pos == s['hi'])):
                self.seq_append(obj, ss, ss['lo'], ss['hi'])
            elif z3.is_true(z3.simplify(it.pos == s['lo'])):
                self.seq_append(obj, ss, ss['lo'], ss['hi'], front=True)
            else:
                raise E.Unsupported('splice')
            self.put(src, V(st, self.default_tree(st)))
            return None
        raise E.Unsupported('splice')
    if name == 'swap':
        a = args()[0]
        o = self.get(a)
        m = self.get(obj)
        self.put(a, m)
        self.put(obj, o)
        return None
    if name == 'operator=':
        raise E.Unsupported('operator=')
    raise E.Unsupported('sequence method ' + name)


def _map_method(self, obj, t, name, args, n):
    E = _E()
    x = self.locate(obj)[1]
    if name in _BEGIN and not _BEGIN[name]:
        return self.map_begin(obj)
    if name in _END and not _END[name]:
        return self.iter_end(obj, 'map')
    if name == 'find':
        k = self.key_of(t.key, args()[0])
        return E.Iter(obj, 'map', k, z3.Not(z3.Select(x['dom'], k)))
    if name == 'count':
        k = self.key_of(t.key, args()[0])
        return z3.If(z3.Select(x['dom'], k), z3.IntVal(1), z3.IntVal(0))
    if name == 'at':
        k = self.key_of(t.key, args()[0])
        self.oblige('safe:map-at', z3.Select(x['dom'], k))
        return obj.f('k', k)
    if name == 'clear':
        self.put(obj, V(t, self.default_tree(t)))
        return None
    if name == 'empty':
        j = z3.Const(fresh_name('ek'), key_sort(t.key))
        e = z3.Bool(fresh_name('isEmpty'))
        w = z3.Const(fresh_name('ew'), key_sort(t.key))
        dj = z3.Select(x['dom'], j)
        self.assume(forall([j], z3.Implies(dj, z3.Not(e)), patterns=[dj]))
        self.assume(z3.Implies(z3.Not(e), z3.Select(x['dom'], w)))
        return e
    if name == 'size':
        sz = z3.Int(fresh_name('mapSize'))
        self.assume(sz >= 0)
        j = z3.Const(fresh_name('ek'), key_sort(t.key))
        dj = z3.Select(x['dom'], j)
        w = z3.Const(fresh_name('ew'), key_sort(t.key))
        self.assume(forall([j], z3.Implies(dj, sz > 0), patterns=[dj]))
        self.assume(z3.Implies(sz > 0, z3.Select(x['dom'], w)))
        return sz
    if name == 'erase':
        a = self.rv(args()[0])
        if isinstance(a, E.Iter):
            self.oblige('safe:valid-iterator', z3.And(z3.Not(a.end), z3.Select(x['dom'], a.pos)))
            nxt = self.map_next(a) if key_sort(t.key) == IntS else None
            nn = dict(x)
            nn['dom'] = z3.Store(x['dom'], a.pos, z3.BoolVal(False))
            self.put(obj, V(t, nn))
            return nxt
        k = self.key_of(t.key, a)
        nn = dict(x)
        nn['dom'] = z3.Store(x['dom'], k, z3.BoolVal(False))
        self.put(obj, V(t, nn))
        return z3.If(z3.Select(x['dom'], k), z3.IntVal(1), z3.IntVal(0))
    if name in ('emplace', 'insert'):
        a = args()
        if name == 'insert' or len(a) == 1:
            p = self.rv(a[0])
            if isinstance(p, V):
                kk, vv = self.wrap(p.t.fields['first'], p.tree['first']), self.wrap(p.t.fields['second'], p.tree['second'])
            elif isinstance(p, E.Rec) and 'first' in p.fields:
                kk, vv = p.fields['first'], p.fields['second']
            elif isinstance(p, E.Rec):
                kk, vv = p.fields['__items__']
            else:
                raise E.Unsupported('map insert')
        else:
            kk, vv = a
        k = self.key_of(t.key, kk)
        e = self.to_tree(t.val, self.construct_elem(t.val, [vv]))
        pres = z3.Select(x['dom'], k)
        nd = tmap(lambda arr, dv: z3.If(pres, arr, z3.Store(arr, k, dv)), x['d'], e)
        self.put(obj, V(t, {'dom': z3.Store(x['dom'], k, z3.BoolVal(True)), 'd': nd}))
        return E.Rec({'first': E.Iter(obj, 'map', k, z3.BoolVal(False)), 'second': z3.Not(pres)})
    raise E.Unsupported('map method ' + name)


def _multi_method(self, obj, t, name, args, n):
    E = _E()
    x = self.locate(obj)[1]
    if name in _BEGIN:
        return self.iter_begin(obj, t, _BEGIN[name])
    if name in _END:
        return self.iter_end(obj, 'multi', _END[name])
    if name == 'size':
        return x['n']
    if name == 'empty':
        return x['n'] == 0
    if name == 'clear':
        v = self.fresh(t, 'cleared')
        self.assume(v.tree['n'] == 0)
        self.put(obj, v)
        return None
    if name in ('find', 'count', 'equal_range', 'lower_bound', 'upper_bound'):
        k = self.key_of(t.key, args()[0])
        lo, hi = z3.Select(x['lo'], k), z3.Select(x['hi'], k)
        if name == 'count':
            return hi - lo
        if name == 'find':
            return E.Iter(obj, 'multi', z3.If(lo < hi, lo, x['n']))
        if name == 'equal_range':
            return E.Rec({'first': E.Iter(obj, 'multi', lo), 'second': E.Iter(obj, 'multi', hi)})
        return E.Iter(obj, 'multi', lo if name == 'lower_bound' else hi)
    if name in ('emplace', 'insert'):
        a = args()
        if len(a) == 1:
            p = self.rv(a[0])
            if isinstance(p, V):
                kk, vv = self.wrap(p.t.fields['first'], p.tree['first']), self.wrap(p.t.fields['second'], p.tree['second'])
            elif isinstance(p, E.Rec) and 'first' in p.fields:
                kk, vv = p.fields['first'], p.fields['second']
            else:
                kk, vv = p.fields['__items__']
        else:
            kk, vv = a
        return self.multi_insert(obj, kk, self.construct_elem(t.val, [vv]))
    raise E.Unsupported('multimap method ' + name)


# ---------------------------------------------------------------- algorithms
def quantified_pred(self, first, closure, pos):
    """the closure's value at element `pos` of first's container, as a formula"""
    E = _E()
    it = E.Iter(first.loc, first.kind, pos, z3.BoolVal(False) if first.kind == 'map' else None)
    self.pure += 1
    try:
        v = self.call_closure(closure, [self.deref(it)])
    finally:
        self.pure -= 1
    return self.to_bool(v)


def find_algo(self, first, last, pred, name):
    """pred: python function position -> formula"""
    E = _E()
    if first.rev:
        raise E.Unsupported('algorithm over reverse iterators')
    t, x = self.locate(first.loc)
    j = z3.Int(fresh_name('fj'))
    p = z3.Int(fresh_name('found'))
    if first.kind == 'map':
        # arbitrary but fixed element satisfying the predicate (order = key order)
        if key_sort(t.key) != IntS:
            raise E.Unsupported('algorithm over map with structured keys')
        e = z3.Bool(fresh_name('notFound'))
        dj = z3.Select(x['dom'], j)
        if not (z3.is_true(z3.simplify(last.end))):
            raise E.Unsupported('partial map range')
        st = z3.And(dj, j >= first.pos, z3.Not(first.end))
        self.assume(forall([j], z3.Implies(z3.And(st, pred(j)), z3.And(z3.Not(e), p <= j)), patterns=[dj]))
        self.assume(z3.Implies(z3.Not(e), z3.And(z3.Select(x['dom'], p), p >= first.pos, z3.Not(first.end), pred(p))))
        return E.Iter(first.loc, 'map', p, e)
    pat = z3.Select(x['keys'], j) if first.kind == 'multi' else z3.Select(next(iter(t_leaves(x['d']))), j)
    self.assume(z3.And(first.pos <= p, p <= last.pos))
    body = z3.Implies(z3.And(first.pos <= j, j < p), z3.Not(pred(j)))
    self.assume(forall([j], body, patterns=[pat]))
    if first.kind == 'multi':
        self.assume(forall([j], body, patterns=[z3.Select(next(iter(t_leaves(x['d']))), j)]))
    self.assume(z3.Implies(p < last.pos, pred(p)))
    return E.Iter(first.loc, first.kind, p)


def lib_function(self, name, argn, n):
    E = _E()
    own = self.specs.lib_function(self, name, argn, n)
    if own is not NotImplemented:
        return own
    if name in ('move', 'forward'):
        if len(argn) != 1:
            return NotImplemented
        v = self.ev(argn[0])
        if name == 'forward':
            if isinstance(v, E.Loc) and '&&' in n['type']['qualType']:
                return (E.Moved(v),)
            return (v,)
        if isinstance(v, E.Loc):
            return (E.Moved(v),)
        return (v,)
    if name in ('find', 'find_if', 'any_of', 'all_of', 'none_of', 'find_if_not') and len(argn) == 3:
        a = [self.rv(self.ev(c)) for c in argn]
        first, last, x = a
        if not isinstance(first, E.Iter):
            return NotImplemented
        t, s = self.locate(first.loc)
        if name == 'find':
            if isinstance(x, V):
                def pred(p):
                    return self.eq(self.rv(self.deref_pure(E.Iter(first.loc, first.kind, p))), x)
            else:
                def pred(p):
                    return self.eq(self.rv(self.deref_pure(E.Iter(first.loc, first.kind, p))), x)
            return (self.find_algo(first, last, pred, name),)
        if not isinstance(x, E.Closure):
            raise E.Unsupported(name + ' with non-lambda')
        neg = name in ('all_of', 'find_if_not')

        def pred(p):
            f = quantified_pred(self, first, x, p)
            return z3.Not(f) if neg else f
        it = self.find_algo(first, last, pred, name)
        if name in ('find_if', 'find_if_not'):
            return (it,)
        found = z3.Not(self.iter_eq(it, last))
        return (found if name == 'any_of' else z3.Not(found),)
    if name == 'distance' and len(argn) == 2:
        a, b = [self.rv(self.ev(c)) for c in argn]
        return (b.pos - a.pos,)
    if name in ('next', 'prev'):
        a = [self.rv(self.ev(c)) for c in argn if c.get('kind') != 'CXXDefaultArgExpr']
        if len(a) == 1 and isinstance(a[0], E.Iter):
            return (self.iter_step(a[0], 1 if name == 'next' else -1),)
        raise E.Unsupported(name)
    if name == 'make_pair':
        a = [self.rv(self.ev(c)) for c in argn]
        return (E.Rec({'first': a[0], 'second': a[1]}),)
    if name == 'make_shared':
        a = [self.ev(c) for c in argn]
        t = self.ty(n['type']['qualType'])
        st = self.ty(t.pointee)
        v = self.construct_t(st, a)
        al = self.store[('ghost', 'alloc')]
        addr = al.tree
        self.assume(addr > 0)
        self.store[('ghost', 'alloc')] = V(al.t, addr + 1)
        self.ensure_heap(strip(t.pointee))
        root = ('heap', strip(t.pointee))
        hv = self.store[root]
        self.store[root] = V(hv.t, {'d': t_store(hv.tree['d'], addr, self.to_tree(st, v))})
        return (E.PtrVal(addr, TPtr(t.pointee, 'shared')),)
    if name in ('min', 'max') and len(argn) == 2:
        a, b = [self.rv(self.ev(c)) for c in argn]
        return (z3.If(a <= b, a, b) if name == 'min' else z3.If(a >= b, a, b),)
    if name == 'swap' and len(argn) == 2:
        a, b = [self.ev(c) for c in argn]
        va, vb = self.get(a), self.get(b)
        self.put(a, vb)
        self.put(b, va)
        return (None,)
    return NotImplemented


def strip(s):
    from cast import strip_type
    return strip_type(s)


def deref_pure(self, it):
    self.pure += 1
    try:
        return self.deref(it)
    finally:
        self.pure -= 1
