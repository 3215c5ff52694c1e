"""Contracts of class Variant (src/variant.cpp, include/hsmcpp/variant.hpp).

A variant is (type, data, memoryAllocator, compareOperator). `data` is the address of an object on the heap; there is one
heap for every C++ type that can be stored, and the ghost map `tag` says which type the object at an address has. Texts,
byte arrays, floating-point numbers and containers are opaque values: what the library does with them is a function symbol
(std::to_string, std::stoll, conversion to floating point, ...); integers and booleans are interpreted.

Class invariant (`rep`): a variant of type t owns an object of the C++ type that belongs to t, and its allocator and
comparator are made for that C++ type; an empty variant owns nothing."""
import re
import z3
from specs_base import *

#        type name, C++ type (canonical), size
KINDS = [(1, 'BYTE_1', 'signed char', 1), (2, 'BYTE_2', 'short', 2), (3, 'BYTE_4', 'int', 4), (4, 'BYTE_8', 'long', 8),
         (5, 'UBYTE_1', 'unsigned char', 1), (6, 'UBYTE_2', 'unsigned short', 2), (7, 'UBYTE_4', 'unsigned int', 4),
         (8, 'UBYTE_8', 'unsigned long', 8), (9, 'DOUBLE', 'double', 8), (10, 'BOOL', 'bool', 1), (11, 'STRING', 'Text', 0),
         (12, 'BYTEARRAY', 'Bytes', 0), (13, 'LIST', 'VList', 0), (14, 'VECTOR', 'VVector', 0), (15, 'MAP', 'VMap', 0),
         (16, 'PAIR', 'VPair', 0), (17, 'CUSTOM', None, 0)]
USER = 'Custom'        # the user-defined type in inst_variant.cpp (stands for any type with == and >)
UNKNOWN = 0
NUM = {n: k for k, n, _, _ in KINDS}
CODE = {t: k for k, _, t, _ in KINDS if t}
CODE[USER] = 100
NAME = {k: n for k, n, _, _ in KINDS}
INTS = range(1, 9)
CONT = ('VVector', 'VList', 'VMap')
SPELL = {'std::string': 'Text', 'std::basic_string<char>': 'Text', 'basic_string<char>': 'Text', 'string': 'Text',
         'ByteArray_t': 'Bytes', 'std::vector<unsigned char>': 'Bytes',
         'VariantVector_t': 'VVector', 'std::vector<Variant>': 'VVector', 'VariantList_t': 'VList', 'std::list<Variant>': 'VList',
         'VariantMap_t': 'VMap', 'std::map<Variant, Variant>': 'VMap', 'VariantPair_t': 'VPair', 'std::pair<Variant, Variant>': 'VPair',
         'pair<Variant, Variant>': 'VPair'}


def canon(t):
    s = strip_type(t)
    s = re.sub(r', (std::)?less<Variant>', '', s)
    s = re.sub(r', (std::)?allocator<.*?>+(?=>|$)', '', s)
    s = re.sub(r', (std::)?allocator<(std::)?pair<.*$', '>', s)
    s = s.strip()
    for p, c in (('map<Variant, Variant', 'VMap'), ('vector<Variant', 'VVector'), ('list<Variant', 'VList'), ('pair<Variant, Variant', 'VPair')):
        if re.match(r'(?:std::)?' + re.escape(p) + r'[^*&]*$', s):
            s = c
    s = SPELL.get(s, s)
    s = ALIASES.get(s, s)
    return s


def code_of(t, extra={}):
    c = canon(t)
    if c not in CODE:
        extra.setdefault(c, 100 + len(extra))
    return z3.IntVal(CODE[c] if c in CODE else extra[c])


def F_(name, *sorts):
    return z3.Function(name, *sorts)


I = IntS
i2d, d2i, d2u = F_('num::real', I, I), F_('num::to_long', I, I), F_('num::to_ulong', I, I)
dgt, dlt, deq = F_('num::gt', I, I, BoolS), F_('num::lt', I, I, BoolS), F_('num::eq', I, I, BoolS)
dsub, dabs = F_('num::sub', I, I, I), F_('num::abs', I, I)
n2s, d2s = F_('text::of_int', I, I), F_('text::of_real', I, I)
stoll, stoull, stod = F_('text::to_long', I, I), F_('text::to_ulong', I, I), F_('text::to_real', I, I)
bad_i, bad_u, bad_d = F_('text::no_long', I, BoolS), F_('text::no_ulong', I, BoolS), F_('text::no_real', I, BoolS)
cat, sgt = F_('text::cat', I, I, I), F_('text::gt', I, I, BoolS)
b2s, s2b = F_('text::of_bytes', I, I), F_('bytes::of_text', I, I)
bcat, bpush, braw, bzero, blen = F_('bytes::cat', I, I, I), F_('bytes::push', I, I, I), F_('bytes::raw', I, I, I), F_('bytes::zeros', I, I), F_('bytes::len', I, I)
bmem = F_('bytes::of_memory', I, I, I)
bgt = F_('bytes::gt', I, I, BoolS)
ueq, ugt = F_('stored::eq', I, I, I, BoolS), F_('stored::gt', I, I, I, BoolS)
hcode, ccode = F_('allocator::for', I, I), F_('comparator::for', I, I)
tostr, tobytes = F_('variant::text', I, I, I), F_('variant::bytes', I, I, I)
sjoin = {c: F_('joined::text::' + c, I, I, I) for c in CONT}
bjoin = {c: F_('joined::bytes::' + c, I, I, I) for c in CONT}
converted = F_('converter::result', I, I, I, I)
vlen = F_('items::count', I, I)
LIT = {'': 0}


def lit(text):
    return z3.IntVal(LIT.setdefault(text, -len(LIT)))


def num(v):
    return If(v, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(v) else v


def real(text):
    return z3.Int('real %r' % float(text))


class VariantSpecs(Specs):
    member_defaults = True
    aliased = True
    opaque = ('Text', 'Bytes')
    heaps = tuple(t for _, _, t, _ in KINDS if t) + (USER,)

    def type_override(self, s):
        c = canon(s)
        if c in ('Text', 'Bytes', USER) + CONT:
            return TInt(c)
        if c == 'VPair':
            v = self.eng_ty('Variant')
            return TStruct('VPair', {'first': v, 'second': v, 'id': TInt('id')})
        if c in ('char *', 'void'):
            return TInt('Text' if c == 'char *' else 'void')
        return super().type_override(s) if s not in ('std::string',) else TInt('Text')

    def canonical(self, tn):
        return canon(tn)

    def axioms(self, eng):
        self.eng_ty = eng.ty
        x, y, z = z3.Ints('x! y! z!')
        return [forall([x, y], dabs(dsub(x, y)) == dabs(dsub(y, x)), patterns=[dabs(dsub(x, y))]),
                forall([x], cat(x, 0) == x, patterns=[cat(x, 0)]), forall([x], cat(0, x) == x, patterns=[cat(0, x)]),
                forall([x, y], Imp(cat(x, y) == 0, And(x == 0, y == 0)), patterns=[cat(x, y)]),
                forall([x, y, z], cat(cat(x, y), z) == cat(x, cat(y, z)), patterns=[cat(cat(x, y), z)]),
                forall([x], bcat(0, x) == x, patterns=[bcat(0, x)]), forall([x], bcat(x, 0) == x, patterns=[bcat(x, 0)]),
                forall([x, y, z], bcat(bcat(x, y), z) == bcat(x, bcat(y, z)), patterns=[bcat(bcat(x, y), z)]),
                forall([x], blen(bzero(x)) == x, patterns=[bzero(x)]), blen(0) == 0,
                forall([x], vlen(x) >= 0, patterns=[vlen(x)]), vlen(0) == 0]

    def ghosts(self, eng):
        return {'tag': E.THeap(TInt('tag')), 'alloc': TInt('alloc'), 'gone': TBOOL, 'from': E.THeap(TInt('from'))}

    def tag(self, eng, a):
        return z3.Select(eng.store[('ghost', 'tag')].tree['d'], a)

    # ---- objects behind pointers
    def on_pointee(self, eng, p, loc):
        if not eng.pure:
            eng.oblige('safe:C13:stored-as-' + loc.root[1], self.tag(eng, p.a) == code_of(loc.root[1]))

    def reinterpret(self, eng, v, n):
        t = strip_type(n['type']['qualType'])
        assert t.endswith('*')
        t = t[:-1].strip()
        if isinstance(v, E.PtrTo):
            lt = eng.loc_type(v.loc)
            eng.oblige('safe:C13:same-type-as-given', z3.BoolVal(canon(getattr(lt, 'name', repr(lt))) == canon(t)))
            return v
        if isinstance(v, E.PtrVal):
            return E.PtrVal(v.a, TPtr(t, 'raw'))
        raise E.Unsupported('reinterpret_cast of %r' % (v,))

    def alloc(self, eng, k, content):
        """a new object of type code k; content: heap name -> value"""
        if eng.pure:
            raise E.Unsupported('new in pure context')
        g = eng.store
        b = g[('ghost', 'alloc')].tree
        eng.assume(b > 0)
        g[('ghost', 'alloc')] = V(g[('ghost', 'alloc')].t, b + 1)
        tg = g[('ghost', 'tag')]
        g[('ghost', 'tag')] = V(tg.t, eng.named({'d': z3.Store(tg.tree['d'], b, k)}))
        for h, v in content.items():
            eng.ensure_heap(h)
            hv = g[('heap', h)]
            g[('heap', h)] = V(hv.t, eng.named({'d': t_store(hv.tree['d'], b, v)}))
        return b

    def copied(self, eng, h, tree):
        """what a copy of a stored value looks like: containers copy their items with Variant(const Variant&)"""
        if h != 'VPair':
            return tree
        t = eng.ty('VPair')
        f = eng.fresh(t, 'pair').tree
        eng.assume(f['id'] == tree['id'])
        return f

    def new_object(self, eng, n):
        t = n['type']['qualType'].rstrip()
        t = t[:-1].strip()
        c = canon(t)
        a = eng.rv(eng.ev(n['inner'][0]))
        ht = eng.ty(c)
        return E.PtrVal(self.alloc(eng, code_of(c), {c: self.copied(eng, c, eng.to_tree(ht, a))}), TPtr(t, 'raw'))

    def delete_object(self, eng, v, n):
        if not isinstance(v, E.PtrVal) or not isinstance(v.t.pointee, str):
            raise E.Unsupported('delete of %r' % (v,))
        eng.oblige('safe:C14:destroyed-as-created', Or(v.a == 0, self.tag(eng, v.a) == code_of(v.t.pointee)))

    def construct(self, eng, st, args):
        if st.startswith(('std::shared_ptr<', 'shared_ptr<')) and len(args) == 2 and isinstance(args[1], E.Closure):
            p = eng.rv(args[0])
            if isinstance(p, E.PtrVal):
                eng.call_closure(args[1], [E.PtrVal(p.a, TPtr('void', 'raw'))])      # (obliges that it destroys what was created)
                return E.PtrVal(p.a, TPtr(st[st.index('<') + 1:-1], 'shared'))
        if canon(st) in ('Text', 'Bytes') and len(args) == 1:
            v = eng.rv(args[0])
            if z3.is_expr(v):
                return v
        if canon(st) == 'Bytes' and len(args) == 2:
            b, e = [eng.rv(x) for x in args]
            if z3.is_expr(b) and isinstance(e, E.Rec) and 'mem' in e.fields and e.fields['mem'].eq(b):
                return bmem(b, e.fields['at'])
        return NotImplemented

    def subscript(self, eng, n):
        b, k = [eng.rv(eng.ev(x)) for x in n['inner']]
        return E.Rec({'mem': b, 'at': k})

    # ---- stored allocators and comparators
    def callback(self, eng, h, alias, args, rt, ty):
        if 'shared_ptr' in rt and len(args) == 1:
            p = eng.rv(args[0])
            if not isinstance(p, E.PtrVal):
                raise E.Unsupported('stored allocator given %r' % (p,))
            if not eng.branch(p.a != 0):
                return E.PtrVal(z3.IntVal(0), TPtr('void', 'shared'))
            k = hcode(h)
            eng.oblige('safe:C14:copied-as-stored', self.tag(eng, p.a) == k)
            return E.PtrVal(self.alloc(eng, k, {x: self.copied(eng, x, t_select(eng.store[('heap', x)].tree['d'], p.a)) for x in self.all_heaps(eng)}),
                            TPtr('void', 'shared'))
        if rt == 'int' and len(args) == 2:
            a, b = [eng.rv(x) for x in args]
            k = ccode(h)
            for p in (a, b):
                eng.oblige('safe:C14:compared-as-stored', And(p.a != 0, self.tag(eng, p.a) == k))
            r = z3.Int(fresh_name('cmp'))
            for _, f in self.compared(eng, k, a.a, b.a, r):
                eng.assume(f)
            return r
        if len(args) == 1 and isinstance(args[0], E.Loc) and repr(eng.loc_type(args[0])) == repr(eng.ty('Variant')):
            v = eng.rv(args[0]).tree
            r = converted(h, v['type'], v['data'])
            eng.assume(And(INT_RANGES['long'][0] <= r, r <= INT_RANGES['long'][1]))
            return r
        raise E.Unsupported('call of a stored function returning ' + rt)

    def all_heaps(self, eng):
        return [r[1] for r in eng.store if r[0] == 'heap']

    def content(self, heaps, k, a):
        """value of the object at a, as one number (k: heap name)"""
        t = t_select(heaps[k], a)
        return num(t['id'] if isinstance(t, dict) else t)

    def compared(self, eng, k, a, b, r):
        hs = {x: eng.store[('heap', x)].tree['d'] for x in self.all_heaps(eng)}
        for x in hs:
            e, g = same(x, self.content(hs, x, a), self.content(hs, x, b)), greater(x, self.content(hs, x, a), self.content(hs, x, b))
            yield 'C14:comparator-equal', Imp(k == code_of(x), (r == 0) == e)
            yield 'C14:comparator-greater', Imp(k == code_of(x), (r == 1) == And(Not(e), g))

    def check_functions(self, eng, k, tn):
        """the allocator and the comparator this variant was given do what is expected of those for type tn"""
        th = eng.store[('this',)].tree if ('this',) in eng.store else None
        return self.check_object(eng, th, k, tn)

    def check_object(self, eng, th, k, tn):
        for f, what in (('memoryAllocator', 0), ('compareOperator', 1)):
            h = th[f]
            c = eng.closures.get(h.get_id(), (None, None))[1]
            if c is None:
                continue
            save, path = dict(eng.store), list(eng.frames)
            if eng.choose('checks' + f):
                p = [z3.Int(fresh_name('stored')) for _ in range(1 + what)]
                for x in p:
                    eng.assume(And(0 < x, x < eng.store[('ghost', 'alloc')].tree, self.tag(eng, x) == k))
                if what == 0:
                    r = eng.rv(eng.call_closure(c, [E.PtrVal(z3.IntVal(0), TPtr('void', 'raw'))]))
                    eng.oblige('post:C14:allocator-of-nothing', r is None or r.a == 0)
                    eng.store = dict(save)
                    a0 = save[('ghost', 'alloc')].tree
                    r = eng.rv(eng.call_closure(c, [E.PtrVal(p[0], TPtr('void', 'raw'))]))
                    eng.oblige('post:C14:copy-is-a-new-object', And(r.a >= a0, r.a < eng.store[('ghost', 'alloc')].tree))
                    eng.oblige('post:C14:copy-has-the-type', self.tag(eng, r.a) == k)
                    hs = {x: eng.store[('heap', x)].tree['d'] for x in self.all_heaps(eng)}
                    eng.oblige('post:C14:copy-is-equal', self.content(hs, tn, r.a) == self.content(hs, tn, p[0]))
                    q = z3.Int(fresh_name('old'))
                    for x in self.all_heaps(eng):
                        for u, v in zip(t_leaves(hs[x]), t_leaves(save[('heap', x)].tree['d'] if ('heap', x) in save else hs[x])):
                            eng.oblige('post:C14:copying-changes-nothing', forall([q], Imp(q < a0, z3.Select(u, q) == z3.Select(v, q))))
                else:
                    r = eng.rv(eng.call_closure(c, [E.PtrVal(x, TPtr('void', 'raw')) for x in p]))
                    for l, g in self.compared(eng, k, p[0], p[1], r):
                        eng.oblige('post:' + l, g)
                raise E.PathEnd()
            eng.store = save
            eng.assume((ccode if what else hcode)(h) == k)

    # ---- values the library computes with
    def string_literal(self, eng, n):
        v = n.get('value', '""')
        return lit(v[1:-1])

    def float_literal(self, eng, n):
        return real(n['value'])

    def float_cast(self, eng, ck, v, f, t):
        tt = canon(t.get('desugaredQualType') or t['qualType'])
        v = num(v)
        if ck == 'IntegralToFloating' and tt == 'double':
            return i2d(v)
        if ck == 'FloatingToIntegral' and tt == 'long':
            return d2i(v)
        if ck == 'FloatingToIntegral' and tt == 'unsigned long':
            return d2u(v)
        return F_('cast::%s::%s' % (ck, tt), I, I)(v) if ck != 'FloatingToBoolean' else Not(deq(v, real('0.0')))

    def is_real(self, n):
        return strip_type(n['type'].get('desugaredQualType') or n['type']['qualType']) in ('double', 'float')

    def arith(self, eng, op, a, b, n):
        if not self.is_real(n['inner'][0]):
            return None
        if op in ('>', '<'):
            return (dgt if op == '>' else dlt)(a, b)
        if op in ('>=', '<='):
            return Or((dgt if op == '>=' else dlt)(a, b), deq(a, b))
        if op == '-':
            return dsub(a, b)
        if op in ('==', '!='):
            return deq(a, b) if op == '==' else Not(deq(a, b))
        return F_('num::' + op, I, I, I)(a, b)

    def lib_function(self, eng, name, argn, n):
        if name == 'static_pointer_cast' and len(argn) == 1:
            v = eng.rv(eng.ev(argn[0]))
            t = eng.ty(n['type']['qualType'])
            if canon(t.pointee) != 'void':
                eng.oblige('safe:C13:stored-as-' + canon(t.pointee), Or(v.a == 0, self.tag(eng, v.a) == code_of(t.pointee)))
            return (E.PtrVal(v.a, TPtr(t.pointee, 'shared')),)
        if name == 'to_string' and len(argn) == 1:
            v = num(eng.rv(eng.ev(argn[0])))
            return ((d2s if self.is_real(argn[0]) else n2s)(v),)
        if name in ('stoll', 'stol', 'stoull', 'stoul', 'stod'):
            v = eng.rv(eng.ev(argn[0]))
            kind = {'stol': 'stoll', 'stoul': 'stoull'}.get(name, name)
            bad, f = {'stoll': (bad_i, stoll), 'stoull': (bad_u, stoull), 'stod': (bad_d, stod)}[kind]
            if eng.branch(bad(v)):
                raise E.ThrowEx()
            r = f(v)
            if kind != 'stod':
                lo, hi = INT_RANGES['long' if kind == 'stoll' else 'unsigned long']
                eng.assume(And(lo <= r, r <= hi))
            return (r,)
        if name in ('abs', 'fabs') and len(argn) == 1 and self.is_real(argn[0]):
            return (dabs(eng.rv(eng.ev(argn[0]))),)
        if name == 'memcpy' and len(argn) == 3:
            d, s, k = [eng.rv(eng.ev(a)) for a in argn]
            if not (isinstance(d, E.Rec) and 'bytes' in d.fields and isinstance(s, E.PtrVal)):
                return NotImplemented
            dst = d.fields['bytes']
            old = eng.rv(dst)
            eng.oblige('safe:C13:destination-size', And(blen(old) == k, s.a != 0))
            tg = self.tag(eng, s.a)
            for kk, nm, t, size in KINDS:
                if size:
                    eng.oblige('safe:C13:whole-object-copied', Imp(tg == kk, k == size))
            eng.oblige('safe:C13:plain-object', And(tg >= 1, tg <= 9))
            v = z3.IntVal(0)
            for kk, nm, t, size in KINDS:
                if kk <= 9:
                    v = If(tg == kk, z3.Select(eng.store[('heap', t)].tree['d'], s.a), v)
            eng.put(dst, braw(tg, v))
            return (None,)
        return NotImplemented

    def text_of(self, eng, x):
        return eng.rv(x)

    def lib_method(self, eng, obj, tgt, t, name, args, n):
        if isinstance(tgt, E.PtrVal) and isinstance(tgt.t.pointee, str) and canon(tgt.t.pointee) in ('Text', 'Bytes'):
            me = n['inner'][0]
            while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                me = me['inner'][0]
            if me.get('isArrow'):
                obj = eng.pointee(tgt)
                t = eng.loc_type(obj)
        if isinstance(tgt, E.PtrVal) and isinstance(tgt.t.pointee, str) and canon(tgt.t.pointee) in ('VVector', 'VList'):
            if name == 'reserve':
                return (None,)
            if name == 'size':
                return (vlen(eng.rv(eng.pointee(tgt))),)
            if name in ('emplace_back', 'push_back') and len(args()) == 1:
                return self.append(eng, eng.pointee(tgt), canon(tgt.t.pointee), args()[0], n['inner'][1])
        k = getattr(t, 'name', None)
        if k not in ('Text', 'Bytes'):
            return NotImplemented
        v = eng.rv(obj)
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return (E.Rec({'at': name[-5:].replace('c', ''), 'of': v, 'kind': k}),)
        if name == 'empty':
            return (v == 0,)
        if name == 'data':
            return (E.Rec({'bytes': obj}),)
        if name in ('size', 'length') and k == 'Bytes':
            return (blen(v),)
        a = args()
        if name == 'reserve':
            return (None,)
        if name == 'clear':
            eng.put(obj, z3.IntVal(0))
            return (None,)
        if name == 'resize' and k == 'Bytes':
            x = eng.rv(a[0])
            eng.put(obj, If(v == 0, bzero(x), F_('bytes::resized', I, I, I)(v, x)))
            return (None,)
        if name in ('push_back', 'emplace_back') and k == 'Bytes':
            eng.put(obj, bpush(v, num(eng.rv(a[0]))))
            return (None,)
        if name == 'append' and len(a) == 1 and k == 'Text':
            eng.put(obj, cat(v, eng.rv(a[0])))
            return (obj,)
        if name == 'assign' and len(a) == 1:
            eng.put(obj, eng.rv(a[0]))
            return (obj,)
        if name in ('assign', 'insert', 'append') and len(a) >= 2:
            a = [eng.rv(x) for x in a]
            b, e = a[-2:]
            if all(isinstance(x, E.Rec) and 'of' in x.fields for x in (b, e)) and b.fields['at'] == 'begin' and e.fields['at'] == 'end' and b.fields['of'].eq(e.fields['of']):
                s, sk = b.fields['of'], b.fields['kind']
                s = s if sk == k else (b2s(s) if k == 'Text' else s2b(s))
                if name == 'assign' and len(a) == 2:
                    eng.put(obj, s)
                    return (obj,)
                at = a[0]
                if name == 'append' or (isinstance(at, E.Rec) and at.fields.get('at') == 'end' and at.fields['of'].eq(v)):
                    eng.put(obj, (cat if k == 'Text' else bcat)(v, s))
                    return (obj,)
        raise E.Unsupported('%s::%s' % (k, name))

    def variant_from(self, eng, x, n):
        """a variant made by the library from x"""
        t = eng.ty('Variant')
        c = canon(n['type'].get('desugaredQualType') or n['type']['qualType'])
        if c == 'Variant':
            return eng.construct_struct(t, [x])
        if c != 'long':
            raise E.Unsupported('variant made from ' + c)
        outer, eng.ctor_type = eng.ctor_type, 'void (const int64_t)'
        try:
            return eng.construct_struct(t, [x])
        finally:
            eng.ctor_type = outer

    def append(self, eng, loc, kind, x, n):
        v = self.variant_from(eng, x, n)
        # (its functions are made for long integers: contracts Variant#BYTE_8 and Variant#copy)
        if canon(n['type'].get('desugaredQualType') or n['type']['qualType']) == 'long':
            eng.assume(And(hcode(v.tree['memoryAllocator']) == 4, ccode(v.tree['compareOperator']) == 4))
        old = eng.rv(loc)
        new = z3.Int(fresh_name('content'))
        j = z3.Int('j!')
        a, b = item_fields(eng, kind, old), item_fields(eng, kind, new)
        eng.assume(And(vlen(new) == vlen(old) + 1, new != 0))
        for f in v.tree:
            eng.assume(forall([j], Imp(And(0 <= j, j < vlen(old)), z3.Select(b[f], j) == z3.Select(a[f], j)), patterns=[z3.Select(b[f], j)]))
            eng.assume(z3.Select(b[f], vlen(old)) == v.tree[f])
        eng.put(loc, new)
        return (None,)

    def operator_call(self, eng, op, a0, argn, n):
        if len(argn) != 1:
            return NotImplemented
        t = eng.loc_type(a0) if isinstance(a0, E.Loc) else None
        q = canon(n['inner'][1]['type']['qualType'])
        if op == 'operator+=' and getattr(t, 'name', '') == 'Text':
            eng.put(a0, cat(eng.rv(a0), eng.rv(eng.ev(argn[0]))))
            return a0
        if op == 'operator+' and 'Text' in (canon(x['type']['qualType']) for x in n['inner'][1:]):
            return cat(eng.rv(a0), eng.rv(eng.ev(argn[0])))
        return NotImplemented

    def stored_operator(self, eng, op, a0, a1, n):
        """== and > on stored objects inside a comparator"""
        if isinstance(a0, E.Loc) and isinstance(a1, E.Loc) and a0.root == a1.root and a0.root[0] == 'heap':
            h = a0.root[1]
            x, y = [eng.rv(l) for l in (a0, a1)]
            x, y = [num(v.tree['id'] if isinstance(v, V) else v) for v in (x, y)]
            return {'operator==': lambda: same(h, x, y), 'operator!=': lambda: Not(same(h, x, y)), 'operator>': lambda: greater(h, x, y)}.get(op, lambda: NotImplemented)()
        return NotImplemented

    def range_of(self, eng, loc):
        if loc.root[0] != 'heap' or loc.root[1] not in CONT:
            return None
        return eng.temp(items(eng, loc.root[1], loc.path[0][1]))

    # ---- the source of an assignment may be a part of the value that is replaced
    def on_write(self, eng, loc):
        super().on_write(eng, loc)
        if not loc.path or loc.path[-1] != ('f', 'data') or loc.root[0] != 'this':
            return
        t, old = eng.locate(loc)
        if not z3.is_expr(old) or z3.is_int_value(z3.simplify(old)) and z3.simplify(old).as_long() == 0:
            return
        for r, v in eng.store.items():
            if r[0] == 'v' and isinstance(v, V) and isinstance(v.t, TPtr) and v.t.kind == 'shared' and v.tree.eq(old):
                return
        g = eng.store[('ghost', 'gone')]
        eng.store[('ghost', 'gone')] = V(g.t, Or(g.tree, old != 0))

    def on_access(self, eng, loc):
        super().on_access(eng, loc)
        if loc.root[0] == 'p':
            eng.oblige('safe:C14:source-outlives-its-use', Not(eng.store[('ghost', 'gone')].tree))


def same(h, x, y):
    if h in ('VVector', 'VList', 'VMap', 'VPair', USER) or h not in CODE:
        return ueq(code_of(h), x, y)
    return deq(x, y) if h == 'double' else x == y


def greater(h, x, y):
    if h in ('VVector', 'VList', 'VMap', 'VPair', USER) or h not in CODE:
        return ugt(code_of(h), x, y)
    return dgt(x, y) if h == 'double' else sgt(x, y) if h == 'Text' else bgt(x, y) if h == 'Bytes' else x > y


def item_fields(eng, kind, a):
    """the items of the container with content a"""
    v = eng.ty('Variant')
    t = TStruct('pair', {'first': v, 'second': v}) if kind == 'VMap' else v

    def build(sh, nm):
        if isinstance(sh, dict):
            return {k: build(x, nm + '.' + k) for k, x in sh.items()}
        return z3.Function('items::%s%s' % (kind, nm), I, sh)(a)
    return build(shape(TSeq(t, 'list'))['d'], '')


def items(eng, kind, a):
    """the items of the container at address a, which are variants: the class invariant holds for them"""
    v = eng.ty('Variant')
    t = TStruct('pair', {'first': v, 'second': v}) if kind == 'VMap' else v

    a = z3.Select(eng.store[('heap', kind)].tree['d'], a)
    st = TSeq(t, 'list')
    tree = {'lo': z3.IntVal(0), 'hi': vlen(a), 'd': item_fields(eng, kind, a), 'cap': z3.IntVal(0)}
    q = z3.Int(fresh_name('item'))
    for part in (['first', 'second'] if kind == 'VMap' else [None]):
        d = tree['d'] if part is None else tree['d'][part]
        o = {f: z3.Select(d[f], q) for f in ('type', 'data', 'memoryAllocator', 'compareOperator')}
        snap = E.Snap(eng, eng.store, eng.fr)
        for _, f in rep_of(eng, snap, o):
            eng.assume(forall([q], Imp(And(0 <= q, q < vlen(a)), f), patterns=[o['type']]))
    return V(st, tree)


def rep_of(eng, snap, o):
    """the class invariant for the variant with fields o"""
    t, a = o['type'], o['data']
    tag = z3.Select(snap.store[('ghost', 'tag')].tree['d'], a)
    al = snap.store[('ghost', 'alloc')].tree
    yield 'C13:type-in-range', And(0 <= t, t <= 17)
    yield 'C13:empty-owns-nothing', Imp(t == UNKNOWN, a == 0)
    yield 'C13:owns-an-object', Imp(t != UNKNOWN, And(0 < a, a < al))
    yield 'C13:object-of-its-type', Imp(t != UNKNOWN, If(t == NUM['CUSTOM'], tag >= 1, tag == t))
    yield 'C14:allocator-for-its-type', Imp(t != UNKNOWN, And(o['memoryAllocator'] != 0, hcode(o['memoryAllocator']) == tag))
    yield 'C14:comparator-for-its-type', Imp(t != UNKNOWN, And(o['compareOperator'] != 0, ccode(o['compareOperator']) == tag))


def tag_at(snap, a):
    return z3.Select(snap.store[('ghost', 'tag')].tree['d'], a)


class Obj:
    """a variant seen by the specification"""

    def __init__(self, c, which, post=False):
        self.c, self.eng = c, c.eng
        self.snap = c.post if post else c.pre
        if which == 'this':
            self.tree = self.snap.at(self.snap._this).tree
        elif which == 'ret':
            self.tree = c.ret.tree
            self.snap = c.post
        else:
            self.tree = (c.argp(which) if post else c.arg(which)).tree
        self.t, self.a = self.tree['type'], self.tree['data']

    def h(self, k):
        """content of the object it owns, seen as the C++ type of kind k"""
        n = {kk: t for kk, _, t, _ in KINDS}[k] or USER
        return self.eng.specs.content({n: self.snap.store[('heap', n)].tree['d']}, n, self.a)

    def rep(self, what=''):
        return [(l + what, f) for l, f in rep_of(self.eng, self.snap, self.tree)]

    def case(self, table, default):
        r = default
        for k in sorted(table, reverse=True):
            r = If(self.t == k, table[k], r)
        return r

    # -- conversions, as documented
    def i64(self):
        tab = {k: E.cast_int(self.h(k), INT_RANGES['long']) if k == 8 else self.h(k) for k in INTS}
        tab[9], tab[10] = d2i(self.h(9)), self.h(10)
        s = self.h(11)
        tab[11] = If(bad_i(s), 0, stoll(s))
        return self.case(tab, z3.IntVal(0))

    def u64(self):
        tab = {k: E.cast_int(self.h(k), INT_RANGES['unsigned long']) if k <= 4 else self.h(k) for k in INTS}
        tab[9], tab[10] = d2u(self.h(9)), self.h(10)
        s = self.h(11)
        tab[11] = If(bad_u(s), 0, stoull(s))
        return self.case(tab, z3.IntVal(0))

    def real(self):
        tab = {k: i2d(self.h(k)) for k in INTS}
        tab[9], tab[10] = self.h(9), i2d(self.h(10))
        s = self.h(11)
        tab[11] = If(bad_d(s), real('0.0'), stod(s))
        return self.case(tab, real('0.0'))

    def boolean(self):
        s = self.h(11)
        return If(self.t == 10, self.h(10) != 0, If(self.t == 11, Or(s == lit('true'), And(Not(bad_i(s)), stoll(s) != 0)), self.i64() != 0))

    def numeric(self):
        return And(1 <= self.t, self.t <= 9)

    def unsigned(self):
        return And(5 <= self.t, self.t <= 8)


def equal(x, y):
    """comparison of the values of two variants"""
    eps = real('1.0E-8')
    nums = If(Or(x.t == 9, y.t == 9), dlt(dabs(dsub(x.real(), y.real())), eps),
              If(Or(x.unsigned(), y.unsigned()), x.u64() == y.u64(), x.i64() == y.i64()))
    return If(x.a == y.a, True, If(Or(x.a == 0, y.a == 0), False,
              If(And(x.numeric(), y.numeric()), nums, And(x.t == y.t, stored(x, y, same)))))


def bigger(x, y):
    nums = If(Or(x.t == 9, y.t == 9), dgt(x.real(), y.real()),
              If(Or(x.unsigned(), y.unsigned()), x.u64() > y.u64(), x.i64() > y.i64()))
    return If(Or(x.a == y.a, x.a == 0, y.a == 0), False,
              If(And(x.numeric(), y.numeric()), nums, And(x.t == y.t, Not(stored(x, y, same)), stored(x, y, greater))))


def stored(x, y, rel):
    r = None
    tag = z3.Select(x.snap.store[('ghost', 'tag')].tree['d'], x.a)
    for k in range(10, 17):
        n = {kk: t for kk, _, t, _ in KINDS}[k]
        e = rel(n, x.h(k), y.h(k))
        r = e if r is None else If(x.t == k, e, r)
    return r


def make():
    S = VariantSpecs()
    sig = lambda *ps: (lambda d: [canon(p['type']['qualType']) for p in TU.params(d)] == list(ps) and '<T>' not in d['type']['qualType'] and '<K' not in d['type']['qualType'])

    def start(eng, c):
        g = eng.store[('ghost', 'gone')]
        eng.store[('ghost', 'gone')] = V(g.t, z3.BoolVal(False))
        c.pre.store[('ghost', 'gone')] = eng.store[('ghost', 'gone')]
        # (the two items of every stored pair are variants, so the class invariant holds for them)
        a = z3.Int('a!')
        d = c.pre.store[('heap', 'VPair')].tree['d']
        tag = z3.Select(c.pre.store[('ghost', 'tag')].tree['d'], a)
        for part in ('first', 'second'):
            o = {f: z3.Select(d[part][f], a) for f in ('type', 'data', 'memoryAllocator', 'compareOperator')}
            for _, f in rep_of(eng, c.pre, o):
                eng.assume(forall([a], Imp(And(0 < a, a < c.pre.store[('ghost', 'alloc')].tree, tag == 16), f), patterns=[o['type']]))

    def A(key, props, *a, **k):
        e = k.pop('entry', None)
        k['entry'] = (lambda eng, c: (start(eng, c), e(eng, c) if e else None))
        S.add('variant::Variant::' + key, Spec(props, *a, **k))
        return S.contracts['variant::Variant::' + key]
    T = lambda c, post=False: Obj(c, 'this', post)
    PLAIN = lambda c: T(c).rep()
    # ------------------------------------------------------------------ queries
    for name, kinds in (('isEmpty', [0]), ('isString', [11]), ('isByteArray', [12]), ('isVector', [14]), ('isList', [13]), ('isMap', [15]), ('isPair', [16]),
                        ('isCustomType', [17]), ('isBool', [10]), ('isNumeric', list(range(1, 10))), ('isSignedNumeric', [1, 2, 3, 4, 9]), ('isUnsignedNumeric', [5, 6, 7, 8])):
        A(name, ['C13'], PLAIN, lambda c, kinds=kinds: [('C13:answers-for-the-stored-type', c.ret == Or([T(c).t == k for k in kinds]))])
    A('getType', ['C13'], PLAIN, lambda c: [('C13:stored-type', c.ret == T(c).t)])
    A('operator bool', ['C13'], PLAIN, lambda c: [('C13:has-a-value', c.ret == (T(c).t != 0))])
    for name, k in (('getByteArray', 12), ('getVector', 14), ('getList', 13), ('getMap', 15), ('getPair', 16)):
        A(name, ['C13'], PLAIN, lambda c, k=k: [('C13:the-stored-object-or-nothing', c.ret == If(T(c).t == k, T(c).a, 0))])
    # ------------------------------------------------------------------ conversions
    A('toInt64', ['C13', 'C14'], PLAIN, lambda c: [('C13:as-long', c.ret == T(c).i64())])
    A('toUInt64', ['C13', 'C14'], PLAIN, lambda c: [('C13:as-unsigned-long', c.ret == T(c).u64())])
    A('toDouble', ['C13', 'C14'], PLAIN, lambda c: [('C13:as-double', c.ret == T(c).real())])
    A('toBool', ['C13'], PLAIN, lambda c: [('C13:as-bool', c.ret == T(c).boolean())])
    EX.append((S, A, T, PLAIN, sig))
    extend_text(S, A, T, PLAIN)
    extend_values(S, A, T, PLAIN, sig)
    return S


EX = []


def text_def(eng, snap, fn, join, cases, default):
    """definition of the text (bytes) of a variant, by recursion over containers"""
    a, i, t = z3.Int('a!'), z3.Int('i!'), z3.Int('t!')
    hs = {n: snap.store[('heap', n)].tree['d'] for n in VariantSpecs.heaps}
    for k, f in cases(hs, a, eng).items():
        eng.assume(forall([a], fn(k, a) == f, patterns=[fn(k, a)]))
    eng.assume(forall([t, a], Imp(Or(t < 1, t > 16, *[t == k for k in default]), fn(t, a) == 0), patterns=[fn(t, a)]))


def extend_text(S, A, T, PLAIN):
    def item(eng, kind, a, i, part=None):
        d = items(eng, kind, a).tree['d']
        d = d if part is None else d[part]
        return z3.Select(d['type'], i), z3.Select(d['data'], i)

    def text_cases(hs, a, eng):
        r = {k: n2s(z3.Select(hs[t], a)) for k, _, t, _ in KINDS if k <= 8}
        r[9] = d2s(z3.Select(hs['double'], a))
        r[10] = If(z3.Select(hs['bool'], a), lit('true'), lit('false'))
        r[11] = z3.Select(hs['Text'], a)
        r[12] = b2s(z3.Select(hs['Bytes'], a))
        for c in CONT:
            k = z3.Select(hs[c], a)
            r[CODE[c]] = sjoin[c](k, vlen(k))
        p = hs['VPair']
        f, g = [tostr(z3.Select(p[x]['type'], a), z3.Select(p[x]['data'], a)) for x in ('first', 'second')]
        r[16] = cat(lit('('), cat(f, cat(lit(', '), cat(g, lit(')')))))
        return r

    def bytes_cases(hs, a, eng):
        r = {k: braw(k, z3.Select(hs[t], a)) for k, _, t, _ in KINDS if k <= 9}
        r[10] = bpush(0, num(z3.Select(hs['bool'], a)))
        r[11] = s2b(z3.Select(hs['Text'], a))
        r[12] = z3.Select(hs['Bytes'], a)
        for c in ('VVector', 'VList'):
            k = z3.Select(hs[c], a)
            r[CODE[c]] = bjoin[c](k, vlen(k))
        p = hs['VPair']
        f, g = [tobytes(z3.Select(p[x]['type'], a), z3.Select(p[x]['data'], a)) for x in ('first', 'second')]
        r[16] = bcat(f, g)
        return r

    def entry(fn, cases, default, joins):
        def go(eng, c):
            text_def(eng, c.pre, fn, None, cases, default)
            a, i = z3.Int('a!'), z3.Int('i!')
            for k, J in joins.items():
                sh = shape(TSeq(TStruct('pair', {'first': eng.ty('Variant'), 'second': eng.ty('Variant')}) if k == 'VMap' else eng.ty('Variant'), 'list'))

                def sel(nm, s):
                    return z3.Select(z3.Function('items::%s%s' % (k, nm), I, s)(a), i)
                d = sh['d']
                if fn is tostr:
                    if k == 'VMap':
                        x, y = [tostr(sel('.%s.type' % p, d[p]['type']), sel('.%s.data' % p, d[p]['data'])) for p in ('first', 'second')]
                        x = cat(x, cat(lit('=['), cat(y, lit(']'))))
                    else:
                        x = tostr(sel('.type', d['type']), sel('.data', d['data']))
                    prev = J(a, i)
                    step = If(prev == 0, x, cat(prev, cat(lit(', '), x)))
                else:
                    step = bcat(J(a, i), tobytes(sel('.type', d['type']), sel('.data', d['data'])))
                eng.assume(forall([a, i], Imp(And(0 <= i, i < vlen(a)), J(a, i + 1) == step), patterns=[J(a, i + 1)]))
                eng.assume(forall([a], J(a, 0) == 0, patterns=[J(a, 0)]))
        return go

    def inv(J, kind):
        """the text of the items up to here"""
        def f(c):
            th = Obj(c, 'this')
            yield 'C13:joined-so-far', c.L('result') == J(th.h(kind), c.pos)
        return f
    PR = lambda c: PLAIN(c) + [('C13:items', z3.BoolVal(True))]
    A('toString', ['C13'], PLAIN, lambda c: [('C13:as-text', c.ret == tostr(T(c).t, T(c).a)), ('C13:text-of-a-text', Imp(T(c).t == 11, c.ret == T(c).h(11)))],
      entry=entry(tostr, text_cases, [], sjoin), loops={0: inv(sjoin['VVector'], 14), 1: inv(sjoin['VList'], 13), 2: inv(sjoin['VMap'], 15)})
    A('toByteArray', ['C13'], PLAIN, lambda c: [('C13:as-bytes', c.ret == tobytes(T(c).t, T(c).a))],
      entry=entry(tobytes, bytes_cases, [15], {k: bjoin[k] for k in ('VVector', 'VList')}), loops={0: inv(bjoin['VVector'], 14), 1: inv(bjoin['VList'], 13)})


def extend_values(S, A, T, PLAIN, sig):
    MOD = ['type', 'data', 'memoryAllocator', 'compareOperator', 'ghost:tag', 'ghost:alloc', 'ghost:gone']
    HM = ['heap:' + h for h in VariantSpecs.heaps]

    def untouched(c):
        """objects that were there before are as they were"""
        q = z3.Int(fresh_name('old'))
        a0 = c.pre.store[('ghost', 'alloc')].tree
        t0, t1 = [x.store[('ghost', 'tag')].tree['d'] for x in (c.pre, c.post)]
        yield 'C14:other-objects-keep-their-type', forall([q], Imp(q < a0, z3.Select(t1, q) == z3.Select(t0, q)), patterns=[z3.Select(t1, q)])
        for r, v in c.pre.store.items():
            if r[0] == 'heap':
                for x, y in zip(t_leaves(c.post.store[r].tree['d']), t_leaves(v.tree['d'])):
                    if not x.eq(y):
                        yield 'C14:other-objects-keep-their-value', forall([q], Imp(q < a0, z3.Select(x, q) == z3.Select(y, q)), patterns=[z3.Select(x, q)])

    def holds(o, c, k, value):
        """o holds this value in an object of its own"""
        yield 'C13:type-of-the-value', o.t == k
        yield 'C14:object-of-its-own', o.a >= c.pre.store[('ghost', 'alloc')].tree
        yield 'C13:stores-the-value', o.h(k) == value
        yield from o.rep()
        yield from untouched(c)

    def given(c, k):
        v = c.arg(0)
        return num(v.tree['id'] if isinstance(v, V) else v)

    def finish(k, which='this'):
        n = {kk: t for kk, _, t, _ in KINDS}[k]

        def go(eng, c):
            S.check_object(eng, Obj(c, which, True).tree, z3.IntVal(k), n)
        return go
    alive = [('alive', lambda c: True)]
    for k, nm, t, _ in KINDS:
        if t is None:
            continue
        A('Variant#' + nm, ['C13', 'C14'], None, lambda c, k=k: list(holds(T(c, True), c, k, given(c, k))), MOD + HM, pick=sig(t), nparams=1, exit=finish(k))
        A('operator=#' + nm, ['C13', 'C14'], PLAIN, lambda c, k=k: list(holds(T(c, True), c, k, given(c, k))), MOD + HM, pick=sig(t), nparams=1, exit=finish(k))
        A('make#' + nm, ['C13', 'C14'], None, lambda c, k=k: list(holds(Obj(c, 'ret'), c, k, given(c, k))), MOD[4:] + HM, pick=sig(t), nparams=1, exit=finish(k, 'ret'))
    # texts and memory areas given as pointers
    ch, mem = (lambda d: d['type']['qualType'].endswith('(const char *)')), (lambda d: 'const char *, ' in d['type']['qualType'])
    for form, pick, k, val in (('chars', ch, 11, lambda c: num(c.arg(0))), ('memory', mem, 12, lambda c: bmem(num(c.arg(0)), num(c.arg(1))))):
        for fn in ('Variant', 'operator=', 'make'):
            if form == 'memory' and fn == 'operator=':
                continue
            o = (lambda c: Obj(c, 'ret')) if fn == 'make' else (lambda c: T(c, True))
            A('%s#%s' % (fn, form), ['C13', 'C14'], PLAIN if fn == 'operator=' else None, lambda c, k=k, val=val, o=o: list(holds(o(c), c, k, val(c))),
              (MOD[4:] if fn == 'make' else MOD) + HM, pick=pick, exit=finish(k, 'ret' if fn == 'make' else 'this'))
    # ------------------------------------------------------------------ templates (instantiated in inst_variant.cpp)
    def user(o, c):
        yield 'C13:type-of-the-value', o.t == 17
        yield 'C14:object-of-its-own', o.a >= c.pre.store[('ghost', 'alloc')].tree
        yield 'C13:stores-the-value', o.h(17) == given(c, 17)
        yield 'C13:object-of-the-given-type', tag_at(o.snap, o.a) == CODE[USER]
        yield from o.rep()
        yield from untouched(c)

    def userfns(which):
        return lambda eng, c: S.check_object(eng, Obj(c, which, True).tree, z3.IntVal(CODE[USER]), USER)
    for fn in ('Variant', 'operator=', 'make', 'makeCustom'):
        ret = fn.startswith('make')
        A(fn + '#CUSTOM', ['C13', 'C14'], PLAIN if fn == 'operator=' else None, lambda c, ret=ret: list(user(Obj(c, 'ret') if ret else T(c, True), c)),
          (MOD[4:] if ret else MOD) + HM, pick=sig(USER), exit=userfns('ret' if ret else 'this'))
    A('getCustomType', ['C13'], lambda c: PLAIN(c) + [('same-user-type', Imp(T(c).t == 17, tag_at(c.pre, T(c).a) == CODE[USER]))],
      lambda c: [('C13:the-stored-object-or-nothing', c.ret == If(T(c).t == 17, T(c).a, 0))], pick=lambda d: 'Custom' in d['type']['qualType'])
    for fn, kind, k in (('toVector', 'VVector', 14), ('toList', 'VList', 13)):
        def each(c, seq, upto, kind=kind, k=k):
            j = z3.Int('j!')
            d = item_fields(c.eng, kind, T(c).h(k))
            return forall([j], Imp(And(0 <= j, j < upto), seq.at(seq.lo + j) == converted(c.arg(0), z3.Select(d['type'], j), z3.Select(d['data'], j))), patterns=[z3.Select(d['type'], j)])
        A(fn, ['C13'], lambda c: PLAIN(c) + [('a-converter', c.arg(0) != 0)], lambda c, k=k, each=each: [('C13:as-many-items', c.ret.n == If(T(c).t == k, vlen(T(c).h(k)), 0)),
                                                         ('C13:converted-items', Imp(T(c).t == k, each(c, c.ret, vlen(T(c).h(k)))))],
          loops={0: lambda c, each=each: [('C13:as-many-so-far', c.L('res').n == c.pos), ('C13:converted-so-far', each(c, c.L('res'), c.pos))]},
          pick=lambda d: '<long' in d['type']['qualType'])
    def item(c, part):
        d = c.pre.store[('heap', 'VPair')].tree['d'][part]
        return z3.Select(d['type'], T(c).a), z3.Select(d['data'], T(c).a)

    def halves(c):
        for i, part in enumerate(('first', 'second')):
            yield 'C13:converted-' + part, c.ret.tree[part] == If(T(c).t == 16, converted(c.arg(i), *item(c, part)), 0)
    A('toPair', ['C13'], lambda c: PLAIN(c) + [('converters', And(c.arg(0) != 0, c.arg(1) != 0))], lambda c: list(halves(c)), pick=lambda d: '<long' in d['type']['qualType'])
    def entries(c, upto, res):
        """the map made of the first items (the first of several equal keys counts); ghost `from`: which item an entry comes from"""
        j, key = z3.Int('j!'), z3.Int('key!')
        d = item_fields(c.eng, 'VMap', T(c).h(15))
        at = lambda i, part, conv: converted(c.arg(conv), z3.Select(d[part]['type'], i), z3.Select(d[part]['data'], i))
        fr = c.post.store[('ghost', 'from')].tree['d']
        w = z3.Select(fr, key)
        yield 'C13:every-item-is-there', forall([j], Imp(And(0 <= j, j < upto), And(res.has(at(j, 'first', 0)), z3.Select(fr, at(j, 'first', 0)) <= j)), patterns=[z3.Select(d['first']['type'], j)])
        yield 'C13:every-entry-is-an-item', forall([key], Imp(res.has(key), And(0 <= w, w < upto, at(w, 'first', 0) == key, res.at(key) == at(w, 'second', 1))), patterns=[res.has(key)])

    def remember(eng, c):
        d = item_fields(eng, 'VMap', T(c).h(15))
        key = converted(c.arg(0), z3.Select(d['first']['type'], c.pos), z3.Select(d['first']['data'], c.pos))
        g = eng.store[('ghost', 'from')]
        old = g.tree['d']
        eng.store[('ghost', 'from')] = V(g.t, {'d': z3.Store(old, key, If(c.L('res').has(key), z3.Select(old, key), c.pos))})
    A('toMap', ['C13'], lambda c: PLAIN(c) + [('converters', And(c.arg(0) != 0, c.arg(1) != 0))],
      lambda c: [('C13:empty-unless-a-map', Imp(T(c).t != 15, forall([z3.Int('key!')], Not(c.ret.has(z3.Int('key!'))), patterns=[c.ret.has(z3.Int('key!'))])))] +
      [(l, Imp(T(c).t == 15, f)) for l, f in entries(c, vlen(T(c).h(15)), c.ret)], ['ghost:from'],
      loops={0: {'inv': lambda c: list(entries(c, c.pos, c.L('res'))), 'ghost': remember}}, pick=lambda d: '<long' in d['type']['qualType'])
    for kind, k, cpp in (('VVector', 14, 'std::vector<long>'), ('VList', 13, 'std::list<long>')):
        def built(c, o, content, upto, kind=kind):
            j = z3.Int('j!')
            d = item_fields(c.eng, kind, content)
            f = {x: z3.Select(d[x], j) for x in ('type', 'data', 'memoryAllocator', 'compareOperator')}
            g0, st = c.pre.store[('ghost', 'alloc')].tree, c.post.store
            v = c.arg(0)
            hj = z3.Select(st[('heap', 'long')].tree['d'], f['data'])
            for l, x in [('C13:items-of-the-type', f['type'] == 4), ('C13:items-in-order', hj == v.at(v.lo + j)), ('C14:items-of-their-own', f['data'] >= g0)] + \
                    [(l.replace(':', ':items-'), x) for l, x in rep_of(c.eng, c.post, f)]:
                yield l, forall([j], Imp(And(0 <= j, j < upto), x), patterns=[f['type'], f['data'], f['memoryAllocator'], f['compareOperator']])

        def inv(c, kind=kind, k=k, built=built):
            a = c.L('dest')
            content = z3.Select(c.post.store[('heap', kind)].tree['d'], a)
            g0, g1 = c.pre.store[('ghost', 'alloc')].tree, c.post.store[('ghost', 'alloc')].tree
            yield 'C14:in-an-object-of-its-own', And(g0 <= a, a < g1)
            yield 'C13:in-an-object-of-the-type', tag_at(c.post, a) == k
            n = c.pos - c.arg(0).lo
            yield 'C13:as-many-so-far', And(vlen(content) == n, n <= c.arg(0).n)
            yield from built(c, None, content, n)
            yield from untouched(c)

        def done(c, o, kind=kind, k=k, built=built):
            v = c.arg(0)
            yield 'C13:type-of-the-value', o.t == k
            yield 'C14:object-of-its-own', o.a >= c.pre.store[('ghost', 'alloc')].tree
            yield 'C13:as-many-items', vlen(o.h(k)) == v.n
            yield from built(c, o, o.h(k), v.n)
            yield from o.rep()
            yield from untouched(c)
        for fn in ('Variant',):
            ret = False
            A('%s#from-%s' % (fn, kind), ['C13', 'C14'], None, lambda c, done=done, ret=ret: list(done(c, Obj(c, 'ret') if ret else T(c, True))), (MOD[4:] if ret else MOD) + HM,
              loops={} if ret else {0: inv}, pick=lambda d, cpp=cpp: d['type']['qualType'].endswith('(const %s &)' % cpp), exit=finish(k, 'ret' if ret else 'this'))
    # ------------------------------------------------------------------ copy, move, clear
    def copied(o, c, src):
        s, s1 = Obj(c, src), Obj(c, src, True)
        yield from o.rep()
        yield 'C14:copy-has-the-type', o.t == s.t
        for k, nm, t, _ in KINDS:
            if t:
                yield 'C14:copy-has-the-value', Imp(s.t == k, o.h(k) == s.h(k))
        yield 'C14:copy-shares-nothing', Imp(o.a != 0, Or(o.a >= c.pre.store[('ghost', 'alloc')].tree, And(o.a == s.a, own(c, o))))
        if c.eng.args.get(src) != ('this',):
            yield 'C14:source-unchanged', And([x == y for x, y in zip(t_leaves(s.tree), t_leaves(s1.tree))])
        yield from untouched(c)

    def own(c, o):
        """(assigned to itself: it keeps its object)"""
        try:
            return Obj(c, 'this').a == o.a
        except Exception:
            return z3.BoolVal(False)
    def both(c):
        # (every variant has an object of its own: see object-of-its-own, copy-shares-nothing, source-is-empty)
        other = z3.BoolVal(True) if T(c).tree is Obj(c, 0).tree else Or(T(c).a == 0, T(c).a != Obj(c, 0).a)
        return PLAIN(c) + Obj(c, 0).rep('-of-the-argument') + [('C14:objects-of-their-own', other)]
    argrep = lambda c: Obj(c, 0).rep('-of-the-argument')
    A('operator=#copy', ['C14'], both, lambda c: list(copied(T(c, True), c, 0)), MOD + HM, pick=lambda d: d['type']['qualType'] == 'Variant &(const Variant &)')
    A('Variant#copy', ['C14'], argrep, lambda c: list(copied(T(c, True), c, 0)), MOD + HM, pick=lambda d: d['type']['qualType'] == 'void (const Variant &)')
    A('make#copy', ['C14'], argrep, lambda c: list(copied(Obj(c, 'ret'), c, 0)), MOD[4:] + HM, pick=lambda d: d['type']['qualType'] == 'Variant (const Variant &)')

    def moved(c, ctor):
        s, s1, o = Obj(c, 0), Obj(c, 0, True), T(c, True)
        same_ = And(s.a == T(c).a, s.a != 0) if not ctor else z3.BoolVal(False)
        yield from o.rep()
        yield from [(l + '-of-the-source', f) for l, f in s1.rep()]
        yield 'C14:moved-has-the-type', o.t == s.t
        yield 'C14:moved-has-the-object', o.a == s.a
        yield 'C14:source-is-empty', Or(s1.t == 0, same_)
        yield from untouched(c)
    A('operator=#move', ['C14'], both, lambda c: list(moved(c, False)), MOD + ['#0'], pick=lambda d: d['type']['qualType'].startswith('Variant &(Variant &&)'))
    A('Variant#move', ['C14'], argrep, lambda c: list(moved(c, True)), MOD + ['#0'], pick=lambda d: d['type']['qualType'].startswith('void (Variant &&)'))
    A('clear', ['C14'], PLAIN, lambda c: [('C14:empty', T(c, True).t == 0)] + T(c, True).rep() + list(untouched(c)), MOD)
    # ------------------------------------------------------------------ comparison
    custom = lambda c: both(c) + [('same-user-type', Imp(And(T(c).t == 17, Obj(c, 0).t == 17), tagof(c, T(c).a) == tagof(c, Obj(c, 0).a)))]

    def tagof(c, a):
        return z3.Select(c.pre.store[('ghost', 'tag')].tree['d'], a)
    known = lambda c: Or(T(c).t != 17, Obj(c, 0).t != 17, T(c).a == Obj(c, 0).a)
    # comparing two user-defined objects is up to their own operators
    eqs, gts = (lambda c: equal(T(c), Obj(c, 0))), (lambda c: bigger(T(c), Obj(c, 0)))
    U = lambda nm, c: c.ret
    A('operator==', ['C14'], custom, lambda c: [('C14:equal-values', Imp(known(c), c.ret == eqs(c))),
                                                ('C14:equality-is-symmetric', Imp(And(known(c), T(c).t < 12), eqs(c) == equal(Obj(c, 0), T(c))))])
    A('operator!=', ['C14'], custom, lambda c: [('C14:unequal-values', Imp(known(c), c.ret == Not(eqs(c))))])
    A('operator>', ['C14'], custom, lambda c: [('C14:greater', Imp(known(c), c.ret == gts(c)))])
    A('operator>=', ['C14'], custom, lambda c: [('C14:greater-or-equal', Imp(known(c), c.ret == Or(eqs(c), gts(c))))])
    A('operator<', ['C14'], custom, lambda c: [('C14:less', Imp(known(c), c.ret == And(Not(eqs(c)), Not(gts(c)))))])
    A('operator<=', ['C14'], custom, lambda c: [('C14:less-or-equal', Imp(known(c), c.ret == Or(eqs(c), Not(gts(c)))))])
