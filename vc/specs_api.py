"""Contracts of the public class HierarchicalStateMachine (src/hsm.cpp, include/hsmcpp/hsm.hpp): every API form hands the
arguments it was given to the implementation, once and unchanged, and returns its answer.

The calls of the implementation (class Impl, proved in suite `impl`) are recorded in the ghost sequence T."""
import z3
from specs_base import *

H = 'HierarchicalStateMachine::'
NARG = 7
CODES = {}


vapp = z3.Function('args::append', IntS, IntS, IntS)


def code(name):
    return z3.IntVal(CODES.setdefault(name, len(CODES) + 1))


def plain(x):
    return x.a if isinstance(x, E.PtrVal) else getattr(x, 'h', x)


def bound(order, method, obj):
    """std::bind of a method to an object, parameters passed on in this order"""
    return z3.Function('bound' + ''.join(order), IntS, IntS, IntS)(method, obj)


def num(v):
    return If(v, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(v) else v


class ApiSpecs(Specs):
    def type_override(self, s):
        if s in ('VariantVector_t', 'std::vector<Variant>', 'Variant'):
            return TInt(s)
        if '::*)' in s:
            return TInt('method')
        if s.endswith('Handler *'):
            return TInt('object')
        return super().type_override(s)

    def external_function(self, eng, name, argn, n):
        if name == 'bind':
            order, v = [], []
            for a in argn:
                c = a
                while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr'):
                    c = c['inner'][0]
                nm = (c.get('referencedDecl') or {}).get('name', '')
                if nm[:1] == '_' and nm[1:].isdigit():
                    order.append(nm)
                else:
                    v.append(num(plain(eng.rv(eng.ev(a)))))
            if len(v) == 2:
                f = bound(order, *v)
                eng.assume(f != 0)
                return f
        return NotImplemented

    def ghosts(self, eng):
        f = {'k': TINT, 'ret': TINT}
        f.update({'a%d' % i: TINT for i in range(NARG)})
        return {'T': TSeq(TStruct('Call', f), 'list'), 'act': eng.ty('std::list<StateID_t>')}

    def record(self, eng, name, args, ret=None):
        if eng.pure:
            raise E.Unsupported('call in pure context')
        loc = E.Loc(('ghost', 'T'))
        t, s = eng.locate(loc)
        e = {'k': code(name), 'ret': z3.IntVal(0) if ret is None else num(ret)}
        for i in range(NARG):
            e['a%d' % i] = num(args[i]) if i < len(args) else z3.IntVal(0)
        eng.store[('ghost', 'T')] = V(t, dict(s, d=t_store(s['d'], s['hi'], e), hi=s['hi'] + 1))

    def external_method(self, eng, rec, name, obj, args, n):
        if rec in ('VariantVector_t', 'vector<Variant>') or isinstance(obj, E.Loc) and getattr(eng.loc_type(obj), 'name', '') in ('VariantVector_t', 'std::vector<Variant>'):
            if name in ('emplace_back', 'push_back') and len(args) == 1:
                a = args[0]
                eng.put(obj, vapp(eng.rv(obj), eng.rv(a.loc if isinstance(a, E.Moved) else a)))
                return None
        if rec != 'Impl':
            return NotImplemented
        v = [eng.rv(a.loc if isinstance(a, E.Moved) else a) for a in args]
        v = [plain(x) for x in v]
        q = n['type']['qualType']
        if q == 'void':
            self.record(eng, name, v)
            return None
        if name == 'getActiveStates':
            self.record(eng, name, v)
            return E.Loc(('ghost', 'act'))
        x = eng.fresh(eng.ty(eng.qual(n['type'])), 'answer')
        r = x.tree if isinstance(x, V) else x
        self.record(eng, name, v, r)
        return eng.wrap(x.t, r)


def forwarded(c, name, args, ret=None):
    """exactly one call of the implementation, with these arguments"""
    T, T0 = c.G('T'), c.G0('T')
    q = T0.hi
    i = z3.Int(fresh_name('ti'))
    yield 'C18:one-call', And(T.hi == q + 1, T.lo == T0.lo)
    yield 'C18:forwarded-to-' + name, T.at(q, 'k') == code(name)
    for j in range(NARG):
        yield 'C18:argument-%d' % j, T.at(q, 'a%d' % j) == (num(args[j]) if j < len(args) else 0)
    if ret is not None:
        yield 'C18:answer-returned', num(ret) == T.at(q, 'ret')


def make():
    S = ApiSpecs()
    A = lambda key, *a, **k: S.add(H + key, Spec(*a, **k))
    val = plain

    def fwd(key, n, ret, name=None, order=None, **k):
        nm = name or key.split('/')[0]
        A(key, ['C18'], lambda c: [('implementation', c.F0('mImpl') != 0)],
          lambda c: list(forwarded(c, nm, [val(c.arg(i)) for i in (order or range(n))], val(c.ret) if ret else None)), ['ghost:T'], **k)
    for key, n, ret in (('setInitialState', 1, 0), ('initialize', 1, 1), ('dispatcher', 0, 1), ('isInitialized', 0, 1), ('release', 0, 0),
                        ('registerFailedTransitionCallback/1', 1, 0), ('registerState/4', 4, 0), ('registerFinalState/5', 5, 0), ('registerHistory/5', 5, 0),
                        ('registerSubstate', 2, 1), ('registerSubstateEntryPoint/5', 5, 1), ('registerTimer', 2, 0), ('registerTransition/6', 6, 0),
                        ('registerSelfTransition/6', 6, 0), ('getLastActiveState', 0, 1), ('isStateActive', 1, 1), ('transitionWithArgsArray', 2, 0),
                        ('transitionExWithArgsArray', 5, 1), ('transitionInterruptSafe', 1, 1), ('startTimer', 3, 0), ('restartTimer', 1, 0), ('stopTimer', 1, 0),
                        ('isTimerRunning', 1, 1)):
        fwd(key, n, ret)
    fwd('isTransitionPossibleImpl', 2, 1, 'isTransitionPossible')
    fwd('registerStateActionImpl', 4, 1, 'registerStateAction')
    A('getActiveStates', ['C15', 'C18'], lambda c: [('implementation', c.F0('mImpl') != 0)],
      lambda c: list(forwarded(c, 'getActiveStates', [])) + [('C15:active-states', c.ret.same(c.G('act')))], ['ghost:T'])

    def dtor(c):
        T, T0 = c.G('T'), c.G0('T')
        q = T0.hi
        yield 'C18:released-then-forgotten', And(T.hi == q + 2, T.at(q, 'k') == code('release'), T.at(q + 1, 'k') == code('resetParent'))
    A('~HierarchicalStateMachine', ['C18'], lambda c: [('implementation', c.F0('mImpl') != 0)], dtor, ['ghost:T'])

    # ------------------------------------------------------------------ forms that take an object and its methods / any number of arguments
    inst = lambda d: any(x.get('kind') == 'TemplateArgument' for x in d.get('inner', []))

    def meth(c, cb, n, obj=None):
        """the function handed on for a method of the given object"""
        order = ['_%d' % (i + 1) for i in range(n)]
        return lambda h: If(And(c.arg(h) != 0, c.arg(cb) != 0), bound(order, c.arg(cb), c.arg(h)), 0)

    def obj_form(key, name, args):
        A(key, ['C18'], lambda c: [('implementation', c.F0('mImpl') != 0)], lambda c: list(forwarded(c, name, args(c), plain(c.ret) if c.ret is not None else None)),
          ['ghost:T'], pick=inst)
    a = lambda c, *i: [plain(c.arg(x)) for x in i]
    A('registerFailedTransitionCallback/2', ['C18'], lambda c: [('implementation', c.F0('mImpl') != 0)],
      lambda c: list(forwarded(c, 'registerFailedTransitionCallback', [bound(['_1', '_2', '_3'], c.arg(1), c.arg(0))])), ['ghost:T'], pick=inst)
    obj_form('registerState/5', 'registerState', lambda c: a(c, 0) + [meth(c, 2, 1)(1), meth(c, 3, 1)(1), meth(c, 4, 0)(1)])
    obj_form('registerFinalState/6', 'registerFinalState', lambda c: a(c, 0, 1) + [meth(c, 3, 1)(2), meth(c, 4, 1)(2), meth(c, 5, 0)(2)])
    obj_form('registerHistory/6', 'registerHistory', lambda c: a(c, 0, 1, 2, 3) + [meth(c, 5, 1)(4)])
    obj_form('registerSubstateEntryPoint/6', 'registerSubstateEntryPoint', lambda c: a(c, 0, 1, 2) + [meth(c, 4, 1)(3)] + a(c, 5))
    obj_form('registerTransition/7', 'registerTransition', lambda c: a(c, 0, 1, 2) + [meth(c, 4, 1)(3), meth(c, 5, 1)(3)] + a(c, 6))
    obj_form('registerSelfTransition/7', 'registerSelfTransition', lambda c: a(c, 0, 1, 2) + [meth(c, 4, 1)(3), meth(c, 5, 1)(3)] + a(c, 6))
    EMPTY_ARGS = z3.IntVal(0)

    def vlist(c, frm, n, base=None):
        v = EMPTY_ARGS if base is None else base
        for i in range(n):
            v = vapp(v, plain(c.arg(frm + i)))
        return v
    for n in (2, 3):
        A('makeVariantList/%d' % (n + 1), ['C18'], None, lambda c, n=n: [('C18:arguments-in-order', c.argp(0) == vlist(c, 1, n, c.arg(0)))], ['#0'], pick=inst)
    B0 = z3.IntVal(0)
    obj_form('registerStateAction/5', 'registerStateAction', lambda c: a(c, 0, 1, 2) + [vlist(c, 3, 2)])
    obj_form('transition/4', 'transitionExWithArgsArray', lambda c: a(c, 0) + [B0, B0, B0, vlist(c, 1, 3)])
    obj_form('transitionEx/7', 'transitionExWithArgsArray', lambda c: a(c, 0, 1, 2, 3) + [vlist(c, 4, 3)])
    obj_form('transitionSync/5', 'transitionExWithArgsArray', lambda c: a(c, 0) + [B0, z3.IntVal(1)] + a(c, 1) + [vlist(c, 2, 3)])
    obj_form('transitionWithQueueClear/4', 'transitionExWithArgsArray', lambda c: a(c, 0) + [z3.IntVal(1), B0, B0, vlist(c, 1, 3)])
    obj_form('isTransitionPossible/4', 'isTransitionPossible', lambda c: a(c, 0) + [vlist(c, 1, 3)])
    return S
