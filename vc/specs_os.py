"""Contracts of the synchronisation wrappers (src/os/common, src/os/stl, src/os/posix): what the other suites take for granted
about LockGuard, CriticalSection, UniqueLock, ConditionVariable and AtomicFlag.

A mutex is its identity; the ghost set `held` contains the mutexes the running thread owns.  Every std::mutex operation is
checked against it: nothing is locked twice, nothing is unlocked that is not owned."""
import z3
from specs_base import *

MUTEX = 'Mutex'
ALLSIG = z3.IntVal(-1)       # the mask of all signals


class StdLock(E.Rec):
    """std::unique_lock over a mutex"""
    def __init__(self, m=None, owns=None):
        super().__init__({})
        self.m, self.owns = m, z3.BoolVal(False) if owns is None else owns


class OsSpecs(Specs):
    member_defaults = True
    aliased = True
    scoped_values = True        # lock wrappers are ordinary objects here

    def type_override(self, s):
        s = s.replace('hsmcpp::', '')
        if s in ('std::mutex', 'mutex', 'Mutex *', 'Mutex*'):
            return TInt('mutex')
        if s in ('sigset_t', '__sigset_t'):
            return TInt('sigset')
        if s in ('std::condition_variable', 'condition_variable'):
            return TInt('condition_variable')
        if 'unique_ptr<InterruptsFreeSection' in s or s == 'InterruptsFreeSection *':
            return TInt('section')
        if 'chrono' in s or s.startswith('duration<'):
            return TInt('chrono')
        if s.startswith('std::atomic') or s.startswith('atomic') or s == 'atomic_bool':
            return TStruct('atomic', {'v': TBOOL})
        if s in ('Mutex', 'InterruptsFreeSection'):
            return None
        return super().type_override(s) if s != 'ConditionVariable' else None

    def ghosts(self, eng):
        return {'held': TMap(TInt('mutex'), TBOOL),
                'mask': TInt('sigset'),               # signals that are blocked
                'sections': TInt('n'),                # interrupt-free sections that were entered
                'acq': TInt('n'), 'rel': TInt('n'),   # mutex operations
                'waits': TInt('n'), 'lastp': TBOOL, 'asked': TBOOL, 'cv': TInt('n'),  # waits, last answer of the condition, wake-ups
                'val': TBOOL}

    # -- the library
    def set_held(self, eng, m, on):
        g = eng.store[('ghost', 'held')]
        tree = dict(g.tree)
        tree['dom'] = z3.Store(tree['dom'], m, z3.BoolVal(on))
        eng.store[('ghost', 'held')] = V(g.t, eng.named(tree))
        n = eng.store[('ghost', 'acq' if on else 'rel')]
        eng.store[('ghost', 'acq' if on else 'rel')] = V(n.t, n.tree + 1)

    def is_held(self, eng, m):
        return z3.Select(eng.store[('ghost', 'held')].tree['dom'], m)

    def take(self, eng, m):
        eng.oblige('safe:C17:mutex-not-locked-twice', Not(self.is_held(eng, m)))
        self.set_held(eng, m, True)

    def give(self, eng, m):
        eng.oblige('safe:C17:only-the-owner-unlocks', self.is_held(eng, m))
        self.set_held(eng, m, False)

    def address_of(self, eng, loc):
        t, x = eng.locate(loc)
        if isinstance(t, TStruct) and t.name == 'Mutex':
            return x['mSync']
        if isinstance(t, TLeaf) and t.name == 'mutex':
            return x
        return None

    def deref_value(self, eng, v, n):
        """the object a pointer value denotes"""
        if n.get('kind') == 'MemberExpr':
            n = n['inner'][0]
        elif n.get('kind') == 'UnaryOperator':
            n = n['inner'][0]
        if 'Mutex' not in n['type']['qualType']:
            return None
        eng.oblige('safe:C17:no-null-mutex', v != 0)
        mt = eng.ty('Mutex')
        return eng.temp(V(mt, {f: (v if f == 'mSync' else x) for f, x in fresh_tree(shape(mt), 'mutex').items()}), mt)

    def new_object(self, eng, n):
        g = eng.store[('ghost', 'sections')]
        eng.store[('ghost', 'sections')] = V(g.t, g.tree + 1)
        h = z3.Int(fresh_name('section'))
        eng.assume(h > 0)
        return h

    def construct(self, eng, st, args):
        if 'unique_ptr' in st:
            return eng.rv(args[0]) if args else z3.IntVal(0)
        if st in ('std::unique_lock<std::mutex>', 'unique_lock<std::mutex>', 'unique_lock<mutex>', 'std::unique_lock<mutex>'):
            if not args:
                return StdLock()
            if len(args) == 1:
                x = eng.rv(args[0])
                if isinstance(x, StdLock):
                    return x
                raise E.Unsupported('std::unique_lock that locks')
            m, how = eng.rv(args[0]), eng.rv(args[1]).fields['tag']
            if how == 'adopt_lock':
                eng.oblige('safe:C17:adopted-lock-is-owned', self.is_held(eng, m))
                return StdLock(m, z3.BoolVal(True))
            if how == 'try_to_lock':
                eng.oblige('safe:C17:mutex-not-locked-twice', Not(self.is_held(eng, m)))
                ok = eng.branch(z3.Bool(fresh_name('locked')))
                if ok:
                    self.set_held(eng, m, True)
                return StdLock(m, z3.BoolVal(ok))
        if st in ('std::adopt_lock_t', 'adopt_lock_t', 'std::try_to_lock_t', 'try_to_lock_t'):
            return E.Rec({'tag': st.split('::')[-1][:-2]})
        if 'milliseconds' in st or 'duration' in st:
            return eng.rv(args[0])
        if st in ('atomic', 'std::atomic<bool>', 'std::atomic_bool', 'atomic_bool') and len(args) == 1:
            return V(eng.ty('std::atomic<bool>'), {'v': eng.to_bool(eng.rv(args[0]))})
        return super().construct(eng, st, args)

    def external_global(self, eng, name):
        if name in ('adopt_lock', 'try_to_lock', 'defer_lock'):
            return name
        return None

    def external_enum(self, eng, ty, name):
        if ty == 'cv_status':
            return z3.IntVal({'no_timeout': 0, 'timeout': 1}[name])
        return None

    def scope_end(self, eng, loc):
        """a local variable goes out of scope"""
        x = eng.get(loc)
        if isinstance(x, StdLock):
            if x.m is not None and eng.branch(x.owns):
                self.give(eng, x.m)
            return
        if isinstance(x, V) and isinstance(x.t, TStruct) and x.t.name == 'UniqueLock':
            key = self.contract_for('UniqueLock', '~UniqueLock', 0)
            d = eng.prog.method_defs('UniqueLock', '~UniqueLock')[0]
            eng.call_contract(key, d, loc, [], d.get('_tu'))

    def external_method(self, eng, rec, name, obj, args, n):
        if rec == 'mutex':
            m = eng.rv(obj)
            if name == 'lock':
                return self.take(eng, m)
            if name == 'unlock':
                return self.give(eng, m)
        if rec == 'atomic':
            v = eng.rv(obj).tree['v'] if not isinstance(obj, V) else obj.tree['v']
            if name == 'load' or name.startswith('operator '):
                return v
            if name in ('store', 'exchange', 'operator='):
                eng.put(obj.f('f', 'v'), V(TBOOL, eng.to_bool(eng.rv(args[0]))))
                return v if name == 'exchange' else None
        if rec == 'condition_variable':
            if name in ('notify_all', 'notify_one'):
                g = eng.store[('ghost', 'cv')]
                eng.oblige('safe:C17:every-waiting-thread-is-woken', z3.BoolVal(name == 'notify_all'))
                eng.store[('ghost', 'cv')] = V(g.t, g.tree + 1)
                return None
            if name in ('wait', 'wait_for'):
                return self.cv_wait(eng, name, args, n)
        if rec == 'ConditionVariable' and name in ('wait', 'wait_for'):
            p = eng.rv(args[-1])
            if isinstance(p, E.Closure):
                d = eng.prog.method_defs(rec, name)[0]
                r = eng.call_contract(self.contract_for(rec, name, len(args)), d, obj, args, d.get('_tu'))
                self.other_threads(eng)
                eng.assume(eng.to_bool(eng.call_closure(p, [])) == eng.store[('ghost', 'lastp')].tree)   # the condition was asked last
                return r
        return NotImplemented

    def value_method(self, eng, name, obj, argn, me):
        x = eng.rv(obj)
        if isinstance(x, StdLock) and name == 'release' and not argn:
            x.m, x.owns, m = None, z3.BoolVal(False), x.m
            return m
        if isinstance(x, StdLock) and name == 'owns_lock':
            return x.owns
        return NotImplemented

    def cv_wait(self, eng, name, args, n):
        lk = eng.rv(args[0])
        if not isinstance(lk, StdLock) or lk.m is None:
            raise E.Unsupported('wait')
        eng.oblige('safe:C17:waits-with-its-lock-owned', And(lk.owns, self.is_held(eng, lk.m)))
        g = eng.store[('ghost', 'waits')]
        eng.store[('ghost', 'waits')] = V(g.t, g.tree + 1)
        timed = name == 'wait_for'
        pred = args[2 if timed else 1] if len(args) > (2 if timed else 1) else None
        if timed and isinstance(eng.args.get('timeoutMs'), tuple):
            eng.oblige('safe:C17:waits-as-long-as-asked', eng.rv(args[1]) == eng.pre.store[eng.args['timeoutMs']].tree)
        # other threads run
        self.other_threads(eng)
        eng.store[('ghost', 'asked')] = V(TBOOL, z3.BoolVal(pred is not None))
        if pred is None:
            ok = z3.Bool(fresh_name('woken'))
            eng.store[('ghost', 'lastp')] = V(TBOOL, ok)
            return If(ok, z3.IntVal(0), z3.IntVal(1)) if timed else None
        p = eng.rv(pred)
        if isinstance(p, E.Closure):
            r = eng.to_bool(eng.call_closure(p, []))
        else:
            r = z3.Bool(fresh_name('answer'))
            eng.oblige('safe:C17:condition-can-be-called', getattr(p, 'h', p) != 0)
            eng.oblige('safe:C17:its-own-condition', getattr(p, 'h', p) == eng.rv(E.Loc(eng.args['stopWaiting'])).h)
        eng.store[('ghost', 'lastp')] = V(TBOOL, r)
        if not timed:
            eng.assume(r)
            return None
        return r

    def other_threads(self, eng):
        th = eng.store.get(('this',))
        if th is not None and 'mValue' in th.tree:
            tree = dict(th.tree)
            tree['mValue'] = {'v': z3.Bool(fresh_name('other'))}
            eng.store[('this',)] = V(th.t, tree)

    def external_function(self, eng, name, argn, n):
        if name == 'sigfillset':
            p = eng.rv(eng.ev(argn[0]))
            eng.put(p.loc, ALLSIG)
            return z3.IntVal(0)
        if name == 'pthread_sigmask':
            how, new, old = [eng.rv(eng.ev(a)) for a in argn]
            how = z3.simplify(how)
            g = eng.store[('ghost', 'mask')]
            if isinstance(old, E.PtrTo):
                eng.put(old.loc, g.tree)
            if isinstance(new, E.PtrTo):
                x = eng.rv(new.loc)
                if how.eq(z3.IntVal(0)):        # SIG_BLOCK
                    eng.store[('ghost', 'mask')] = V(g.t, If(x == ALLSIG, ALLSIG, z3.Function('mask::or', IntS, IntS, IntS)(g.tree, x)))
                elif how.eq(z3.IntVal(2)):      # SIG_SETMASK
                    eng.store[('ghost', 'mask')] = V(g.t, x)
                else:
                    raise E.Unsupported('pthread_sigmask')
            return z3.IntVal(0)
        return NotImplemented


def make():
    S = OsSpecs()
    P = ['C17']

    def A(key, requires=None, ensures=None, modifies=(), **kw):
        S.add('os::' + key, Spec(P, requires, ensures, modifies, **kw))

    HELD = ('ghost:held', 'ghost:acq', 'ghost:rel')
    has = lambda c, m: c.G('held').has(m)
    had = lambda c, m: c.G0('held').has(m)
    others = lambda c, m: Fa(1, lambda q: Imp(q != m, c.G('held').has(q) == c.G0('held').has(q)), lambda q: c.G('held').has(q))
    same = lambda c: Fa(1, lambda q: c.G('held').has(q) == c.G0('held').has(q), lambda q: c.G('held').has(q))
    mid = lambda v: v.tree['mSync'] if isinstance(v, V) else v

    def locked(c, m):
        return [('C17:owned', has(c, m)), ('C17:other-mutexes-untouched', others(c, m))]

    def unlocked(c, m):
        return [('C17:free', Not(has(c, m))), ('C17:other-mutexes-untouched', others(c, m))]

    # Mutex
    M = 'Mutex::'
    me = lambda c: c.F0('mSync')
    mx = lambda x: x.tree['mSync']                      # the mutex behind a reference to it
    fld = lambda x, f: x.tree[f]
    A(M + 'lock', lambda c: [('C17:not-owned', Not(had(c, me(c))))], lambda c: locked(c, me(c)), HELD)
    A(M + 'unlock', lambda c: [('C17:owned', had(c, me(c)))], lambda c: unlocked(c, me(c)), HELD)

    # LockGuard, CriticalSection
    for K, ex in (('LockGuard', ()), ('CriticalSection', ('mInterruptsBlock',))):
        A(K + '::' + K + '/1', lambda c: [('C17:not-owned', Not(had(c, mx(c.arg(0))))), ('C17:exists', mx(c.arg(0)) != 0)],
          lambda c, K=K: [('C17:its-mutex', mx(c.F('mSync')) == mx(c.arg(0)))] + locked(c, mx(c.arg(0))) +
          ([('C17:signals-blocked-first', And(c.G('sections') == c.G0('sections') + 1, c.F('mInterruptsBlock') != 0))] if K == 'CriticalSection' else []),
          HELD + ('mSync', 'ghost:sections') + ex)
        A(K + '::~' + K, lambda c: [('C17:owned', had(c, mx(c.F('mSync'))))], lambda c: unlocked(c, mx(c.F0('mSync'))), HELD)

    # UniqueLock: owning it means the thread owns the mutex
    U = 'UniqueLock::'
    inv = lambda c: [('C17:ownership-is-real', Imp(c.F('mOwnsLock'), And(c.F('mSync') != 0, has(c, c.F('mSync')))))]
    inv0 = lambda c: [('C17:ownership-is-real', Imp(c.F0('mOwnsLock'), And(c.F0('mSync') != 0, had(c, c.F0('mSync')))))]
    ref = lambda c: mx(c.arg(0))
    A(U + 'UniqueLock#mutex', lambda c: [('C17:not-owned', Not(had(c, ref(c)))), ('C17:exists', ref(c) != 0)],
      lambda c: [('C17:its-mutex', c.F('mSync') == ref(c)), ('C17:owns', c.F('mOwnsLock'))] + locked(c, ref(c)), HELD + ('mSync', 'mOwnsLock'),
      pick=lambda d: 'Mutex' in d['type']['qualType'])
    sF = lambda c, f: fld(c.arg(0), f)
    src = lambda c: [('C17:source-gave-it-up', And(Not(fld(c.argp(0), 'mOwnsLock')), fld(c.argp(0), 'mSync') == 0))]
    A(U + 'UniqueLock#move', lambda c: [('C17:source', Imp(sF(c, 'mOwnsLock'), And(sF(c, 'mSync') != 0, had(c, sF(c, 'mSync')))))],
      lambda c: [('C17:takes-over', And(c.F('mSync') == sF(c, 'mSync'), c.F('mOwnsLock') == sF(c, 'mOwnsLock'))), ('C17:mutexes-untouched', same(c))] + src(c) + inv(c),
      ('mSync', 'mOwnsLock', '#0'), pick=lambda d: 'UniqueLock' in d['type']['qualType'])
    A(U + 'operator=/1', lambda c: inv0(c) + [('C17:source', Imp(sF(c, 'mOwnsLock'), And(sF(c, 'mSync') != 0, had(c, sF(c, 'mSync'))))),
                                             ('C17:different-mutex', Imp(And(sF(c, 'mOwnsLock'), c.F0('mOwnsLock'), z3.BoolVal(c.args[0] != ('this',))), sF(c, 'mSync') != c.F0('mSync')))],
      lambda c: ([('C17:takes-over', And(c.F('mSync') == sF(c, 'mSync'), c.F('mOwnsLock') == sF(c, 'mOwnsLock')))] + src(c) if c.args[0] != ('this',) else []) +
      [('C17:gave-up-its-own', Imp(And(c.F0('mOwnsLock'), c.F0('mSync') != c.F('mSync')), Not(has(c, c.F0('mSync'))))),
       ('C17:other-mutexes-untouched', Fa(1, lambda q: Imp(Not(And(c.F0('mOwnsLock'), q == c.F0('mSync'))), c.G('held').has(q) == c.G0('held').has(q)), lambda q: c.G('held').has(q)))] + inv(c),
      HELD + ('mSync', 'mOwnsLock', '#0'))
    A(U + 'lock', lambda c: inv0(c) + [('C17:not-owned-otherwise', Imp(Not(c.F0('mOwnsLock')), Not(had(c, c.F0('mSync')))))],
      lambda c: inv(c) + [('C17:owns', Imp(c.F0('mSync') != 0, And(c.F('mOwnsLock'), has(c, c.F('mSync'))))), ('C17:same-mutex', c.F('mSync') == c.F0('mSync')),
                          ('C17:other-mutexes-untouched', others(c, c.F0('mSync'))), ('C17:nothing-to-lock', Imp(c.F0('mSync') == 0, And(same(c), c.F('mOwnsLock') == c.F0('mOwnsLock'))))],
      HELD + ('mOwnsLock',))
    def released(c):
        return [('C17:gave-up-its-own', Imp(c.F0('mOwnsLock'), Not(has(c, c.F0('mSync'))))),
                ('C17:other-mutexes-untouched', Fa(1, lambda q: Imp(Not(And(c.F0('mOwnsLock'), q == c.F0('mSync'))), c.G('held').has(q) == c.G0('held').has(q)), lambda q: c.G('held').has(q)))]
    A(U + 'unlock', inv0, lambda c: inv(c) + released(c) + [('C17:no-longer-owns', Not(c.F('mOwnsLock')))], HELD + ('mOwnsLock',))
    A(U + '~UniqueLock', inv0, released, HELD + ('mOwnsLock', 'mSync'))
    A(U + 'release', inv0, lambda c: [('C17:mutex-handed-out', c.ret == c.F0('mSync')), ('C17:mutexes-untouched', same(c)),
                                     ('C17:no-longer-owns', And(Not(c.F('mOwnsLock')), c.F('mSync') == 0))], ('mOwnsLock', 'mSync'))

    # ConditionVariable: called with the lock owned; the condition was true (or the time was up) and the lock is given up
    K = 'ConditionVariable::'
    lk = lambda c, f: fld(c.argp('sync'), f)
    lk0 = lambda c, f: fld(c.arg('sync'), f)
    need = lambda c: [('C17:lock-owned', And(lk0(c, 'mOwnsLock'), lk0(c, 'mSync') != 0, had(c, lk0(c, 'mSync'))))]
    after = lambda c: [('C17:waited-once', c.G('waits') == c.G0('waits') + 1), ('C17:waits-for-the-condition', Imp(c.arg('stopWaiting') != 0, c.G('asked'))),
                       ('C17:lock-given-up', And(Not(lk(c, 'mOwnsLock')), lk(c, 'mSync') == lk0(c, 'mSync'), Not(has(c, lk0(c, 'mSync'))))),
                       ('C17:other-mutexes-untouched', others(c, lk0(c, 'mSync')))]
    W = HELD + ('#0', 'ghost:waits', 'ghost:lastp', 'ghost:asked')
    cond = lambda c: c.arg('stopWaiting') != 0
    A(K + 'wait/2', need, lambda c: after(c) + [('C17:condition-held-at-the-end', Imp(cond(c), c.G('lastp')))], W)
    A(K + 'wait_for/3', need, lambda c: after(c) + [('C17:answers-condition-or-wake-up', c.ret == c.G('lastp'))], W)
    A(K + 'notify', None, lambda c: [('C17:woken', c.G('cv') == c.G0('cv') + 1)], ('ghost:cv',))
    A(K + '~ConditionVariable', None, lambda c: [('C17:woken', c.G('cv') > c.G0('cv'))], ('ghost:cv', 'mVariable'))

    # AtomicFlag
    F = 'AtomicFlag::'
    v = lambda c: fld(c.F('mValue'), 'v')
    v0 = lambda c: fld(c.F0('mValue'), 'v')
    A(F + 'AtomicFlag/0', None, lambda c: [('C17:clear-at-first', Not(v(c)))], ('mValue', 'mSync', 'mWaitCond'))
    A(F + 'test_and_set', None, lambda c: [('C17:answers-old-value', c.ret == v0(c)), ('C17:set', v(c))], ('mValue',))
    A(F + 'clear', None, lambda c: [('C17:clear', Not(v(c)))], ('mValue',))
    A(F + 'test', None, lambda c: [('C17:answers-value', c.ret == v(c))], ())
    A(F + 'lock', lambda c: [('C17:not-owned', Not(had(c, mx(c.F0('mSync'))))), ('C17:exists', mx(c.F0('mSync')) != 0)],
      lambda c: [('C17:owning-lock', And(fld(c.ret, 'mOwnsLock'), fld(c.ret, 'mSync') == mx(c.F0('mSync'))))] + locked(c, mx(c.F0('mSync'))), HELD)
    A(F + 'wait/1', lambda c: [('C17:not-owned', Not(had(c, mx(c.F0('mSync'))))), ('C17:exists', mx(c.F0('mSync')) != 0)],
      lambda c: [('C17:value-changed', v(c) != c.arg(0)), ('C17:mutexes-untouched', same(c))], HELD + ('mValue', 'ghost:waits', 'ghost:lastp', 'ghost:asked'))
    A(F + 'notify', None, lambda c: [('C17:woken', c.G('cv') == c.G0('cv') + 1)], ('ghost:cv',))

    # InterruptsFreeSection: all signals are blocked, and the mask is restored
    I = 'InterruptsFreeSection::'
    A(I + 'InterruptsFreeSection', None, lambda c: [('C17:signals-blocked', c.G('mask') == ALLSIG), ('C17:old-mask-kept', c.F('mOriginalSigMask') == c.G0('mask'))],
      ('ghost:mask', 'mOriginalSigMask'))
    A(I + '~InterruptsFreeSection', None, lambda c: [('C17:mask-restored', c.G('mask') == c.F0('mOriginalSigMask'))], ('ghost:mask',))
    return S
