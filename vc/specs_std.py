"""Contracts of HsmEventDispatcherSTD (src/HsmEventDispatcherSTD.cpp).

The base class is used through its contracts (proved in suite `disp`).  Other threads run between any two critical
sections: taking a lock, waiting and calling back replace everything that lock protects by an arbitrary value that keeps the
facts every public function keeps (`rely`).  Time is an integer number of nanoseconds that never decreases.
"""
import re
import z3
from specs_base import *
import specs_disp as D

K_WAKE_D, K_WAKE_T = 8, 9            # notify() of the dispatching / timers thread; r: the stop flag was set
D_, B = 'HsmEventDispatcherSTD::', 'HsmEventDispatcherBase::'
MS = 1000000
SHARED = D.CALLBACK_HAVOC + ('mActiveTimers', 'mTimerHandlers', 'mRunningTimers', 'mNotifiedTimersThread')
GUARDED = {'mRunningTimersSync': ('mRunningTimers', 'mNotifiedTimersThread'),
           'mEmitSync': ('mPendingEvents', 'mPendingActions'),
           'mEnqueuedEventsSync': ('mEnqueuedEvents',),
           'mHandlersSync': ('mActiveTimers', 'mTimerHandlers', 'mEventHandlers', 'mEnqueuedEventHandlers', 'mNextHandlerId')}
ALL_LOCKS = ('mHandlersSync', 'mEmitSync', 'mEnqueuedEventsSync', 'mRunningTimersSync')


def unit(q):
    """nanoseconds per tick of a chrono type"""
    r = [int(x) for x in re.findall(r'ratio<1, (\d+)', q)]
    if r:
        return 1000000000 // max(r)
    if 'milliseconds' in q:
        return MS
    if 'microseconds' in q:
        return 1000
    if 'nanoseconds' in q or 'time_point' in q:
        return 1
    if 'seconds' in q or re.search(r'duration<long>', q):
        return 1000000000
    return None


def node_unit(n):
    t = n['type']
    u = None
    for f in ('desugaredQualType', 'qualType'):
        if u is None and f in t:
            u = unit(t[f])
    if u is None:
        raise E.Unsupported('time unit of ' + t['qualType'])
    return u


def div0(a, b):
    """C++ integer division by a positive constant"""
    return z3.If(a >= 0, a / b, -((-a) / b))


class StdSpecs(D.DispSpecs):
    lock_order = ALL_LOCKS
    lock_protected = dict(D.DispSpecs.lock_protected, mRunningTimers='mRunningTimersSync', mNotifiedTimersThread='mRunningTimersSync')
    def __init__(self):
        super().__init__()
        self.at_release = {}

    def ghosts(self, eng):
        g = super().ghosts(eng)
        rt = eng.ty('HsmEventDispatcherSTD').fields['mRunningTimers']
        g.update({
            'clk': TInt('time'),       # last time that was looked at
            'RA': rt,                  # table of running timers when its lock was taken last
            'RS': rt,                  # ... when the lock was given up last
            'done': TBOOL, 'uat': TInt('n'),      # the function's change of the table was made, position in the trace
            'pend': TBOOL, 'ptid': TINT, 'pnext': TInt('time'), 'pst': TInt('time'), 'pel': TInt('time'),   # timer whose handler was called
            'prog': TBOOL,             # the timers thread waited or called a handler in this round
            'idle': TBOOL,             # nothing was dispatched since the last wait
            'sset': TBOOL, 'tset': TBOOL, 'nset': TBOOL,    # stop flag / wake-up flag as the waiting thread can see it: at the last release of its lock
            'wD': TInt('n'), 'wT': TInt('n'),     # wake-ups that announce the stop flag
            'fD': TInt('n'), 'fT': TInt('n'),     # threads started: dispatching, timers
        })
        return g

    def type_override(self, s):
        if s in ('std::thread', 'thread', 'std::thread::id', 'thread::id', 'id'):
            return TInt('thread')
        if s in ('rep',) or s.endswith('::rep'):
            return TInt('long', INT_RANGES['long'])
        if 'chrono' in s or s in ('time_point', 'duration') or s.startswith(('time_point<', 'duration<')):
            return TInt('chrono')
        return super().type_override(s)

    # -------------------------------------------------- other threads
    def havoc(self, eng, fields):
        this = eng.store[('this',)]
        tree, old = dict(this.tree), this.tree
        for f in fields:
            if f in tree:
                tree[f] = eng.fresh(this.t.fields[f], 'other_' + f).tree
        eng.store[('this',)] = V(this.t, tree)
        for _, f in wf_disp(lambda n: E.view(V(this.t.fields[n], tree[n]))):
            eng.assume(f)
        if 'mEnqueuedEvents' in tree:
            eng.assume(tree['mEnqueuedEvents']['cap'] == old['mEnqueuedEvents']['cap'])

    def on_acquire(self, eng, loc):
        super().on_acquire(eng, loc)
        if loc.root == ('this',) and len(loc.path) == 1 and loc.path[0][1] in GUARDED:
            self.havoc(eng, GUARDED[loc.path[0][1]])
            if loc.path[0][1] == 'mRunningTimersSync':
                th = eng.store[('this',)]
                eng.store[('ghost', 'RA')] = V(th.t.fields['mRunningTimers'], th.tree['mRunningTimers'])

    def given_up(self, eng):
        th = eng.store[('this',)]
        hook = self.at_release.get(eng.cur_key)
        c = E.Ctx(eng, None, eng.pre, E.Snap(eng, eng.store, eng.frames[0]), eng.args, None)
        fs = hook(eng, c) if hook else [('C10:table-unchanged', map_same(c.F('mRunningTimers'), c.G('RA')))]
        for l, f in fs:
            eng.oblige('safe:' + l, f)
        eng.store[('ghost', 'RS')] = V(th.t.fields['mRunningTimers'], th.tree['mRunningTimers'])
        eng.store[('ghost', 'nset')] = V(TBOOL, th.tree['mNotifiedTimersThread'])
        eng.store[('ghost', 'tset')] = V(TBOOL, th.tree['mStopDispatcher'])

    def on_release(self, eng, loc):
        f = loc.path[0][1] if loc.root == ('this',) and len(loc.path) == 1 else None
        if f == 'mRunningTimersSync':
            self.given_up(eng)
        if f == 'mEmitSync':
            eng.store[('ghost', 'sset')] = V(TBOOL, eng.store[('this',)].tree['mStopDispatcher'])

    # -------------------------------------------------- library
    def construct(self, eng, st, args):
        if st in ('std::thread', 'thread'):
            if not args:
                return z3.IntVal(0)
            m = args[0]
            if isinstance(m, E.Loc):
                m = eng.get(m)
            if isinstance(m, E.Rec) and '__method__' in m.fields:
                g = {'doDispatching': 'fD', 'handleTimers': 'fT'}.get(m.fields['__method__'])
                if g is None:
                    raise E.Unsupported('thread over ' + m.fields['__method__'])
                this = eng.get(args[1]) if isinstance(args[1], E.Loc) else args[1]
                if not (isinstance(this, E.PtrTo) and this.loc.root == ('this',)):
                    raise E.Unsupported('thread over another object')
                if g == 'fD':
                    eng.oblige('safe:C11:stop-flag-cleared-before-start', Not(eng.store[('this',)].tree['mStopDispatcher']))
                v = eng.store[('ghost', g)]
                eng.store[('ghost', g)] = V(v.t, v.tree + 1)
                h = z3.Int(fresh_name('thread'))
                eng.assume(h > 0)
                return h
            if len(args) == 1:
                return eng.rv(args[0])
            raise E.Unsupported('thread')
        if st in ('std::thread::id', 'thread::id', 'id') and not args:
            return z3.IntVal(0)
        if unit(st) is not None and ('chrono' in st or 'duration' in st or 'time_point' in st):
            return z3.IntVal(0) if not args else eng.rv(args[0])
        return super().construct(eng, st, args)

    def now(self, eng):
        t = z3.Int(fresh_name('now'))
        v = eng.store[('ghost', 'clk')]
        eng.assume(t >= v.tree)
        eng.store[('ghost', 'clk')] = V(v.t, t)
        return t

    def external_function(self, eng, name, argn, n):
        q = n['type']['qualType']
        if name == 'now' and not argn:
            return self.now(eng)
        if name == 'duration_cast' and len(argn) == 1:
            a, b = node_unit(argn[0]), node_unit(n)
            v = eng.rv(eng.ev(argn[0]))
            return v if a == b else (v * (a // b) if a > b else div0(v, b // a))
        if name in ('max', 'min') and not argn and q in INT_RANGES and INT_RANGES[q]:
            return z3.IntVal(INT_RANGES[q][1 if name == 'max' else 0])
        return super().external_function(eng, name, argn, n)

    def value_method(self, eng, name, obj, argn, me):
        if name == 'count' and not argn:
            return obj
        if name == 'time_since_epoch' and not argn:
            return obj
        return NotImplemented

    def operator_call(self, eng, op, a0, argn, n):
        if op in ('operator+', 'operator-') and len(argn) == 1:
            n0, n1 = n['inner'][1], n['inner'][2]
            u, u0, u1 = node_unit(n), node_unit(n0), node_unit(n1)
            x, y = eng.rv(a0), eng.rv(eng.ev(argn[0]))
            x, y = x * (u0 // u), y * (u1 // u)
            return x + y if op == 'operator+' else x - y
        return super().operator_call(eng, op, a0, argn, n)

    def compare(self, eng, op, a, b, n):
        n0, n1 = n['inner'][1], n['inner'][2]
        try:
            u0, u1 = node_unit(n0), node_unit(n1)
        except E.Unsupported:
            return NotImplemented
        x, y = eng.rv(a) * u0, eng.rv(b) * u1
        return {'operator<': x < y, 'operator>': x > y, 'operator<=': x <= y, 'operator>=': x >= y}[op]

    def external_method(self, eng, rec, name, obj, args, n):
        if rec in ('thread', 'std::thread'):
            h = eng.rv(obj)
            if name == 'joinable':
                return h != 0
            if name == 'get_id':
                return h
            if name == 'join':
                eng.oblige('safe:C17:join-of-joinable-thread', h != 0)
                th = eng.store[('this',)].tree
                eng.oblige('safe:C17:locks-free-at-join', And([Not(th[l]['held']) for l in ALL_LOCKS]))
                eng.nohook += 1
                eng.put(obj, z3.IntVal(0))
                eng.nohook -= 1
                return None
            raise E.Unsupported('thread::' + name)
        if rec == 'chrono' and name == 'operator=':
            eng.put(obj, eng.rv(args[0]))
            return obj
        if rec == 'ConditionVariable':
            f = obj.path[0][1] if isinstance(obj, E.Loc) and obj.root == ('this',) and len(obj.path) == 1 else None
            if f not in ('mEmitEvent', 'mTimerEvent'):
                raise E.Unsupported('condition variable')
            if name == 'notify':
                th = eng.store[('this',)].tree
                d = f == 'mEmitEvent'
                self.emit(eng, k=z3.IntVal(K_WAKE_D if d else K_WAKE_T), x=If(eng.store[('ghost', 'nset')].tree, 1, 0) if not d else z3.IntVal(0))
                g = 'wD' if d else 'wT'
                v = eng.store[('ghost', g)]
                pub = And(eng.store[('ghost', 'sset' if d else 'tset')].tree, th['mStopDispatcher'])
                eng.store[('ghost', g)] = V(v.t, v.tree + If(pub, 1, 0))
                return None
            if name in ('wait', 'wait_for'):
                return self.wait(eng, f, name, args)
            raise E.Unsupported('ConditionVariable::' + name)
        if name in ('notifyDispatcherAboutEvent', 'startTimerImpl', 'stopTimerImpl') and rec in ('HsmEventDispatcherBase', 'HsmEventDispatcherSTD'):
            return NotImplemented        # the functions under contract here
        return super().external_method(eng, rec, name, obj, args, n)

    def emit(self, eng, **kw):
        if kw['k'].as_long() in (K_WAKE_D, K_WAKE_T):
            kw.setdefault('s', z3.IntVal(0))
        return super().emit(eng, **kw)

    def on_write(self, eng, loc):
        super().on_write(eng, loc)
        if loc.root == ('this',) and loc.path and loc.path[0][1] in ('mDispatcherThread', 'mTimersThread'):
            eng.oblige('safe:C17:running-thread-not-overwritten', eng.store[('this',)].tree[loc.path[0][1]] == 0)

    def wait(self, eng, cond, name, args):
        mutex = {'mEmitEvent': 'mEmitSync', 'mTimerEvent': 'mRunningTimersSync'}[cond]
        lk = eng.rv(args[0])
        if not isinstance(lk, E.ULock):
            raise E.Unsupported('wait without UniqueLock')
        m = lk.mutex
        eng.oblige('safe:C17:waits-with-its-lock-held', z3.BoolVal(bool(lk.owns and m.root == ('this',) and m.path[0][1] == mutex)))
        th = eng.store[('this',)].tree
        for l in ALL_LOCKS:
            if l != mutex:
                eng.oblige('safe:C17:%s-not-held-while-waiting' % l, Not(th[l]['held']))
        pred = args[-1]
        if isinstance(pred, E.Loc):
            pred = eng.get(pred)
        if not isinstance(pred, E.Closure):
            raise E.Unsupported('wait without condition')
        clk = eng.store[('ghost', 'clk')]
        ms = eng.rv(args[1]) if name == 'wait_for' else None
        if cond == 'mTimerEvent':
            eng.store[('ghost', 'prog')] = V(TBOOL, z3.BoolVal(True))
            rt = E.view(V(eng.store[('this',)].t.fields['mRunningTimers'], th['mRunningTimers']))
            if ms is None:
                eng.oblige('safe:C10:waits-without-limit-only-without-timers', Fa(1, lambda q: Not(rt.has(q)), lambda q: rt.has(q)))
            else:
                eng.oblige('safe:C10:does-not-sleep-past-a-timer', Fa(1, lambda q: Imp(rt.has(q), clk.tree + ms * MS <= rt.at(q, 'elapseAfter')), lambda q: rt.has(q)))
            self.given_up(eng)
        else:
            eng.oblige('safe:C11:dispatches-after-every-wake-up', Not(eng.store[('ghost', 'idle')].tree))
            eng.store[('ghost', 'idle')] = V(TBOOL, z3.BoolVal(True))
        # the condition, on any state another thread may leave behind
        self.havoc(eng, SHARED)
        this = eng.store[('this',)]
        snap = dict(this.tree)
        eng.nohook += 1
        p = eng.to_bool(eng.call_closure(pred, []))
        eng.nohook -= 1
        n_ = lambda f: snap[f]['hi'] - snap[f]['lo'] > 0
        stop = snap['mStopDispatcher']
        if cond == 'mEmitEvent':
            # the contents of the queues are those the condition saw under their locks
            cur = eng.store[('this',)].tree
            m_ = lambda f: cur[f]['hi'] - cur[f]['lo'] > 0
            eng.oblige('safe:C11:wakes-for-pending-event', Imp(m_('mPendingEvents'), p))
            eng.oblige('safe:C11:wakes-for-pending-action', Imp(m_('mPendingActions'), p))
            eng.oblige('safe:C11:wakes-for-enqueued-event', Imp(m_('mEnqueuedEvents'), p))
            eng.oblige('safe:C17:wakes-when-stopped', Imp(cur['mStopDispatcher'], p))
        else:
            eng.oblige('safe:C10:wakes-when-timers-changed', Imp(snap['mNotifiedTimersThread'], p))
            eng.oblige('safe:C17:wakes-when-stopped', Imp(stop, p))
        t = z3.Int(fresh_name('now'))
        if name == 'wait':
            eng.assume(p)
            eng.assume(t >= clk.tree)
        else:
            eng.assume(And(t >= clk.tree, Imp(Not(p), t >= clk.tree + ms * MS)))
        eng.store[('ghost', 'clk')] = V(clk.t, t)
        # the wrapper gives up the lock when it returns
        tt, _ = eng.locate(lk.mutex)
        eng.nohook += 1
        eng.put(lk.mutex, V(tt, {'held': z3.BoolVal(False)}))
        eng.nohook -= 1
        lk.owns = False
        return p if name == 'wait_for' else None


def wf_disp(F):
    """what every public function of the dispatcher keeps"""
    nx = F('mNextHandlerId')
    for f in ('mEventHandlers', 'mEnqueuedEventHandlers', 'mTimerHandlers'):
        m = F(f)
        yield f + '-valid', Fa(1, lambda q: Imp(m.has(q), And(q < nx, q > 0, m.at(q) != 0)), lambda q: m.has(q))
    yield 'next-positive', nx > 0
    A, H = F('mActiveTimers'), F('mTimerHandlers')
    yield 'timers-have-handlers', Fa(1, lambda q: Imp(A.has(q), H.has(A.at(q, 'handlerID'))), lambda q: A.has(q))
    P = F('mPendingActions')
    yield 'actions-callable', Fa(1, lambda q: Imp(P.inr(q), P.at(q) != 0), lambda q: P.at(q))


def free(c, locks=ALL_LOCKS):
    return [('locks-free', And([Not(c.pre.store[('this',)].tree[l]['held']) for l in locks]))]


def wfreq(c):
    return free(c) + list(wf_disp(c.F0))


def keepg(eng, g, f, b=True):
    eng.store[('ghost', g)] = V(eng.store[('ghost', g)].t, f)


def make():
    S = StdSpecs()
    base = D.make()
    for key, sp in base.contracts.items():
        sp.assumed, sp.proved_in, sp.note = True, 'disp', 'proved in suite disp'
        S.add(key, sp)
    SET = ['ghost:sset', 'ghost:tset', 'ghost:nset']
    RTG = ['ghost:RA', 'ghost:RS', 'ghost:nset', 'ghost:tset', 'mRunningTimers', 'mNotifiedTimersThread']
    TRG = ['ghost:T', 'ghost:slot']
    EV = ['mPendingEvents', 'mPendingActions', 'ghost:sset']

    def A(name, props, req, ens, mods, **kw):
        S.add(D_ + name, Spec(props, req, ens, mods, **kw))

    # ---- wake-ups: the waiting thread saw the change, or is told after the change became visible under its lock
    def nd(c):
        T, T0, pub = c.G('T'), c.G0('T'), And(c.G0('sset'), c.F0('mStopDispatcher'))
        yield 'C11:woken', And(T.hi == T0.hi + 1, seq_prefix(T, T0), T.at(T0.hi, 'k') == K_WAKE_D)
        yield 'C17:stop-announced', c.G('wD') == c.G0('wD') + If(pub, 1, 0)
    A('notifyDispatcherAboutEvent', ['C11', 'C17'], lambda c: [], nd, TRG + ['ghost:wD'])

    def nt(c):
        T, T0 = c.G('T'), c.G0('T')
        yield 'C10:woken-after-flag-was-set', And(T.hi == T0.hi + 1, seq_prefix(T, T0), T.at(T0.hi, 'k') == K_WAKE_T, T.at(T0.hi, 'x') == 1)
        yield 'C17:stop-announced', c.G('wT') == c.G0('wT') + If(c.F0('mStopDispatcher'), 1, 0)
    A('notifyTimersThread', ['C10', 'C17'], lambda c: free(c, ('mRunningTimersSync',)), nt, TRG + RTG + ['ghost:wT'])

    # ---- timers
    def upd(eng, c, main):
        """the function's only change of the table; remembers when it was made"""
        same = map_same(c.F('mRunningTimers'), c.G('RA'))
        d, at = c.G('done'), c.G('uat')
        keepg(eng, 'done', Or(main, And(d, same)))
        keepg(eng, 'uat', If(And(d, same), at, c.G('T').hi))
        return [('C10:only-this-timer-changes', Or(main, same))]

    def rel_start(eng, c):
        tid, ms = c.arg(0), c.arg(1)
        RT, RA = c.F('mRunningTimers'), c.G('RA')
        st = RT.at(tid, 'startedAt')
        return upd(eng, c, And(map_set(RT, RA, tid), RT.at(tid, 'elapseAfter') == st + ms * MS, st >= c.G0('clk'), st <= c.G('clk')))

    def rel_stop(eng, c):
        return upd(eng, c, map_del(c.F('mRunningTimers'), c.G('RA'), c.arg(0)))
    S.at_release[D_ + 'startTimerImpl'] = rel_start
    S.at_release[D_ + 'stopTimerImpl'] = rel_stop

    def undone(eng, c):
        keepg(eng, 'done', z3.BoolVal(False))

    def woken(c, what):
        T, T0 = c.G('T'), c.G0('T')
        yield 'C10:' + what, c.G('done')
        yield 'C10:timers-thread-woken-afterwards', And(T.hi > c.G('uat'), c.G('uat') >= T0.hi, T.at(T.hi - 1, 'k') == K_WAKE_T, T.at(T.hi - 1, 'x') == 1)
        yield 'C10:trace-grows', seq_prefix(T, T0)

    def st_ens(c):
        yield from woken(c, 'timer-armed-for-its-interval')
        new = c.F0('mTimersThread') == 0
        yield 'C10:timers-thread-runs', c.F('mTimersThread') != 0
        yield 'C10:one-timers-thread', And(c.G('fT') == c.G0('fT') + If(new, 1, 0), Imp(Not(new), c.F('mTimersThread') == c.F0('mTimersThread')))
    IMPL = RTG + TRG + ['ghost:wT', 'ghost:done', 'ghost:uat']
    A('startTimerImpl', ['C10', 'C17'], lambda c: free(c, ('mRunningTimersSync',)), st_ens, IMPL + ['mTimersThread', 'ghost:fT', 'ghost:clk'], entry=undone)
    A('stopTimerImpl', ['C10', 'C17'], lambda c: free(c, ('mRunningTimersSync',)), lambda c: woken(c, 'timer-removed'), IMPL, entry=undone)

    # ---- start, stop, join
    def start_ens(c):
        new = c.F0('mDispatcherThread') == 0
        yield 'C11:runs', And(c.ret, c.F('mDispatcherThread') != 0)
        yield 'C11:one-dispatching-thread', And(c.G('fD') == c.G0('fD') + If(new, 1, 0), Imp(Not(new), c.F('mDispatcherThread') == c.F0('mDispatcherThread')))
        yield 'C11:not-stopped', If(new, Not(c.F('mStopDispatcher')), c.F('mStopDispatcher') == c.F0('mStopDispatcher'))
    A('start', ['C11', 'C17'], lambda c: free(c), start_ens, ['mDispatcherThread', 'mStopDispatcher', 'ghost:fD'])

    def stop_ens(c):
        yield 'C17:stop-flag-set', c.F('mStopDispatcher')
        yield 'C17:dispatching-thread-told', c.G('wD') > c.G0('wD')
        yield 'C17:timers-thread-told', c.G('wT') > c.G0('wT')
        yield 'C11:no-handler-left', Fa(1, lambda q: Not(c.F('mEventHandlers').has(q)), lambda q: c.F('mEventHandlers').has(q))
    A('stop', ['C11', 'C17'], lambda c: free(c), stop_ens, EV + RTG + TRG + ['mStopDispatcher', 'mEventHandlers', 'ghost:wD', 'ghost:wT'])

    def join_ens(c):
        yield 'C17:no-thread-left', And(c.F('mDispatcherThread') == 0, c.F('mTimersThread') == 0)
    A('join', ['C17'], lambda c: free(c), join_ens, ['mDispatcherThread', 'mTimersThread'])
    A('~HsmEventDispatcherSTD', ['C17'], lambda c: free(c), lambda c: list(join_ens(c)) + [('C17:threads-told-to-stop', And(c.F('mStopDispatcher'), c.G('wD') > c.G0('wD'), c.G('wT') > c.G0('wT')))],
      EV + RTG + TRG + ['mStopDispatcher', 'mEventHandlers', 'ghost:wD', 'ghost:wT', 'mDispatcherThread', 'mTimersThread'])

    # ---- emitting
    def emit_ens(c):
        P, P0 = c.F('mPendingEvents'), c.F0('mPendingEvents')
        run = c.F0('mDispatcherThread') != 0
        yield 'C11:queued-last-while-running', Imp(run, appended(P, P0, 1, [c.arg(0)]))
        yield 'C11:woken-while-running', Imp(run, appended(c.G('T'), c.G0('T'), 1, [{'k': D.K_NOTIFY}]))
        yield 'C11:ignored-before-start', Imp(Not(run), And(P.same(P0), c.G('T').same(c.G0('T'))))
    A('emitEvent', ['C11', 'C17'], lambda c: free(c), emit_ens, ['mPendingEvents'] + TRG)

    # ---- the dispatching thread
    def others(eng, c):
        S.havoc(eng, SHARED)

    def busy(eng, c, cc):
        keepg(eng, 'idle', z3.BoolVal(False))

    def idle(eng, c):
        keepg(eng, 'idle', z3.BoolVal(True))
    CB = list(D.CALLBACK_HAVOC) + ['mActiveTimers', 'mTimerHandlers'] + ['ghost:' + g for g in ('T', 'slot', 'slotE', 'dec', 'cur', 'curkey', 'addA', 'addP', 'addQ')]
    A('doDispatching', ['C11', 'C17'], wfreq, lambda c: [('C17:ends-only-when-stopped', c.F('mStopDispatcher'))],
      CB + RTG + EV + ['ghost:idle', 'ghost:clk'], entry=idle, loops={0: {'inv': lambda c: [], 'ghost': others}}, after={'dispatchPendingEvents': busy})

    # ---- the timers thread
    def rel_timers(eng, c):
        RT, RA, tid, nx = c.F('mRunningTimers'), c.G('RA'), c.G('ptid'), c.G('pnext')
        alive = And(RA.has(tid), RA.at(tid, 'startedAt') == c.G('pst'))
        st = RT.at(tid, 'startedAt')
        rearmed = And(map_set(RT, RA, tid), RT.at(tid, 'elapseAfter') == st + nx * MS, st + MS > c.G('pel'), st <= c.G('clk'))
        p = c.G('pend')
        out = [('C10:repeating-timer-rearmed', Imp(And(p, alive, nx > 0), rearmed)),
               ('C10:expired-timer-removed', Imp(And(p, alive, nx == 0), map_del(RT, RA, tid))),
               ('C10:other-timers-untouched', Imp(Not(And(p, alive)), map_same(RT, RA)))]
        keepg(eng, 'pend', z3.BoolVal(False))
        return out
    S.at_release[D_ + 'handleTimers'] = rel_timers

    def fired(eng, c, cc):
        tid, RS, clk = cc.arg(0), c.G('RS'), c.G('clk')
        eng.oblige('safe:C17:timer-lock-free-at-handler', Not(eng.store[('this',)].tree['mRunningTimersSync']['held']))
        eng.oblige('safe:C10:only-running-timer-fires', RS.has(tid))
        eng.oblige('safe:C10:not-before-its-interval', RS.at(tid, 'elapseAfter') < clk + MS)
        eng.oblige('safe:C10:earliest-first', Fa(1, lambda q: Imp(RS.has(q), RS.at(tid, 'elapseAfter') <= RS.at(q, 'elapseAfter')), lambda q: RS.has(q)))
        eng.oblige('safe:C10:one-at-a-time', Not(c.G('pend')))
        keepg(eng, 'pend', z3.BoolVal(True))
        keepg(eng, 'prog', z3.BoolVal(True))
        keepg(eng, 'ptid', tid)
        keepg(eng, 'pnext', cc.ret)
        keepg(eng, 'pst', RS.at(tid, 'startedAt'))
        keepg(eng, 'pel', RS.at(tid, 'elapseAfter'))

    def start_timers(eng, c):
        keepg(eng, 'pend', z3.BoolVal(False))
        keepg(eng, 'prog', z3.BoolVal(True))

    def round_(eng, c):
        others(eng, c)
        keepg(eng, 'prog', z3.BoolVal(False))

    def min_inv(c):
        RT, it, m = c.F('mRunningTimers'), c.L('it'), c.L('itTimeout')
        yield 'cursor-valid', Imp(Not(it.end), RT.has(it.pos))
        yield 'candidate-valid', And(Not(m.end), RT.has(m.pos))
        yield 'candidate-earliest', Fa(1, lambda q: Imp(And(RT.has(q), Or(it.end, q < it.pos)), RT.at(m.pos, 'elapseAfter') <= RT.at(q, 'elapseAfter')), lambda q: RT.has(q))
    PG = ['ghost:prog', 'ghost:pend', 'ghost:ptid', 'ghost:pnext', 'ghost:pst', 'ghost:pel', 'ghost:clk']
    A('handleTimers', ['C10', 'C17'], wfreq, lambda c: [('C17:ends-only-when-stopped', c.F('mStopDispatcher'))], CB + RTG + PG, entry=start_timers,
      loops={0: {'inv': lambda c: [('handled-timer-was-updated', Not(c.G('pend'))), ('waits-or-fires', c.G('prog'))], 'ghost': round_}, 1: {'inv': min_inv}}, after={'handleTimerEvent': fired})
    return S
