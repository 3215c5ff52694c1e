"""Contracts of HsmEventDispatcherBase (src/HsmEventDispatcherBase.cpp)."""
import z3
from specs_base import *

K_EVT, K_ENQ, K_TIM, K_ACT, K_START, K_STOP, K_NOTIFY = 1, 2, 3, 4, 5, 6, 7
KINDS = {'EventHandlerFunc_t': K_EVT, 'EnqueuedEventHandlerFunc_t': K_ENQ, 'TimerHandlerFunc_t': K_TIM, 'ActionHandlerFunc_t': K_ACT}
B = 'HsmEventDispatcherBase::'
LOCKS = ('mEmitSync', 'mHandlersSync', 'mEnqueuedEventsSync')
CALLBACK_HAVOC = ('mEventHandlers', 'mEnqueuedEventHandlers', 'mTimerHandlers', 'mActiveTimers', 'mPendingActions', 'mPendingEvents',
                  'mEnqueuedEvents', 'mStopDispatcher', 'mNextHandlerId')


class DispSpecs(Specs):
    lock_order = ('mHandlersSync', 'mEmitSync', 'mEnqueuedEventsSync')
    lock_protected = {'mActiveTimers': 'mHandlersSync', 'mEventHandlers': 'mHandlersSync', 'mEnqueuedEventHandlers': 'mHandlersSync',
                      'mTimerHandlers': 'mHandlersSync', 'mPendingActions': 'mEmitSync', 'mPendingEvents': 'mEmitSync',
                      'mEnqueuedEvents': 'mEnqueuedEventsSync', 'mNextHandlerId': 'mHandlersSync'}

    def ghosts(self, eng):
        m = TMap(TINT, TINT)
        return {'T': trace_type(), 'cur': TINT, 'curkey': TINT, 'slot': m, 'slotE': m, 'dec': m,
                'addA': TINT, 'addP': TINT, 'addQ': TINT}

    def slots(self, eng, kw, cur, at):
        k = kw['k'].as_long()
        if k == K_EVT:
            ck = eng.store[('ghost', 'curkey')].tree
            old = z3.Select(eng.store[('ghost', 'dec')].tree['d'], ck)
            return [('slotE', cur, at), ('dec', ck, If(kw['r'], old, at))]
        if k in (K_NOTIFY, K_TIM, K_ACT):
            return []
        return [('slot', cur, at)]

    def external_method(self, eng, rec, name, obj, args, n):
        if name == 'notifyDispatcherAboutEvent':
            # implementations lock mEmitSync to wake the dispatching thread
            self.need_free(eng, ('mEmitSync', 'mHandlersSync', 'mEnqueuedEventsSync'), 'notify')
            th = eng.store[('this',)].tree      # (with the queues as they are now)
            self.emit(eng, k=z3.IntVal(K_NOTIFY), x=th['mPendingEvents']['hi'], y=th['mEnqueuedEvents']['hi'], z=th['mPendingActions']['hi'])
            return None
        if name in ('startTimerImpl', 'stopTimerImpl') and rec == 'HsmEventDispatcherBase':
            a = [eng.rv(x) for x in args]
            if name == 'startTimerImpl':
                self.emit(eng, k=z3.IntVal(K_START), x=a[0], y=a[1], r=a[2])
            else:
                self.emit(eng, k=z3.IntVal(K_STOP), x=a[0])
            return None
        return NotImplemented

    def need_free(self, eng, locks, why):
        th = eng.store[('this',)].tree
        for l in locks:
            eng.oblige('safe:C17:%s-not-held-at-%s' % (l, why), z3.Not(th[l]['held']))

    def callback(self, eng, h, alias, args, rt, ty):
        k = KINDS.get(alias.split('::')[-1])
        if k is None:
            raise E.Unsupported('callback ' + alias)
        # user code reached from here may call the dispatcher's public functions
        if k == K_TIM:
            self.need_free(eng, ('mEmitSync', 'mEnqueuedEventsSync'), 'callback')
        else:
            self.need_free(eng, LOCKS, 'callback')
        r = z3.Bool(fresh_name('cbres'))
        x = eng.rv(args[0]) if args else z3.IntVal(0)
        self.emit(eng, k=z3.IntVal(k), f=h, x=x, r=r)
        this = eng.store[('this',)]
        tree = dict(this.tree)
        old = dict(tree)
        for f in CALLBACK_HAVOC:
            if k == K_TIM and f in ('mTimerHandlers', 'mActiveTimers', 'mEventHandlers', 'mEnqueuedEventHandlers'):
                continue        # guarded by mHandlersSync, held during a timer callback
            tree[f] = eng.fresh(this.t.fields[f], 'cb_' + f).tree
        # rely: user code changes the dispatcher only through its public functions, i.e. per their contracts:
        # ids are never re-bound or reused, handlers are callable, queues only grow at the end (or lose entries)
        nx0, nx = old['mNextHandlerId'], tree['mNextHandlerId']
        eng.assume(nx >= nx0)
        for f in ('mEventHandlers', 'mEnqueuedEventHandlers', 'mTimerHandlers'):
            a, b = tree[f], old[f]
            if a is b:
                continue
            q = z3.Int(fresh_name('cq'))
            ha, hb = z3.Select(a['dom'], q), z3.Select(b['dom'], q)
            eng.assume(forall([q], Imp(And(ha, q < nx0), And(hb, z3.Select(a['d'], q) == z3.Select(b['d'], q))), patterns=[ha]))
            eng.assume(forall([q], Imp(ha, And(z3.Select(a['d'], q) != 0, q < nx, q > 0)), patterns=[ha]))
        for f, g in (('mPendingActions', 'addA'), ('mPendingEvents', 'addP'), ('mEnqueuedEvents', 'addQ')):
            added = z3.Int(fresh_name('added'))
            eng.assume(And(added >= 0, tree[f]['hi'] - tree[f]['lo'] <= old[f]['hi'] - old[f]['lo'] + added))
            gv = eng.store[('ghost', g)]
            eng.store[('ghost', g)] = V(gv.t, gv.tree + added)
        eng.assume(tree['mEnqueuedEvents']['cap'] == old['mEnqueuedEvents']['cap'])
        eng.store[('this',)] = V(this.t, tree)
        return None if k == K_ACT else r


def locks_free(c):
    return [('locks-free', And([Not(c.pre.store[('this',)].tree[l]['held']) for l in LOCKS]))]


def ids_below(c, F):
    """every registered id was handed out earlier (so the next id is new)"""
    nx = F('mNextHandlerId')
    out = []
    for f in ('mEventHandlers', 'mEnqueuedEventHandlers', 'mTimerHandlers'):
        m = F(f)
        out.append((f + '-ids-below-next', Fa(1, lambda q: Imp(m.has(q), And(q < nx, q > 0)), lambda q: m.has(q))))
    out.append(('next-positive', nx > 0))
    return out


def ids_req(c):
    return locks_free(c) + ids_below(c, c.F0)


def timers_owned(F):
    A, H = F('mActiveTimers'), F('mTimerHandlers')
    return Fa(1, lambda q: Imp(A.has(q), H.has(A.at(q, 'handlerID'))), lambda q: A.has(q))


def keeps_owned(c):
    return 'C10:timers-keep-registered-handlers', Imp(timers_owned(c.F0), timers_owned(c.F))


def ids_disjoint_ret(c):
    """the new id is used by no handler of any kind"""
    return And([Not(c.F0(f).has(c.ret)) for f in ('mEventHandlers', 'mEnqueuedEventHandlers', 'mTimerHandlers')])


def make():
    S = DispSpecs()

    def reg(field):
        def ens(c):
            h = c.arg('#0')
            yield 'C11:id-unused', ids_disjoint_ret(c)
            yield 'C11:id-valid', c.ret > 0
            yield 'C11:handler-stored-others-kept', map_set(c.F(field), c.F0(field), c.ret, _=c.arg(0))
            for l, f in ids_below(c, c.F):
                yield 'C11:' + l, f
        return ens

    for nm, f in (('registerEventHandler', 'mEventHandlers'), ('registerEnqueuedEventHandler', 'mEnqueuedEventHandlers'),
                  ('registerTimerHandler', 'mTimerHandlers')):
        def ens(c, f=f):
            yield 'C11:id-unused', ids_disjoint_ret(c)
            yield 'C11:id-valid', c.ret > 0
            yield 'C11:handler-stored-others-kept', map_set(c.F(f), c.F0(f), c.ret, _=c.arg(0))
            for l, g in ids_below(c, c.F):
                yield 'C11:' + l, g
            yield keeps_owned(c)
        S.add(B + nm, Spec(['C11', 'C17'], ids_req, ens, [f, 'mNextHandlerId']))

    def ens(c):
        P0, P = c.F0('mPendingEvents'), c.F('mPendingEvents')
        i = c.arg(0)
        yield 'C11:handler-removed-others-kept', map_del(c.F('mEventHandlers'), c.F0('mEventHandlers'), i)
        yield 'C11:pending-of-others-kept', Fa(1, lambda q: P.has(q) == And(P0.has(q), q != i), lambda q: P.has(q))
    S.add(B + 'unregisterEventHandler', Spec(['C11', 'C17'], locks_free, ens, ['mEventHandlers', 'mPendingEvents']))

    def ens(c):
        yield 'C11:handler-removed-others-kept', map_del(c.F('mEnqueuedEventHandlers'), c.F0('mEnqueuedEventHandlers'), c.arg(0))
    S.add(B + 'unregisterEnqueuedEventHandler', Spec(['C11', 'C17'], locks_free, ens, ['mEnqueuedEventHandlers']))

    def ens(c):
        m, m0 = c.F('mEventHandlers'), c.F0('mEventHandlers')
        yield 'C11:all-removed', Fa(1, lambda q: Not(m.has(q)), lambda q: m.has(q))
    S.add(B + 'unregisterAllEventHandlers', Spec(['C11', 'C17'], locks_free, ens, ['mEventHandlers']))

    def notified(c, col, q):
        # woken behind the change of the queue
        return appended(c.G('T'), c.G0('T'), 1, [{'k': K_NOTIFY, col: c.F(q).hi}])

    def ens(c):
        yield 'C11:queued-last', appended(c.F('mPendingEvents'), c.F0('mPendingEvents'), 1, [c.arg(0)])
        yield 'C11:woken-once-afterwards', notified(c, 'x', 'mPendingEvents')
    S.add(B + 'emitEvent', Spec(['C11', 'C17'], locks_free, ens, ['mPendingEvents', 'ghost:T', 'ghost:slot']))

    def ens(c):
        q0, q = c.F0('mEnqueuedEvents'), c.F('mEnqueuedEvents')
        room = q0.n < q0.tr['cap']
        yield 'C11:accepted-iff-room', c.ret == room
        yield 'C11:queued-last', Imp(room, appended(q, q0, 1, [{'handlerID': c.arg(0), 'eventID': c.arg(1)}]))
        yield 'C11:rejected-leaves-queue', Imp(Not(room), q.same(q0))
        yield 'C11:never-reallocates', q.tr['cap'] == q0.tr['cap']
        yield 'C11:woken-when-accepted', Imp(room, notified(c, 'y', 'mEnqueuedEvents'))
        yield 'C11:not-woken-when-rejected', Imp(Not(room), c.G('T').same(c.G0('T')))
    S.add(B + 'enqueueEvent', Spec(['C11', 'C17'], locks_free, ens, ['mEnqueuedEvents', 'ghost:T', 'ghost:slot']))

    def ens(c):
        yield 'C11:queued-last', appended(c.F('mPendingActions'), c.F0('mPendingActions'), 1, [c.arg(0)])
        yield 'C11:woken-once-afterwards', notified(c, 'z', 'mPendingActions')
    S.add(B + 'enqueueAction', Spec(['C11', 'C17'], locks_free, ens, ['mPendingActions', 'ghost:T', 'ghost:slot']))

    # ---------------------------------------------------------------- timers
    def ens(c):
        hid, tid, ms, one = c.arg(0), c.arg(1), c.arg(2), c.arg(3)
        A0, A = c.F0('mActiveTimers'), c.F('mActiveTimers')
        T0, T = c.G0('T'), c.G('T')
        ok = And(ms > 0, c.F0('mTimerHandlers').has(hid))
        yield 'C10:ignored-when-invalid', Imp(Not(ok), And(map_same(A, A0), T.same(T0)))
        yield 'C10:timer-recorded-others-kept', Imp(ok, map_set(A, A0, tid, handlerID=hid, intervalMs=ms, isSingleShot=one))
        start = {'k': K_START, 'x': tid, 'y': ms, 'r': one}
        yield 'C10:new-timer-started', Imp(And(ok, Not(A0.has(tid))), appended(T, T0, 1, [start]))
        yield keeps_owned(c)
        yield 'C10:running-timer-restarted', Imp(And(ok, A0.has(tid)), appended(T, T0, 2, [{'k': K_STOP, 'x': tid}, start]))
    S.add(B + 'startTimer', Spec(['C10', 'C17'], locks_free, ens, ['mActiveTimers', 'ghost:T', 'ghost:slot']))

    def ens(c):
        tid = c.arg(0)
        A0, T0, T = c.F0('mActiveTimers'), c.G0('T'), c.G('T')
        yield 'C10:stopped-timer-untouched', Imp(Not(A0.has(tid)), T.same(T0))
        yield 'C10:restarted-with-same-parameters', Imp(A0.has(tid), appended(T, T0, 2, [
            {'k': K_STOP, 'x': tid}, {'k': K_START, 'x': tid, 'y': A0.at(tid, 'intervalMs'), 'r': A0.at(tid, 'isSingleShot')}]))
    S.add(B + 'restartTimer', Spec(['C10', 'C17'], locks_free, ens, ['ghost:T', 'ghost:slot']))

    def ens(c):
        tid = c.arg(0)
        A0, A, T0, T = c.F0('mActiveTimers'), c.F('mActiveTimers'), c.G0('T'), c.G('T')
        yield 'C10:removed-others-kept', map_del(A, A0, tid)
        yield 'C10:platform-timer-stopped', Imp(A0.has(tid), appended(T, T0, 1, [{'k': K_STOP, 'x': tid}]))
        yield keeps_owned(c)
        yield 'C10:unknown-timer-ignored', Imp(Not(A0.has(tid)), T.same(T0))
    S.add(B + 'stopTimer', Spec(['C10', 'C17'], locks_free, ens, ['mActiveTimers', 'ghost:T', 'ghost:slot']))

    S.add(B + 'isTimerRunning', Spec(['C10', 'C17'], locks_free, lambda c: [('C10:running-iff-active', c.ret == c.F0('mActiveTimers').has(c.arg(0)))]))

    def htreq(c):
        A, H = c.F0('mActiveTimers'), c.F0('mTimerHandlers')
        # every active timer belongs to a registered handler (maintained by startTimer/unregisterTimerHandler)
        return locks_free(c) + [('timers-have-handlers', Fa(1, lambda q: Imp(A.has(q), H.has(A.at(q, 'handlerID'))), lambda q: A.has(q))),
                                ('handlers-callable', Fa(1, lambda q: Imp(H.has(q), H.at(q) != 0), lambda q: H.has(q)))]

    def ens(c):
        tid = c.arg(0)
        A0, A, T0, T, H0 = c.F0('mActiveTimers'), c.F('mActiveTimers'), c.G0('T'), c.G('T'), c.F0('mTimerHandlers')
        INV_T = -1000
        live = And(tid != INV_T, A0.has(tid), A0.at(tid, 'handlerID') != 0)
        one, ms = A0.at(tid, 'isSingleShot'), A0.at(tid, 'intervalMs')
        yield 'C10:handler-called-once-with-timer', Imp(live, appended(T, T0, 1, [
            {'k': K_TIM, 'f': H0.at(A0.at(tid, 'handlerID')), 'x': tid}]))
        yield keeps_owned(c)
        yield 'C10:no-call-for-inactive-timer', Imp(Not(live), T.same(T0))
        yield 'C10:single-shot-removed', Imp(And(live, Or(one, ms == 0)), map_del(A, A0, tid))
        yield 'C10:repeating-kept', Imp(And(live, Not(one), ms != 0), map_same(A, A0))
        yield 'C10:inactive-leaves-table', Imp(Not(live), map_same(A, A0))
        yield 'C10:next-interval', c.ret == If(And(live, Not(one)), ms, z3.IntVal(0))
    S.add(B + 'handleTimerEvent', Spec(['C10', 'C17'], htreq, ens,
                                       ['mActiveTimers', 'ghost:T', 'ghost:slot', 'mPendingActions', 'mPendingEvents', 'mEnqueuedEvents',
                                        'mStopDispatcher', 'mNextHandlerId', 'ghost:addA', 'ghost:addP', 'ghost:addQ']))

    # unregisterTimerHandler: every timer of the handler is stopped and removed, others are kept
    def inv(c):
        A0, A, T0, T = c.F0('mActiveTimers'), c.F('mActiveTimers'), c.G0('T'), c.G('T')
        hid = c.arg(0)
        it = c.cursor
        seen = lambda q: Or(it.end, q < it.pos)
        yield 'visited-timers-of-handler-removed', Fa(1, lambda q: Imp(And(A0.has(q), seen(q)), A.has(q) == (A0.at(q, 'handlerID') != hid)), lambda q: [A.has(q), A0.has(q)])
        yield 'unvisited-kept', Fa(1, lambda q: Imp(Not(And(A0.has(q), seen(q))), A.has(q) == A0.has(q)), lambda q: [A.has(q), A0.has(q)])
        yield 'values-kept', z3.And([x == y for x, y in zip(t_leaves(A.tr['d']), t_leaves(A0.tr['d']))])
        yield 'cursor-valid', Imp(Not(it.end), A.has(it.pos))
        yield 'trace-grows', seq_prefix(T, T0)
        yield 'only-stops-of-this-handler', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), And(
            T.at(q, 'k') == K_STOP, A0.has(T.at(q, 'x')), A0.at(T.at(q, 'x'), 'handlerID') == hid, T.at(q, 's') == T.at(q, 'x'), seen(T.at(q, 'x')))), lambda q: [T.at(q, 'k'), T.at(q, 'x')])
        sl = c.G('slot')
        yield 'each-removed-was-stopped', Fa(1, lambda q: Imp(And(A0.has(q), seen(q), A0.at(q, 'handlerID') == hid), And(
            T0.hi <= sl.at(q), sl.at(q) < T.hi, T.at(sl.at(q), 'x') == q)), lambda q: A0.has(q))
        yield 'stopped-once', Fa(2, lambda p, q: Imp(And(T0.hi <= p, p < q, q < T.hi), T.at(p, 'x') < T.at(q, 'x')), lambda p, q: MP(T.at(p, 'x'), T.at(q, 'x')))

    def ghost(eng, c):
        it = c.cursor
        eng.store[('ghost', 'cur')] = V(TINT, it.pos)

    def ens(c):
        A0, A, T0, T, H0, H = c.F0('mActiveTimers'), c.F('mActiveTimers'), c.G0('T'), c.G('T'), c.F0('mTimerHandlers'), c.F('mTimerHandlers')
        hid = c.arg(0)
        yield 'C11:handler-removed-others-kept', map_del(H, H0, hid)
        yield 'C10:timers-of-handler-removed-others-kept', Fa(1, lambda q: A.has(q) == And(A0.has(q), Or(Not(H0.has(hid)), A0.at(q, 'handlerID') != hid)), lambda q: [A.has(q)])
        yield 'C10:kept-timers-unchanged', Fa(1, lambda q: Imp(A.has(q), And([x == y for x, y in zip(t_leaves(A.at(q)), t_leaves(A0.at(q)))])), lambda q: [A.has(q)])
        sl = c.G('slot')
        yield 'C10:platform-timers-stopped', Imp(H0.has(hid), Fa(1, lambda q: Imp(And(A0.has(q), A0.at(q, 'handlerID') == hid), And(
            T0.hi <= sl.at(q), sl.at(q) < T.hi, T.at(sl.at(q), 'k') == K_STOP, T.at(sl.at(q), 'x') == q)), lambda q: A0.has(q)))
        yield keeps_owned(c)
        yield 'C10:no-other-timer-stopped', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), And(
            T.at(q, 'k') == K_STOP, A0.has(T.at(q, 'x')), A0.at(T.at(q, 'x'), 'handlerID') == hid)), lambda q: T.at(q, 'k'))
    S.add(B + 'unregisterTimerHandler', Spec(['C10', 'C11', 'C17'], locks_free, ens,
                                             ['mActiveTimers', 'mTimerHandlers', 'ghost:T', 'ghost:slot', 'ghost:cur'],
                                             loops={0: {'inv': inv, 'ghost': ghost}}))

    CB = list(CALLBACK_HAVOC) + ['ghost:' + g for g in ('T', 'slot', 'slotE', 'dec', 'cur', 'curkey', 'addA', 'addP', 'addQ')]

    def dreq(c):
        out = locks_free(c) + ids_below(c, c.F0)
        for f in ('mEventHandlers', 'mEnqueuedEventHandlers', 'mTimerHandlers'):
            m = c.F0(f)
            out.append((f + '-callable', Fa(1, lambda q: Imp(m.has(q), m.at(q) != 0), lambda q: m.has(q))))
        return out

    def rely(c, F0, F):
        """what survives user callbacks"""
        yield 'next-id-grows', F('mNextHandlerId') >= F0('mNextHandlerId')
        for f in ('mEventHandlers', 'mEnqueuedEventHandlers', 'mTimerHandlers'):
            a, b = F(f), F0(f)
            yield f + '-ids-not-rebound', Fa(1, lambda q: Imp(And(a.has(q), q < F0('mNextHandlerId')), And(b.has(q), a.at(q) == b.at(q))), lambda q: a.has(q))
            yield f + '-callable', Fa(1, lambda q: Imp(a.has(q), And(a.at(q) != 0, q > 0, q < F('mNextHandlerId'))), lambda q: a.has(q))
        yield 'capacity-kept', F('mEnqueuedEvents').tr['cap'] == F0('mEnqueuedEvents').tr['cap']

    def unchanged(c, but=()):
        return And([And([x == y for x, y in zip(t_leaves(c.post.store[('this',)].tree[f]), t_leaves(c.pre.store[('this',)].tree[f]))])
                    for f in CALLBACK_HAVOC if f not in but])

    def counters(c):
        yield 'counters', And([c.G(g) >= c.G0(g) for g in ('addA', 'addP', 'addQ')])

    def enq_trace(c, T, T0, Q0, H, H0, nx0, lo, sl):
        """entries [T0.hi,T.hi) deliver the elements of Q0 at positions >= lo, newest first, each once"""
        ent = lambda q: And(T0.hi <= q, q < T.hi, T.at(q, 'k') == K_ENQ)
        hid = lambda i: Q0.at(i, 'handlerID')
        yield 'delivers-queued-events', Fa(1, lambda q: Imp(ent(q), And(
            lo <= T.at(q, 's'), T.at(q, 's') < Q0.hi, T.at(q, 'x') == Q0.at(T.at(q, 's'), 'eventID'))), lambda q: T.at(q, 'k'))
        yield 'to-their-handler', Fa(1, lambda q: Imp(And(ent(q), H0.has(hid(T.at(q, 's')))), T.at(q, 'f') == H0.at(hid(T.at(q, 's')))), lambda q: T.at(q, 'k'))
        yield 'each-once-newest-first', Fa(2, lambda p, q: Imp(And(ent(p), ent(q), p < q), T.at(q, 's') < T.at(p, 's')), lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))

    def enq_complete(T, T0, Q0, H, nx0, lo, sl):
        return Fa(1, lambda i: Imp(And(lo <= i, i < Q0.hi, H.has(Q0.at(i, 'handlerID')), Q0.at(i, 'handlerID') < nx0), And(
            T0.hi <= sl.at(i), sl.at(i) < T.hi, T.at(sl.at(i), 's') == i, T.at(sl.at(i), 'k') == K_ENQ)), lambda i: Q0.at(i, 'handlerID'))

    def enq_inv(c):
        Q0, T, T0 = c.F0('mEnqueuedEvents'), c.G('T'), c.G0('T')
        H, H0, nx0 = c.F('mEnqueuedEventHandlers'), c.F0('mEnqueuedEventHandlers'), c.F0('mNextHandlerId')
        pos = c.pos
        prev, cb = c.L('prevHandlerID'), c.L('callback')
        yield 'cached-handler', Imp(And(prev != 0, H.has(prev), prev < nx0), cb == H.at(prev))
        yield 'cached-handler-original', Imp(And(prev != 0, prev < nx0, cb != 0), And(H0.has(prev), cb == H0.at(prev)))
        yield 'no-handler-before-first', Imp(prev == 0, cb == 0)
        yield 'trace-grows', seq_prefix(T, T0)
        yield 'only-enqueued', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), T.at(q, 'k') == K_ENQ), lambda q: T.at(q, 'k'))
        yield from rely(c, c.F0, c.F)
        yield from counters(c)
        yield 'queue-taken', c.F('mEnqueuedEvents').n <= c.G('addQ') - c.G0('addQ')
        yield from enq_trace(c, T, T0, Q0, H, H0, nx0, pos, c.G('slot'))
        yield 'complete', enq_complete(T, T0, Q0, H, nx0, pos, c.G('slot'))
        yield 'untouched-actions', c.F('mPendingActions').n <= c.F0('mPendingActions').n + c.G('addA') - c.G0('addA')
        yield 'untouched-events', c.F('mPendingEvents').n <= c.F0('mPendingEvents').n + c.G('addP') - c.G0('addP')

    def enq_ghost(eng, c):
        eng.store[('ghost', 'cur')] = V(TINT, c.pos - 1)

    def enq_ens(c):
        Q0, T, T0 = c.F0('mEnqueuedEvents'), c.G('T'), c.G0('T')
        H, H0, nx0 = c.F('mEnqueuedEventHandlers'), c.F0('mEnqueuedEventHandlers'), c.F0('mNextHandlerId')
        for l, f in enq_trace(c, T, T0, Q0, H, H0, nx0, Q0.lo, c.G('slot')):
            yield 'C11:' + l, f
        yield 'C11:all-delivered-unless-stopped', Imp(And(Not(c.F0('mStopDispatcher')), Not(c.F('mStopDispatcher'))),
                                                      enq_complete(T, T0, Q0, H, nx0, Q0.lo, c.G('slot')))
        yield 'C11:nothing-when-stopped', Imp(c.F0('mStopDispatcher'), And(T.same(T0), unchanged(c)))
        yield 'C11:queue-taken', Imp(Not(c.F0('mStopDispatcher')), c.F('mEnqueuedEvents').n <= c.G('addQ') - c.G0('addQ'))
        yield 'C11:trace-grows', seq_prefix(T, T0)
        yield 'C11:only-enqueued', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), T.at(q, 'k') == K_ENQ), lambda q: T.at(q, 'k'))
        for l, f in rely(c, c.F0, c.F):
            yield 'C11:' + l, f
        for l, f in counters(c):
            yield 'C11:' + l, f
        yield 'C11:untouched-actions', c.F('mPendingActions').n <= c.F0('mPendingActions').n + c.G('addA') - c.G0('addA')
        yield 'C11:untouched-events', c.F('mPendingEvents').n <= c.F0('mPendingEvents').n + c.G('addP') - c.G0('addP')
    S.add(B + 'dispatchEnqueuedEvents', Spec(['C11', 'C17'], dreq, enq_ens, CB, loops={0: {'inv': enq_inv, 'ghost': enq_ghost}}))

    # ---------------------------------------------------------------- actions
    def act_trace(T, T0, A0, n):
        yield 'trace-grows', seq_prefix(T, T0)
        yield 'in-order', And(T.hi == T0.hi + n, Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), And(
            T.at(q, 'k') == K_ACT, T.at(q, 'f') == A0.at(A0.lo + q - T0.hi))), lambda q: T.at(q, 'k')))

    def act_inv(c):
        A0, T, T0 = c.F0('mPendingActions'), c.G('T'), c.G0('T')
        yield from act_trace(T, T0, A0, c.pos - A0.lo)
        yield from rely(c, c.F0, c.F)
        yield from counters(c)
        yield 'queue-taken', c.F('mPendingActions').n <= c.G('addA') - c.G0('addA')
        yield 'idle', Imp(c.pos == A0.lo, And(unchanged(c, ('mPendingActions',)), c.F('mPendingActions').n == 0))
        yield 'untouched-events', c.F('mPendingEvents').n <= c.F0('mPendingEvents').n + c.G('addP') - c.G0('addP')
        yield 'untouched-enqueued', c.F('mEnqueuedEvents').n <= c.F0('mEnqueuedEvents').n + c.G('addQ') - c.G0('addQ')

    def callable_actions(c):
        A0 = c.F0('mPendingActions')
        return [('actions-callable', Fa(1, lambda q: Imp(A0.inr(q), A0.at(q) != 0), lambda q: A0.at(q)))]

    def act_ens(c):
        A0, T, T0 = c.F0('mPendingActions'), c.G('T'), c.G0('T')
        for l, f in act_trace(T, T0, A0, A0.n):
            yield 'C11:actions-' + l, f
        yield 'C11:actions-executed-once', c.F('mPendingActions').n <= c.G('addA') - c.G0('addA')
        yield 'C11:untouched-events', c.F('mPendingEvents').n <= c.F0('mPendingEvents').n + c.G('addP') - c.G0('addP')
        yield 'C11:untouched-enqueued', c.F('mEnqueuedEvents').n <= c.F0('mEnqueuedEvents').n + c.G('addQ') - c.G0('addQ')
        for l, f in rely(c, c.F0, c.F):
            yield 'C11:' + l, f
        for l, f in counters(c):
            yield 'C11:' + l, f
        yield 'C11:idle-without-actions', Imp(A0.n == 0, And(unchanged(c, ('mPendingActions',)), c.F('mPendingActions').n == 0))
    S.add(B + 'dispatchPendingActions', Spec(['C11', 'C17'], lambda c: dreq(c) + callable_actions(c), act_ens, CB, loops={0: act_inv}))

    # ---------------------------------------------------------------- events
    def evt_trace(T, T1hi, ev, H0, nx0, hi, T0):
        ent = lambda q: And(T0.hi <= q, q < T.hi, T.at(q, 'k') == K_EVT)
        s = lambda q: T.at(q, 's')
        yield 'calls-for-emitted-events', Fa(1, lambda q: Imp(ent(q), And(ev.lo <= s(q), s(q) < hi)), lambda q: T.at(q, 'k'))
        yield 'to-their-handler', Fa(1, lambda q: Imp(And(ent(q), ev.at(s(q)) < nx0), And(H0.has(ev.at(s(q))), T.at(q, 'f') == H0.at(ev.at(s(q))))), lambda q: T.at(q, 'k'))
        yield 'in-order', Fa(2, lambda p, q: Imp(And(ent(p), ent(q), p < q), s(p) < s(q)), lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))
        yield 'not-called-after-declining', Fa(2, lambda p, q: Imp(And(ent(p), ent(q), p < q, ev.at(s(p)) == ev.at(s(q))), T.at(p, 'r')), lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))

    def evt_complete(T, T0, ev, H, nx0, hi, slE, dec):
        called = lambda i: And(T0.hi <= slE.at(i), slE.at(i) < T.hi, T.at(slE.at(i), 's') == i, T.at(slE.at(i), 'k') == K_EVT)
        d = lambda i: dec.at(ev.at(i))
        declined = lambda i: And(T0.hi <= d(i), d(i) < T.hi, T.at(d(i), 'k') == K_EVT, Not(T.at(d(i), 'r')), T.at(d(i), 's') < i, ev.at(T.at(d(i), 's')) == ev.at(i))
        return Fa(1, lambda i: Imp(And(ev.lo <= i, i < hi, H.has(ev.at(i)), ev.at(i) < nx0), Or(called(i), declined(i))), lambda i: ev.at(i))

    def evt_inv(c):
        T, T0, ev = c.G('T'), c.G0('T'), c.arg(0)
        H, H0, nx0, nx = c.F('mEventHandlers'), c.F0('mEventHandlers'), c.F0('mNextHandlerId'), c.F('mNextHandlerId')
        cp = c.L('eventHandlersCopy')
        pos, slE, dec = c.pos, c.G('slotE'), c.G('dec')
        yield 'trace-grows', seq_prefix(T, T0)
        yield from evt_trace(T, None, ev, H0, nx0, pos, T0)
        yield from rely(c, c.F0, c.F)
        yield from counters(c)
        d = lambda q: dec.at(q)
        dec_ok = lambda q: And(T0.hi <= d(q), d(q) < T.hi, T.at(d(q), 'k') == K_EVT, Not(T.at(d(q), 'r')), T.at(d(q), 's') < pos, ev.at(T.at(d(q), 's')) == q)
        yield 'copy-of-registered', Fa(1, lambda q: Imp(And(cp.has(q), q < nx0), And(H0.has(q), cp.at(q) == H0.at(q))), lambda q: cp.has(q))
        yield 'copy-callable', Fa(1, lambda q: Imp(cp.has(q), cp.at(q) != 0), lambda q: cp.has(q))
        yield 'removed-only-if-declined', Fa(1, lambda q: Imp(And(H.has(q), q < nx0), Or(cp.has(q), dec_ok(q))), lambda q: [H.has(q), cp.has(q)])
        yield 'declined-is-removed', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi, T.at(q, 'k') == K_EVT, Not(T.at(q, 'r'))), Not(cp.has(ev.at(T.at(q, 's'))))), lambda q: T.at(q, 'k'))
        yield 'complete', evt_complete(T, T0, ev, H, nx0, pos, slE, dec)
        yield 'enqueued-first', Fa(2, lambda p, q: Imp(And(T0.hi <= p, p < q, q < T.hi, T.at(p, 'k') == K_EVT), T.at(q, 'k') == K_EVT), lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))
        yield 'untouched-actions', c.F('mPendingActions').n <= c.F0('mPendingActions').n + c.G('addA') - c.G0('addA')
        yield 'untouched-events', c.F('mPendingEvents').n <= c.F0('mPendingEvents').n + c.G('addP') - c.G0('addP')
        yield 'queue-taken', c.F('mEnqueuedEvents').n <= c.G('addQ') - c.G0('addQ')

    def evt_ghost(eng, c):
        eng.store[('ghost', 'cur')] = V(TINT, c.pos)
        eng.store[('ghost', 'curkey')] = V(TINT, c.arg(0).at(c.pos))

    def evt_ens(c):
        T, T0, ev = c.G('T'), c.G0('T'), c.arg(0)
        H, H0, nx0 = c.F('mEventHandlers'), c.F0('mEventHandlers'), c.F0('mNextHandlerId')
        stop0, stop = c.F0('mStopDispatcher'), c.F('mStopDispatcher')
        yield 'C11:nothing-when-stopped', Imp(stop0, T.same(T0))
        for l, f in evt_trace(T, None, ev, H0, nx0, ev.hi, T0):
            yield 'C11:events-' + l, f
        yield 'C11:all-handled-unless-stopped', Imp(And(Not(stop0), Not(stop)), evt_complete(T, T0, ev, H, nx0, ev.hi, c.G('slotE'), c.G('dec')))
        yield 'C11:trace-grows', seq_prefix(T, T0)
        yield 'C11:enqueued-first', Fa(2, lambda p, q: Imp(And(T0.hi <= p, p < q, q < T.hi, T.at(p, 'k') == K_EVT), T.at(q, 'k') == K_EVT), lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))
        for l, f in rely(c, c.F0, c.F):
            yield 'C11:' + l, f
        for l, f in counters(c):
            yield 'C11:' + l, f
        yield 'C11:untouched-actions', c.F('mPendingActions').n <= c.F0('mPendingActions').n + c.G('addA') - c.G0('addA')
        yield 'C11:untouched-events', c.F('mPendingEvents').n <= c.F0('mPendingEvents').n + c.G('addP') - c.G0('addP')
        yield 'C11:queue-taken', Imp(Not(stop0), c.F('mEnqueuedEvents').n <= c.G('addQ') - c.G0('addQ'))
    S.add(B + 'dispatchPendingEventsImpl', Spec(['C11', 'C17'], dreq, evt_ens, CB, loops={0: {'inv': evt_inv, 'ghost': evt_ghost}}))

    def pend_ens(c):
        T, T0, P0, A0 = c.G('T'), c.G0('T'), c.F0('mPendingEvents'), c.F0('mPendingActions')
        H, H0, nx0 = c.F('mEventHandlers'), c.F0('mEventHandlers'), c.F0('mNextHandlerId')
        stop0, stop = c.F0('mStopDispatcher'), c.F('mStopDispatcher')
        yield 'C11:actions-before-events', And(T.hi >= T0.hi + A0.n, Fa(1, lambda q: Imp(And(T0.hi <= q, q < T0.hi + A0.n), And(
            T.at(q, 'k') == K_ACT, T.at(q, 'f') == A0.at(A0.lo + q - T0.hi))), lambda q: T.at(q, 'k')))
        for l, f in evt_trace(T, None, P0, H0, nx0, P0.hi, T0):
            yield 'C11:events-' + l, Imp(A0.n == 0, f)
        yield 'C11:all-handled-unless-stopped', Imp(And(A0.n == 0, Not(stop0), Not(stop)), evt_complete(T, T0, P0, H, nx0, P0.hi, c.G('slotE'), c.G('dec')))
        yield 'C11:events-taken', c.F('mPendingEvents').n <= c.G('addP') - c.G0('addP')
        yield 'C11:trace-grows', seq_prefix(T, T0)
    S.add(B + 'dispatchPendingEvents', Spec(['C11', 'C17'], lambda c: dreq(c) + callable_actions(c), pend_ens, CB))
    return S
