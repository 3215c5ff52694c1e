"""Contracts of HierarchicalStateMachine::Impl: registration of the structure, timers and queries."""
from specs_impl_fns import *


def row_inserted(new, old, k, vals):
    """new = old plus one row for key k, behind the rows k already has; every other row keeps its place"""
    p = new.hi(k) - 1
    yield 'one-row-more', And(new.n == old.n + 1, 0 <= p, p <= old.n)
    fs = [new.at(p, f) == v if f else new.at(p) == v for f, v in vals.items()]
    yield 'row-holds-the-arguments', And(fs)
    yield 'row-is-last-of-its-key', Imp(old.lo(k) < old.hi(k), And(p == old.hi(k), new.lo(k) == old.lo(k)))
    yield 'first-row-of-key', Imp(old.lo(k) == old.hi(k), new.lo(k) == p)
    j = z3.Const(fresh_name('rj'), k.sort())
    yield 'other-keys-keep-their-rows', forall([j], Imp(j != k, And(new.hi(j) - new.lo(j) == old.hi(j) - old.lo(j),
                                               new.lo(j) == old.lo(j) + If(old.lo(j) >= p, 1, 0))), patterns=[new.lo(j)])
    i = z3.Int(fresh_name('ri'))
    for nm, a, b in [('keys', new.tr['keys'], old.tr['keys'])] + [('rows', x, y) for x, y in zip(t_leaves(new.tr['d']), t_leaves(old.tr['d']))]:
        yield 'earlier-' + nm, forall([i], Imp(And(0 <= i, i < p), z3.Select(a, i) == z3.Select(b, i)), patterns=[z3.Select(a, i)])
        yield 'later-' + nm, forall([i], Imp(And(p < i, i < new.n), z3.Select(a, i) == z3.Select(b, i - 1)), patterns=[z3.Select(a, i)])


def pre(tag, it):
    for l, f in it:
        yield tag + l, f


def act_nodup_(c):
    return [('active-no-duplicates', nodup(c.F0('mActiveStates')))]


def extend(S):
    A = lambda key, *a, **k: S.add(I + key, Spec(*a, **k))

    # ------------------------------------------------------------------ transitions, states, history, timers
    def trow(c, frm, to, tt, cb, cond, exp):
        return {'fromState': frm, 'destinationState': to, 'transitionType': tt, 'onTransition': cb, 'checkCondition': cond, 'expectedConditionValue': exp}

    def by_source(tr):
        return Fa(3, lambda s, ev, i: Imp(And(tr.lo(PKey(s, ev)) <= i, i < tr.hi(PKey(s, ev))), tr.at(i, 'fromState') == s),
                  lambda s, ev, i: MP(tr.lo(PKey(s, ev)), tr.at(i, 'fromState')))

    def reg_ens(k, *row):
        def ens(c):
            tr, tr0 = c.F('mTransitionsByEvent'), c.F0('mTransitionsByEvent')
            yield from pre('C01:', row_inserted(tr, tr0, PKey(c.arg(0), c.arg(k)), trow(c, *[c.arg(x) if isinstance(x, int) else x for x in row])))
            yield 'C01:stored-under-its-source', by_source(tr)
        return ens
    S.tables = lambda c: [('transitions-by-source', by_source(c.F0('mTransitionsByEvent')))]
    A('registerTransition', ['C01', 'C18'], S.tables, reg_ens(2, 0, 1, z3.IntVal(EXTERNAL), 3, 4, 5), ['mTransitionsByEvent'])
    A('registerSelfTransition', ['C01', 'C18'], S.tables, reg_ens(1, 0, 0, 2, 3, 4, 5), ['mTransitionsByEvent'])

    # without the tree assumption: the first table row naming the state as a child decides
    def childless(sub, x, upto):
        return Fa(1, lambda i: Imp(And(0 <= i, i < upto), sub.at(i) != x), lambda i: sub.at(i))

    def iss_inv(c):
        yield 'none-so-far', childless(c.F0('mSubstates'), c.arg(0), c.pos)
        yield 'result', Not(c.L('result'))
    A('isSubstate', ['C19'], None, lambda c: [('C19:iff-listed-as-child', c.ret == Not(childless(c.F0('mSubstates'), c.arg(0), c.F0('mSubstates').n)))],
      loops={0: iss_inv})

    def hps_inv(c):
        yield 'none-so-far', childless(c.F0('mSubstates'), c.arg(0), c.pos)
        yield 'result', And(Not(c.L('hasParent')), c.argp(1) == c.arg(1))

    def hps_ens(c):
        ch, out = c.arg(0), c.argp(1)
        yield 'C19:iff-listed-as-child', c.ret == HP(ch)
        yield 'C19:parent', Imp(HP(ch), out == par(ch))
        yield 'C19:unchanged-otherwise', Imp(Not(HP(ch)), out == c.arg(1))
    A('hasParentState', ['C19'], forest, hps_ens, ['#1'], loops={0: hps_inv}, entry=lambda eng, c: touch(eng, pidx(c.arg(0))))

    A('isTopState', [], None, lambda c: [('not-listed', c.ret == Not(c.F0('mTopLevelStates').has(c.arg(0))))])

    def rs(c):
        yield 'C04:callbacks-recorded', map_set(c.F('mRegisteredStates'), c.F0('mRegisteredStates'), c.arg(0),
                                                onStateChanged=c.arg(1), onEntering=c.arg(2), onExiting=c.arg(3))
    A('registerState', ['C04', 'C18'], None, rs, ['mRegisteredStates', 'mTopLevelStates'])

    def rfs(c):
        yield 'C08:completion-event-recorded', map_set(c.F('mFinalStates'), c.F0('mFinalStates'), c.arg(0), _=c.arg(1))
        yield 'C04:callbacks-recorded', map_set(c.F('mRegisteredStates'), c.F0('mRegisteredStates'), c.arg(0),
                                                onStateChanged=c.arg(2), onEntering=c.arg(3), onExiting=c.arg(4))
    A('registerFinalState', ['C08', 'C04', 'C18'], None, rfs, ['mRegisteredStates', 'mTopLevelStates', 'mFinalStates'])

    def rh(c):
        yield from pre('C07:', row_inserted(c.F('mHistoryStates'), c.F0('mHistoryStates'), c.arg(0), {'': c.arg(1)}))
        h, h0 = c.F('mHistoryData'), c.F0('mHistoryData')
        yield 'C07:history-recorded', And(h.has(c.arg(1)), h.at(c.arg(1), 'type') == c.arg(2), h.at(c.arg(1), 'defaultTarget') == c.arg(3),
                                          h.at(c.arg(1), 'defaultTargetTransitionCallback') == c.arg(4),
                                          h.at(c.arg(1), 'previousActiveStates.lo') == h.at(c.arg(1), 'previousActiveStates.hi'))
        yield 'C07:other-histories-kept', Fa(1, lambda x: Imp(x != c.arg(1), And([h.has(x) == h0.has(x)] + [
            z3.Select(a, x) == z3.Select(b, x) for a, b in zip(t_leaves(h.tr['d']), t_leaves(h0.tr['d']))])), lambda x: h.has(x))
    A('registerHistory', ['C07', 'C18'], None, rh, ['mHistoryStates', 'mHistoryData'])

    A('registerTimer', ['C10', 'C18'], None, lambda c: [('C10:event-recorded', map_set(c.F('mTimers'), c.F0('mTimers'), c.arg(0), _=c.arg(1)))], ['mTimers'])
    A('registerFailedTransitionCallback', ['C18'], None, lambda c: [('C18:callback-recorded', c.F('mFailedTransitionCallback') == c.arg(0))],
      ['mFailedTransitionCallback'])

    # ------------------------------------------------------------------ substates: the structure stays a forest
    def in_sub(c, x):
        return Or(x == c.arg(1), Anc(c.arg(1), x))

    def rsub_ok(c):
        p, s = c.arg(0), c.arg(1)
        return And(p != s, Not(HP(s)), Not(Anc(s, p)))

    def rsub_inv(c):
        p, s, cur = c.arg(0), c.arg(1), c.L('curState')
        yield 'candidate', And(c.L('registrationAllowed'), Not(HP(s)), p != s)
        yield 'climbed', And(cur != s, Anc(s, p) == Anc(s, cur))
        yield 'hint', Imp(HP(cur), And(0 <= pidx(cur), pidx(cur) < c.F0('mSubstates').n))

    def rsub_ens(c, entry, ev=None, cond=None, exp=None):
        sub, sub0 = c.F('mSubstates'), c.F0('mSubstates')
        ep, ep0 = c.F('mSubstateEntryPoints'), c.F0('mSubstateEntryPoints')
        p, s = c.arg(0), c.arg(1)
        ok = rsub_ok(c)
        n = sub.n
        par1 = lambda x: If(x == s, p, par(x))
        delta = If(rank(p) >= rank(s), rank(p) - rank(s) + 1, 0)
        rank1 = lambda x: rank(x) + If(in_sub(c, x), delta, 0)
        yield 'C19:accepted-iff-still-a-tree', c.ret == ok
        yield 'C19:rejected-changes-nothing', Imp(Not(ok), And(sub.same(sub0), ep.same(ep0)))
        for l, f in row_inserted(sub, sub0, p, {'': s}):
            yield 'C19:child-added:' + l, Imp(ok, f)
        yield 'C19:every-state-has-one-parent', Imp(ok, Fa(1, lambda i: Imp(And(0 <= i, i < n), sub.key(i) == par1(sub.at(i))), lambda i: sub.at(i)))
        yield 'C19:listed-once', Imp(ok, Fa(2, lambda i, j: Imp(And(0 <= i, i < j, j < n), sub.at(i) != sub.at(j)), lambda i, j: MP(sub.at(i), sub.at(j))))
        yield 'C19:no-cycle', Imp(ok, Fa(1, lambda i: Imp(And(0 <= i, i < n), rank1(sub.key(i)) < rank1(sub.at(i))), lambda i: sub.at(i)))
        e = And(ok, entry)
        row = {'state': s}
        if ev is not None:
            row.update(onEvent=ev, checkCondition=cond, expectedConditionValue=exp)
        for l, f in row_inserted(ep, ep0, p, row):
            yield 'C06:entry-point-added:' + l, Imp(e, f)
        yield 'C06:entry-points-kept', Imp(Not(entry), ep.same(ep0))
    A('registerSubstate/6', ['C19', 'C06', 'C18'], forest, lambda c: rsub_ens(c, c.arg(2), c.arg(3), c.arg(4), c.arg(5)),
      ['mSubstates', 'mSubstateEntryPoints', 'mTopLevelStates'], loops={0: rsub_inv}, entry=lambda eng, c: touch(eng, pidx(c.arg(0)), pidx(c.arg(1))))
    A('registerSubstate/2', ['C19', 'C18'], forest, lambda c: rsub_ens(c, z3.BoolVal(False)), ['mSubstates', 'mSubstateEntryPoints', 'mTopLevelStates'])
    A('registerSubstateEntryPoint', ['C19', 'C06', 'C18'], forest, lambda c: rsub_ens(c, z3.BoolVal(True), c.arg(2), c.arg(3), c.arg(4)),
      ['mSubstates', 'mSubstateEntryPoints', 'mTopLevelStates'])

    # ------------------------------------------------------------------ actions: only valid ones are accepted
    def rsa(c):
        a, v = c.arg(2), c.arg(3)
        num = lambda i: isNumeric(velem(v, i))
        ok = Or(And(a == START, vsize(v) == 3, num(0), num(1), isBool(velem(v, 2))),
                And(Or(a == STOP, a == RESTART), vsize(v) == 1, num(0)), And(a == TRANSITION, vsize(v) >= 1, num(0)))
        tab, tab0 = c.F('mRegisteredActions'), c.F0('mRegisteredActions')
        yield 'C12:accepted-iff-parameters-fit', c.ret == ok
        yield 'C12:rejected-changes-nothing', Imp(Not(ok), tab.same(tab0))
        for l, f in row_inserted(tab, tab0, PKey(c.arg(0), c.arg(1)), {'action': a, 'actionArgs': v}):
            yield 'C12:' + l, Imp(ok, f)
        for l, f in actions_valid(c, c.F):
            yield 'C12:' + l, f
    A('registerStateAction', ['C12', 'C18'], lambda c: actions_valid(c, c.F0), rsa, ['mRegisteredActions'])

    # ------------------------------------------------------------------ simple queries and timers
    A('getLastActiveState', ['C15', 'C18'], None, lambda c: [('C15:latest-or-none', c.ret == If(
        c.F0('mActiveStates').lo < c.F0('mActiveStates').hi, c.F0('mActiveStates').at(c.F0('mActiveStates').hi - 1), -1000))])
    A('isInitialized', ['C18'], None, lambda c: [('C18:initialised-iff-dispatcher', c.ret == (c.F0('mDispatcher') != 0))])
    A('setInitialState', ['C18'], None, lambda c: [('C18:only-before-initialisation', c.F('mInitialState') == If(
        c.F0('mDispatcher') == 0, c.arg(0), c.F0('mInitialState')))], ['mInitialState'])

    def tm(entry):
        def ens(c):
            T, T0 = c.G('T'), c.G0('T')
            alive = c.F0('mDispatcher') != 0
            yield 'C10:request-passed-on', Imp(alive, appended(T, T0, 1, [entry(c)]))
            yield 'C10:ignored-when-not-initialised', Imp(Not(alive), T.same(T0))
        return ens
    A('startTimer', ['C10', 'C18'], None, tm(lambda c: {'k': K_TSTART, 'z': c.F0('mTimerHandlerId'), 'x': c.arg(0), 'y': c.arg(1), 'r': c.arg(2)}), ['ghost:T'])
    A('restartTimer', ['C10', 'C18'], None, tm(lambda c: {'k': K_TRESTART, 'x': c.arg(0)}), ['ghost:T'])
    A('stopTimer', ['C10', 'C18'], None, tm(lambda c: {'k': K_TSTOP, 'x': c.arg(0)}), ['ghost:T'])
    A('isTimerRunning', ['C10', 'C18'], None, lambda c: [('C10:answer-of-dispatcher', c.ret == And(
        c.F0('mDispatcher') != 0, z3.Function('dispatcher::isTimerRunning', IntS, BoolS)(c.arg(0))))])

    def dte(c):
        tm, tid = c.F0('mTimers'), c.arg(0)
        for l, f in S.tw_ens(c, tm.at(tid), EMPTY_ARGS):
            l = l.replace('C09:', 'C10:')
            yield l, Imp(tm.has(tid), f) if l.startswith('C10:') else f
        yield 'C10:unknown-timer-ignored', Imp(Not(tm.has(tid)), c.G('T').same(c.G0('T')))
    S.dte = dte
    A('dispatchTimerEvent', ['C10', 'C17'], lambda c: locks_free(c) + pend_wf(c, c.F0), dte, S.TWM)

    def tis(c):
        T, T0 = c.G('T'), c.G0('T')
        alive = c.F0('mDispatcher') != 0
        yield 'C11:passed-to-dispatcher-queue', Imp(alive, And(appended(T, T0, 1, [
            {'k': K_ENQUEUE, 'z': c.F0('mEnqueuedEventsHandlerId'), 'x': c.arg(0)}]), c.ret == T.at(T0.hi, 'r')))
        yield 'C11:refused-when-not-initialised', Imp(Not(alive), And(Not(c.ret), T.same(T0)))
    A('transitionInterruptSafe', ['C11', 'C18'], None, tis, ['ghost:T'])
    
    # ------------------------------------------------------------------ completion events
    def busy_none(c, p):
        act = c.F0('mActiveStates')
        return Fa(1, lambda a: Imp(act.has(a), Not(And(Anc(p, a), Not(c.F0('mFinalStates').has(a))))), lambda a: act.has(a))

    def pushed_front(p, p0):
        q = z3.Int(fresh_name('pq'))
        return And([p.lo == p0.lo - 1, p.hi == p0.hi] + [forall([q], Imp(And(p0.lo <= q, q < p0.hi), z3.Select(a, q) == z3.Select(b, q)),
                    patterns=[z3.Select(a, q)]) for a, b in zip(t_leaves(p.tr['d']), t_leaves(p0.tr['d']))])

    def pft(c):
        e, d = c.arg(0).tree, c.arg(1)
        fin, T, T0 = c.F0('mFinalStates'), c.G('T'), c.G0('T')
        p, p0 = c.F('mPendingEvents'), c.F0('mPendingEvents')
        gen = And(fin.has(d), HP(d), busy_none(c, par(d)))
        yield 'C08:is-final-state', c.ret == fin.has(d)
        yield 'C08:one-event-when-last', Imp(gen, appended(T, T0, 1, [{
            'k': K_QFRONT, 'x': If(fin.at(d) == -1000, e['id'], fin.at(d)), 'y': REGULAR, 'f': e['args'], 's': 0, 'z': 0, 'r': z3.BoolVal(False)}]))
        yield 'C08:processed-next', Imp(gen, And(pushed_front(p, p0), p.at(p.lo, 'id') == If(fin.at(d) == -1000, e['id'], fin.at(d)),
                                                 p.at(p.lo, 'args') == e['args'], p.at(p.lo, 'transitionType') == REGULAR))
        yield 'C08:no-event-otherwise', Imp(Not(gen), And(T.same(T0), p.same(p0)))
        yield from pend_wf(c, c.F)
    S.busy_none, S.pushed_front = busy_none, pushed_front
    A('processFinalStateTransition', ['C08', 'C17'], lambda c: forest(c) + locks_free(c) + event_ok(c, 0) + pend_wf(c, c.F0), pft,
      ['mPendingEvents', 'ghost:T'])
    
    # ------------------------------------------------------------------ isTransitionPossible: the pending events, then the asked one
    def leaf_row(c, k, i, ev, a):
        """row i of key k is a transition the engine would take"""
        tr, ep = c.F0('mTransitionsByEvent'), c.F0('mSubstateEntryPoints')
        d = tr.at(i, 'destinationState')
        sfe = ep.at(firstE(d, ev, a), 'state')
        return And(tr.lo(k) <= i, i < tr.hi(k), trans_ok(tr, i, a), Or(Not(S.hasSub(c, d)), And(S.fe_ok(c, d, ev, a), Not(S.hasSub(c, sfe)))))

    def sim_step(c, s, nxt, row, ev, a):
        """from state s the event takes the transition in table row `row`, the earliest that applies, to state nxt"""
        tr = c.F0('mTransitionsByEvent')
        k = PKey(nl(s, ev), ev)
        d = tr.at(row, 'destinationState')
        return And(tr.lo(k) <= row, row < tr.hi(k), trans_ok(tr, row, a), nxt == d, Imp(S.hasSub(c, d), S.fe_ok(c, d, ev, a)),
                   Fa(1, lambda i: Imp(And(leaf_row(c, k, i, ev, a)), row <= i), lambda i: tr.at(i, 'destinationState')))

    def sim_blocked(c, s, ev, a):
        k = PKey(nl(s, ev), ev)
        tr = c.F0('mTransitionsByEvent')
        return Fa(1, lambda i: Not(leaf_row(c, k, i, ev, a)), lambda i: tr.at(i, 'destinationState'))

    def pev(c, i):
        p, h = c.F0('mPendingEvents'), c.pre.heap('VariantVector_t')
        ad = p.at(i, 'args')
        return p.at(i, 'id'), If(ad != 0, h.at(ad), EMPTY_ARGS)

    def sim_chain(c, f, upto):
        p, sS, sR = c.F0('mPendingEvents'), c.G('simS'), c.G('simR')

        def body(i):
            ev, a = pev(c, i)
            return Imp(And(p.lo <= i, i < upto), sim_step(c, sS.at(PKey(f, i)), sS.at(PKey(f, i + 1)), sR.at(PKey(f, i)), ev, a))
        yield 'starts-there', sS.at(PKey(f, p.lo)) == f
        yield 'pending-events-first', Fa(1, body, lambda i: [p.at(i, 'id'), sS.at(PKey(f, i)), sR.at(PKey(f, i))])

    def sim_kept(c, f):
        for g in ('simS', 'simR'):
            a, b = c.G(g), c.G0(g)
            q = z3.Const(fresh_name('sk'), PairS)
            yield 'others-kept:' + g, forall([q], Imp(PairS.fst(q) != f, a.at(q) == b.at(q)), patterns=[a.at(q)])
        a, b = c.G('simB'), c.G0('simB')
        yield 'others-kept:simB', Fa(1, lambda x: Imp(x != f, a.at(x) == b.at(x)), lambda x: a.at(x))

    def ctp_inv(c):
        p, f = c.F0('mPendingEvents'), c.arg(0)
        poss = c.L('possible')
        b = If(poss, c.pos, c.pos - 1)
        yield 'range', And(p.lo <= c.pos, c.pos <= p.hi, Imp(Not(poss), p.lo < c.pos))
        yield from sim_chain(c, f, b)
        yield 'current', c.L('currentState') == c.G('simS').at(PKey(f, b))
        ev, a = pev(c, c.pos - 1)
        yield 'end', c.G('simB').at(f) == If(poss, p.hi, c.pos - 1)
        yield 'blocked', Imp(Not(poss), sim_blocked(c, c.L('currentState'), ev, a))
        yield from sim_kept(c, f)

    def ctp_entry(eng, c):
        f = c.arg(0)
        eng._row = None
        gset(eng, 'simS', PKey(f, c.F0('mPendingEvents').lo), f)
        gset(eng, 'simB', f, c.F0('mPendingEvents').hi)

    def ctp_after(eng, c, call):
        out = call.argp(4)
        eng._row = c.G('src').at(out.lo)

    def ctp_end(eng, c):
        f = c.arg(0)
        poss = c.L('possible')
        i = c.pos - 1
        sS = c.G('simS')
        gset(eng, 'simS', PKey(f, i + 1), If(poss, c.L('currentState'), sS.at(PKey(f, i + 1))))
        gset(eng, 'simR', PKey(f, i), eng._row)
        gset(eng, 'simB', f, If(poss, c.F0('mPendingEvents').hi, i))

    def ctp_exit(eng, c):
        f, p = c.arg(0), c.F0('mPendingEvents')
        if getattr(eng, '_row', None) is not None:
            gset(eng, 'simR', PKey(f, p.hi), eng._row)
            eng._row = None

    def sim_yes(c, f, ev, a):
        p, sS, sR = c.F0('mPendingEvents'), c.G('simS'), c.G('simR')
        yield from sim_chain(c, f, p.hi)
        d = c.F0('mTransitionsByEvent').at(sR.at(PKey(f, p.hi)), 'destinationState')
        yield 'then-the-asked-event', sim_step(c, sS.at(PKey(f, p.hi)), d, sR.at(PKey(f, p.hi)), ev, a)

    def sim_no(c, f, ev, a):
        p, sS, b = c.F0('mPendingEvents'), c.G('simS'), c.G('simB').at(f)
        pe, pa = pev(c, b)
        yield 'blocked-position', And(p.lo <= b, b <= p.hi)
        yield from sim_chain(c, f, b)
        yield 'no-transition-there', If(b < p.hi, sim_blocked(c, sS.at(PKey(f, b)), pe, pa), sim_blocked(c, sS.at(PKey(f, b)), ev, a))

    def ctp_ens(c):
        f, ev, a = c.arg(0), c.arg(1), c.arg(2)
        for l, g in sim_yes(c, f, ev, a):
            yield 'C16:possible:' + l, Imp(c.ret, g)
        for l, g in sim_no(c, f, ev, a):
            yield 'C16:impossible:' + l, Imp(Not(c.ret), g)
        for l, g in sim_kept(c, f):
            yield l, g
    SIMG = ['ghost:simS', 'ghost:simR', 'ghost:simB', 'ghost:src', 'ghost:dst', 'ghost:esrc', 'ghost:edst']

    creq = lambda c: forest(c) + defs(c) + locks_free(c) + pend_wf(c, c.F0)
    A('checkTransitionPossibility', ['C16'], creq, ctp_ens, SIMG, loops={0: {'inv': ctp_inv, 'end': ctp_end}},
      entry=ctp_entry, exit=ctp_exit, after={'findTransitionTarget': ctp_after})
    
    def itp_none(c, upto):
        act, ev, a = c.F0('mActiveStates'), c.arg(0), c.arg(1)

        def body(j):
            return Imp(And(act.lo <= j, j < upto), And([f for _, f in sim_no(c, act.at(j), ev, a)]))
        return Fa(1, body, lambda j: act.at(j))

    def itp_inv(c):
        yield 'range', And(c.F0('mActiveStates').lo <= c.pos, c.pos <= c.F0('mActiveStates').hi)
        yield 'none-so-far', itp_none(c, c.pos)
        yield 'possible', Not(c.L('possible'))

    def itp_after(eng, c, call):
        eng.store[('ghost', 'simW')] = V(TINT, call.arg(0))

    def itp_ens(c):
        w = c.G('simW')
        yield 'C16:possible:some-active-state', Imp(c.ret, c.F0('mActiveStates').has(w))
        for l, g in sim_yes(c, w, c.arg(0), c.arg(1)):
            yield 'C16:possible:' + l, Imp(c.ret, g)
        yield 'C16:impossible:from-every-active-state', Imp(Not(c.ret), itp_none(c, c.F0('mActiveStates').hi))
    A('isTransitionPossible', ['C16'], lambda c: creq(c) + act_nodup_(c), itp_ens, SIMG + ['ghost:simW'], loops={0: itp_inv},
      after={'checkTransitionPossibility': itp_after})
    S.pushed_front, S.busy_none = pushed_front, busy_none
    return S
