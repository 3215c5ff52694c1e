"""Contracts of HierarchicalStateMachine::Impl: history."""
from specs_impl_reg import *

hidx = z3.Function('historyRow', IntS, IntS)     # first row of the history table naming the state, or its end


def hdefs(c):
    t = c.F0('mHistoryStates')

    def f(h):
        i = hidx(h)
        j = z3.Int(fresh_name('hj'))
        return And(0 <= i, i <= t.n, Imp(i < t.n, t.at(i) == h), forall([j], Imp(And(0 <= j, j < i), t.at(j) != h), patterns=[t.at(j)]))
    return [('def:history-row', Fa(1, f, lambda h: hidx(h)))]


def hparent(c, h):
    """(has a parent, parent)"""
    t = c.F0('mHistoryStates')
    return hidx(h) < t.n, t.key(hidx(h))


def flist(c, a):
    return E.view(V(c.post.heap('std::list<TransitionInfo>').t.val, tmap(lambda x: z3.Select(x, a), c.post.heap('std::list<TransitionInfo>').tr['d'])))


def single_target(c, a, frm, to, cb):
    """the list at address a holds exactly one transition frm -> to"""
    l = flist(c, a)
    return And(l.hi == l.lo + 1, l.at(l.lo, 'fromState') == frm, l.at(l.lo, 'destinationState') == to, l.at(l.lo, 'transitionType') == EXTERNAL,
               l.at(l.lo, 'onTransition') == cb, l.at(l.lo, 'checkCondition') == 0)


def forced_entry(c, T, q, e, ignore):
    """trace entry q: the event e is queued at the front as a forced transition"""
    return And(T.at(q, 'k') == K_QFRONT, T.at(q, 'x') == e['id'], T.at(q, 'y') == FORCED, T.at(q, 'f') == e['args'], T.at(q, 's') == e['cvLock'],
               T.at(q, 'u') == e['transitionStatus'], T.at(q, 'r') == ignore, T.at(q, 'z') >= c.G0('alloc'), T.at(q, 'z') < c.G('alloc'))


HM = ['mPendingEvents', 'ghost:T', 'ghost:alloc', 'heap:std::list<TransitionInfo>']


def hist_common(c):
    yield 'trace', seq_prefix(c.G('T'), c.G0('T'))
    yield 'alloc', c.G('alloc') >= c.G0('alloc')
    yield from pend_wf(c, c.F)
    yield from heap_kept(c)


def extend(S):
    A = lambda key, *a, **k: S.add(I + key, Spec(*a, **k))
    hreq = lambda i: (lambda c: forest(c) + hdefs(c) + locks_free(c) + event_ok(c, i) + pend_wf(c, c.F0))

    def ghp(c):
        has, p = hparent(c, c.arg(0))
        yield 'C07:history-parent', And(c.ret == has, c.argp(1) == If(has, p, c.arg(1)))
    A('getHistoryParent', ['C07'], hdefs, ghp, ['#1'], entry=lambda eng, c: touch(eng, hidx(c.arg(0))))

    # default target: parent first, then the default
    def tdh_facts(c, dflt, cb, e, dest, b=None):
        T, T0 = c.G('T'), c.G0('T')
        has, p = hparent(c, dest)
        own = b is None
        b = T0.hi if own else b
        yield from hist_common(c)
        if own:
            yield 'C07:nothing-without-parent', Imp(Not(has), And(T.same(T0), c.F('mPendingEvents').same(c.F0('mPendingEvents'))))
        else:
            yield 'C07:nothing-without-parent', Imp(Not(has), T.hi == b)
        none = And(has, dflt == -1000)
        yield 'C07:parent-with-its-entry-points', Imp(none, And(T.hi == b + 1, forced_entry(c, T, b, e, e['ignoreEntryPoints']), single_target(c, T.at(b, 'z'), dest, p, cb)))
        some = And(has, dflt != -1000)
        yield 'C07:parent-then-default', Imp(some, And(
            T.hi == b + 2, forced_entry(c, T, b, e, If(dflt == p, True, e['ignoreEntryPoints'])),
            single_target(c, T.at(b, 'z'), dest, dflt, If(dflt == p, 0, cb)),
            forced_entry(c, T, b + 1, e, z3.BoolVal(True)), single_target(c, T.at(b + 1, 'z'), dest, p, 0)))

    def tdh_inv(c):
        T, T0 = c.G('T'), c.G0('T')
        dflt, cb, e, dest = c.arg(0), c.arg(1), c.arg(2).tree, c.arg(3)
        has, p = hparent(c, dest)
        ht, ev = c.L('historyTargets'), c.L('defHistoryTransitionEvent').tree
        n = c.pos - ht.lo
        b = T0.hi
        yield 'range', And(ht.lo == 0, 0 <= n, c.pos <= ht.hi, T.hi == b + n)
        yield from hist_common(c)
        yield 'queue-kept', Imp(n == 0, And(c.F('mPendingEvents').same(c.F0('mPendingEvents')), T.same(T0)))
        yield 'event', And([ev[f] == e[f] for f in ('id', 'args', 'cvLock', 'transitionStatus', 'syncProcessed')] + [ev['transitionType'] == FORCED])
        yield 'alive', ev['forcedTransitionsInfo'] < c.G('alloc')
        hasd = dflt != -1000
        yield 'ignore', ev['ignoreEntryPoints'] == If(And(hasd, Or(n == 2, And(n == 1, dflt == p))), True, e['ignoreEntryPoints'])
        yield 'default-queued', Imp(And(n >= 1, hasd), And(forced_entry(c, T, b, e, If(dflt == p, True, e['ignoreEntryPoints'])),
                                                           single_target(c, T.at(b, 'z'), dest, dflt, If(dflt == p, 0, cb))))
        yield 'parent-queued', Imp(And(n >= 1, Not(hasd)), And(forced_entry(c, T, b, e, e['ignoreEntryPoints']), single_target(c, T.at(b, 'z'), dest, p, cb)))
        yield 'both-queued', Imp(n == 2, And(hasd, forced_entry(c, T, b + 1, e, z3.BoolVal(True)), single_target(c, T.at(b + 1, 'z'), dest, p, 0)))
    A('transitionToDefaultHistoryState', ['C07', 'C17'], hreq(2), lambda c: list(tdh_facts(c, c.arg(0), c.arg(1), c.arg(2).tree, c.arg(3))) + list(only_queued(c)), HM,
      loops={0: tdh_inv})

    def only_queued(c):
        T, T0 = c.G('T'), c.G0('T')
        yield 'only-queueing', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), T.at(q, 'k') == K_QFRONT), lambda q: T.at(q, 'k'))

    # ------------------------------------------------------------------ restoring recorded states
    # ghosts: hgrp = step in which a recorded state is restored, hstart = first recorded state of a step, hn = number of steps
    PG = ['ghost:hgrp', 'ghost:hstart', 'ghost:hwit', 'ghost:hn']

    def steps(c, upto, n, cur, P, e, dest, b=None):
        """recorded states [lo, upto) are restored by n steps; the list of the last one is at cur (None: already queued)"""
        T = c.G('T')
        b, hs, hg, hw = c.G0('T').hi if b is None else b, c.G('hstart'), c.G('hgrp'), c.G('hwit')
        lists = lambda a: flist(c, a)
        zz = (lambda q: T.at(b + q, 'z')) if cur is None else (lambda q: If(q < n - 1, T.at(b + q, 'z'), cur))
        end = (lambda q: hs.at(q + 1)) if cur is None else (lambda q: If(q < n - 1, hs.at(q + 1), upto))
        yield 'first-step', Imp(n > 0, hs.at(0) == P.lo)
        last = n if cur is None else n - 1
        yield 'steps-queued', Fa(1, lambda q: Imp(And(b <= q, q < b + last), forced_entry(c, T, q, e, q > b)), lambda q: T.at(q, 'z'))
        yield 'steps-complete', Fa(1, lambda q: Imp(And(0 <= q, q < n), And(P.lo <= hs.at(q), hs.at(q) < end(q), end(q) <= upto, hg.at(hs.at(q)) == q,
                                                    lists(zz(q)).hi - lists(zz(q)).lo == end(q) - hs.at(q))), lambda q: hs.at(q))

        row = lambda j, f: lists(zz(hg.at(j))).at(lists(zz(hg.at(j))).lo + j - hs.at(hg.at(j)), f)
        inh = lambda j: And(P.lo <= j, j < upto)
        yield 'C07:step-of-each-recorded-state', Fa(1, lambda j: Imp(inh(j), And(0 <= hg.at(j), hg.at(j) < n, hs.at(hg.at(j)) <= j, j < end(hg.at(j)))), lambda j: hg.at(j))
        yield 'C07:every-recorded-state', Fa(1, lambda j: Imp(inh(j), row(j, 'destinationState') == P.at(j)), lambda j: hg.at(j))
        for f, x in (('fromState', dest), ('transitionType', EXTERNAL), ('onTransition', 0), ('checkCondition', 0)):
            yield 'C07:recorded-state-' + f, Fa(1, lambda j, f=f, x=x: Imp(inh(j), row(j, f) == x), lambda j: hg.at(j))
        yield 'C07:parents-in-later-steps', Fa(2, lambda i, j: Imp(And(P.lo <= i, i < j, j < upto, Anc(P.at(j), P.at(i))), hg.at(i) < hg.at(j)),
                                               lambda i, j: MP(hg.at(i), hg.at(j)))
        yield 'steps-in-order', Fa(2, lambda i, j: Imp(And(P.lo <= i, i < j, j < upto), hg.at(i) <= hg.at(j)), lambda i, j: MP(hg.at(i), hg.at(j)))
        yield 'steps-needed', Fa(1, lambda q: Imp(And(1 <= q, q < n), And(hs.at(q - 1) <= hw.at(q), hw.at(q) < hs.at(q), Anc(P.at(hs.at(q)), P.at(hw.at(q))))),
                                 lambda q: hs.at(q))

    def tpa_inv(c):
        P, T, ev, e = c.arg(0), c.G('T'), c.L('historyTransitionEvent').tree, c.arg(1).tree
        b = c.G0('T').hi
        cur = ev['forcedTransitionsInfo']
        g = T.hi - b
        n = If(c.pos == P.lo, 0, g + 1)
        yield 'range', And(P.lo <= c.pos, c.pos <= P.hi, g >= 0, Imp(c.pos == P.lo, g == 0))
        yield from hist_common(c)
        yield 'event', And([ev[f] == e[f] for f in ('id', 'args', 'cvLock', 'transitionStatus', 'syncProcessed')] + [ev['transitionType'] == FORCED])
        yield 'alive', And(c.G0('alloc') <= cur, cur < c.G('alloc'))
        yield 'own-list', Fa(1, lambda q: Imp(And(b <= q, q < T.hi), T.at(q, 'z') < cur), lambda q: T.at(q, 'z'))
        l = flist(c, cur)
        yield 'empty', Imp(c.pos == P.lo, l.hi == l.lo)
        yield from only_queued(c)
        yield 'ignore', ev['ignoreEntryPoints'] == (g > 0)
        yield 'steps', c.G('hn') == n
        yield from steps(c, c.pos, n, cur, P, e, c.arg(2))

    def tpa_find(c):
        # states of the current step looked at so far
        ev = c.L('historyTransitionEvent').tree
        l = flist(c, ev['forcedTransitionsInfo'])
        s = c.L('prevState')
        w = c.G('simW')
        yield 'range', And(l.lo <= c.pos, c.pos <= l.hi)
        yield 'parent', Imp(c.L('isParent'), And(l.lo <= w, w < c.pos, Anc(s, l.at(w, 'destinationState'))))
        yield 'no-parent', Imp(Not(c.L('isParent')), Fa(1, lambda k: Imp(And(l.lo <= k, k < c.pos), Not(Anc(s, l.at(k, 'destinationState')))),
                                                         lambda k: l.at(k, 'destinationState')))

    def tpa_find_end(eng, c):
        ev = c.L('historyTransitionEvent').tree
        l = flist(c, ev['forcedTransitionsInfo'])
        k = c.pos - 1
        w = c.G('simW')
        eng.store[('ghost', 'simW')] = V(TINT, If(And(l.lo <= w, w < k, Anc(c.L('prevState'), l.at(w, 'destinationState'))), w, k))

    def tpa_end(eng, c):
        P, T, ev = c.arg(0), c.G('T'), c.L('historyTransitionEvent').tree
        g = T.hi - c.G0('T').hi
        l = flist(c, ev['forcedTransitionsInfo'])
        j = c.pos - 1
        one = l.hi - l.lo == 1
        hs0 = c.G('hstart')
        touch(eng, c.G('hgrp').at(hs0.at(g - 1) + eng.store[('ghost', 'simW')].tree - eng._lo))
        gset(eng, 'hgrp', j, g)
        gset(eng, 'hwit', g, If(And(one, g > 0), hs0.at(g - 1) + eng.store[('ghost', 'simW')].tree - eng._lo, c.G('hwit').at(g)))
        gset(eng, 'hstart', g, If(one, j, hs0.at(g)))
        eng.store[('ghost', 'hn')] = V(TINT, g + 1)

    def tpa_begin(eng, c):
        ev = c.L('historyTransitionEvent').tree
        eng._lo = flist(c, ev['forcedTransitionsInfo']).lo

    def tpa_exit(eng, c):
        gset(eng, 'hstart', c.G('hn'), c.arg(0).hi)

    def tpa_facts(c, P, e, dest, b=None):
        T = c.G('T')
        b = c.G0('T').hi if b is None else b
        n = c.G('hn')
        has, p = hparent(c, dest)
        yield from hist_common(c)
        yield from steps(c, P.hi, n, None, P, e, dest, b)
        yield 'last-step', c.G('hstart').at(n) == P.hi
        yield 'count', And(n >= 1, T.hi == b + n + If(has, 1, 0))
        yield 'C07:parent-first', Imp(has, And(forced_entry(c, T, b + n, e, z3.BoolVal(True)), single_target(c, T.at(b + n, 'z'), dest, p, 0)))

    def tpa_ens(c):
        yield from tpa_facts(c, c.arg(0), c.arg(1).tree, c.arg(2))
        yield from only_queued(c)
        q = c.argp(0)
        yield 'C07:recorded-states-used-up', q.hi == q.lo
    A('transitionToPreviousActiveStates', ['C07', 'C17'], lambda c: hreq(1)(c) + [('something-recorded', c.arg(0).lo < c.arg(0).hi)], tpa_ens,
      HM + PG + ['#0', 'ghost:simW'], loops={0: {'inv': tpa_inv, 'ghost': tpa_begin, 'end': tpa_end}, 1: {'inv': tpa_find, 'end': tpa_find_end}},
      entry=lambda eng, c: eng.store.__setitem__(('ghost', 'hn'), V(TINT, z3.IntVal(0))), exit=tpa_exit)

    # ------------------------------------------------------------------ entering a history state
    def recorded(m, d):
        return E.view(V(m.t.val.fields['previousActiveStates'], m.at(d, 'previousActiveStates')))

    def hist_row(m, d, f):
        return m.at(d, f)

    def pht_ens(c):
        e, d = c.arg(0).tree, c.arg(1)
        m0, m = c.F0('mHistoryData'), c.F('mHistoryData')
        P = recorded(m0, d)
        yield 'history-state', c.ret == m0.has(d)
        yield 'C07:other-states-untouched', Imp(Not(m0.has(d)), And(m.same(m0), c.G('T').same(c.G0('T')), c.F('mPendingEvents').same(c.F0('mPendingEvents'))))
        yield from hist_common(c)
        yield from only_queued(c)
        rec = And(m0.has(d), P.lo < P.hi)
        for l, f in tpa_facts(c, P, e, d):
            yield l, Imp(rec, f)
        for l, f in tdh_facts(c, m0.at(d, 'defaultTarget'), m0.at(d, 'defaultTargetTransitionCallback'), e, d):
            yield l, Imp(And(m0.has(d), P.lo == P.hi), f)
        Q = recorded(m, d)
        yield 'C07:recorded-states-used-up', Imp(m0.has(d), Q.lo == Q.hi)
        yield 'C07:registration-kept', And([a == b for f in ('type', 'defaultTarget', 'defaultTargetTransitionCallback')
                                            for a, b in zip(t_leaves(m.tr['d'][f]), t_leaves(m0.tr['d'][f]))] + [m.tr['dom'] == m0.tr['dom']])
        yield 'C07:other-histories-kept', Fa(1, lambda x: Imp(x != d, And([z3.Select(a, x) == z3.Select(b, x) for a, b in zip(
            t_leaves(m.tr['d']), t_leaves(m0.tr['d']))])), lambda x: z3.Select(next(iter(t_leaves(m.tr['d']))), x))
    S.tpa_facts, S.tdh_facts, S.recorded, S.PG = tpa_facts, tdh_facts, recorded, PG
    A('processHistoryTransition', ['C07', 'C17'], hreq(0), pht_ens, HM + PG + ['mHistoryData', 'ghost:simW'])
    return S
