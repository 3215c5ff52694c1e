"""Contracts of HierarchicalStateMachine::Impl: executing transitions, the dispatch cycle, initialisation and release."""
from specs_impl_hist import *


def extend(S):
    A = lambda key, *a, **k: S.add(I + key, Spec(*a, **k))
    HIST = HM + S.PG + ['mHistoryData', 'ghost:simW']
    full = lambda c: forest(c) + trans(c) + hdefs(c) + defs(c) + S.act_nodup(c) + S.evreq(c)

    # ------------------------------------------------------------------ one transition, after the source was left
    def entered(c, base, d):
        """(the entry callback of d is called at `base`, d is entered)"""
        has = And(S.has_cb(c, d, 'onEntering'), Not(c.F0('mActiveStates').has(d)))
        return has, Or(Not(has), c.G('T').at(base, 'r'))

    def pxt_reenter(c, base, upto, frm, out=None):
        A0, out = c.F0('mActiveStates'), c.arg(3)
        T, es, cs = c.G('T'), c.G('eslot'), c.G('cslot')
        done = lambda x: And(out.has(x), out.pos(x) >= frm)
        N = lambda q, k: And(base <= q, q < upto, T.at(q, 'k') == k)
        for k, sl, fld, nm in ((K_ENTER, es, 'onEntering', 'enter'), (K_CHANGED, cs, 'onStateChanged', 'changed')):
            act = (lambda x: Not(A0.has(x))) if k == K_ENTER else (lambda x: B_(True))
            yield nm + '-of-exited-only', Fa(1, lambda q: Imp(N(q, k), And(done(T.at(q, 's')), act(T.at(q, 's')), sl.at(T.at(q, 's')) == q,
                                             S.has_cb(c, T.at(q, 's'), fld), T.at(q, 'x') == EMPTY_ARGS)), lambda q: T.at(q, 'k'))
            yield nm + '-called', Fa(1, lambda x: Imp(And(done(x), act(x), S.has_cb(c, x, fld)), And(
                base <= sl.at(x), sl.at(x) < upto, T.at(sl.at(x), 'k') == k, T.at(sl.at(x), 's') == x)), lambda x: [out.pos(x), sl.at(x)])
        for k, nm in ((K_ENTER, 'enter'), (K_CHANGED, 'changed')):
            yield 'reenter-order:' + nm, Fa(2, lambda p, q: Imp(And(N(p, k), N(q, k), p < q), out.pos(T.at(p, 's')) > out.pos(T.at(q, 's'))),
                                            lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))
        yield 'only-reentry', Fa(1, lambda q: Imp(And(base <= q, q < upto), Or(T.at(q, 'k') == K_ENTER, T.at(q, 'k') == K_CHANGED, is_act(T.at(q, 'k')))), lambda q: T.at(q, 'k'))

    def pxt_restored(c, frm):
        A0, A1, out = c.F0('mActiveStates'), c.F('mActiveStates'), c.arg(3)
        yield 'active-again', Fa(1, lambda y: A1.has(y) == Or(A0.has(y), And(out.has(y), out.pos(y) >= frm)), lambda y: [A1.has(y), out.has(y), A0.has(y)])
        yield 'no-duplicates', nodup(A1)

    def pxt_inv(c):
        out = c.arg(3)
        TE, T = c.entry.ghost('T'), c.G('T')
        yield 'range', And(out.lo <= c.pos, c.pos <= out.hi)
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        yield 'after-the-refusal', seq_prefix(T, TE)
        yield from pxt_restored(c, c.pos)
        yield from pxt_reenter(c, TE.hi, T.hi, c.pos)

    def pxt_tail(c):
        """number of events queued to complete an accepted transition"""
        e, d = c.arg(0).tree, leafv(c.arg(2), 'destinationState')
        m0, fin = c.F0('mHistoryData'), c.F0('mFinalStates')
        P = S.recorded(m0, d)
        hasp, p = hparent(c, d)
        gen = c.G('flast')
        dflt = m0.at(d, 'defaultTarget')
        entry = And(Not(e['ignoreEntryPoints']), firstE(d, e['id'], ev_args(c, 0)) < c.F0('mSubstateEntryPoints').hi(d))
        hist = m0.has(d)
        n = If(fin.has(d), If(gen, 1, 0),
               If(hist, If(P.lo < P.hi, c.G('hn') + If(hasp, 1, 0), If(hasp, If(dflt == -1000, 1, 2), 0)), If(entry, 1, 0)))
        return n, gen, entry

    def pxt_last(c):
        """the parent of the destination has no child left that is active and not final"""
        d, A1, fin = leafv(c.arg(2), 'destinationState'), c.F('mActiveStates'), c.F0('mFinalStates')
        return And(HP(d), Fa(1, lambda x: Imp(A1.has(x), Not(And(Anc(par(d), x), Not(fin.has(x))))), lambda x: A1.has(x)))

    def pxt_other(c, T):
        b = c.G0('T').hi + If(leafv(c.arg(2), 'onTransition') != 0, 1, 0)
        return Fa(1, lambda q: Imp(And(b <= q, q < T.hi), And(T.at(q, 'k') != K_TRANS, T.at(q, 'k') != K_EXIT, T.at(q, 'k') != K_FAIL)), lambda q: T.at(q, 'k'))

    def pxt_fin(eng, c, cc):
        eng.store[('ghost', 'fin')] = V(TINT, cc.G('T').hi)
        eng.oblige('lemma:no-other-transition-so-far', pxt_other(c, cc.G('T')))
        eng.assume(pxt_other(c, cc.G('T')))

    def pxt_flast(eng, c, cc):
        eng.store[('ghost', 'flast')] = V(TBOOL, cc.G('T').hi > cc.G0('T').hi)

    def pxt_ens(c):
        e, frm, d, cb = c.arg(0).tree, c.arg(1), leafv(c.arg(2), 'destinationState'), leafv(c.arg(2), 'onTransition')
        a = ev_args(c, 0)
        T, T0 = c.G('T'), c.G0('T')
        A0, A1 = c.F0('mActiveStates'), c.F('mActiveStates')
        reg = c.F0('mRegisteredStates')
        b = T0.hi
        e0 = b + If(cb != 0, 1, 0)
        has, ok = entered(c, e0, d)
        a0 = e0 + If(has, 1, 0)
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        yield 'C04:transition-callback-with-event-arguments', Imp(cb != 0, And(T.hi > b, T.at(b, 'k') == K_TRANS, T.at(b, 'f') == cb, T.at(b, 'x') == a))
        yield 'C04:entry-callback-with-event-arguments', Imp(has, And(
            T.hi > e0, T.at(e0, 'k') == K_ENTER, T.at(e0, 's') == d, T.at(e0, 'f') == reg.at(d, 'onEntering'), T.at(e0, 'x') == a))
        yield 'C01:no-other-transition', pxt_other(c, T)
        yield 'C01:result', Imp(ok, Or(c.ret == PENDING, c.ret == DONE_OK))
        # refused
        yield 'C03:refused-fails', Imp(Not(ok), c.ret == DONE_FAILED)
        for l, f in pxt_restored(c, c.arg(3).lo):
            yield 'C03:' + l, Imp(Not(ok), f)
        for l, f in pxt_reenter(c, a0, T.hi, c.arg(3).lo):
            yield 'C03:' + l, Imp(Not(ok), f)
        m0, m = c.F0('mHistoryData'), c.F('mHistoryData')
        yield 'C07:refused-keeps-history', Imp(Not(ok), m.same(m0))
        # accepted
        gone = lambda y: And(Not(Anc(frm, d)), y == frm)
        fresh = Not(And(A0.has(d), Not(gone(d))))
        yield 'C05:active', Imp(ok, Fa(1, lambda y: A1.has(y) == Or(And(A0.has(y), Not(gone(y))), y == d), lambda y: [A1.has(y), A0.has(y)]))
        yield 'C15:new-last', Imp(And(ok, fresh), And(A1.lo < A1.hi, A1.at(A1.hi - 1) == d))
        yield 'C15:order', Imp(ok, Fa(2, lambda x, y: Imp(And(A1.has(x), A1.has(y), A0.has(x), A0.has(y), Not(gone(x)), Not(gone(y)), A0.pos(x) < A0.pos(y)),
                                                  A1.pos(x) < A1.pos(y)), lambda x, y: MP(A1.pos(x), A1.pos(y))))
        yield 'C15:no-duplicates', nodup(A1)
        chg = And(fresh, S.has_cb(c, d, 'onStateChanged'))
        cs = c.G('cslot').at(d)
        fin, hist = c.F0('mFinalStates'), m0.has(d)
        P = S.recorded(m0, d)
        hasp, p = hparent(c, d)
        dflt = m0.at(d, 'defaultTarget')
        n, gen, entry = pxt_tail(c)
        z = c.G('fin')                  # what is done to complete the transition is recorded from here on
        yield 'C08:last-in-parent', Imp(And(ok, fin.has(d)), gen == pxt_last(c))
        yield 'rest', Imp(ok, T.hi == z + n)
        yield 'own-part', Imp(ok, And(z >= a0, n >= 0))
        yield 'C04:state-changed-called', Imp(And(ok, chg), And(a0 <= cs, cs == z - 1, T.at(cs, 'k') == K_CHANGED, T.at(cs, 's') == d,
                                                                 T.at(cs, 'f') == reg.at(d, 'onStateChanged'), T.at(cs, 'x') == a))
        yield 'C04:only-actions-otherwise', Imp(ok, Fa(1, lambda q: Imp(And(a0 <= q, q < z - If(chg, 1, 0)), is_act(T.at(q, 'k'))), lambda q: T.at(q, 'k')))
        tab = c.F0('mRegisteredActions')
        k = PKey(d, z3.IntVal(ON_ENTRY))
        alive = c.F('mDispatcher') != 0
        run = And(ok, alive, Not(A0.has(d)))
        yield 'C12:entry-actions', Imp(run, And(z - If(chg, 1, 0) == a0 + tab.hi(k) - tab.lo(k), S.actions_done(c, T, a0, tab, tab.lo(k), tab.hi(k))))
        yield 'C08:final-state-done', Imp(And(ok, fin.has(d)), c.ret == DONE_OK)
        yield 'C08:one-event-when-last', Imp(And(ok, fin.has(d), gen), And(T.at(z, 'k') == K_QFRONT, T.at(z, 'x') == If(fin.at(d) == -1000, e['id'], fin.at(d)),
                                             T.at(z, 'y') == REGULAR, T.at(z, 'f') == e['args'], T.at(z, 's') == 0, Not(T.at(z, 'r'))))
        hst = And(ok, Not(fin.has(d)), hist)
        yield 'C07:history-pending', Imp(hst, c.ret == PENDING)
        for l, f in S.tpa_facts(c, P, e, d, z):
            if l.startswith('C07') or l.startswith('step') or l.startswith('first') or l.startswith('last'):
                yield l, Imp(And(hst, P.lo < P.hi), f)
        for l, f in S.tdh_facts(c, dflt, m0.at(d, 'defaultTargetTransitionCallback'), e, d, z):
            if l.startswith('C07'):
                yield l, Imp(And(hst, P.lo == P.hi), f)
        Q = S.recorded(m, d)
        yield 'C07:recorded-states-used-up', Imp(hst, Q.lo == Q.hi)
        yield 'C07:history-kept-otherwise', Imp(And(ok, Or(fin.has(d), Not(hist))), m.same(m0))
        yield 'C07:other-histories-kept', Fa(1, lambda x: Imp(x != d, And([z3.Select(x1, x) == z3.Select(x0, x) for x1, x0 in zip(
            t_leaves(m.tr['d']), t_leaves(m0.tr['d']))])), lambda x: z3.Select(next(iter(t_leaves(m.tr['d']))), x))
        oth = And(ok, Not(fin.has(d)), Not(hist))
        yield 'C06:entry-points-ignored-on-request', Imp(And(oth, e['ignoreEntryPoints']), c.ret == PENDING)
        yield 'C06:entered-through-entry-points', Imp(And(oth, entry), And(
            c.ret == PENDING, T.at(z, 'k') == K_QFRONT, T.at(z, 'x') == e['id'], T.at(z, 'y') == ENTRYPOINT, T.at(z, 'f') == e['args'], T.at(z, 's') == e['cvLock'],
            T.at(z, 'u') == e['transitionStatus'], Not(T.at(z, 'r'))))
        yield 'C01:done-otherwise', Imp(And(oth, Not(e['ignoreEntryPoints']), Not(entry)), c.ret == DONE_OK)

    PXM = list(dict.fromkeys(CBM + HIST + ['ghost:eslot', 'ghost:cslot', 'ghost:fin', 'ghost:flast', 'ghost:esrc', 'ghost:edst', 'mActiveStates']))
    A('processExternalTransition', ['C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C15'],
      lambda c: full(c) + [('exited-once', nodup(c.arg(3)))], pxt_ens, PXM, loops={0: pxt_inv},
      after={'replaceActiveState': pxt_fin, 'onStateChanged': pxt_fin, 'processFinalStateTransition': pxt_flast},
      entry=lambda eng, c: touch(eng, firstE(leafv(c.arg(2), 'destinationState'), ei0(c)['id'], ev_args(c, 0))))

    # ------------------------------------------------------------------ all transitions of one active state
    gput = lambda eng, g, t, x: eng.store.__setitem__(('ghost', g), V(t, x))
    FL = 'std::list<TransitionInfo>'

    def hst_targets(eng, c, cc):
        gput(eng, 'mt', eng.store[('ghost', 'mt')].t, cc.argp(2).tr)
        gput(eng, 'mok', TBOOL, cc.ret)
        for a, b in (('mesrc', 'esrc'), ('medst', 'edst')):
            gput(eng, a, eng.store[('ghost', b)].t, eng.store[('ghost', b)].tree)

    def hst_self(eng, c, cc):
        gput(eng, 'ts', TINT, cc.G('T').hi)
        gput(eng, 'self', TBOOL, cc.ret)

    def hst_exit(eng, c, cc):
        gput(eng, 'te', TINT, cc.G('T').hi)
        gput(eng, 'mx', eng.store[('ghost', 'mx')].t, cc.argp(2).tr)
        gput(eng, 'xok', TBOOL, cc.ret)

    def targets(c):
        """mt: the transitions to execute"""
        f, e, l = c.arg(0), c.arg(1).tree, c.G('mt')
        ev, a, tt = e['id'], ev_args(c, 1), e['transitionType']
        tr, ep = c.F0('mTransitionsByEvent'), c.F0('mSubstateEntryPoints')
        src, dst, es, ed = c.G('src'), c.G('dst'), c.G('mesrc'), c.G('medst')
        k = PKey(f, ev)
        R = tt == REGULAR
        inl = lambda q: And(l.lo <= q, q < l.hi)
        yield 'C01:executed-transitions-match', Imp(R, Fa(1, lambda q: Imp(inl(q), And(
            [tr.lo(k) <= src.at(q), src.at(q) < tr.hi(k), trans_ok(tr, src.at(q), a)] + [l.at(q, x) == tr.at(src.at(q), x) for x in TF])),
            lambda q: [l.at(q, 'fromState'), l.at(q, 'destinationState'), src.at(q)]))
        yield 'C01:in-registration-order', Imp(R, Fa(2, lambda p, q: Imp(And(l.lo <= p, p < q, q < l.hi), src.at(p) < src.at(q)), lambda p, q: MP(src.at(p), src.at(q))))

        def complete(i):
            d = tr.at(i, 'destinationState')
            sfe = ep.at(firstE(d, ev, a), 'state')
            leaf = Or(Not(S.hasSub(c, d)), And(S.fe_ok(c, d, ev, a), Not(S.hasSub(c, sfe))))
            return Imp(And(tr.lo(k) <= i, i < tr.hi(k), trans_ok(tr, i, a), leaf), And(inl(dst.at(i)), src.at(dst.at(i)) == i))
        yield 'C01:every-matching-transition', Imp(R, Fa(1, complete, lambda i: [tr.at(i, 'destinationState'), dst.at(i)]))
        ok = And(tt == ENTRYPOINT, c.G('mok'))
        yield 'C06:entry-targets', Imp(ok, Fa(1, lambda q: Imp(inl(q), And(
            l.at(q, 'fromState') == f, l.at(q, 'onTransition') == 0, l.at(q, 'transitionType') == EXTERNAL, ep.lo(f) <= es.at(q - l.lo), es.at(q - l.lo) < ep.hi(f),
            entry_ok(ep, es.at(q - l.lo), ev, a), l.at(q, 'destinationState') == ep.at(es.at(q - l.lo), 'state'))), lambda q: l.at(q, 'destinationState')))
        yield 'C06:every-matching-entry', Imp(ok, Fa(1, lambda i: Imp(And(ep.lo(f) <= i, i < ep.hi(f), entry_ok(ep, i, ev, a)), And(
            0 <= ed.at(i), ed.at(i) < l.hi - l.lo, es.at(ed.at(i)) == i)), lambda i: [ep.at(i, 'onEvent'), ed.at(i)]))
        act = c.F0('mActiveStates')
        child = lambda x: And(x != f, HP(x), par(x) == f)
        yield 'C06:not-entered-when-child-active', Imp(ok, Fa(1, lambda q: Imp(act.inr(q), Not(child(act.at(q)))), lambda q: act.at(q)))
        h = c.pre.heap(FL)
        fl = E.view(V(h.t.val, tmap(lambda x: z3.Select(x, e['forcedTransitionsInfo']), h.tr['d'])))
        yield 'C07:forced-targets', Imp(tt == FORCED, l.same(fl))
        yield 'one-source', Imp(R, Fa(1, lambda i: Imp(inl(i), l.at(i, 'fromState') == f), lambda i: l.at(i, 'fromState')))
        yield 'considered', Imp(R, c.G('mok') == (l.lo < l.hi))

    def ex_self(c):
        l, T, T0 = c.G('mt'), c.G('T'), c.G0('T')
        src, dst, a, ts = c.G('ssrc'), c.G('sdst'), ev_args(c, 1), c.G('ts')
        yield 'self-range', And(T0.hi <= ts, ts <= T.hi)
        yield 'C04:only-self-transition-callbacks', Fa(1, lambda q: Imp(And(T0.hi <= q, q < ts), And(
            T.at(q, 'k') == K_TRANS, l.lo <= src.at(q), src.at(q) < l.hi, S.is_self(l, src.at(q)), T.at(q, 'f') == l.at(src.at(q), 'onTransition'),
            T.at(q, 'f') != 0, T.at(q, 'x') == a)), lambda q: [T.at(q, 'k'), src.at(q)])
        yield 'C01:self-in-order', Fa(2, lambda p, q: Imp(And(T0.hi <= p, p < q, q < ts), src.at(p) < src.at(q)), lambda p, q: MP(src.at(p), src.at(q)))
        yield 'C01:every-self-transition', Fa(1, lambda i: Imp(And(l.lo <= i, i < l.hi, S.is_self(l, i), l.at(i, 'onTransition') != 0), And(
            T0.hi <= dst.at(i), dst.at(i) < ts, src.at(dst.at(i)) == i)), lambda i: [l.at(i, 'onTransition'), dst.at(i)])

    def refused(c, i):
        l, T = c.G('mt'), c.G('T')
        d = l.at(i, 'destinationState')
        e0 = c.G('te0').at(i)
        return And(S.has_cb(c, d, 'onEntering'), Not(c.G('tact').at(i)), Not(T.at(e0, 'r')))

    def cons(c, i, upto):
        l = c.G('mt')
        return And(l.lo <= i, i < upto, S.considered(l, i))

    def executed(c, upto, A_e):
        l, T, te = c.G('mt'), c.G('T'), c.G('te')
        tp, tq, tact, tres, tl, tf = (c.G(g) for g in ('tp', 'tq', 'tact', 'tres', 'tl', 'tf'))
        a, f, A1 = ev_args(c, 1), c.arg(0), c.F('mActiveStates')
        reg = c.F0('mRegisteredStates')
        pat = lambda i: [tp.at(i), l.at(i, 'destinationState')]
        yield 'exec-range', te <= T.hi
        yield 'exec-positions', Fa(1, lambda i: Imp(And(l.lo <= i, i < upto), And(te <= tp.at(i), tp.at(i) <= T.hi)), lambda i: tp.at(i))
        yield 'entry-positions', Fa(1, lambda i: Imp(And(l.lo <= i, i < upto), c.G('te0').at(i) == tp.at(i) + If(l.at(i, 'onTransition') != 0, 1, 0)),
                                    lambda i: [tp.at(i), c.G('te0').at(i)])
        yield 'C01:executed-in-order', Fa(2, lambda i, j: Imp(And(l.lo <= i, i < j, j < upto), tp.at(i) <= tp.at(j)), lambda i, j: MP(tp.at(i), tp.at(j)))
        yield 'C04:transition-callbacks', Fa(1, lambda i: Imp(And(cons(c, i, upto), l.at(i, 'onTransition') != 0), And(
            tp.at(i) < T.hi, T.at(tp.at(i), 'k') == K_TRANS, T.at(tp.at(i), 'f') == l.at(i, 'onTransition'), T.at(tp.at(i), 'x') == a)), pat)

        def ent(i):
            d = l.at(i, 'destinationState')
            e0 = c.G('te0').at(i)
            return Imp(And(cons(c, i, upto), S.has_cb(c, d, 'onEntering'), Not(tact.at(i))), And(
                e0 < T.hi, T.at(e0, 'k') == K_ENTER, T.at(e0, 's') == d, T.at(e0, 'f') == reg.at(d, 'onEntering'), T.at(e0, 'x') == a))
        yield 'C04:entry-callbacks', Fa(1, ent, pat)
        yield 'C01:no-other-transition', Fa(1, lambda q: Imp(And(te <= q, q < T.hi, T.at(q, 'k') == K_TRANS), And(
            cons(c, tq.at(q), upto), tp.at(tq.at(q)) == q, l.at(tq.at(q), 'onTransition') != 0)), lambda q: T.at(q, 'k'))
        yield 'C04:no-more-exits', Fa(1, lambda q: Imp(And(te <= q, q < T.hi), And(T.at(q, 'k') != K_EXIT, T.at(q, 'k') != K_FAIL)), lambda q: T.at(q, 'k'))
        yield 'C03:refused-fails', Fa(1, lambda i: Imp(cons(c, i, upto), And(
            Or(tres.at(i) == PENDING, tres.at(i) == DONE_OK, tres.at(i) == DONE_FAILED), (tres.at(i) == DONE_FAILED) == refused(c, i))), lambda i: tres.at(i))
        yield 'last', And(Or(tl == l.lo - 1, cons(c, tl, upto)), Fa(1, lambda i: Imp(cons(c, i, upto), And(tf <= i, i <= tl)), pat))
        yield 'first', And((tf == l.lo - 1) == (tl == l.lo - 1), Imp(tf != l.lo - 1, cons(c, tf, upto)), tf <= tl)
        yield 'no-duplicates', nodup(A1)
        one = And(tf == tl, tl != l.lo - 1)
        yield 'C05:nothing-considered', Imp(tl == l.lo - 1, And(Fa(1, lambda y: A1.has(y) == A_e(y), lambda y: A1.has(y)), T.hi == te))
        d, s = l.at(tl, 'destinationState'), l.at(tl, 'fromState')
        out = c.G('mx')
        yield 'C05:one-transition-accepted', Imp(And(one, Not(refused(c, tl))), Fa(1, lambda y: A1.has(y) == Or(And(
            A_e(y), Not(And(y == s, Not(Anc(s, d))))), y == d), lambda y: [A1.has(y)]))
        yield 'C03:one-transition-refused', Imp(And(one, refused(c, tl)), Fa(1, lambda y: A1.has(y) == Or(A_e(y), out.has(y)), lambda y: [A1.has(y), out.has(y)]))
        yield 'C05:accepted-destinations-active', Imp(c.arg(1).tree['transitionType'] == REGULAR, Fa(1, lambda i: Imp(And(
            cons(c, i, upto), Not(refused(c, i)), l.at(i, 'destinationState') != f), A1.has(l.at(i, 'destinationState'))), pat))

    def hst_inv(c):
        l = c.G('mt')
        yield 'range', And(l.lo <= c.pos, c.pos <= l.hi)
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        A_e = c.entry.field('mActiveStates')
        yield from executed(c, c.pos, lambda y: A_e.has(y))
        yield 'kept', seq_prefix(c.G('T'), c.entry.ghost('T'))
        tl = c.G('tl')
        yield 'result', c.L('res') == If(tl == l.lo - 1, If(c.G('self'), DONE_OK, DONE_FAILED), c.G('tres').at(tl))
        yield 'allowed', And(c.L('isExitAllowed'), c.L('isCorrectTransition'))

    def hst_begin(eng, c):
        l, i, T = c.G('mt'), c.pos, c.G('T')
        A1 = c.F('mActiveStates')
        co = S.considered(l, i)
        gset(eng, 'tp', i, T.hi)
        gset(eng, 'te0', i, T.hi + If(l.at(i, 'onTransition') != 0, 1, 0))
        gset(eng, 'tact', i, A1.has(l.at(i, 'destinationState')))
        gset(eng, 'tq', T.hi, i)
        eng._tl = c.G('tl')
        eng._tf = c.G('tf')
        gput(eng, 'tl', TINT, If(co, i, c.G('tl')))
        gput(eng, 'tf', TINT, If(And(co, c.G('tf') == l.lo - 1), i, c.G('tf')))

    def hst_end(eng, c):
        gset(eng, 'tres', c.pos - 1, c.L('res'))

    def hst_entry(eng, c):
        e = c.arg(1).tree
        touch(eng, firstE(c.arg(0), e['id'], ev_args(c, 1)))

    def hst_start(eng, c, cc):
        hst_exit(eng, c, cc)
        l = E.view(eng.store[('ghost', 'mt')])
        gput(eng, 'tl', TINT, l.lo - 1)
        gput(eng, 'tf', TINT, l.lo - 1)

    def hst_ens(c):
        f, e = c.arg(0), c.arg(1).tree
        l, out, T, T0 = c.G('mt'), c.G('mx'), c.G('T'), c.G0('T')
        A0, A1 = c.F0('mActiveStates'), c.F('mActiveStates')
        ts, te, mok, xok = c.G('ts'), c.G('te'), c.G('mok'), c.G('xok')
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        yield 'no-duplicates', nodup(A1)
        no = Not(mok)
        yield 'C01:nothing-without-target', Imp(no, And(c.ret == DONE_FAILED, T.same(T0), A1.same(A0), c.F('mPendingEvents').same(c.F0('mPendingEvents')),
                                                         c.F('mHistoryData').same(c.F0('mHistoryData')), c.F('mDispatcher') == c.F0('mDispatcher')))
        for lb, g in targets(c):
            yield lb, g
        for lb, g in ex_self(c):
            yield lb, Imp(mok, g)
        # leaving
        R = e['transitionType'] == REGULAR
        nothing = Or(Not(R), S.none_considered(l, l.hi))
        go = And(mok, xok)
        yield 'C02:only-regular-transitions-leave', Imp(And(mok, nothing), And(xok, te == ts, out.lo == out.hi))
        yield 'C04:source-and-descendants-exited', Imp(And(go, Not(nothing)), S.all_exited(A0, out, f))
        for lb, g in S.exited(A0, out, f):
            yield 'C04:' + lb, Imp(And(go, R), g)
        for lb, g in S.exit_trace(c, A0, out, ts, te):
            yield 'C04:' + lb, Imp(go, g)
        veto = And(mok, Not(xok))
        vt = c.G('veto')
        yield 'C02:cancelled-iff-exit-refused', And((c.ret == CANCELED) == veto, Imp(veto, And(R, Not(nothing))))
        yield 'C02:active-states-unchanged', Imp(veto, Fa(1, lambda y: A1.has(y) == A0.has(y), lambda y: [A1.has(y), A0.has(y)]))
        yield 'C02:refusing-state', Imp(veto, And(ts <= vt, vt < T.hi, S.veto_at(c, T, vt), S.gone(f, T.at(vt, 's')), A0.has(T.at(vt, 's'))))
        for lb, g in S.exit_trace(c, A0, out, ts, vt):
            yield 'C02:' + lb, Imp(veto, g)
        for lb, g in S.reenter_trace(c, A0, out, vt + 1, T.hi, out.lo):
            yield 'C02:' + lb, Imp(veto, g)
        # executing
        for lb, g in executed(c, l.hi, lambda y: And(A0.has(y), Not(out.has(y)))):
            yield lb, Imp(go, g)
        tl = c.G('tl')
        yield 'C01:result', Imp(go, c.ret == If(tl == l.lo - 1, If(c.G('self'), DONE_OK, DONE_FAILED), c.G('tres').at(tl)))
        yield 'C04:no-failure-callback', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), T.at(q, 'k') != K_FAIL), lambda q: T.at(q, 'k'))
        yield 'self', Imp(mok, c.G('self') == Not(S.no_self(l, l.hi)))

    HSG = ['ghost:' + g for g in ('mt', 'mx', 'mok', 'xok', 'self', 'ts', 'te', 'mesrc', 'medst', 'tp', 'te0', 'tq', 'tact', 'tres', 'tl', 'tf', 'src', 'dst', 'ssrc', 'sdst', 'xslot', 'veto')]
    HSM = list(dict.fromkeys(PXM + HSG + ['ghost:' + g for g in ('hup', 'hs', 'hp', 'hr', 'hq')]))

    tables = S.tables
    hreq = lambda c: forest(c) + trans(c) + hdefs(c) + defs(c) + S.act_nodup(c) + S.wfreq(c) + event_ok(c, 1) + tables(c)
    A('handleSingleTransition', ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'], hreq, hst_ens, HSM,
      loops={0: {'inv': hst_inv, 'ghost': hst_begin, 'end': hst_end}}, entry=hst_entry,
      after={'determineTargetState': hst_targets, 'executeSelfTransitions': hst_self, 'executeExitTransition': hst_start})

    # ------------------------------------------------------------------ one event: the active states, children first
    def dt_vis(c, x, upto):
        sn = c.G('dsnap')
        return And(sn.has(x), sn.pos(x) >= upto)

    okres = lambda r: Or(r == PENDING, r == DONE_OK)

    def dt_facts(c, upto, acc, res):
        """the states of the snapshot at positions >= upto were visited"""
        sn, call, act, dr, w = (c.G(g) for g in ('dsnap', 'dcall', 'dact', 'dres', 'dw'))
        took = lambda x: And(dt_vis(c, x, upto), call.at(x), okres(dr.at(x)))
        pat = lambda x: [sn.pos(x), call.at(x)]
        yield 'C01:asked-unless-inactive-or-substate-reacted', Fa(1, lambda x: Imp(dt_vis(c, x, upto), Or(
            call.at(x), Not(act.at(x)), And(took(w.at(x)), Anc(x, w.at(x)), sn.pos(w.at(x)) > sn.pos(x)))), pat)
        yield 'C05:only-active-states-are-asked', Fa(1, lambda x: Imp(And(dt_vis(c, x, upto), call.at(x)), act.at(x)), pat)
        yield 'C01:not-asked-after-substate-reacted', Fa(2, lambda x, y: Imp(And(dt_vis(c, x, upto), call.at(x), took(y), sn.pos(y) > sn.pos(x)), Not(Anc(x, y))),
                                                         lambda x, y: MP(Anc(x, y), sn.pos(x), sn.pos(y)))
        pw = c.G('dpw')
        yield 'C09:pending-result', Imp(res == PENDING, And(took(pw), dr.at(pw) == PENDING))
        yield 'C09:ok-result', Imp(res == DONE_OK, And(took(pw), Fa(1, lambda x: Imp(took(x), dr.at(x) == DONE_OK), pat)))
        yield 'C09:failed-result', Imp(res == DONE_FAILED, Fa(1, lambda x: Not(took(x)), pat))
        yield 'never-cancelled', Or(res == PENDING, res == DONE_OK, res == DONE_FAILED)

    def dt_trace(c, upto):
        e, T, T0 = c.arg(0).tree, c.G('T'), c.G0('T')
        tr = c.F0('mTransitionsByEvent')
        gx, gi = c.G('gx'), c.G('gi')
        a = ev_args(c, 0)

        R = e['transitionType'] == REGULAR
        k = lambda q: PKey(gx.at(q), e['id'])
        new = lambda q: And(R, T0.hi <= q, q < T.hi, T.at(q, 'k') == K_TRANS)
        for nm, f in (('of-states-asked', lambda q: And(c.G('dcall').at(gx.at(q)), dt_vis(c, gx.at(q), upto))),
                      ('with-event-arguments', lambda q: T.at(q, 'x') == a),
                      ('registered', lambda q: And(tr.lo(k(q)) <= gi.at(q), gi.at(q) < tr.hi(k(q)), T.at(q, 'f') == tr.at(gi.at(q), 'onTransition'))),
                      ('condition-holds', lambda q: trans_ok(tr, gi.at(q), a))):
            yield 'C01:transitions-' + nm, Fa(1, lambda q: Imp(new(q), f(q)), lambda q: T.at(q, 'k'))

    def dt_inv(c):
        sn, acc, T, T0 = c.G('dsnap'), c.L('acceptedStates'), c.G('T'), c.G0('T')
        call, dr = c.G('dcall'), c.G('dres')
        yield 'range', And(sn.lo <= c.pos, c.pos <= sn.hi, c.G('dn') == c.pos)
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        yield 'no-duplicates', nodup(c.F('mActiveStates'))
        yield 'accepted-only', Fa(1, lambda q: Imp(acc.inr(q), And(dt_vis(c, acc.at(q), c.pos), call.at(acc.at(q)), okres(dr.at(acc.at(q))))), lambda q: acc.at(q))
        yield 'accepted-all', Fa(1, lambda x: Imp(And(dt_vis(c, x, c.pos), call.at(x), okres(dr.at(x))), acc.has(x)), lambda x: [sn.pos(x), acc.has(x)])
        yield from dt_facts(c, c.pos, acc, c.L('res'))
        yield from dt_trace(c, c.pos)
        yield 'alive', Imp(c.pos < sn.hi, c.F('mDispatcher') != 0)
        yield 'forced-once', Imp(c.arg(0).tree['transitionType'] == FORCED, c.pos == sn.hi)
        yield 'no-failure-callback', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), T.at(q, 'k') != K_FAIL), lambda q: T.at(q, 'k'))

    def dt_acc(c):
        acc, x = c.L('acceptedStates'), c.G('dsnap').at(c.G('dn'))
        yield 'range', And(acc.lo <= c.pos, c.pos <= acc.hi)
        dw, d0 = c.G('dw'), c.entry.ghost('dw')
        yield 'witnesses-kept', Fa(1, lambda y: Imp(y != x, dw.at(y) == d0.at(y)), lambda y: dw.at(y))
        yield 'none-so-far', And(Not(c.L('childStateProcessed')), Fa(1, lambda q: Imp(And(acc.lo <= q, q < c.pos), Not(Anc(x, acc.at(q)))), lambda q: acc.at(q)))

    def dt_acc_begin(eng, c):
        gset(eng, 'dw', c.G('dsnap').at(c.G('dn')), c.L('acceptedStates').at(c.pos))

    def dt_begin(eng, c):
        p = c.pos - 1
        x = c.G('dsnap').at(p)
        gput(eng, 'dn', TINT, p)
        gset(eng, 'dact', x, c.F('mActiveStates').has(x))
        gset(eng, 'dcall', x, B_(False))

    def dt_called(eng, c, cc):
        x = cc.arg(0)
        gset(eng, 'dcall', x, B_(True))
        gset(eng, 'dres', x, cc.ret)
        pw = eng.store[('ghost', 'dpw')].tree
        before = c.L('res')
        gput(eng, 'dpw', TINT, If(Or(cc.ret == PENDING, And(cc.ret == DONE_OK, before != PENDING)), x, pw))
        # where each new entry of the trace comes from
        b, T = cc.G0('T').hi, cc.G('T')
        src, ss, tq, ts = cc.G('src'), cc.G('ssrc'), cc.G('tq'), cc.G('ts')
        for g, val in (('gx', lambda q: x), ('gi', lambda q: src.at(If(q < ts, ss.at(q), tq.at(q))))):
            old = E.view(eng.store[('ghost', g)])
            new = eng.fresh(eng.store[('ghost', g)].t, g)
            nv = E.view(new)
            eng.assume(Fa(1, lambda q: nv.at(q) == If(q >= b, val(q), old.at(q)), lambda q: nv.at(q)))
            eng.store[('ghost', g)] = new

    def dt_entry(eng, c):
        a = c.F0('mActiveStates')
        gput(eng, 'dsnap', eng.store[('ghost', 'dsnap')].t, a.tr)
        gput(eng, 'dn', TINT, a.hi)

    def dt_ens(c):
        e, T, T0, sn, dn = c.arg(0).tree, c.G('T'), c.G0('T'), c.G('dsnap'), c.G('dn')
        A0 = c.F0('mActiveStates')
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        yield 'no-duplicates', nodup(c.F('mActiveStates'))
        gone = And(c.ret == DONE_FAILED, c.F('mDispatcher') == 0)
        yield 'C01:states-active-at-the-start', And(sn.lo == A0.lo, sn.hi == A0.hi, Fa(1, lambda q: Imp(A0.inr(q), sn.at(q) == A0.at(q)), lambda q: sn.at(q)))
        yield 'C01:every-active-state-visited', Or(dn == sn.lo, gone, e['transitionType'] == FORCED)
        yield 'C07:forced-transition-once', Imp(e['transitionType'] == FORCED, dn >= sn.hi - 1)
        for l, f in dt_facts(c, dn, None, c.ret):
            yield l, Imp(Not(gone), f) if l.startswith('C09') else f
        yield from dt_trace(c, dn)
        cb = c.F0('mFailedTransitionCallback')
        failed = And(cb != 0, Or(c.ret == DONE_FAILED, c.ret == CANCELED))
        last = T.hi - 1
        fl = c.G('flist')
        yield 'C09:failure-callback', Imp(failed, And(T.hi > T0.hi, T.at(last, 'k') == K_FAIL, T.at(last, 'f') == cb, T.at(last, 'x') == e['id'], T.at(last, 'y') == ev_args(c, 0)))
        yield 'C09:failure-callback-states', Imp(failed, And(fl.lo == A0.lo, fl.hi == A0.hi, Fa(1, lambda q: Imp(A0.inr(q), fl.at(q) == A0.at(q)), lambda q: fl.at(q))))
        yield 'C09:no-failure-callback-otherwise', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi - If(failed, 1, 0)), T.at(q, 'k') != K_FAIL), lambda q: T.at(q, 'k'))

    dreq = lambda c: forest(c) + trans(c) + hdefs(c) + defs(c) + S.act_nodup(c) + S.evreq(c) + tables(c)
    DTM = list(dict.fromkeys(HSM + ['ghost:' + g for g in ('dsnap', 'flist', 'dcall', 'dact', 'dres', 'dw', 'dn', 'dpw', 'gx', 'gi')]))
    A('doTransition', ['C01', 'C05', 'C07', 'C09'], dreq, dt_ens, DTM, loops={0: {'inv': dt_inv, 'ghost': dt_begin}, 1: {'inv': dt_acc, 'ghost': dt_acc_begin}},
      entry=dt_entry, after={'handleSingleTransition': dt_called})

    # ------------------------------------------------------------------ one turn of the dispatcher
    EVALL = ('transitionType', 'id', 'args', 'cvLock', 'syncProcessed', 'transitionStatus', 'forcedTransitionsInfo', 'ignoreEntryPoints')
    machine = lambda c: forest(c) + trans(c) + hdefs(c) + defs(c) + S.act_nodup(c) + S.wfreq(c) + tables(c)

    def de_ens(c):
        T, T0 = c.G('T'), c.G0('T')
        p, p0 = c.F('mPendingEvents'), c.F0('mPendingEvents')
        free = And(c.F0('mDispatcher') != 0, Not(c.F0('mIsDispatching')))
        run = And(free, Not(c.F0('mStopDispatching')))
        one = And(run, p0.lo < p0.hi)
        dev, st = c.G('dev').tree, c.G('dret')
        front = lambda f: p0.at(p0.lo, f)
        same = lambda *fs: And([c.F(f).same(c.F0(f)) for f in fs])
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        yield 'no-duplicates', nodup(c.F('mActiveStates'))
        yield 'runs', c.G('runs') == c.G0('runs') + 1
        yield 'C09:nothing-unless-due', Imp(Not(one), And(T.same(T0), same('mPendingEvents', 'mActiveStates', 'mHistoryData'), c.F('mDispatcher') == c.F0('mDispatcher'),
                                                          c.F('mStopDispatching') == c.F0('mStopDispatching')))
        yield 'C09:one-event-at-a-time', c.G('dcnt') == c.G0('dcnt') + If(one, 1, 0)
        yield 'C09:front-event-taken', Imp(one, And([T.hi > T0.hi, T.at(T0.hi, 'k') == K_QPOP] + [dev[f] == front(f) for f in EVALL]))
        sync = front('cvLock') != 0
        yield 'C09:waiter-gets-result', Imp(And(one, sync), c.post.heap('HsmEventStatus').at(front('transitionStatus')) == st)
        yield 'C09:waiter-notified', Imp(And(one, sync, st != PENDING), T.at(T.hi - 1, 'k') == K_NOTIFY)
        yield 'C09:woken-again-while-events-pending', Imp(And(run, Not(c.F('mStopDispatching')), p.lo < p.hi), c.G('wake') >= c.G0('wake') + 1)
        yield 'C17:dispatching-ends', If(free, And(Not(c.F('mIsDispatching')), c.G('fnot') == c.G0('fnot') + 1),
                                         And(c.F('mIsDispatching') == c.F0('mIsDispatching'), c.G('fnot') == c.G0('fnot')))

    def de_called(eng, c, cc):
        gput(eng, 'dev', eng.store[('ghost', 'dev')].t, cc.arg(0).tree)
        gput(eng, 'dret', TINT, cc.ret)
        gput(eng, 'dcnt', TINT, eng.store[('ghost', 'dcnt')].tree + 1)

    def de_entry(eng, c):
        gput(eng, 'runs', TINT, eng.store[('ghost', 'runs')].tree + 1)
    DEM = list(dict.fromkeys(DTM + ['ghost:' + g for g in ('dev', 'dret', 'dcnt', 'runs', 'fnot')] + ['mIsDispatching']))
    A('dispatchEvents', ['C09', 'C17'], machine, de_ens, DEM, entry=de_entry, after={'doTransition': de_called})

    # ------------------------------------------------------------------ handlers given to the dispatcher
    S.handler_requires = machine

    def handler_facts(kind, c):
        eng = c.eng
        valid = And(eng.lastlock == SELF, Not(c.F0('mStopDispatching')))
        yield 'C11:valid-iff-machine-runs', c.ret == valid
        T, T0 = c.G('T'), c.G0('T')
        if kind == 0:
            yield 'C11:events-dispatched', c.G('runs') == c.G0('runs') + If(valid, 1, 0)
        else:
            for l, f in (dte(c) if kind == 1 else S.tw_ens(c, c.arg(0), EMPTY_ARGS)):
                if l.startswith('C'):
                    yield l.replace('C09:', 'C11:'), Imp(valid, f)
            yield 'C11:only-its-own-event', c.G('runs') == c.G0('runs')
        yield 'C11:nothing-otherwise', Imp(Not(valid), And(T.same(T0), c.F('mPendingEvents').same(c.F0('mPendingEvents'))))
    S.handler_facts = handler_facts
    dte = S.dte

    def reg_ens(kind, field):
        def ens(c):
            T, T0 = c.G('T'), c.G0('T')
            q = T0.hi
            yield 'trace', seq_prefix(T, T0)
            yield 'C11:handler-registered', And(T.hi == q + 1, T.at(q, 'k') == K_REG, T.at(q, 'y') == kind, c.F(field) == T.at(q, 'x'))
        return ens
    for kind, (fn, fld) in enumerate((('createEventHandler', 'mEventsHandlerId'), ('createTimerHandler', 'mTimerHandlerId'), ('createEnqueuedEventHandler', 'mEnqueuedEventsHandlerId'))):
        A(fn, ['C11', 'C10'] if kind == 1 else ['C11'], lambda c: [('dispatcher', c.arg(0) != 0), ('self', c.arg(1) == SELF)], reg_ens(kind, fld), [fld, 'ghost:T'])

    # ------------------------------------------------------------------ release
    def rel_ens(c):
        T, T0 = c.G('T'), c.G0('T')
        alive = c.F0('mDispatcher') != 0
        q = T0.hi
        yield 'C18:stopped', c.F('mStopDispatching')
        yield 'C18:not-initialised-afterwards', c.F('mDispatcher') == 0
        yield 'C11:handlers-unregistered', Imp(alive, And([T.hi == q + 3] + [And(T.at(q + i, 'k') == K_UNREG, T.at(q + i, 'y') == kd, T.at(q + i, 'x') == c.F0(f)) for i, (kd, f) in enumerate(
            ((0, 'mEventsHandlerId'), (2, 'mEnqueuedEventsHandlerId'), (1, 'mTimerHandlerId')))]))
        yield 'C18:nothing-when-not-initialised', Imp(Not(alive), T.same(T0))
        yield 'C17:no-dispatching-afterwards', Imp(alive, Not(c.F('mIsDispatching')))
    A('release', ['C11', 'C17', 'C18'], lambda c: locks_free(c) + pend_wf(c, c.F0), rel_ens,
      list(dict.fromkeys(CBM + ['mIsDispatching', 'mDispatcher', 'mEventsHandlerId', 'mStopDispatching'])))

    A('~Impl', ['C11', 'C17', 'C18'], lambda c: locks_free(c) + pend_wf(c, c.F0), rel_ens,
      list(dict.fromkeys(CBM + ['mIsDispatching', 'mDispatcher', 'mEventsHandlerId', 'mStopDispatching'])))
    A('resetParent', ['C17', 'C18'], locks_free, lambda c: [('C18:parent-forgotten', c.F('mParent') == 0)], ['mParent'])
    A('getActiveStates', ['C15', 'C18'], None, lambda c: [('C15:active-states', c.ret.same(c.F0('mActiveStates')))], [])

    # ------------------------------------------------------------------ start-up
    INV = -1000

    def su_parts(c):
        T, T0 = c.G('T'), c.G0('T')
        st, A0, A1 = c.F0('mInitialState'), c.F0('mActiveStates'), c.F('mActiveStates')
        p = c.F('mPendingEvents')
        reg, ep = c.F0('mRegisteredStates'), c.F0('mSubstateEntryPoints')
        b, z, m = T0.hi, c.G('fin'), c.G('sum')
        has, chg = S.has_cb(c, st, 'onEntering'), S.has_cb(c, st, 'onStateChanged')
        ent = firstE(st, z3.IntVal(INV), EMPTY_ARGS) < ep.hi(st)
        tab, k = c.F0('mRegisteredActions'), PKey(st, z3.IntVal(ON_ENTRY))
        yield 'C04:initial-state-entered', Imp(has, And(T.at(b, 'k') == K_ENTER, T.at(b, 's') == st, T.at(b, 'f') == reg.at(st, 'onEntering'), T.at(b, 'x') == EMPTY_ARGS))
        a0 = b + If(has, 1, 0)
        acts = And(Or(Not(has), T.at(b, 'r')), c.G('sualive'))
        yield 'C12:entry-actions-iff-accepted', m == a0 + If(acts, tab.hi(k) - tab.lo(k), 0)
        yield 'C12:entry-actions', Imp(acts, S.actions_done(c, T, a0, tab, tab.lo(k), tab.hi(k)))
        yield 'C15:initial-state-active', appended(A1, A0, 1, [st])
        yield 'C04:state-changed-called', And(z == m + If(chg, 1, 0), Imp(chg, And(T.at(m, 'k') == K_CHANGED, T.at(m, 's') == st,
                                              T.at(m, 'f') == reg.at(st, 'onStateChanged'), T.at(m, 'x') == EMPTY_ARGS)))
        yield 'C06:entry-points-of-initial-state', T.hi == z + If(ent, 1, 0)
        yield 'C06:entered-through-entry-points', Imp(ent, And(T.at(z, 'k') == K_QFRONT, T.at(z, 'x') == INV, T.at(z, 'y') == ENTRYPOINT, T.at(z, 's') == 0, Not(T.at(z, 'r')),
                                                  p.lo < p.hi, p.at(p.lo, 'id') == INV, p.at(p.lo, 'transitionType') == ENTRYPOINT))
        yield 'C09:dispatched-when-pending', Imp(p.lo < p.hi, c.G('wake') >= c.G0('wake') + 1)

    def su_ens(c):
        alive = c.F0('mDispatcher') != 0
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
        yield 'no-duplicates', nodup(c.F('mActiveStates'))
        for l, f in su_parts(c):
            yield l, Imp(alive, f)
        yield 'nothing-without-dispatcher', Imp(Not(alive), And(c.G('T').same(c.G0('T')), c.F('mActiveStates').same(c.F0('mActiveStates'))))

    def su_entered(eng, c, cc):
        gput(eng, 'sum', TINT, eng.store[('ghost', 'T')].tree['hi'])
        gput(eng, 'sualive', TBOOL, cc.F('mDispatcher') != 0)

    def su_changed(eng, c, cc):
        gput(eng, 'fin', TINT, eng.store[('ghost', 'T')].tree['hi'])
    fresh_init = lambda c: [('initial-state-not-active', Not(c.F0('mActiveStates').has(c.F0('mInitialState'))))]
    SUM = list(dict.fromkeys(CBM + ['mActiveStates'] + ['ghost:' + g for g in ('eslot', 'cslot', 'esrc', 'edst', 'src', 'dst', 'fin', 'sum', 'sualive')]))
    A('handleStartup', ['C04', 'C06', 'C09', 'C12', 'C15', 'C17'], lambda c: defs(c) + S.act_nodup(c) + S.wfreq(c) + fresh_init(c), su_ens, SUM,
      after={'onStateEntering': su_entered, 'onStateChanged': su_changed})

    def init_ens(c):
        T, T0 = c.G('T'), c.G0('T')
        idle = And(c.F0('mDispatcher') == 0, c.arg(0) != 0)
        q = T0.hi
        started = And(idle, T.at(q, 'r'))
        E0, TM = T.at(q + 1, 'x'), T.at(q + 2, 'x')
        ok = And(started, E0 != 0, TM != 0)
        yield 'C18:only-once', Imp(c.F0('mDispatcher') != 0, And(Not(c.ret), T.same(T0)))
        yield 'C18:needs-dispatcher', Imp(c.arg(0) == 0, And(Not(c.ret), T.same(T0)))
        yield 'C11:dispatcher-started', Imp(idle, And(T.hi > q, T.at(q, 'k') == K_DSTART))
        yield 'C18:not-started-not-initialised', Imp(And(idle, Not(T.at(q, 'r'))), And(Not(c.ret), T.hi == q + 1, c.F('mDispatcher') == c.F0('mDispatcher')))
        yield 'C18:initialised-iff-registered', c.ret == ok
        for i, kd in enumerate((0, 1, 2)):
            yield 'C11:handler-registered:%d' % kd, Imp(started, And(T.hi > q + 1 + i, T.at(q + 1 + i, 'k') == K_REG, T.at(q + 1 + i, 'y') == kd))
        yield 'C11:unregistered-on-failure', Imp(And(started, Not(ok)), And([T.hi == q + 7] + [
            And(T.at(q + 4 + i, 'k') == K_UNREG, T.at(q + 4 + i, 'y') == kd, T.at(q + 4 + i, 'x') == T.at(q + 1 + kd, 'x')) for i, kd in enumerate((0, 2, 1))]))
        yield 'C15:initial-state-active', Imp(ok, appended(c.F('mActiveStates'), c.F0('mActiveStates'), 1, [c.F0('mInitialState')]))
        yield 'C15:no-state-active-otherwise', Imp(Not(ok), c.F('mActiveStates').same(c.F0('mActiveStates')))

    A('initialize', ['C11', 'C15', 'C17', 'C18'], lambda c: defs(c) + S.act_nodup(c) + S.wfreq(c) + fresh_init(c) + forest(c) + trans(c) + hdefs(c) + tables(c), init_ens,
      SUM + ['mTimerHandlerId', 'mEnqueuedEventsHandlerId'])
    return S


TF = ('fromState', 'destinationState', 'transitionType', 'onTransition', 'checkCondition', 'expectedConditionValue')


def ei0(c):
    return c.arg(0).tree
