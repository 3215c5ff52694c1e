"""Function contracts of HierarchicalStateMachine::Impl."""
from specs_impl import *

# the forest invariant over the substate table: HP = has a parent, par = parent, pidx = table position naming it as a child
HP = z3.Function('hasParent', IntS, BoolS)
par = z3.Function('parentOf', IntS, IntS)


ORDER = False


def forest_facts(sub):
    """`sub`: view of the substate multimap (parent -> child)"""
    n = sub.n
    yield 'child-has-one-parent', Fa(1, lambda i: Imp(And(0 <= i, i < n), And(
        HP(sub.at(i)), par(sub.at(i)) == sub.key(i), pidx(sub.at(i)) == i)), lambda i: sub.at(i))
    yield 'parent-recorded', Fa(1, lambda x: Imp(HP(x), And(0 <= pidx(x), pidx(x) < n, sub.at(pidx(x)) == x)), lambda x: pidx(x))
    yield 'ancestor-unfold', Fa(2, lambda p, x: Anc(p, x) == And(HP(x), Or(par(x) == p, Anc(p, par(x)))), lambda p, x: MP(Anc(p, x), par(x)))
    yield 'ancestor-has-parent', Fa(2, lambda p, x: Imp(Anc(p, x), HP(x)), lambda p, x: Anc(p, x))
    yield 'parent-rank', Fa(1, lambda i: Imp(And(0 <= i, i < n), rank(sub.key(i)) < rank(sub.at(i))), lambda i: sub.at(i))
    yield 'ancestor-rank', Fa(2, lambda p, x: Imp(Anc(p, x), rank(p) < rank(x)), lambda p, x: Anc(p, x))


def forest(c):
    return [('forest:' + l, f) for l, f in forest_facts(c.F0('mSubstates'))]


def trans(c):
    """lemma: the ancestor relation is transitive"""
    return [('forest:ancestor-transitive', Fa(3, lambda p, x, y: Imp(And(Anc(p, x), Anc(x, y)), Anc(p, y)), lambda p, x, y: MP(Anc(p, x), Anc(x, y))))]


nl = z3.Function('nearestLevel', IntS, IntS, IntS)         # nearest state (self, parent, ...) with a transition for the event
firstE = z3.Function('firstEntry', IntS, IntS, IntS, IntS)  # first matching entry point row of a state (or end of its rows)
PKey = PairS.pair


def entry_ok(tab, i, ev, args):
    """row i of the entry point table matches"""
    on, cc, ex = tab.at(i, 'onEvent'), tab.at(i, 'checkCondition'), tab.at(i, 'expectedConditionValue')
    return And(Or(on == -1000, on == ev), Or(cc == 0, condv(cc, args) == ex))


def trans_ok(tab, i, args):
    cc, ex = tab.at(i, 'checkCondition'), tab.at(i, 'expectedConditionValue')
    return Or(cc == 0, condv(cc, args) == ex)


def defs(c):
    """definitions of the specification functions over the (constant) registration tables"""
    ep, tr = c.F0('mSubstateEntryPoints'), c.F0('mTransitionsByEvent')
    out = []

    def fe(s, ev, a):
        f = firstE(s, ev, a)
        j = z3.Int(fresh_name('fj'))
        return And(ep.lo(s) <= f, f <= ep.hi(s), Imp(f < ep.hi(s), entry_ok(ep, f, ev, a)),
                   forall([j], Imp(And(ep.lo(s) <= j, j < f), Not(entry_ok(ep, j, ev, a))), patterns=[ep.at(j, 'onEvent')]))
    out.append(('def:first-entry', Fa(3, fe, lambda s, ev, a: firstE(s, ev, a))))

    def nle(s, ev):
        k = PKey(s, ev)
        return nl(s, ev) == If(tr.lo(k) < tr.hi(k), s, If(HP(s), nl(par(s), ev), s))
    out.append(('def:nearest-level', Fa(2, nle, lambda s, ev: MP(nl(s, ev), tr.lo(PKey(s, ev))))))
    return out


def event_locks_free(c):
    h = c.pre.heap('Mutex')
    d = next(iter(t_leaves(h.tr)))
    return [('event-locks-free', Fa(1, lambda a: Not(z3.Select(d, a)), lambda a: z3.Select(d, a)))]


def locks_free(c):
    th = c.pre.store[('this',)].tree
    return [('locks-free', And([Not(th[l]['held']) for l in ('mEventsSync', 'mParentSync') if l in th]))] + event_locks_free(c)


CBM = ['mPendingEvents', 'ghost:qsrc', 'ghost:qdst', 'mDispatcher', 'mStopDispatching', 'mEventsHandlerId', 'ghost:T', 'ghost:alloc', 'ghost:wake', 'ghost:cur',
       'heap:VariantVector_t', 'heap:HsmEventStatus', 'heap:std::list<TransitionInfo>', 'heap:ConditionVariable']
QM = ['mPendingEvents', 'ghost:T', 'ghost:qsrc', 'ghost:qdst', 'ghost:alloc', 'ghost:wake', 'heap:VariantVector_t', 'heap:ConditionVariable',
      'heap:HsmEventStatus']


def heap_kept(c, names=('VariantVector_t', 'std::list<TransitionInfo>')):
    """cells allocated before are not changed"""
    al = c.G0('alloc')
    for nm in names:
        a, b = c.post.heap(nm), c.pre.heap(nm)
        fs = []
        for x, y in zip(t_leaves(a.tr), t_leaves(b.tr)):
            fs.append(Fa(1, lambda q: Imp(q < al, z3.Select(x, q) == z3.Select(y, q)), lambda q: z3.Select(x, q)))
        yield 'heap-kept:' + nm, And(fs)


def rely_facts(c):
    """two-state facts true of every function that may run user callbacks"""
    yield 'rely:dispatcher', Or(c.F('mDispatcher') == c.F0('mDispatcher'), c.F('mDispatcher') == 0)
    yield 'rely:stop', Imp(c.F0('mStopDispatching'), c.F('mStopDispatching'))
    yield 'rely:alloc', c.G('alloc') >= c.G0('alloc')
    yield 'rely:wake', c.G('wake') >= c.G0('wake')
    yield 'rely:trace', seq_prefix(c.G('T'), c.G0('T'))
    yield from heap_kept(c)


def ev_wf(al, tt, args, cv, status, sync, forced):
    """a well-formed event record: sync events carry a status and a condition, forced ones their targets"""
    return And(0 <= tt, tt <= 2, args < al, forced < al, status < al, Imp(tt == FORCED, forced != 0), Imp(cv != 0, And(status != 0, sync != 0, lockOf(status) == cv)))


EVF = ('transitionType', 'args', 'cvLock', 'transitionStatus', 'syncProcessed', 'forcedTransitionsInfo')


def pend_wf(c, F, al=None):
    p = F('mPendingEvents')
    if al is None:
        al = c.G0('alloc') if F == c.F0 else c.G('alloc')
    return [('queued-events-complete', Fa(1, lambda q: Imp(p.inr(q), ev_wf(al, *[p.at(q, f) for f in EVF])),
                                          lambda q: [p.at(q, f) for f in EVF]))]


def event_ok(c, i):
    e = c.arg(i)
    return [('event-complete', ev_wf(c.G0('alloc'), *[leafv(e, f) for f in EVF]))]


def leafv(e, f):
    return e.tree[f]


def ev_args(c, i, heap=None):
    """arguments of the event parameter"""
    e = c.arg(i)
    h = heap or c.pre.heap('VariantVector_t')
    return If(e.tree['args'] != 0, h.at(e.tree['args']), EMPTY_ARGS)


def i32(x):
    return E.cast_int(x, (-2**31, 2**31 - 1))


def u32(x):
    return E.cast_int(x, (0, 2**32 - 1))




def touch(eng, *terms):
    """introduce ground terms (triggers); logically void"""
    for t in terms:
        eng.assume(t == z3.Const(fresh_name('touch'), t.sort()))


def is_act(k):
    return Or(k == K_TSTART, k == K_TSTOP, k == K_TRESTART, k == K_QBACK)


def nodup(s):
    """no state occurs twice: the witness of an element is its only position"""
    return Fa(1, lambda i: Imp(And(s.lo <= i, i < s.hi), s.pos(s.at(i)) == i), lambda i: s.at(i))


def actions_valid(c, F):
    tab = F('mRegisteredActions')

    def ok(i):
        a, v = tab.at(i, 'action'), tab.at(i, 'actionArgs')
        return Imp(And(0 <= i, i < tab.n), Or(And(a == START, vsize(v) == 3), And(a == STOP, vsize(v) == 1), And(a == RESTART, vsize(v) == 1),
                                              And(a == TRANSITION, vsize(v) >= 1)))
    return [('actions-valid', Fa(1, ok, lambda i: [tab.at(i, 'action'), tab.at(i, 'actionArgs')]))]


def gset(eng, g, k, v):
    """ghost map update"""
    m = eng.store[('ghost', g)]
    eng.store[('ghost', g)] = V(m.t, eng.named({'d': z3.Store(m.tree['d'], k, v), 'dom': m.tree['dom']}))


def make():
    S = ImplSpecs()
    A = lambda key, *a, **k: S.add(I + key, Spec(*a, **k))
    STRUCT = ['C01', 'C05', 'C06', 'C07', 'C08']

    # ------------------------------------------------------------------ queries
    def ens(c):
        ch, out = c.arg(0), c.argp(1)
        yield 'found-iff-substate', c.ret == HP(ch)
        yield 'parent', Imp(HP(ch), out == par(ch))
        yield 'unchanged-otherwise', Imp(Not(HP(ch)), out == c.arg(1))
    A('getParentState', STRUCT, forest, ens, ['#1'], entry=lambda eng, c: touch(eng, pidx(c.arg(0))))

    def outer(c):
        sub = c.F0('mSubstates')
        p, ch, cur, stop = c.arg(0), c.arg(1), c.L('curState'), c.L('stopSearch')
        yield 'self', Imp(p == ch, cur == ch)
        yield 'open', Imp(And(p != ch, Not(stop)), Anc(p, ch) == Or(cur == p, Anc(p, cur)))
        yield 'closed', Imp(And(p != ch, stop), Anc(p, ch) == (cur == p))
        yield 'hint', Imp(HP(cur), And(0 <= pidx(cur), pidx(cur) < sub.n, sub.at(pidx(cur)) == cur))

    def inner(c):
        sub, cur = c.F0('mSubstates'), c.L('curState')
        yield 'not-yet', Fa(1, lambda i: Imp(And(0 <= i, i < c.pos), sub.at(i) != cur), lambda i: sub.at(i))
        yield 'searching', c.L('stopSearch')
        yield 'cur', And(cur == c.entry.var('curState'), cur != c.arg(0))

    def sib(c, left=False):
        sub, p, cur = c.F0('mSubstates'), c.arg(0), c.L('curState')
        yield 'stop-implies-not-ancestor', Imp(c.L('stopSearch'), Not(Anc(p, cur)))
        yield 'cur', And(cur == c.entry.var('curState'), cur != p)
        if left:
            yield 'left', c.pos < sub.n
    A('isSubstateOf', STRUCT, forest, lambda c: [('ancestor', c.ret == Anc(c.arg(0), c.arg(1)))],
      loops={0: outer, 1: inner, 2: lambda c: sib(c, True), 3: sib})

    A('isFinalState', STRUCT, None, lambda c: [('final', c.ret == c.F0('mFinalStates').has(c.arg(0)))],
      defn=lambda c: c.F0('mFinalStates').has(c.arg(0)))

    A('isStateActive', STRUCT + ['C15'], None, lambda c: [('active', c.ret == c.F0('mActiveStates').has(c.arg(0)))],
      defn=lambda c: c.F0('mActiveStates').has(c.arg(0)))

    def counts(c, a):
        return And(Anc(c.arg(0), a), Or(c.arg(1), Not(c.F0('mFinalStates').has(a))))

    def hac_inv(c):
        act = c.F0('mActiveStates')
        yield 'none-so-far', Fa(1, lambda i: Imp(And(act.lo <= i, i < c.pos), Not(counts(c, act.at(i)))), lambda i: act.at(i))
        yield 'res', Not(c.L('res'))

    def hac_ens(c):
        act = c.F0('mActiveStates')
        yield 'C08:false-means-none', Imp(Not(c.ret), Fa(1, lambda a: Imp(act.has(a), Not(counts(c, a))), lambda a: act.has(a)))
        w = z3.Int(fresh_name('w'))
        yield 'C08:true-means-some', Imp(c.ret, Not(Fa(1, lambda i: Imp(act.inr(i), Not(counts(c, act.at(i)))), lambda i: act.at(i))))
    A('hasActiveChildren', ['C08'], forest, hac_ens, loops={0: hac_inv})

    A('hasSubstates', STRUCT, None, lambda c: [('any', c.ret == (c.F0('mSubstates').lo(c.arg(0)) < c.F0('mSubstates').hi(c.arg(0))))])
    A('hasEntryPoint', ['C06', 'C01'], None,
      lambda c: [('any', c.ret == (c.F0('mSubstateEntryPoints').lo(c.arg(0)) < c.F0('mSubstateEntryPoints').hi(c.arg(0))))])

    def gep_ok(c, i):
        return entry_ok(c.F0('mSubstateEntryPoints'), i, c.arg(1), c.arg(2))

    def gep_facts(c, out, upto):
        ep, st = c.F0('mSubstateEntryPoints'), c.arg(0)
        src, dst = c.G('esrc'), c.G('edst')
        yield 'entries-are-matching-rows', Fa(1, lambda q: Imp(out.inr(q), And(
            ep.lo(st) <= src.at(q), src.at(q) < upto, gep_ok(c, src.at(q)), out.at(q) == ep.at(src.at(q), 'state'))), lambda q: [out.at(q), src.at(q)])
        yield 'in-registration-order', Fa(2, lambda p, q: Imp(And(out.lo <= p, p < q, q < out.hi), src.at(p) < src.at(q)), lambda p, q: MP(src.at(p), src.at(q)))
        yield 'all-matching-rows', Fa(1, lambda i: Imp(And(ep.lo(st) <= i, i < upto, gep_ok(c, i)), And(
            out.inr(dst.at(i)), src.at(dst.at(i)) == i, out.at(dst.at(i)) == ep.at(i, 'state'))), lambda i: [ep.at(i, 'onEvent'), dst.at(i)])

    def gep_inv(c):
        ep, st = c.F0('mSubstateEntryPoints'), c.arg(0)
        out = c.argp(3)
        yield 'range', And(ep.lo(st) <= c.pos, c.pos <= ep.hi(st), out.lo == 0)
        yield from gep_facts(c, out, c.pos)

    def gep_ghost(eng, c):
        out, pos = c.argp(3), c.pos
        for g, k, v in (('esrc', out.hi, pos), ('edst', pos, out.hi)):
            m = eng.store[('ghost', g)]
            eng.store[('ghost', g)] = V(m.t, {'d': z3.Store(m.tree['d'], k, v), 'dom': m.tree['dom']})

    def gep_ens(c):
        ep, st, out = c.F0('mSubstateEntryPoints'), c.arg(0), c.argp(3)
        for l, f in gep_facts(c, out, ep.hi(st)):
            yield 'C06:' + l, f
        yield 'C06:result', And(out.lo == 0, c.ret == (out.lo < out.hi))
        fe = firstE(st, c.arg(1), c.arg(2))
        yield 'C06:first', Imp(c.ret, And(fe < ep.hi(st), out.at(out.lo) == ep.at(fe, 'state')))
        yield 'C06:found-if-matching', Imp(fe < ep.hi(st), c.ret)
    A('getEntryPoints', ['C06'], defs, gep_ens, ['#3', 'ghost:esrc', 'ghost:edst'], loops={0: {'inv': gep_inv, 'ghost': gep_ghost}},
      entry=lambda eng, c: touch(eng, firstE(c.arg(0), c.arg(1), c.arg(2)), c.G('edst').at(firstE(c.arg(0), c.arg(1), c.arg(2)))))

    # ------------------------------------------------------------------ active states
    def append_state(A1, A0, x):
        return appended(A1, A0, 1, [x])

    def aas_ens(c):
        A0, A1, x = c.F0('mActiveStates'), c.F('mActiveStates'), c.arg(0)
        yield 'added-iff-inactive', c.ret == Not(A0.has(x))
        yield 'C15:appended-once', If(A0.has(x), A1.same(A0), append_state(A1, A0, x))
        yield 'C15:set', Fa(1, lambda y: A1.has(y) == Or(A0.has(y), y == x), lambda y: A1.has(y))
        yield 'C15:no-duplicates', nodup(A1)
    act_nodup = lambda c: [('active-no-duplicates', nodup(c.F0('mActiveStates')))]
    A('addActiveState', ['C15'], act_nodup, aas_ens, ['mActiveStates'])

    def removed(A1, A0, cond):
        """A1 = elements of A0 for which not cond, same order"""
        yield 'set', Fa(1, lambda y: A1.has(y) == And(A0.has(y), Not(cond(y))), lambda y: [A1.has(y), A0.has(y)])
        yield 'order', Fa(2, lambda x, y: Imp(And(A1.has(x), A1.has(y), A0.pos(x) < A0.pos(y)), A1.pos(x) < A1.pos(y)),
                          lambda x, y: MP(A1.pos(x), A1.pos(y)))

    def ras_ens(c):
        A0, A1, o, x = c.F0('mActiveStates'), c.F('mActiveStates'), c.arg(0), c.arg(1)
        gone = lambda y: And(Not(Anc(o, x)), y == o)
        yield 'added-iff-inactive', c.ret == Not(And(A0.has(x), Not(gone(x))))
        yield 'C15:set', Fa(1, lambda y: A1.has(y) == Or(And(A0.has(y), Not(gone(y))), y == x), lambda y: [A1.has(y), A0.has(y)])
        yield 'C15:order', Fa(2, lambda a, b: Imp(And(A1.has(a), A1.has(b), A0.has(a), A0.has(b), Not(gone(a)), Not(gone(b)), A0.pos(a) < A0.pos(b)),
                                                  A1.pos(a) < A1.pos(b)), lambda a, b: MP(A1.pos(a), A1.pos(b)))
        yield 'C15:new-last', Imp(c.ret, And(A1.lo < A1.hi, A1.at(A1.hi - 1) == x))
        yield 'C15:no-duplicates', nodup(A1)
    A('replaceActiveState', ['C15', 'C05'], lambda c: forest(c) + act_nodup(c), ras_ens, ['mActiveStates'])

    def getargs(c):
        a = c.F0('args')
        return If(a != 0, c.pre.heap('VariantVector_t').at(a), EMPTY_ARGS)
    S.add('PendingEventInfo::getArgs', Spec(['C04', 'C09'], None, lambda c: [('C04:arguments-of-the-event', c.ret == getargs(c))], defn=getargs))

    # ------------------------------------------------------------------ assumed: diagnostics only
    diag = lambda c: [('locks-free', Not(c.pre.store[('this',)].tree['mParentSync']['held']))]
    A('logHsmAction', [], diag, None, [], loops={0: lambda c: [], 1: lambda c: []})
    A('disableHsmDebugging', [], None, None, [])

    # ------------------------------------------------------------------ event queue
    EVALL = ('id',) + EVF + ('ignoreEntryPoints',)

    def same_event(p, q, p0, j):
        return And([p.at(q, f) == p0.at(j, f) for f in EVALL])

    def cpe_facts(c, upto, old):
        """queue positions below upto hold exactly the kept events among the first `old` ones, in order"""
        p, p0 = c.F('mPendingEvents'), c.F0('mPendingEvents')
        src, dst, st = c.G('qsrc'), c.G('qdst'), c.post.heap('HsmEventStatus')
        pf = lambda q: [p.at(q, f) for f in EVALL]
        yield 'kept-events', Fa(1, lambda q: Imp(And(p.lo <= q, q < upto), And(p0.lo <= src.at(q), src.at(q) < old, src.at(q) >= q,
                                                     p0.at(src.at(q), 'transitionType') != REGULAR, same_event(p, q, p0, src.at(q)))), lambda q: pf(q) + [src.at(q)])
        yield 'kept-order', Fa(2, lambda q, r: Imp(And(p.lo <= q, q < r, r < upto), src.at(q) < src.at(r)), lambda q, r: MP(src.at(q), src.at(r)))
        yield 'ongoing-transitions-kept', Fa(1, lambda j: Imp(And(p0.lo <= j, j < old, p0.at(j, 'transitionType') != REGULAR), And(
            p.lo <= dst.at(j), dst.at(j) < upto, src.at(dst.at(j)) == j)), lambda j: [p0.at(j, 'transitionType'), dst.at(j)])
        yield 'waiters-of-dropped-events-fail', Fa(1, lambda q: Imp(And(p0.lo <= q, q < old, p0.at(q, 'transitionType') == REGULAR, p0.at(q, 'cvLock') != 0),
                                                    st.at(p0.at(q, 'transitionStatus')) == DONE_FAILED), lambda q: p0.at(q, 'cvLock'))

    def cpe_inv(c):
        p, p0 = c.F('mPendingEvents'), c.F0('mPendingEvents')
        off = p0.hi - p.hi
        yield 'shape', And(p.lo == p0.lo, off >= 0, p.lo <= c.pos, c.pos <= p.hi)
        yield 'rest-kept', Fa(1, lambda q: Imp(And(c.pos <= q, q < p.hi), same_event(p, q, p0, q + off)), lambda q: [p.at(q, f) for f in EVALL])
        yield from cpe_facts(c, c.pos, c.pos + off)
        yield 'trace', seq_prefix(c.G('T'), c.G0('T'))
        yield 'only-clearing', Fa(1, lambda q: Imp(And(c.G0('T').hi <= q, q < c.G('T').hi), Or(c.G('T').at(q, 'k') == K_NOTIFY, c.G('T').at(q, 'k') == K_QCLEAR)),
                                  lambda q: c.G('T').at(q, 'k'))

    def cpe_ghost(eng, c):
        off = c.F0('mPendingEvents').hi - c.F('mPendingEvents').hi
        for g, k, v in (('qsrc', c.pos, c.pos + off), ('qdst', c.pos + off, c.pos)):
            m = eng.store[('ghost', g)]
            eng.store[('ghost', g)] = V(m.t, {'d': z3.Store(m.tree['d'], k, v), 'dom': m.tree['dom']})

    def cpe_ens(c):
        p, p0 = c.F('mPendingEvents'), c.F0('mPendingEvents')
        T, T0 = c.G('T'), c.G0('T')
        yield 'range', And(p.lo == p0.lo, p.lo <= p.hi, p.hi <= p0.hi)
        for l, f in cpe_facts(c, p.hi, p0.hi):
            yield 'C09:' + l, f
        yield 'trace', seq_prefix(T, T0)
        yield 'C09:no-other-effect', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), Or(T.at(q, 'k') == K_NOTIFY, T.at(q, 'k') == K_QCLEAR)), lambda q: T.at(q, 'k'))
        yield from [('C09:' + l, f) for l, f in pend_wf(c, c.F)]
    held = lambda c: [('queue-lock-held', c.pre.store[('this',)].tree['mEventsSync']['held'])]
    A('clearPendingEvents', ['C09', 'C06', 'C17'], lambda c: held(c) + event_locks_free(c) + pend_wf(c, c.F0), cpe_ens,
      ['mPendingEvents', 'ghost:T', 'ghost:qsrc', 'ghost:qdst', 'heap:HsmEventStatus'], loops={0: {'inv': cpe_inv, 'ghost': cpe_ghost}})

    def tx_ens(c):
        ev, clear, sync = c.arg(0), c.arg(1), c.arg(2)
        T, T0 = c.G('T'), c.G0('T')
        p, p0 = c.F('mPendingEvents'), c.F0('mPendingEvents')
        alive = c.F0('mDispatcher') != 0
        last = T.hi - 1
        args = c.arg(4)
        yield 'C09:rejected-when-not-initialised', Imp(Not(alive), And(Not(c.ret), T.same(T0), p.same(p0)))
        yield 'trace', seq_prefix(T, T0)
        yield 'C09:one-event-queued-last', Imp(alive, And(T.hi > T0.hi, T.at(last, 'k') == K_QBACK, T.at(last, 'x') == ev, T.at(last, 'y') == REGULAR,
                                                          Not(T.at(last, 'r')), T.at(last, 'f') >= c.G0('alloc'), T.at(last, 'f') < c.G('alloc')))
        yield 'C09:queued-arguments', Imp(alive, c.post.heap('VariantVector_t').at(T.at(last, 'f')) == args)
        yield 'C09:waiter-attached-iff-sync', Imp(alive, (T.at(last, 's') != 0) == sync)
        yield 'C09:nothing-else-without-clear', Imp(And(alive, Not(clear)), T.hi == T0.hi + 1)
        yield 'C09:only-clearing', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi - 1), Or(T.at(q, 'k') == K_NOTIFY, T.at(q, 'k') == K_QCLEAR)), lambda q: T.at(q, 'k'))
        yield 'C09:dispatcher-woken', Imp(alive, c.G('wake') >= c.G0('wake') + 1)
        yield 'C09:async-accepted', Imp(And(alive, Not(sync)), c.ret)
        yield 'C09:sync-result', Imp(And(alive, sync), c.ret == (c.post.heap('HsmEventStatus').at(T.at(last, 'u')) == DONE_OK))
        yield 'C09:async-queue', Imp(And(alive, Not(sync)), And(If(clear, p.hi <= p0.hi + 1, p.hi == p0.hi + 1), p.lo == p0.lo, p.lo < p.hi, p.at(p.hi - 1, 'id') == ev,
                                                                p.at(p.hi - 1, 'args') == T.at(last, 'f')))
        yield 'C09:async-clear', Imp(And(alive, Not(sync), clear), Fa(1, lambda q: Imp(And(p.lo <= q, q < p.hi - 1), p.at(q, 'transitionType') != REGULAR),
                                                                      lambda q: p.at(q, 'transitionType')))
        yield 'C09:async-keeps-earlier', Imp(And(alive, Not(sync), Not(clear)), Fa(1, lambda q: Imp(p0.inr(q), And(
            p.at(q, 'id') == p0.at(q, 'id'), p.at(q, 'args') == p0.at(q, 'args'))), lambda q: p.at(q, 'id')))
        yield 'alloc', And(c.G('alloc') >= c.G0('alloc'), c.G('wake') >= c.G0('wake'))
        for l, f in pend_wf(c, c.F):
            yield 'async:' + l, Imp(Not(sync), f)
        yield 'dispatcher-kept', Imp(Not(sync), And(c.F('mDispatcher') == c.F0('mDispatcher'), c.F('mStopDispatching') == c.F0('mStopDispatching'),
                                                    c.F('mEventsHandlerId') == c.F0('mEventsHandlerId')))
        yield 'stop-kept', Imp(c.F0('mStopDispatching'), c.F('mStopDispatching'))
        yield from heap_kept(c)
    A('transitionExWithArgsArray', ['C09', 'C17'], lambda c: locks_free(c) + pend_wf(c, c.F0), tx_ens,
      QM + ['mDispatcher', 'mStopDispatching', 'mEventsHandlerId', 'heap:std::list<TransitionInfo>', '#4'])

    def tw_ens(c, ev, args):
        T, T0 = c.G('T'), c.G0('T')
        alive = c.F0('mDispatcher') != 0
        q = T0.hi
        yield 'C09:one-event-queued', Imp(alive, And(T.hi == T0.hi + 1, T.at(q, 'k') == K_QBACK, T.at(q, 'x') == ev, T.at(q, 'y') == REGULAR, T.at(q, 's') == 0,
                                                     T.at(q, 'f') < c.G('alloc'), T.at(q, 'f') >= c.G0('alloc'), Not(T.at(q, 'r'))))
        yield 'C09:queued-arguments', Imp(alive, c.post.heap('VariantVector_t').at(T.at(q, 'f')) == args)
        yield 'C09:nothing-when-not-initialised', Imp(Not(alive), T.same(T0))
        yield 'trace', seq_prefix(T, T0)
        yield 'C09:dispatcher-woken', Imp(alive, c.G('wake') >= c.G0('wake') + 1)
        yield 'alloc', c.G('alloc') >= c.G0('alloc')
        yield 'dispatcher-kept', And(c.F('mDispatcher') == c.F0('mDispatcher'), c.F('mStopDispatching') == c.F0('mStopDispatching'),
                                     c.F('mEventsHandlerId') == c.F0('mEventsHandlerId'))
        yield from pend_wf(c, c.F)
        yield from heap_kept(c)
        yield 'wake', c.G('wake') >= c.G0('wake')
    TWM = QM + ['mDispatcher', 'mStopDispatching', 'mEventsHandlerId', 'heap:std::list<TransitionInfo>']
    S.tw_ens, S.TWM = tw_ens, TWM
    A('transitionWithArgsArray', ['C09', 'C17'], lambda c: locks_free(c) + pend_wf(c, c.F0), lambda c: tw_ens(c, c.arg(0), c.arg(1)), TWM + ['#1'])
    A('transitionSimple', ['C09', 'C10', 'C17'], lambda c: locks_free(c) + pend_wf(c, c.F0), lambda c: tw_ens(c, c.arg(0), EMPTY_ARGS), TWM)

    # ------------------------------------------------------------------ state actions
    def act_rows(c, trig=None):
        tab = c.F0('mRegisteredActions')
        k = PKey(c.arg(0), c.arg(1) if trig is None else z3.IntVal(trig))
        return tab, tab.lo(k), tab.hi(k)

    def action_entry(c, T, q, tab, i):
        """trace entry q is the effect of action row i"""
        a, v = tab.at(i, 'action'), tab.at(i, 'actionArgs')
        arg0 = toInt64(velem(v, 0))
        k, x = T.at(q, 'k'), T.at(q, 'x')
        av = c.post.heap('VariantVector_t').at(T.at(q, 'f'))
        return And(
            Imp(a == START, And(k == K_TSTART, x == i32(arg0), T.at(q, 'y') == u32(toInt64(velem(v, 1))), T.at(q, 'r') == toBool(velem(v, 2)),
                                T.at(q, 'z') == c.F0('mTimerHandlerId'))),
            Imp(a == STOP, And(k == K_TSTOP, x == i32(arg0))),
            Imp(a == RESTART, And(k == K_TRESTART, x == i32(arg0))),
            Imp(a == TRANSITION, And(k == K_QBACK, x == i32(arg0), T.at(q, 'y') == REGULAR, T.at(q, 's') == 0,
                                     T.at(q, 'f') < c.G('alloc'), Tail(av, v))))

    def actions_done(c, T, base, tab, lo, upto):
        """rows [lo,upto) were executed in order, as trace entries from base on"""
        return Fa(1, lambda q: Imp(And(base <= q, q < base + (upto - lo)), action_entry(c, T, q, tab, q - base + lo)),
                  lambda q: [T.at(q, f) for f in 'kxyzrf'])

    def esa_inv(c):
        tab, lo, hi = act_rows(c)
        T, T0 = c.G('T'), c.G0('T')
        yield 'range', And(lo <= c.pos, c.pos <= hi, hi <= tab.n, lo >= 0)
        yield 'trace', seq_prefix(T, T0)
        yield 'count', T.hi == T0.hi + (c.pos - lo)
        yield 'rows-executed', actions_done(c, T, T0.hi, tab, lo, c.pos)
        yield 'alive', And(c.F('mDispatcher') == c.F0('mDispatcher'), c.F('mDispatcher') != 0, c.F('mStopDispatching') == c.F0('mStopDispatching'),
                           c.F('mEventsHandlerId') == c.F0('mEventsHandlerId'))
        yield 'alloc', And(c.G('alloc') >= c.G0('alloc'), c.G('wake') >= c.G0('wake'))
        yield from pend_wf(c, c.F)
        yield from heap_kept(c)

    def tail_inv(c):
        v, out, i = c.L('actionInfo'), c.L('transitionArgs'), c.L('i')
        av = v.tree['actionArgs'] if isinstance(v, V) else v
        yield 'copied', And(1 <= i, i <= vsize(av), vsize(out) == i - 1)
        yield 'elements', Fa(1, lambda j: Imp(And(0 <= j, j < vsize(out)), velem(out, j) == velem(av, j + 1)), lambda j: velem(out, j))

    def esa_ens(c):
        tab, lo, hi = act_rows(c)
        T, T0 = c.G('T'), c.G0('T')
        alive = c.F0('mDispatcher') != 0
        yield 'trace', seq_prefix(T, T0)
        yield 'C12:one-effect-per-action', T.hi == T0.hi + If(alive, hi - lo, 0)
        yield 'C12:effects-in-registration-order', Imp(alive, actions_done(c, T, T0.hi, tab, lo, hi))
        yield 'dispatcher-kept', And(c.F('mDispatcher') == c.F0('mDispatcher'), c.F('mStopDispatching') == c.F0('mStopDispatching'),
                                     c.F('mEventsHandlerId') == c.F0('mEventsHandlerId'))
        yield 'alloc', And(c.G('alloc') >= c.G0('alloc'), c.G('wake') >= c.G0('wake'))
        yield from pend_wf(c, c.F)
        yield from heap_kept(c)
    wfreq = lambda c: locks_free(c) + pend_wf(c, c.F0) + actions_valid(c, c.F0)
    A('executeStateAction', ['C12', 'C17'], wfreq, esa_ens, TWM, loops={0: esa_inv, 1: tail_inv})

    # ------------------------------------------------------------------ callbacks
    SLOT = {K_EXIT: 'xslot', K_ENTER: 'eslot', K_CHANGED: 'cslot'}

    def cb_ens(kind, field, trig, active_skips):
        def ens(c):
            g = SLOT[kind]
            for l, f in ens1(c):
                yield l, f
            reg, st, T0, T = c.F0('mRegisteredStates'), c.arg(0), c.G0('T'), c.G('T')
            skip = c.F0('mActiveStates').has(st) if active_skips else z3.BoolVal(False)
            has = And(reg.has(st), reg.at(st, field) != 0, Not(skip))
            d0 = c.G0(g).tr['d']
            yield 'slot', c.G(g).tr['d'] == If(has, z3.Store(d0, st, T0.hi), d0)
            if kind == K_EXIT:
                yield 'veto-position', c.G('veto') == If(And(has, Not(c.ret)), T0.hi, c.G0('veto'))
            yield 'own-callback-only', Fa(1, lambda q: Imp(And(T0.hi + If(has, 1, 0) <= q, q < T.hi), is_act(T.at(q, 'k'))), lambda q: T.at(q, 'k'))

        def ens1(c):
            reg, st = c.F0('mRegisteredStates'), c.arg(0)
            T, T0 = c.G('T'), c.G0('T')
            cb = reg.at(st, field)
            skip = c.F0('mActiveStates').has(st) if active_skips else z3.BoolVal(False)
            has = And(reg.has(st), cb != 0, Not(skip))
            first = T0.hi
            n = If(has, 1, 0)
            accepted = T.at(first, 'r') if kind in (K_EXIT, K_ENTER) else z3.BoolVal(True)
            yield from rely_facts(c)
            entry = [T.at(first, 'k') == kind, T.at(first, 'f') == cb, T.at(first, 's') == st]
            if kind != K_EXIT:
                entry.append(T.at(first, 'x') == c.arg(1))
            yield 'C04:registered-callback-called-with-arguments', Imp(has, And([T.hi > first] + entry))
            if kind in (K_EXIT, K_ENTER):
                yield 'C02:result-is-callback-answer' if kind == K_EXIT else 'C03:result-is-callback-answer', c.ret == If(has, accepted, True)
                tab, lo, hi = act_rows(c, trig)
                alive = c.F('mDispatcher') != 0
                run = And(Not(skip), If(has, accepted, True))
                yield 'C12:actions-iff-accepted', T.hi == first + n + If(And(run, alive), hi - lo, 0)
                yield 'C12:actions-of-trigger', Imp(And(run, alive), actions_done(c, T, first + n, tab, lo, hi))
            else:
                yield 'C04:called-at-most-once', T.hi == first + n
            yield from pend_wf(c, c.F)
        return ens

    def set_cur(eng, c):
        eng.store[('ghost', 'cur')] = V(TINT, c.arg(0))
    A('onStateExiting', ['C02', 'C04', 'C12', 'C17'], wfreq, cb_ens(K_EXIT, 'onExiting', ON_EXIT, False), CBM + ['ghost:xslot', 'ghost:veto'], entry=set_cur)
    A('onStateEntering', ['C03', 'C04', 'C12', 'C17'], wfreq, cb_ens(K_ENTER, 'onEntering', ON_ENTRY, True), CBM + ['ghost:eslot'], entry=set_cur)
    A('onStateChanged', ['C04', 'C17'], wfreq, cb_ens(K_CHANGED, 'onStateChanged', None, False), CBM + ['ghost:cslot'], entry=set_cur)

    # ------------------------------------------------------------------ matching transitions
    TF = ('fromState', 'destinationState', 'transitionType', 'onTransition', 'checkCondition', 'expectedConditionValue')

    def hasSub(c, x):
        sub = c.F0('mSubstates')
        return sub.lo(x) < sub.hi(x)

    def fe_ok(c, s, ev, a):
        ep = c.F0('mSubstateEntryPoints')
        return firstE(s, ev, a) < ep.hi(s)

    def match_facts(c, k, out0, out, ev, args, upto):
        """out = out0 ++ the matching rows of key k below `upto`"""
        tr, ep = c.F0('mTransitionsByEvent'), c.F0('mSubstateEntryPoints')
        src, dst = c.G('src'), c.G('dst')
        yield 'kept', seq_prefix(out, out0)
        yield 'only-registered-transitions', Fa(1, lambda q: Imp(And(out0.hi <= q, q < out.hi), And(
            [tr.lo(k) <= src.at(q), src.at(q) < upto, trans_ok(tr, src.at(q), args)] + [out.at(q, f) == tr.at(src.at(q), f) for f in TF])),
            lambda q: [out.at(q, 'fromState'), out.at(q, 'destinationState'), src.at(q)])
        yield 'in-registration-order', Fa(2, lambda p, q: Imp(And(out0.hi <= p, p < q, q < out.hi), src.at(p) < src.at(q)), lambda p, q: MP(src.at(p), src.at(q)))
        yield 'composite-needs-entry', Fa(1, lambda q: Imp(And(out0.hi <= q, q < out.hi, hasSub(c, out.at(q, 'destinationState'))),
                                                           fe_ok(c, out.at(q, 'destinationState'), ev, args)), lambda q: [out.at(q, 'destinationState'), src.at(q)])

        def complete(i):
            d = tr.at(i, 'destinationState')
            sfe = ep.at(firstE(d, ev, args), 'state')
            leaf = Or(Not(hasSub(c, d)), And(fe_ok(c, d, ev, args), Not(hasSub(c, sfe))))
            return Imp(And(tr.lo(k) <= i, i < upto, trans_ok(tr, i, args), leaf), And(out0.hi <= dst.at(i), dst.at(i) < out.hi, src.at(dst.at(i)) == i))
        yield 'all-matching-transitions', Fa(1, complete, lambda i: [tr.at(i, 'destinationState'), dst.at(i)])

    S.match_facts, S.hasSub, S.fe_ok = match_facts, hasSub, fe_ok

    def ftt_key(c):
        f, ev, sp = c.arg(0), c.arg(1), c.arg(3)
        return PKey(If(sp, nl(f, ev), f), ev)

    def ftt_outer(c):
        f, ev, sp, cur = c.arg(0), c.arg(1), c.arg(3), c.L('curState')
        yield 'level', If(sp, nl(f, ev) == nl(cur, ev), cur == f)
        yield 'nothing-yet', c.argp(4).same(c.arg(4))

    def ftt_rows(c):
        tr = c.F0('mTransitionsByEvent')
        f, ev, sp, cur = c.arg(0), c.arg(1), c.arg(3), c.L('curState')
        k = PKey(cur, ev)
        yield 'level', And(If(sp, nl(f, ev) == nl(cur, ev), cur == f), tr.lo(k) < tr.hi(k))
        yield 'stop', Not(c.L('continueSearch'))
        yield 'range', And(tr.lo(k) <= c.pos, c.pos <= tr.hi(k))
        yield from match_facts(c, k, c.arg(4), c.argp(4), ev, c.arg(2), c.pos)

    def ftt_ghost(eng, c):
        # a row that is about to be taken: remember where it goes
        out, pos = c.argp(4), c.pos
        for g, kk, v in (('src', out.hi, pos), ('dst', pos, out.hi)):
            m = eng.store[('ghost', g)]
            eng.store[('ghost', g)] = V(m.t, {'d': z3.Store(m.tree['d'], kk, v), 'dom': m.tree['dom']})

    def ftt_inner(c):
        ev, a = c.arg(1), c.arg(2)
        ep = c.F0('mSubstateEntryPoints')
        q = c.L('parentStates')
        d = c.F0('mTransitionsByEvent').at(c.L('it').pos, 'destinationState')
        first = q.at(q.lo)
        sfe = ep.at(firstE(d, ev, a), 'state')
        yield 'nonempty', q.lo < q.hi
        yield 'searching', Not(c.L('wasFound'))
        yield 'frontier', Or(And(q.hi == q.lo + 1, first == d), And(hasSub(c, d), fe_ok(c, d, ev, a), Or(first == sfe, hasSub(c, sfe))))
        yield 'out-kept', c.argp(4).same(c.arg(4, c.entry))

    def ftt_ens(c):
        tr = c.F0('mTransitionsByEvent')
        k = ftt_key(c)
        out, out0 = c.argp(4), c.arg(4)
        for l, f in match_facts(c, k, out0, out, c.arg(1), c.arg(2), tr.hi(k)):
            yield 'C01:' + l, f
        yield 'C01:result', c.ret == (out.lo < out.hi)
    A('findTransitionTarget', ['C01', 'C16'], lambda c: forest(c) + defs(c), ftt_ens, ['#4', 'ghost:src', 'ghost:dst', 'ghost:esrc', 'ghost:edst'],
      loops={0: ftt_outer, 1: {'inv': ftt_rows, 'ghost': ftt_ghost}, 2: ftt_inner},
      entry=lambda eng, c: touch(eng, nl(c.arg(0), c.arg(1))))

    # ------------------------------------------------------------------ targets of an event
    def ei(c, i):
        return c.arg(i).tree

    def dts_ens(c):
        e, f, out, out0 = ei(c, 0), c.arg(1), c.argp(2), c.arg(2)
        tt, ev = e['transitionType'], e['id']
        a = ev_args(c, 0)
        tr, ep, act = c.F0('mTransitionsByEvent'), c.F0('mSubstateEntryPoints'), c.F0('mActiveStates')
        k = PKey(f, ev)
        for l, g in match_facts(c, k, out0, out, ev, a, tr.hi(k)):
            yield 'C01:regular:' + l, Imp(tt == REGULAR, g)
        yield 'C01:regular:result', Imp(tt == REGULAR, c.ret == (out.lo < out.hi))
        # entry into a composite state: nothing when a child is active already
        child = lambda x: And(x != f, HP(x), par(x) == f)
        blocked = Not(Fa(1, lambda q: Imp(act.inr(q), Not(child(act.at(q)))), lambda q: act.at(q)))
        fe = firstE(f, ev, a)
        yield 'C06:entry:none-when-child-active', Imp(And(tt == ENTRYPOINT, c.ret), Fa(1, lambda q: Imp(act.inr(q), Not(child(act.at(q)))), lambda q: act.at(q)))
        yield 'C06:entry:first-match', Imp(And(tt == ENTRYPOINT, c.ret), And(fe < ep.hi(f), out.lo < out.hi))
        yield 'C06:entry:refused-only-if', Imp(And(tt == ENTRYPOINT, Not(c.ret)), Or(blocked, fe == ep.hi(f)))
        src, dst = c.G('esrc'), c.G('edst')
        base = out0.hi
        yield 'C06:entry:targets', Imp(And(tt == ENTRYPOINT, c.ret), And(seq_prefix(out, out0), Fa(1, lambda q: Imp(And(base <= q, q < out.hi), And(
            out.at(q, 'fromState') == f, out.at(q, 'onTransition') == 0, out.at(q, 'transitionType') == XT(c),
            ep.lo(f) <= src.at(q - base), src.at(q - base) < ep.hi(f), entry_ok(ep, src.at(q - base), ev, a),
            out.at(q, 'destinationState') == ep.at(src.at(q - base), 'state'))), lambda q: out.at(q, 'destinationState'))))
        yield 'C06:entry:all-matching', Imp(And(tt == ENTRYPOINT, c.ret), Fa(1, lambda i: Imp(And(ep.lo(f) <= i, i < ep.hi(f), entry_ok(ep, i, ev, a)), And(
            0 <= dst.at(i), dst.at(i) < out.hi - base, src.at(dst.at(i)) == i)), lambda i: [ep.at(i, 'onEvent'), dst.at(i)]))
        yield 'C06:entry:refused-unchanged', Imp(And(tt == ENTRYPOINT, Not(c.ret)), out.same(out0))
        fl = c.pre.heap('std::list<TransitionInfo>')
        yield 'C07:forced-targets', Imp(tt == FORCED, And(c.ret, out.same(forced_list(c, e['forcedTransitionsInfo']))))

    def XT(c):
        return z3.IntVal(EXTERNAL)

    def forced_list(c, a, snap=None):
        h = (snap or c.pre).heap('std::list<TransitionInfo>')
        return E.view(V(h.t.val, tmap(lambda x: z3.Select(x, a), h.tr['d'])))

    def dts_act(c):
        act, f = c.F0('mActiveStates'), c.arg(1)
        yield 'no-child-so-far', Fa(1, lambda q: Imp(And(c.pos <= q, q < act.hi), Or(act.at(q) == f, Not(HP(act.at(q))), par(act.at(q)) != f)), lambda q: act.at(q))
        yield 'correct', c.L('isCorrectTransition')
        yield 'range', And(act.lo <= c.pos, c.pos <= act.hi)

    def dts_add(c):
        f, out, out0, es = c.arg(1), c.argp(2), c.arg(2), c.L('entryStates')
        n = c.pos - es.lo
        yield 'range', And(es.lo <= c.pos, c.pos <= es.hi)
        yield 'kept', seq_prefix(out, out0)
        yield 'count', out.hi == out0.hi + n
        yield 'targets', Fa(1, lambda q: Imp(And(out0.hi <= q, q < out.hi), And(
            out.at(q, 'fromState') == f, out.at(q, 'onTransition') == 0, out.at(q, 'transitionType') == XT(c),
            out.at(q, 'destinationState') == es.at(es.lo + q - out0.hi))), lambda q: out.at(q, 'destinationState'))
        yield 'lo', es.lo == 0
    A('determineTargetState', ['C01', 'C06', 'C07'], lambda c: forest(c) + defs(c) + event_ok(c, 0) + [('empty', c.arg(2).lo == c.arg(2).hi)], dts_ens,
      ['#2', 'ghost:src', 'ghost:dst', 'ghost:esrc', 'ghost:edst'], loops={0: dts_act, 1: dts_add},
      entry=lambda eng, c: touch(eng, firstE(c.arg(1), ei(c, 0)['id'], ev_args(c, 0))))

    # ------------------------------------------------------------------ internal self transitions
    def is_self(l, i):
        return And(l.at(i, 'fromState') == l.at(i, 'destinationState'), l.at(i, 'transitionType') == INTERNAL)

    def est_facts(c, upto):
        l, T, T0 = c.arg(1), c.G('T'), c.G0('T')
        src, dst, a = c.G('ssrc'), c.G('sdst'), ev_args(c, 0)
        yield 'only-self-transition-callbacks', Fa(1, lambda q: Imp(And(T0.hi <= q, q < T.hi), And(
            T.at(q, 'k') == K_TRANS, l.lo <= src.at(q), src.at(q) < upto, is_self(l, src.at(q)), T.at(q, 'f') == l.at(src.at(q), 'onTransition'),
            T.at(q, 'f') != 0, T.at(q, 'x') == a)), lambda q: [T.at(q, 'k'), src.at(q)])
        yield 'in-order', Fa(2, lambda p, q: Imp(And(T0.hi <= p, p < q, q < T.hi), src.at(p) < src.at(q)), lambda p, q: MP(src.at(p), src.at(q)))
        yield 'every-self-transition-called', Fa(1, lambda i: Imp(And(l.lo <= i, i < upto, is_self(l, i), l.at(i, 'onTransition') != 0), And(
            T0.hi <= dst.at(i), dst.at(i) < T.hi, src.at(dst.at(i)) == i)), lambda i: [l.at(i, 'onTransition'), dst.at(i)])

    def no_self(l, upto):
        return Fa(1, lambda i: Imp(And(l.lo <= i, i < upto), Not(is_self(l, i))), lambda i: [l.at(i, 'fromState'), l.at(i, 'transitionType')])

    def est_inv(c):
        l = c.arg(1)
        yield 'range', And(l.lo <= c.pos, c.pos <= l.hi)
        yield from est_facts(c, c.pos)
        yield 'had', c.L('hadSelfTransitions') == Not(no_self(l, c.pos))
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)

    def est_ghost(eng, c):
        T, pos = c.G('T'), c.pos
        for g, kk, v in (('ssrc', T.hi, pos), ('sdst', pos, T.hi)):
            m = eng.store[('ghost', g)]
            eng.store[('ghost', g)] = V(m.t, {'d': z3.Store(m.tree['d'], kk, v), 'dom': m.tree['dom']})

    def est_ens(c):
        l = c.arg(1)
        for lb, f in est_facts(c, l.hi):
            yield 'C04:' + lb, f
        yield 'result', c.ret == Not(no_self(l, l.hi))
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)
    evreq = lambda c: wfreq(c) + event_ok(c, 0)
    A('executeSelfTransitions', ['C01', 'C04'], evreq, est_ens, CBM + ['ghost:ssrc', 'ghost:sdst'],
      loops={0: {'inv': est_inv, 'ghost': est_ghost}})

    # ------------------------------------------------------------------ leaving states
    def has_cb(c, x, field):
        reg = c.F0('mRegisteredStates')
        return And(reg.has(x), reg.at(x, field) != 0)

    def considered(l, i):
        return Or(l.at(i, 'fromState') != l.at(i, 'destinationState'), l.at(i, 'transitionType') == EXTERNAL)

    def none_considered(l, upto):
        return Fa(1, lambda i: Imp(And(l.lo <= i, i < upto), Not(considered(l, i))), lambda i: [l.at(i, 'fromState'), l.at(i, 'transitionType')])

    def gone(f, x):
        return Or(x == f, Anc(f, x))

    def empty(s):
        return s.lo == s.hi

    def exited(A0, out, f):
        """out: states of A0 below f, innermost (latest) first"""
        yield 'exited-were-active', Fa(1, lambda x: Imp(out.has(x), And(A0.has(x), gone(f, x))), lambda x: out.has(x))
        yield 'exited-once', nodup(out)
        yield 'exit-order', Fa(2, lambda i, j: Imp(And(out.lo <= i, i < j, j < out.hi), A0.pos(out.at(i)) > A0.pos(out.at(j))), lambda i, j: MP(out.at(i), out.at(j)))

    def all_exited(A0, out, f):
        return Fa(1, lambda x: Imp(And(A0.has(x), gone(f, x)), out.has(x)), lambda x: [A0.has(x), out.has(x)])

    def remaining(A1, A0, out):
        yield 'others-stay-active', Fa(1, lambda y: A1.has(y) == And(A0.has(y), Not(out.has(y))), lambda y: [A1.has(y), A0.has(y)])
        yield 'others-order', Fa(2, lambda x, y: Imp(And(A1.has(x), A1.has(y), A0.pos(x) < A0.pos(y)), A1.pos(x) < A1.pos(y)), lambda x, y: MP(A1.pos(x), A1.pos(y)))
        yield 'no-duplicates', nodup(A1)

    def exit_trace(c, A0, out, T0hi, upto, ok=True):
        """trace [T0hi,upto): exit callbacks of the states in out, in that order, each once, plus their actions"""
        T, xs = c.G('T'), c.G('xslot')
        reg = c.F0('mRegisteredStates')
        E_ = lambda q: And(T0hi <= q, q < upto, T.at(q, 'k') == K_EXIT)
        yield 'exit-callbacks-of-exited-states', Fa(1, lambda q: Imp(E_(q), And(
            out.has(T.at(q, 's')), xs.at(T.at(q, 's')) == q, has_cb(c, T.at(q, 's'), 'onExiting'), T.at(q, 'f') == reg.at(T.at(q, 's'), 'onExiting'), T.at(q, 'r'))),
            lambda q: T.at(q, 'k'))
        yield 'exit-callback-called', Fa(1, lambda x: Imp(And(out.has(x), has_cb(c, x, 'onExiting')), And(
            T0hi <= xs.at(x), xs.at(x) < upto, T.at(xs.at(x), 'k') == K_EXIT, T.at(xs.at(x), 's') == x)), lambda x: [out.has(x), xs.at(x)])
        yield 'exit-callback-order', Fa(2, lambda p, q: Imp(And(E_(p), E_(q), p < q), A0.pos(T.at(p, 's')) > A0.pos(T.at(q, 's'))),
                                        lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))
        yield 'only-exits', Fa(1, lambda q: Imp(And(T0hi <= q, q < upto), Or(T.at(q, 'k') == K_EXIT, is_act(T.at(q, 'k')))), lambda q: T.at(q, 'k'))

    def xet_from(c):
        l = c.arg(1)
        return l.at(l.lo, 'fromState')

    def xet_req(c):
        l, e = c.arg(1), ei(c, 0)
        return forest(c) + trans(c) + act_nodup(c) + evreq(c) + [
            ('nothing-exited-yet', And(c.arg(2).lo == c.arg(2).hi, c.arg(2).lo == 0)),
            ('one-source', Imp(e['transitionType'] == REGULAR, Fa(1, lambda i: Imp(l.inr(i), l.at(i, 'fromState') == xet_from(c)), lambda i: l.at(i, 'fromState'))))]

    def xet_common(c):
        yield from rely_facts(c)
        yield from pend_wf(c, c.F)

    def xet_outer(c):
        l, e, f = c.arg(1), ei(c, 0), xet_from(c)
        A0, A1, out, T0, T = c.F0('mActiveStates'), c.F('mActiveStates'), c.argp(2), c.G0('T'), c.G('T')
        yield 'range', And(l.lo <= c.pos, c.pos <= l.hi)
        yield 'allowed', c.L('isExitAllowed')
        yield from xet_common(c)
        yield 'not-regular', Imp(e['transitionType'] != REGULAR, And(T.same(T0), empty(out)))
        yield 'nothing-done', Imp(none_considered(l, c.pos), And(T.same(T0), empty(out)))
        yield 'nothing-exited', Imp(empty(out), A1.same(A0))
        yield 'done', Imp(e['transitionType'] == REGULAR, Or(none_considered(l, c.pos), all_exited(A0, out, f)))
        yield 'all-or-none', Or(empty(out), all_exited(A0, out, f))
        yield from exited(A0, out, f)
        yield from remaining(A1, A0, out)
        yield from exit_trace(c, A0, out, T0.hi, T.hi)

    def xet_exit(c):
        f, A0, T0, T = xet_from(c), c.F0('mActiveStates'), c.G0('T'), c.G('T')
        A1, out, outE = c.F('mActiveStates'), c.argp(2), c.arg(2, c.entry)
        yield 'allowed', And(c.L('isExitAllowed'), A1.lo <= c.pos, c.pos <= A1.hi)
        yield from xet_common(c)
        yield 'active-kept', A1.same(c.entry.field('mActiveStates'))
        yield 'so-far', Fa(1, lambda x: out.has(x) == Or(outE.has(x), And(A1.has(x), A1.pos(x) >= c.pos, gone(f, x))), lambda x: [out.has(x), A1.has(x)])
        yield 'first-pass', Or(And(empty(outE), A1.same(A0)), all_exited(A0, outE, f))
        yield from exited(A0, out, f)
        yield from exit_trace(c, A0, out, T0.hi, T.hi)
        yield 'outE-kept', seq_prefix(out, outE)

    def xet_remove(c):
        A1, A0, out = c.F('mActiveStates'), c.entry.field('mActiveStates'), c.argp(2)
        yield 'range', And(out.lo <= c.pos, c.pos <= out.hi)
        yield 'start', Imp(c.pos == out.lo, A1.same(A0))
        yield 'removed', Fa(1, lambda y: A1.has(y) == And(A0.has(y), Not(And(out.has(y), out.pos(y) < c.pos))), lambda y: [A1.has(y), A0.has(y)])
        yield 'order', Fa(2, lambda x, y: Imp(And(A1.has(x), A1.has(y), A0.pos(x) < A0.pos(y)), A1.pos(x) < A1.pos(y)), lambda x, y: MP(A1.pos(x), A1.pos(y)))
        yield 'no-duplicates', nodup(A1)

    def restored(c, A1, A0, out, frm):
        """states out[frm..) are active again, after all the others, in their old order"""
        done = lambda x: And(out.has(x), out.pos(x) >= frm)
        yield 'same-set', Fa(1, lambda y: A1.has(y) == A0.has(y), lambda y: [A1.has(y), A0.has(y)])
        lt = lambda x, y: MP(A1.pos(x), A1.pos(y))
        if ORDER: yield 'untouched-order', Fa(2, lambda x, y: Imp(And(A0.has(x), A0.has(y), Not(done(x)), Not(done(y)), A0.pos(x) < A0.pos(y)), A1.pos(x) < A1.pos(y)), lt)
        if ORDER: yield 'restored-last', Fa(2, lambda x, y: Imp(And(A0.has(x), A0.has(y), Not(done(x)), done(y)), A1.pos(x) < A1.pos(y)), lt)
        if ORDER: yield 'restored-order', Fa(2, lambda x, y: Imp(And(A0.has(x), A0.has(y), done(x), done(y), A0.pos(x) < A0.pos(y)), A1.pos(x) < A1.pos(y)), lt)
        yield 'no-duplicates', nodup(A1)

    def reenter_trace(c, A0, out, base, upto, frm):
        """trace [base,upto): the states out[frm..) are entered again (no arguments), parents first, each exactly once"""
        T, es, cs = c.G('T'), c.G('eslot'), c.G('cslot')
        done = lambda x: And(out.has(x), out.pos(x) >= frm)
        N = lambda q, k: And(base <= q, q < upto, T.at(q, 'k') == k)
        for k, sl, fld, nm in ((K_ENTER, es, 'onEntering', 'enter'), (K_CHANGED, cs, 'onStateChanged', 'changed')):
            yield nm + '-of-exited-only', Fa(1, lambda q: Imp(N(q, k), And(done(T.at(q, 's')), sl.at(T.at(q, 's')) == q, has_cb(c, T.at(q, 's'), fld), T.at(q, 'x') == EMPTY_ARGS)),
                                             lambda q: T.at(q, 'k'))
            yield nm + '-called', Fa(1, lambda x: Imp(And(done(x), has_cb(c, x, fld)), And(
                base <= sl.at(x), sl.at(x) < upto, T.at(sl.at(x), 'k') == k, T.at(sl.at(x), 's') == x)), lambda x: [out.pos(x), sl.at(x)])
        yield 'reenter-order', Fa(2, lambda p, q: Imp(And(N(p, K_ENTER), N(q, K_ENTER), p < q), A0.pos(T.at(p, 's')) < A0.pos(T.at(q, 's'))),
                                  lambda p, q: MP(T.at(p, 'k'), T.at(q, 'k')))
        yield 'only-reentry', Fa(1, lambda q: Imp(And(base <= q, q < upto), Or(T.at(q, 'k') == K_ENTER, T.at(q, 'k') == K_CHANGED, is_act(T.at(q, 'k')))), lambda q: T.at(q, 'k'))

    def xet_rollback(c):
        A0, A1, out = c.F0('mActiveStates'), c.F('mActiveStates'), c.argp(2)
        TE, T = c.entry.ghost('T'), c.G('T')
        yield 'range', And(out.lo <= c.pos, c.pos <= out.hi)
        yield 'vetoed', Not(c.L('isExitAllowed'))
        yield from xet_common(c)
        yield 'after-exits', seq_prefix(T, TE)
        yield 'veto', c.G('veto') == TE.hi - 1
        yield from restored(c, A1, A0, out, c.pos)
        yield from reenter_trace(c, A0, out, TE.hi, T.hi, c.pos)

    def veto_at(c, T, q):
        """the exit callback recorded at q refused"""
        return And(T.at(q, 'k') == K_EXIT, Not(T.at(q, 'r')))

    def ordered(A):
        return Fa(2, lambda x, y: Imp(And(A.has(x), A.has(y), Anc(x, y)), A.pos(x) < A.pos(y)), lambda x, y: MP(A.pos(x), A.pos(y)))

    def xet_ens(c):
        l, e, f = c.arg(1), ei(c, 0), xet_from(c)
        A0, A1, out, T0, T = c.F0('mActiveStates'), c.F('mActiveStates'), c.argp(2), c.G0('T'), c.G('T')
        nothing = Or(e['transitionType'] != REGULAR, none_considered(l, l.hi))
        yield from xet_common(c)
        yield 'C02:nothing-to-exit', Imp(nothing, And(c.ret, T.same(T0), A1.same(A0), empty(out)))
        go = And(Not(nothing), c.ret)
        yield 'C04:source-and-descendants-exited', Imp(go, all_exited(A0, out, f))
        for lb, g in exited(A0, out, f):
            yield 'C04:' + lb, Imp(c.ret, g)
        for lb, g in remaining(A1, A0, out):
            yield 'C05:' + lb, Imp(c.ret, g)
        for lb, g in exit_trace(c, A0, out, T0.hi, T.hi):
            yield 'C04:' + lb, Imp(c.ret, g)
        # a veto
        no = Not(c.ret)
        for lb, g in restored(c, A1, A0, out, out.lo):
            yield 'C02:' + lb, Imp(no, g)
        if ORDER: yield 'C02:parents-before-children', Imp(And(no, ordered(A0)), ordered(A1))
        vt = c.G('veto')
        yield 'C02:veto-is-callback-answer', Imp(no, And(T0.hi <= vt, vt < T.hi, veto_at(c, T, vt), gone(f, T.at(vt, 's')), A0.has(T.at(vt, 's'))))
        for lb, g in exit_trace(c, A0, out, T0.hi, vt):
            yield 'C02:' + lb, Imp(no, g)
        for lb, g in reenter_trace(c, A0, out, vt + 1, T.hi, out.lo):
            yield 'C02:' + lb, Imp(no, g)
    A('executeExitTransition', ['C02', 'C04', 'C05', 'C15'], xet_req, xet_ens,
      CBM + ['ghost:xslot', 'ghost:eslot', 'ghost:cslot', 'ghost:veto', 'mActiveStates', 'mHistoryData', '#2'] + ['ghost:' + g for g in ('hup', 'hs', 'hp', 'hr', 'hq')],
      loops={0: xet_outer, 1: xet_exit, 2: xet_remove, 3: xet_rollback})

    # ------------------------------------------------------------------ recording what was active
    def row_of(c, p, i):
        t = c.F0('mHistoryStates')
        return And(t.lo(p) <= i, i < t.hi(p))

    def recd(m, h):
        return E.view(V(m.t.val.fields['previousActiveStates'], m.at(h, 'previousActiveStates')))

    def on_path(x, e):
        return Or(x == e, Anc(x, e))

    def in_chain(c, p, e):
        """p is an ancestor of e, not beyond the top level state of the transition"""
        return And(Anc(p, e), Not(And(Anc(c.arg(0), e), Anc(p, c.arg(0)))))

    def holds(m, h, x, e):
        """the history h has the state x left below its parent (shallow) or the innermost state left (deep)"""
        l, ty = recd(m, h), m.at(h, 'type')
        return And(Imp(ty == 0, l.has(x)), Imp(ty == 1, l.has(e)))

    def taken(c, x, e):
        t, m, up = c.F0('mHistoryStates'), c.F('mHistoryData'), c.G('hup')
        return Fa(1, lambda i: Imp(And(row_of(c, par(x), i), m.has(t.at(i))), And(up.at(t.at(i)), holds(m, t.at(i), x, e))), lambda i: t.at(i))

    def uh_facts(c):
        m0, m, t = c.F0('mHistoryData'), c.F('mHistoryData'), c.F0('mHistoryStates')
        ex, up = c.arg(1), c.G('hup')
        hs, hp, hr = c.G('hs'), c.G('hp'), c.G('hr')
        k = lambda h, y: PKey(h, y)
        first = lambda mm, h: recd(mm, h).lo
        yield 'C07:histories-kept', Fa(1, lambda h: And([m.has(h) == m0.has(h)] + [m.at(h, f) == m0.at(h, f) for f in ('type', 'defaultTarget', 'defaultTargetTransitionCallback')]),
                                       lambda h: [m.has(h), m.at(h, 'type'), m.at(h, 'defaultTarget'), m.at(h, 'defaultTargetTransitionCallback')])
        yield 'C07:other-records-kept', Fa(1, lambda h: Imp(Not(up.at(h)), recd(m, h).same(recd(m0, h))), lambda h: [first(m, h), up.at(h)])
        yield 'C07:recorded-for-its-parent', Fa(2, lambda h, y: Imp(And(up.at(h), recd(m, h).has(y)), And(
            ex.lo <= hs.at(k(h, y)), hs.at(k(h, y)) < ex.hi, t.at(hr.at(k(h, y))) == h, row_of(c, hp.at(k(h, y)), hr.at(k(h, y))),
            in_chain(c, hp.at(k(h, y)), ex.at(hs.at(k(h, y)))))), lambda h, y: recd(m, h).has(y))
        yield 'C07:only-what-was-left:shallow', Fa(2, lambda h, y: Imp(And(up.at(h), recd(m, h).has(y), m.at(h, 'type') == 0), And(
            HP(y), par(y) == hp.at(k(h, y)), on_path(y, ex.at(hs.at(k(h, y)))))), lambda h, y: recd(m, h).has(y))
        yield 'C07:only-what-was-left:deep', Fa(2, lambda h, y: Imp(And(up.at(h), recd(m, h).has(y), m.at(h, 'type') == 1),
                                                y == ex.at(hs.at(k(h, y)))), lambda h, y: recd(m, h).has(y))
        yield 'C07:recorded-once', Fa(1, lambda h: Imp(up.at(h), nodup(recd(m, h))), lambda h: first(m, h))
        yield 'C07:replaced-by-a-new-record', Fa(1, lambda h: Imp(And(up.at(h), m.at(h, 'type') >= 0, m.at(h, 'type') <= 1), recd(m, h).lo < recd(m, h).hi), lambda h: [first(m, h), up.at(h)])
        yield 'C07:in-exit-order', Fa(3, lambda h, i, j: Imp(And(up.at(h), recd(m, h).lo <= i, i < j, j < recd(m, h).hi),
                                      hs.at(k(h, recd(m, h).at(i))) <= hs.at(k(h, recd(m, h).at(j)))), lambda h, i, j: MP(recd(m, h).at(i), recd(m, h).at(j)))

    def uh_done(c, upto):
        ex = c.arg(1)
        yield 'C07:everything-left-recorded', Fa(2, lambda q, x: Imp(And(ex.lo <= q, q < upto, HP(x), on_path(x, ex.at(q)), Not(And(Anc(c.arg(0), ex.at(q)), on_path(x, c.arg(0))))),
                                                 taken(c, x, ex.at(q))), lambda q, x: MP(ex.at(q), par(x)))

    def uh_ens(c):
        yield from uh_facts(c)
        yield from uh_done(c, c.arg(1).hi)

    def uh_common(c):
        up, u = c.G('hup'), c.L('upatedHistory')
        yield from uh_facts(c)
        yield 'updated-list', Fa(1, lambda h: u.has(histAddr(h)) == up.at(h), lambda h: [histAddr(h), up.at(h)])
        yield 'only-with-data', Fa(1, lambda h: Imp(up.at(h), c.F('mHistoryData').has(h)), lambda h: up.at(h))

    def uh_sofar(c, upto):
        up, m = c.G('hup'), c.F('mHistoryData')
        yield 'recorded-so-far', Fa(2, lambda h, y: Imp(And(up.at(h), recd(m, h).has(y)), c.G('hs').at(PKey(h, y)) < upto), lambda h, y: recd(m, h).has(y))

    def uh_outer(c):
        yield from uh_sofar(c, c.pos)
        yield 'range', And(c.arg(1).lo <= c.pos, c.pos <= c.arg(1).hi)
        yield from uh_common(c)
        yield from uh_done(c, c.pos)

    def uh_climb(c):
        ex, q, cur, top = c.arg(1), c.G('hq'), c.L('curState'), c.arg(0)
        e = ex.at(q)
        yield 'this-exit', And(ex.lo <= q, q < ex.hi, c.L('activeState') == e)
        yield from uh_common(c)
        yield from uh_done(c, q)
        yield from uh_sofar(c, q + 1)
        yield 'on-path', on_path(cur, e)
        yield 'not-beyond-top', Or(Not(Anc(top, e)), Anc(top, cur))
        yield 'below-done', Fa(1, lambda x: Imp(And(HP(x), on_path(x, e)), Or(x == cur, Anc(x, cur), taken(c, x, e))), lambda x: [par(x), HP(x)])

    def uh_rows(c):
        t, m, up = c.F0('mHistoryStates'), c.F('mHistoryData'), c.G('hup')
        cur, p = c.L('curState'), c.L('parentState')
        e = c.arg(1).at(c.G('hq'))
        yield 'range', And(t.lo(p) <= c.pos, c.pos <= t.hi(p), HP(cur), p == par(cur))
        yield from uh_climb(c)
        yield 'chain', in_chain(c, p, e)
        yield 'rows-done', Fa(1, lambda i: Imp(And(t.lo(p) <= i, i < c.pos, m.has(t.at(i))), And(up.at(t.at(i)), holds(m, t.at(i), cur, e))), lambda i: t.at(i))

    def gst(eng, g, k, v):
        x = eng.store[('ghost', g)]
        eng.store[('ghost', g)] = V(x.t, {'dom': x.tree['dom'], 'd': z3.Store(x.tree['d'], k, v)})

    def uh_begin(eng, c):
        eng.store[('ghost', 'hq')] = V(TINT, c.pos)

    def uh_up(eng, c):
        cur = c.L('curState')
        touch(eng, Anc(par(cur), cur))

    def uh_row(eng, c):
        t, m, ex = c.F0('mHistoryStates'), c.F('mHistoryData'), c.arg(1)
        h, cur, q = t.at(c.pos), c.L('curState'), c.G('hq')
        y = If(m.at(h, 'type') == 0, cur, ex.at(q))
        new = Not(And(c.G('hup').at(h), recd(m, h).has(y)))
        k = PKey(h, y)
        for g, v in (('hs', q), ('hp', c.L('parentState')), ('hr', c.pos)):
            gst(eng, g, k, If(new, v, c.G(g).at(k)))

    def uh_row_end(eng, c):
        t, m = c.F0('mHistoryStates'), c.F('mHistoryData')
        h = t.at(c.pos - 1)
        gst(eng, 'hup', h, Or(m.has(h), c.G('hup').at(h)))

    def uh_entry(eng, c):
        g = eng.store[('ghost', 'hup')]
        eng.store[('ghost', 'hup')] = V(g.t, {'dom': g.tree['dom'], 'd': z3.K(IntS, z3.BoolVal(False))})
    A('updateHistory', ['C07'], lambda c: forest(c) + trans(c), uh_ens, ['mHistoryData'] + ['ghost:' + g for g in ('hup', 'hs', 'hp', 'hr', 'hq')],
      loops={0: {'inv': uh_outer, 'ghost': uh_begin}, 1: {'inv': uh_climb, 'ghost': uh_up}, 2: {'inv': uh_rows, 'ghost': uh_row, 'end': uh_row_end}}, entry=uh_entry)
    S.restored, S.reenter_trace, S.exited, S.all_exited, S.remaining, S.exit_trace = restored, reenter_trace, exited, all_exited, remaining, exit_trace
    S.has_cb, S.evreq, S.wfreq, S.act_nodup, S.gone, S.considered, S.none_considered = has_cb, evreq, wfreq, act_nodup, gone, considered, none_considered
    S.actions_done, S.actions_valid, S.removed, S.ordered, S.veto_at, S.dts_ens = actions_done, actions_valid, removed, ordered, veto_at, dts_ens
    S.is_self, S.no_self = is_self, no_self
    return S
