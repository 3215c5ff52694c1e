"""Contracts of HierarchicalStateMachine::Impl (src/HsmImpl.cpp) and of the event/registration records (src/HsmImplTypes.cpp)."""
import re

import z3
from specs_base import *

# ghost trace kinds
(K_EXIT, K_ENTER, K_CHANGED, K_TRANS, K_FAIL, K_TSTART, K_TSTOP, K_TRESTART, K_QBACK, K_QFRONT, K_QPOP, K_QCLEAR, K_QOTHER,
 K_REG, K_UNREG, K_DSTART, K_ENQUEUE, K_DONE, K_RELEASE, K_NOTIFY) = range(1, 21)
CB = {'HsmStateExitCallback_t': K_EXIT, 'HsmStateEnterCallback_t': K_ENTER, 'HsmStateChangedCallback_t': K_CHANGED,
      'HsmTransitionCallback_t': K_TRANS, 'HsmTransitionFailedCallback_t': K_FAIL}
I = 'Impl::'
B_ = z3.BoolVal
EMPTY_ARGS = z3.IntVal(0)
# enumerators (checked against the sources when a function is verified)
ENUMS = {'TransitionBehavior': ('REGULAR', 'ENTRYPOINT', 'FORCED'), 'HsmEventStatus': ('PENDING', 'DONE_OK', 'DONE_FAILED', 'CANCELED'),
         'TransitionType': ('INTERNAL_TRANSITION', 'EXTERNAL_TRANSITION'), 'HistoryType': ('SHALLOW', 'DEEP'),
         'StateActionTrigger': ('ON_STATE_ENTRY', 'ON_STATE_EXIT'),
         'StateAction': ('START_TIMER', 'STOP_TIMER', 'RESTART_TIMER', 'TRANSITION')}
REGULAR, ENTRYPOINT, FORCED = 0, 1, 2
PENDING, DONE_OK, DONE_FAILED, CANCELED = 0, 1, 2, 3
INTERNAL, EXTERNAL = 0, 1
SHALLOW, DEEP = 0, 1
ON_ENTRY, ON_EXIT = 0, 1
START, STOP, RESTART, TRANSITION = 0, 1, 2, 3

# uninterpreted symbols
condv = z3.Function('condition', IntS, IntS, BoolS)            # condition callback x arguments -> value
vsize = z3.Function('vsize', IntS, IntS)                       # argument vectors
velem = z3.Function('velem', IntS, IntS, IntS)
vapp = z3.Function('vappend', IntS, IntS, IntS)
Tail = z3.Function('tail', IntS, IntS, BoolS)                    # all elements but the first
toInt64 = z3.Function('Variant::toInt64', IntS, IntS)
toBool = z3.Function('Variant::toBool', IntS, BoolS)
isNumeric = z3.Function('Variant::isNumeric', IntS, BoolS)
isBool = z3.Function('Variant::isBool', IntS, BoolS)
Anc = z3.Function('Anc', IntS, IntS, BoolS)                    # proper ancestor in the substate table at function entry
pidx = z3.Function('parentIndex', IntS, IntS)                  # index of the table entry that names the state as a child
rank = z3.Function('rank', IntS, IntS)
histAddr = z3.Function('addressOfRecord', IntS, IntS)            # history state -> address of its list of recorded states
histOf = z3.Function('recordAtAddress', IntS, IntS)
SELF = z3.Int('self')                                              # the shared pointer to this machine
lockOf = z3.Function('lockOfStatus', IntS, IntS)               # status cell of a synchronous event -> the mutex that protects it


def check_enums(eng):
    for e, names in ENUMS.items():
        for i, n in enumerate(names):
            for tu in eng.prog.tus:
                v = tu.enum_consts.get('%s::%s' % (e, n))
                if v is not None and int(str(v)) != i:
                    raise ExtractionError('enumerator %s::%s is %s, the contracts expect %d' % (e, n, v, i))


class ImplSpecs(Specs):
    lock_protected = {'mPendingEvents': 'mEventsSync'}
    unframed = {'mParent'}
    heaps = ('VariantVector_t', 'HsmEventStatus', 'std::list<TransitionInfo>', 'Mutex', 'ConditionVariable')
    callback_havoc = ('mPendingEvents', 'mDispatcher', 'mStopDispatching', 'mEventsHandlerId')
    diag_functions = tuple('Impl::' + f for f in ('logHsmAction', 'disableHsmDebugging'))
    diag_types = re.compile(r'filebuf|basic_ostream|\bostream|std::array<char|std::chrono|time_point|\btm\b|time_t|basic_string|std::string|HsmLogAction, std|'
                            r'HsmLogAction, const char')
    diag_calls = ('localtime', 'strftime', 'snprintf', 'strncpy', 'to_time_t', 'toString')   # (Variant::toString: suite variant)

    def range_of(self, eng, loc):
        if eng.cur_key in self.diag_functions:      # the texts of some values are written out
            t = TSeq(TInt('Variant'), 'vector')
            v = V(t, fresh_tree(shape(t), 'texts'))
            for f in wf(t, v.tree):
                eng.assume(f)
            return eng.temp(v)
        return super().range_of(eng, loc)

    def type_override(self, s):
        if s in ('VariantVector_t', 'std::vector<Variant>', 'Variant'):
            return TInt(s)
        if s == 'AtomicFlag':
            return TBOOL
        if s in ('UniqueLock', 'HierarchicalStateMachine'):
            return TInt('opaque')
        return super().type_override(s)

    def ghosts(self, eng):
        pm = TMap(TStruct('pair', {'first': TINT, 'second': TINT}), TINT)
        return {'simS': pm, 'simR': pm, 'simB': TMap(TINT, TINT), 'simW': TINT,
                'mt': eng.ty('std::list<TransitionInfo>'), 'mx': eng.ty('std::list<StateID_t>'), 'mok': TBOOL, 'xok': TBOOL, 'self': TBOOL, 'ts': TINT, 'te': TINT,
                'mesrc': TMap(TINT, TINT), 'medst': TMap(TINT, TINT), 'tp': TMap(TINT, TINT), 'te0': TMap(TINT, TINT), 'tq': TMap(TINT, TINT), 'tact': TMap(TINT, TBOOL),
                'dsnap': eng.ty('std::list<StateID_t>'), 'flist': eng.ty('std::list<StateID_t>'), 'dcall': TMap(TINT, TBOOL), 'dact': TMap(TINT, TBOOL), 'dres': TMap(TINT, TINT),
                'dw': TMap(TINT, TINT), 'dn': TINT, 'dpw': TINT, 'gx': TMap(TINT, TINT), 'gi': TMap(TINT, TINT),
                'tres': TMap(TINT, TINT), 'tl': TINT, 'tf': TINT,
                'dev': eng.ty('PendingEventInfo'), 'dret': TINT, 'dcnt': TINT, 'runs': TINT, 'fnot': TINT, 'sum': TINT, 'sualive': TBOOL, 'hup': TMap(TINT, TBOOL), 'hs': pm, 'hp': pm, 'hr': pm, 'hq': TINT,
                'hgrp': TMap(TINT, TINT), 'hstart': TMap(TINT, TINT), 'hwit': TMap(TINT, TINT), 'hn': TINT,
                'T': trace_type(), 'cur': TINT, 'fin': TINT, 'flast': TBOOL, 'slot': TMap(TINT, TINT), 'alloc': TInt('alloc'), 'wake': TINT,
                'src': TMap(TINT, TINT), 'dst': TMap(TINT, TINT), 'esrc': TMap(TINT, TINT), 'edst': TMap(TINT, TINT),
                'ssrc': TMap(TINT, TINT), 'veto': TINT, 'sdst': TMap(TINT, TINT),
                'qsrc': TMap(TINT, TINT), 'qdst': TMap(TINT, TINT), 'xslot': TMap(TINT, TINT), 'eslot': TMap(TINT, TINT), 'cslot': TMap(TINT, TINT)}

    def axioms(self, eng):
        v, e, i = z3.Int('av'), z3.Int('ae'), z3.Int('ai')
        a = vapp(v, e)
        check_enums(eng)
        return [vsize(EMPTY_ARGS) == 0,
                forall([v], And(vsize(v) >= 0, vsize(v) < 2**62), patterns=[vsize(v)]),
                forall([v, e], Tail(v, e) == And(vsize(v) == vsize(e) - 1, forall([i], Imp(And(0 <= i, i < vsize(v)),
                       velem(v, i) == velem(e, i + 1)), patterns=[velem(v, i)])), patterns=[Tail(v, e)]),
                forall([v], And(toInt64(v) >= -2**63, toInt64(v) < 2**63), patterns=[toInt64(v)]),
                forall([v, e], And(vsize(a) == vsize(v) + 1, velem(a, vsize(v)) == e), patterns=[a]),
                forall([v, e, i], Imp(And(0 <= i, i < vsize(v)), velem(a, i) == velem(v, i)), patterns=[velem(a, i)])]

    def index(self, eng, t, x, i):
        if getattr(t, 'name', None) in ('VariantVector_t', 'std::vector<Variant>'):
            eng.oblige('safe:index-in-range', And(0 <= i, i < vsize(x)))
            return eng.temp(velem(x, i), TInt('Variant'))
        return NotImplemented

    SLOTS = {K_EXIT: 'xslot', K_ENTER: 'eslot', K_CHANGED: 'cslot'}

    def slots(self, eng, kw, cur, at):
        g = self.SLOTS.get(kw['k'].as_long())
        return [(g, cur, at)] if g else []

    def emit(self, eng, **kw):
        at = eng.store[('ghost', 'T')].tree['hi']
        super().emit(eng, **kw)
        if z3.is_int_value(kw['k']) and kw['k'].as_long() == K_EXIT:
            v = eng.store[('ghost', 'veto')]
            eng.store[('ghost', 'veto')] = V(v.t, If(kw['r'], v.tree, at))

    # ---- the status of a synchronous event is shared with the waiting thread
    def on_deref(self, eng, loc):
        if loc.root != ('heap', 'HsmEventStatus') or ('this',) not in eng.store:
            return
        a = loc.path[0][1]
        eng.ensure_heap('Mutex')
        m = next(iter(t_leaves(eng.store[('heap', 'Mutex')].tree)))
        T, T0 = eng.store[('ghost', 'T')].tree, eng.pre.store[('ghost', 'T')].tree
        private = And(a >= eng.pre.store[('ghost', 'alloc')].tree, T['hi'] == T0['hi'])     # created here and not yet handed over
        eng.oblige('safe:C17:event-lock-held-for-status', Or(private, z3.Select(m, lockOf(a))))

    # ---- queue operations are recorded in the trace
    def on_seq(self, eng, op, loc, t, before):
        if loc.root != ('this',) or loc.path != (('f', 'mPendingEvents'),):
            return
        now = eng.locate(loc)[1]
        if op in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            p = now['hi'] - 1 if op.endswith('back') else now['lo']
            x = t_select(now['d'], p)
            if ('ghost', 'published') not in eng.store:
                # first event handed over by this call: names the mutex of its status (definition of lockOf for a cell created here)
                eng.store[('ghost', 'published')] = V(TINT, z3.IntVal(1))
                eng.assume(Imp(x['transitionStatus'] >= eng.pre.store[('ghost', 'alloc')].tree, lockOf(x['transitionStatus']) == x['cvLock']))
            self.emit(eng, k=z3.IntVal(K_QBACK if op.endswith('back') else K_QFRONT), x=x['id'], y=x['transitionType'],
                      z=x['forcedTransitionsInfo'], r=x['ignoreEntryPoints'], f=x['args'], s=x['cvLock'],
                      u=x['transitionStatus'])
        elif op == 'pop_front':
            x = t_select(before['d'], before['lo'])
            self.emit(eng, k=z3.IntVal(K_QPOP), s=z3.IntVal(0))
        elif op in ('clear', 'erase'):
            self.emit(eng, k=z3.IntVal(K_QCLEAR), s=z3.IntVal(0))
        else:
            self.emit(eng, k=z3.IntVal(K_QOTHER), s=z3.IntVal(0))

    # ---- user code
    def callback(self, eng, h, alias, args, rt, ty):
        al = alias.split('::')[-1]
        if al == 'HsmTransitionConditionCallback_t':
            return condv(h, eng.rv(args[0]))
        k = CB.get(al)
        if k is None:
            raise E.Unsupported('callback ' + al)
        if eng.pure:
            raise E.Unsupported('callback in pure context')
        th = eng.store[('this',)].tree
        for l in ('mEventsSync', 'mParentSync'):
            if l in th:
                eng.oblige('safe:C17:%s-not-held-at-callback' % l, Not(th[l]['held']))
        r = z3.Bool(fresh_name('cbres'))
        kw = dict(k=z3.IntVal(k), f=h, r=r)
        if k == K_FAIL:
            kw['x'], kw['y'] = eng.rv(args[1]), eng.rv(args[2])
            fl = eng.store[('ghost', 'flist')]
            lst = eng.get(args[0]) if isinstance(args[0], E.Loc) else args[0]
            eng.store[('ghost', 'flist')] = V(fl.t, lst.tree if isinstance(lst, V) else eng.locate(args[0])[1])
        elif args:
            kw['x'] = eng.rv(args[0])
        self.emit(eng, **kw)
        self.rely(eng)
        return r if k in (K_EXIT, K_ENTER) else None

    def rely(self, eng):
        """what a user callback may do: use the public API (post/clear events, stop or release the machine)"""
        this = eng.store[('this',)]
        tree = dict(this.tree)
        old = dict(tree)
        for f in self.callback_havoc:
            tree[f] = eng.fresh(this.t.fields[f], 'cb_' + f).tree
        eng.assume(Or(tree['mDispatcher'] == old['mDispatcher'], tree['mDispatcher'] == 0))
        eng.assume(Imp(old['mStopDispatching'], tree['mStopDispatching']))
        from specs_impl_fns import pend_wf
        p = E.view(tree['mPendingEvents'] if isinstance(tree['mPendingEvents'], V) else V(this.t.fields['mPendingEvents'], tree['mPendingEvents']))
        eng.store[('this',)] = V(this.t, tree)
        al = eng.store[('ghost', 'alloc')]
        na = z3.Int(fresh_name('alloc'))
        eng.assume(na >= al.tree)
        eng.store[('ghost', 'alloc')] = V(al.t, na)
        for _, f in pend_wf(None, lambda _n: p, na):
            eng.assume(f)
        wk = eng.store[('ghost', 'wake')]
        nw = z3.Int(fresh_name('wake'))
        eng.assume(nw >= wk.tree)
        eng.store[('ghost', 'wake')] = V(wk.t, nw)
        # lock state is that of the current thread: user code returns with the locks it found
        for root in [('heap', 'VariantVector_t'), ('heap', 'HsmEventStatus'), ('heap', 'std::list<TransitionInfo>'), ('heap', 'ConditionVariable')]:
            if root not in eng.store:
                continue
            hv = eng.store[root]
            new = fresh_tree({'d': lift_shape(shape(hv.t.val), IntS)}, 'cbheap')
            q = z3.Int(fresh_name('hq'))
            if root[1] != 'HsmEventStatus':
                for a, b in zip(t_leaves(new), t_leaves(hv.tree)):
                    eng.assume(forall([q], Imp(q < al.tree, z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(a, q)]))
            eng.store[root] = V(hv.t, new)

    # ---- the machine itself, seen through a (weak) pointer
    self_type = 'Impl'

    def shared_self(self, eng):
        p = z3.Int(fresh_name('shared'))
        eng.assume(And(SELF > 0, p == SELF))      # (machines are created by make_shared: a precondition of initialize)
        return p

    def deref_self(self, eng, p):
        eng.oblige('safe:pointer-to-this-machine', p.a == SELF) if not eng.pure else None
        eng.assume(SELF > 0)
        return E.Loc(('this',))

    def lock_self(self, eng, a):
        p = z3.Int(fresh_name('locked'))
        eng.assume(And(SELF > 0, Or(p == 0, p == a)))      # (the machine may be gone)
        eng.lastlock = p
        return p

    def address_of(self, eng, loc):
        p = loc.path
        if loc.root == ('this',) and len(p) >= 3 and p[-1] == ('f', 'previousActiveStates') and p[-2][0] == 'k':
            a = histAddr(p[-2][1])
            h = z3.Int(fresh_name('ha'))
            eng.assume(forall([h], And(histOf(histAddr(h)) == h, histAddr(h) > 0), patterns=[histAddr(h)]))   # distinct objects
            return E.PtrVal(a, TPtr(eng.ty('std::list<StateID_t>'), 'raw'))
        return None

    handler_facts = None

    def check_handler(self, eng, kind, h):
        """the function handed to the dispatcher, called at an arbitrary later moment"""
        c = h if isinstance(h, E.Closure) else eng.closures.get(getattr(eng.rv(h), 'h', z3.IntVal(0)).get_id(), (None, None))[1]
        if c is None:
            eng.oblige('safe:C11:handler-known', B_(False))
            return
        if not eng.choose('handler%d' % kind):
            return
        th = eng.store[('this',)]
        eng.new_root(('this',), th.t)
        for g, t in self.ghosts(eng).items():
            eng.new_root(('ghost', g), t)
        for n in self.heaps:
            if ('heap', n) in eng.store:
                hv = eng.store[('heap', n)]
                eng.store[('heap', n)] = V(hv.t, fresh_tree(E.shape_heap(hv.t.val), 'later'))
        pre = eng.pre
        eng.pre = E.Snap(eng, dict(eng.store), eng.fr)
        xr = ('ghost', 'handlerArg')
        eng.new_root(xr, TINT)
        x = eng.store[xr].tree
        eng.pre = E.Snap(eng, dict(eng.store), eng.fr)
        ctx = E.Ctx(eng, None, eng.pre, eng.pre, {0: xr}, None)
        for _, f in self.handler_requires(ctx):
            eng.assume(f)
        args = [] if kind == 0 else [x]
        r = eng.rv(eng.call_closure(c, args))
        ctx = E.Ctx(eng, None, eng.pre, E.Snap(eng, eng.store, eng.fr), {0: xr}, r)
        for l, f in self.handler_facts(kind, ctx):
            eng.oblige('handler:' + l, f)
        raise E.PathEnd()

    # ---- collaborators
    def external_method(self, eng, rec, name, obj, args, n):
        if rec == 'IHsmEventDispatcher':
            a = [eng.rv(x) if not isinstance(x, E.Closure) else x for x in args]
            if name == 'emitEvent':
                w = eng.store[('ghost', 'wake')]
                th = eng.store[('this',)].tree
                eng.oblige('safe:C17:mEventsSync-not-held-at-dispatcher-call', Not(th['mEventsSync']['held']))
                eng.store[('ghost', 'wake')] = V(w.t, w.tree + 1)
                return None
            if name == 'startTimer':
                self.emit(eng, k=z3.IntVal(K_TSTART), z=a[0], x=a[1], y=a[2], r=a[3], s=z3.IntVal(0))
                return None
            if name in ('stopTimer', 'restartTimer'):
                self.emit(eng, k=z3.IntVal(K_TSTOP if name == 'stopTimer' else K_TRESTART), x=a[0], s=z3.IntVal(0))
                return None
            if name == 'isTimerRunning':
                return z3.Function('dispatcher::isTimerRunning', IntS, BoolS)(a[0])
            if name == 'enqueueEvent':
                r = z3.Bool(fresh_name('accepted'))
                self.emit(eng, k=z3.IntVal(K_ENQUEUE), z=a[0], x=a[1], r=r, s=z3.IntVal(0))
                return r
            if name == 'start':
                r = z3.Bool(fresh_name('started'))
                self.emit(eng, k=z3.IntVal(K_DSTART), r=r, s=z3.IntVal(0))
                return r
            if name.startswith('register'):
                r = z3.Int(fresh_name('handlerId'))
                kind = {'registerEventHandler': 0, 'registerTimerHandler': 1, 'registerEnqueuedEventHandler': 2}[name]
                self.emit(eng, k=z3.IntVal(K_REG), x=r, y=z3.IntVal(kind), s=z3.IntVal(0))
                self.check_handler(eng, kind, args[0])
                return r
            if name.startswith('unregister'):
                kind = {'unregisterEventHandler': 0, 'unregisterTimerHandler': 1, 'unregisterEnqueuedEventHandler': 2}[name]
                self.emit(eng, k=z3.IntVal(K_UNREG), x=a[0], y=z3.IntVal(kind), s=z3.IntVal(0))
                return None
        if name == 'shared_from_this':
            p = self.shared_self(eng)
            return E.PtrVal(p, TPtr('Impl', 'shared'))
        if rec == 'AtomicFlag':
            if name == 'test_and_set':
                v = eng.get(obj)
                eng.put(obj, B_(True))
                return v
            if name == 'clear':
                eng.put(obj, B_(False))
                return None
            if name == 'test':
                return eng.get(obj)
            if name == 'lock':
                return z3.IntVal(0)
            if name == 'notify':
                eng.oblige('safe:C17:flag-cleared-before-notify', Not(eng.get(obj)))
                g = eng.store[('ghost', 'fnot')]
                eng.store[('ghost', 'fnot')] = V(g.t, g.tree + 1)
                return None
            if name == 'wait':
                # another thread is through with what the flag stands for
                self.rely(eng)
                eng.put(obj, Not(eng.rv(args[0])))
                return None
        if rec == 'ConditionVariable':
            if name == 'notify':
                self.emit(eng, k=z3.IntVal(K_NOTIFY), s=z3.IntVal(0))
                return None
            if name in ('wait', 'wait_for'):
                # another thread processes the event meanwhile; the wrapper gives up the lock when it returns
                lk = eng.rv(args[0])
                if not isinstance(lk, E.ULock):
                    raise E.Unsupported('wait without UniqueLock')
                eng.oblige('safe:C17:wait-with-lock-held', B_(lk.owns))
                self.rely(eng)
                lk.release(eng)
                r = z3.Bool(fresh_name('waited'))
                return r if name == 'wait_for' else None
        # argument vectors
        t = None
        if isinstance(obj, E.Loc):
            t = eng.locate(obj)[0]
        nm = getattr(t, 'name', None)
        if nm in ('VariantVector_t', 'std::vector<Variant>'):
            v = eng.get(obj)
            if name == 'size':
                return vsize(v)
            if name == 'empty':
                return vsize(v) == 0
            if name == 'reserve':
                return None
            if name in ('emplace_back', 'push_back'):
                eng.put(obj, vapp(v, eng.rv(args[0])))
                return None
        if nm == 'Variant':
            v = eng.get(obj)
            f = {'toInt64': toInt64, 'toBool': toBool, 'isNumeric': isNumeric, 'isBool': isBool}.get(name)
            if f is not None:
                return f(v)
        return NotImplemented


from specs_impl_fns import make    # noqa: E402,F401
