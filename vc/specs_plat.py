"""Contracts of the dispatchers for GLib, GLibmm and Qt (src/HsmEventDispatcherGLib.cpp, ...GLibmm.cpp, ...Qt.cpp).

The base class is used through its contracts (proved in suite `disp`).  A native timer (GSource, sigc::connection, QTimer) is a
handle; the ghost table SRC says what it was told to do: interval, which timer it announces, whether it runs, references held.
Other threads run whenever mRunningTimersSync is taken: they leave any table that keeps the invariant."""
import z3
from specs_base import *
import specs_disp as D
from specs_std import wf_disp, keepg

B = 'HsmEventDispatcherBase::'
SELF = z3.Int('SELF')
GLIB_INT = ('GSource *', 'GIOChannel *', 'GMainContext *', 'struct _GSource *', 'GSourceFunc', 'GDestroyNotify')
ALL_LOCKS = ('mHandlersSync', 'mEmitSync', 'mEnqueuedEventsSync', 'mRunningTimersSync')
SRC_FIELDS = {'ms': TINT, 'tid': TINT, 'cb': TINT, 'run': TBOOL, 'refs': TINT, 'ctx': TINT, 'one': TBOOL}
CB_TIMER, CB_PIPE, CB_DISPATCH, CB_OTHER = 1, 2, 3, 9
K_WAKE = 8


def tid_of(h):
    return z3.Function('data::tid', IntS, IntS)(h)


def owner_of(h):
    return z3.Function('data::owner', IntS, IntS)(h)


def bit(x, m):
    return z3.Function('bits&', IntS, IntS, IntS)(x, z3.IntVal(m)) != 0


def same_bits(x):
    """the value before conversions between integer types (the low bits stay)"""
    while z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith('cast['):
        x = x.arg(0)
    return x


def names_in(n):
    out = []

    def walk(x):
        if isinstance(x, dict):
            rd = x.get('referencedDecl')
            if rd and rd.get('kind') in ('CXXMethodDecl', 'FunctionDecl'):
                out.append(rd.get('name'))
            if x.get('kind') == 'StringLiteral':
                out.append(x.get('value'))
            for c in x.get('inner', []):
                walk(c)
    walk(n)
    return out


def code_of(n):
    """the function handed over as a callback"""
    s = names_in(n)
    for nm, k in (('onTimerEvent', CB_TIMER), ('onPipeDataAvailable', CB_PIPE), ('dispatchPendingEvents', CB_DISPATCH)):
        if nm in s:
            return z3.IntVal(k)
    return z3.IntVal(CB_OTHER)


class PlatSpecs(D.DispSpecs):
    lock_order = ALL_LOCKS
    lock_protected = dict(D.DispSpecs.lock_protected, mNativeTimerHandlers='mRunningTimersSync')
    cls = None
    counted = True           # native timers are given back by g_source_unref

    def __init__(self):
        super().__init__()
        self.at_release = {}
        self.self_type = self.cls

    def axioms(self, eng):
        return [SELF > 0]

    def deref_self(self, eng, p):
        eng.oblige('safe:C10:pointer-to-this-dispatcher', p.a == SELF) if not eng.pure else None
        eng.assume(SELF > 0)
        return E.Loc(('this',))

    def ghosts(self, eng):
        g = super().ghosts(eng)
        nt = eng.ty(self.cls).fields['mNativeTimerHandlers']
        src = TMap(TINT, TStruct('Source', dict(SRC_FIELDS)))
        g.update({'SRC': src, 'NA': nt, 'SA': src,           # native timers; both tables when the lock was taken last
                  'own': TMap(TINT, TBOOL),                  # native timers that this call made and nobody else can know
                  'done': TBOOL, 'made': TINT,               # the function's change of the table was made; the timer it made
                  'pnext': TINT, 'calls': TINT, 'ctid': TINT,   # result of handleTimerEvent, number of calls, its argument
                  'disp': TINT,                              # calls of dispatchPendingEvents
                  'wakes': TINT, 'reads': TINT,
                  'nb': TINT, 'opened': TINT, 'closed': TINT, 'fails': TINT})     # descriptors and channels made / given back, library calls that failed
        return g

    # -- native timers
    def src(self, eng):
        return eng.store[('ghost', 'SRC')]

    def set_src(self, eng, h, add=None, **kw):
        g = self.src(eng)
        d = dict(g.tree['d'])
        for k, v in kw.items():
            d[k] = z3.Store(d[k], h, v)
        tree = dict(g.tree, d=d)
        if add:
            tree['dom'] = z3.Store(tree['dom'], h, z3.BoolVal(True))
        eng.store[('ghost', 'SRC')] = V(g.t, eng.named(tree))

    def new_source(self, eng, **kw):
        h = z3.Int(fresh_name('native'))
        S = E.view(self.src(eng))
        N = E.view(self.table(eng))
        eng.assume(And(h > 0, Not(S.has(h))))
        f = {'ms': z3.IntVal(0), 'tid': z3.IntVal(-1), 'cb': z3.IntVal(0), 'run': z3.BoolVal(False), 'refs': z3.IntVal(1), 'ctx': z3.IntVal(-1), 'one': z3.BoolVal(False)}
        f.update(kw)
        self.set_src(eng, h, add=True, **f)
        o = eng.store[('ghost', 'own')]
        eng.store[('ghost', 'own')] = V(o.t, eng.named(dict(o.tree, dom=z3.Store(o.tree['dom'], h, z3.BoolVal(True)))))
        keepg(eng, 'made', h)
        return h

    def known(self, eng, h):
        S = E.view(self.src(eng))
        eng.oblige('safe:C10:native-timer-exists', And(h != 0, S.has(h), S.at(h, 'refs') > 0))
        return S

    def table(self, eng):
        th = eng.store[('this',)]
        return V(th.t.fields['mNativeTimerHandlers'], th.tree['mNativeTimerHandlers'])

    def entry_ok(self, S, h, q, ctx):
        """the native timer stored for timer q announces q and runs"""
        return And(h > 0, S.has(h), S.at(h, 'tid') == q, S.at(h, 'cb') == CB_TIMER, S.at(h, 'run'), S.at(h, 'refs') == 1, self.ctx_ok(S, h, ctx))

    def ctx_ok(self, S, h, ctx):
        return z3.BoolVal(True)

    def inv(self, eng, N=None):
        N = E.view(N or self.table(eng))
        S = E.view(self.src(eng))
        return Fa(1, lambda q: Imp(N.has(q), self.entry_ok(S, N.at(q), q, None)), lambda q: N.has(q))

    def private_handles(self, eng):
        """native sources that only the calling thread (start, stop) uses"""
        return []

    # -- other threads
    def on_acquire(self, eng, loc):
        super().on_acquire(eng, loc)
        if loc.root != ('this',) or len(loc.path) != 1 or loc.path[0][1] != 'mRunningTimersSync':
            return
        this = eng.store[('this',)]
        t = this.t.fields['mNativeTimerHandlers']
        eng.store[('this',)] = V(this.t, dict(this.tree, mNativeTimerHandlers=eng.fresh(t, 'other_native').tree))
        g, own = self.src(eng), E.view(eng.store[('ghost', 'own')])
        old = E.view(g)
        eng.store[('ghost', 'SRC')] = eng.fresh(g.t, 'other_src')
        S, N = E.view(self.src(eng)), E.view(self.table(eng))
        eng.assume(self.inv(eng))
        for h in self.private_handles(eng):
            eng.assume(And([S.has(h) == old.has(h)] + [S.at(h, f) == old.at(h, f) for f in SRC_FIELDS]))
        for f in SRC_FIELDS:
            eng.assume(Fa(1, lambda q: Imp(own.has(q), And(S.has(q) == old.has(q), S.at(q, f) == old.at(q, f))), lambda q: S.has(q)))
        eng.assume(Fa(1, lambda q: Imp(N.has(q), Not(own.has(N.at(q)))), lambda q: N.has(q)))
        keepg(eng, 'NA', self.table(eng).tree)
        keepg(eng, 'SA', self.src(eng).tree)

    def on_release(self, eng, loc):
        super().on_release(eng, loc)
        if loc.root != ('this',) or len(loc.path) != 1 or loc.path[0][1] != 'mRunningTimersSync':
            return
        eng.oblige('safe:C10:native-timers-fit', self.inv(eng))
        c = E.Ctx(eng, None, eng.pre, E.Snap(eng, eng.store, eng.frames[0]), eng.args, None)
        hook = self.at_release.get(eng.cur_key)
        for l, f in (hook(eng, c) if hook else [('C10:native-timers-untouched', untouched(c))]):
            eng.oblige('safe:' + l, f)

    # -- common library
    def external_enum(self, eng, ty, name):
        v = {'G_IO_IN': 1, 'G_IO_HUP': 16}.get(name)
        return None if v is None else z3.IntVal(v)

    def arith(self, eng, op, a, b, n):
        if op in ('&', '|') and z3.is_int(a) and z3.is_int(b):
            a, b = same_bits(z3.simplify(a)), same_bits(z3.simplify(b))
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal(x & y if op == '&' else x | y)
            return z3.Function('bits' + op, IntS, IntS, IntS)(a, b)
        return None

    def external_method(self, eng, rec, name, obj, args, n):
        if rec == self.cls and name in ('notifyDispatcherAboutEvent', 'startTimerImpl', 'stopTimerImpl'):
            return NotImplemented
        if rec in (self.cls, 'HsmEventDispatcherBase') and name == 'handleTimerEvent':
            eng.oblige('safe:C17:no-lock-held-for-handlers', And([Not(eng.store[('this',)].tree[l]['held']) for l in ALL_LOCKS]))
            self.count(eng, 'calls')
            keepg(eng, 'ctid', eng.rv(args[0]))
            r = z3.Int(fresh_name('next'))
            eng.assume(r >= 0)
            keepg(eng, 'pnext', r)
            return r
        if rec in (self.cls, 'HsmEventDispatcherBase') and name == 'dispatchPendingEvents':
            eng.oblige('safe:C17:no-lock-held-for-handlers', And([Not(eng.store[('this',)].tree[l]['held']) for l in ALL_LOCKS]))
            self.count(eng, 'disp')
            th = eng.store[('this',)]
            eng.store[('this',)] = V(th.t, dict(th.tree, mStopDispatcher=z3.Or(th.tree['mStopDispatcher'], z3.Bool(fresh_name('stopped')))))
            return None
        return super().external_method(eng, rec, name, obj, args, n)

    def count(self, eng, g, n=1):
        v = eng.store[('ghost', g)]
        eng.store[('ghost', g)] = V(v.t, v.tree + n)


def src_same(c, h=None, field_of=None):
    """SRC is as it was when the lock was taken, except for handle h"""
    S, A = c.G('SRC'), c.G('SA')
    return [Fa(1, lambda q: Imp(z3.BoolVal(True) if h is None else q != h, And([S.has(q) == A.has(q)] + [S.at(q, f) == A.at(q, f) for f in SRC_FIELDS])), lambda q: S.has(q))]


def untouched(c):
    return And([map_same(c.F('mNativeTimerHandlers'), c.G('NA'))] + src_same(c))


def free(c, locks=ALL_LOCKS):
    return [('locks-free', And([Not(c.pre.store[('this',)].tree[l]['held']) for l in locks]))]


class GLibSpecs(PlatSpecs):
    cls = 'HsmEventDispatcherGLib'

    def type_override(self, s):
        if s in GLIB_INT:
            return TInt(s)
        if s in ('gpointer', 'void *'):
            return TPtr('HsmEventDispatcherGLib', 'raw')
        if 'TimerData_t' in s and s.endswith('*'):
            return TInt(s)
        if s == 'GIOCondition':
            return TInt('unsigned int', INT_RANGES['unsigned int'])
        if s in ('gboolean', 'ssize_t', '__ssize_t'):
            return TInt(s)
        if s == 'int[2]':
            return TStruct('fds', {'0': TINT, '1': TINT})
        if s in ('std::mutex', 'mutex'):
            return TLock()
        if s in ('std::condition_variable', 'condition_variable'):
            return TInt('condition_variable')
        return super().type_override(s)

    def ctx_ok(self, S, h, ctx):
        return S.at(h, 'ctx') != -1

    def private_handles(self, eng):
        return [eng.store[('this',)].tree['mIoSource']]

    def subscript(self, eng, n):
        a, i = eng.ev(n['inner'][0]), z3.simplify(eng.rv(eng.ev(n['inner'][1])))
        if not z3.is_int_value(i) or i.as_long() not in (0, 1):
            raise E.Unsupported('subscript')
        return a.f('f', str(i.as_long()))

    def new_object(self, eng, n):
        a = [eng.rv(eng.ev(x)) for x in n['inner'][0].get('inner', [])]
        if 'TimerData' not in n['type']['qualType'] and 'pair' not in n['type']['qualType'] or len(a) != 2:
            raise E.Unsupported('new')
        h = z3.Int(fresh_name('data'))
        if not (isinstance(a[0], E.PtrTo) and a[0].loc.root == ('this',)):
            raise E.Unsupported('timer data of another object')
        eng.assume(And(h > 0, tid_of(h) == a[1], owner_of(h) == SELF))
        return h

    def deref_value(self, eng, v, n):
        eng.oblige('safe:C10:timer-data-exists', v != 0)
        t = TStruct('TimerData', {'first': TPtr(self.cls, 'raw'), 'second': TINT})
        return eng.temp(eng.as_value_struct(t, {'first': owner_of(v), 'second': tid_of(v)}) if False else V(t, {'first': fresh_tree(shape(t.fields['first']), 'p') if False else owner_of(v), 'second': tid_of(v)}), t)

    def external_function(self, eng, name, argn, n):
        ev = lambda i: eng.rv(eng.ev(argn[i]))
        num = lambda v: z3.IntVal(0) if v is None else (v.a if isinstance(v, E.PtrVal) else v)
        if name == 'g_timeout_source_new':
            return self.new_source(eng, ms=ev(0))
        if name == 'g_source_set_callback':
            s, data = ev(0), ev(2)
            if isinstance(data, E.PtrTo):
                if data.loc.root != ('this',):
                    raise E.Unsupported('callback data')
                tid = z3.IntVal(-1)
            else:
                tid = z3.Function('data::tid', IntS, IntS)(num(data))
            self.known(eng, s)
            self.set_src(eng, s, cb=code_of(argn[1]), tid=tid)
            return None
        if name == 'g_source_attach':
            s = ev(0)
            self.known(eng, s)
            self.set_src(eng, s, run=z3.BoolVal(True), ctx=num(ev(1)))
            return z3.Int(fresh_name('id'))
        if name == 'g_source_destroy':
            s = ev(0)
            self.known(eng, s)
            self.set_src(eng, s, run=z3.BoolVal(False))
            return None
        if name == 'g_source_unref':
            s = ev(0)
            S = self.known(eng, s)
            self.set_src(eng, s, refs=S.at(s, 'refs') - 1)
            return None
        if name == 'fcntl':
            cmd = z3.simplify(ev(1))
            if not z3.is_int_value(cmd) or cmd.as_long() not in (1, 2, 3, 4):
                raise E.Unsupported('fcntl')
            if cmd.as_long() == 4:
                v = z3.simplify(same_bits(z3.simplify(ev(2))))
                parts = [z3.simplify(same_bits(x)) for x in v.children()] if z3.is_app(v) and v.decl().name() == 'bits|' else [v]
                if any(z3.is_int_value(x) and x.as_long() & 2048 for x in parts):
                    keepg(eng, 'nb', ev(0))
            return z3.Int(fresh_name('rc'))
        if name in ('pipe', 'pipe2'):
            p = eng.ev(argn[0])
            loc = p.loc if isinstance(p, E.PtrTo) else p
            rc = z3.Int(fresh_name('rc'))
            ok = eng.branch(rc == 0)
            eng.assume(rc == 0 if ok else rc == -1)
            if ok:
                for i in '01':
                    fd = z3.Int(fresh_name('fd'))
                    eng.assume(fd > 0)
                    eng.put(loc.f('f', i), fd)
                if name == 'pipe2':
                    fl = z3.simplify(same_bits(z3.simplify(ev(1))))
                    if z3.is_int_value(fl) and fl.as_long() & 2048:
                        keepg(eng, 'nb', fd)
            self.count(eng, 'opened' if ok else 'fails', 2 if ok else 1)
            return rc
        if name == 'close':
            eng.oblige('safe:C11:closes-its-pipe', ev(0) != -1)
            self.count(eng, 'closed')
            return z3.IntVal(0)
        if name == 'g_io_channel_unix_new':
            eng.oblige('safe:C11:reads-the-pipe', ev(0) == eng.store[('this',)].tree['mPipeFD']['0'])
            if eng.branch(z3.Bool(fresh_name('channel_made'))):
                h = z3.Int(fresh_name('channel'))
                eng.assume(h > 0)
                self.count(eng, 'opened')
                return h
            self.count(eng, 'fails')
            return z3.IntVal(0)
        if name == 'g_io_create_watch':
            eng.oblige('safe:C11:watches-its-pipe', And(ev(0) == eng.store[('this',)].tree['mReadChannel'], ev(0) != 0))
            self.bits = z3.simplify(ev(1))
            if eng.branch(z3.Bool(fresh_name('watch'))):
                return self.new_source(eng, ms=z3.IntVal(0))
            self.count(eng, 'fails')
            return z3.IntVal(0)
        if name == 'g_io_channel_unref':
            eng.oblige('safe:C11:channel-exists', ev(0) != 0)
            self.count(eng, 'closed')
            return None
        if name == 'write':
            fd = ev(0)
            eng.oblige('safe:C11:wakes-through-its-pipe', And(fd == eng.store[('this',)].tree['mPipeFD']['1'], ev(2) >= 1))
            self.count(eng, 'wakes')
            return z3.Int(fresh_name('written'))
        if name == 'read':
            fd = ev(0)
            size = ev(2)
            eng.oblige('safe:C11:reads-its-pipe', And(fd == eng.store[('this',)].tree['mPipeFD']['0'], size >= 1))
            # whoever takes several wake-ups at once does so before the events are delivered
            eng.oblige('safe:C11:no-wake-up-is-lost', Or(size == 1, eng.store[('ghost', 'disp')].tree == 0))
            r = z3.Int(fresh_name('bytes'))
            eng.assume(And(r >= -1, r <= size))
            keepg(eng, 'reads', r)
            return r
        return super().external_function(eng, name, argn, n)

    def external_method(self, eng, rec, name, obj, args, n):
        if rec == 'condition_variable' and name in ('notify_one', 'notify_all'):
            return None
        return super().external_method(eng, rec, name, obj, args, n)


def common(S, cls):
    """base contracts, and those of the timer functions"""
    base = D.make()
    for key, sp in base.contracts.items():
        sp.assumed, sp.proved_in, sp.note = True, 'disp', 'proved in suite disp'
        S.add(key, sp)
    N_ = cls + '::'
    TBL = ['mNativeTimerHandlers'] + ['ghost:' + g for g in ('SRC', 'NA', 'SA', 'done', 'own', 'made')]

    ZERO = {'done': z3.BoolVal(False), 'made': z3.IntVal(0), 'calls': z3.IntVal(0), 'disp': z3.IntVal(0), 'wakes': z3.IntVal(0), 'reads': z3.IntVal(-2), 'closed': z3.IntVal(0), 'opened': z3.IntVal(0), 'fails': z3.IntVal(0), 'nb': z3.IntVal(0)}

    def A(name, props, req, ens, mods, **kw):
        def entry(eng, c):
            """what this function records starts anew"""
            for g, v in ZERO.items():
                if 'ghost:' + g in mods:
                    keepg(eng, g, v)
            o = E.view(eng.store[('ghost', 'own')])
            eng.assume(Fa(1, lambda q: Not(o.has(q)), lambda q: o.has(q)))
        S.add(N_ + name, Spec(props, req, ens, mods, entry=entry, **kw))

    def upd(eng, c, main):
        d = c.G('done')
        same = untouched(c)
        keepg(eng, 'done', Or(main, And(d, same)))
        return [('C10:only-this-timer-changes', Or(main, same))]
    
    def ended(c, tid, S_, A_, NA, N):
        """the entry is gone, its native timer does not run any more and is given back"""
        h = NA.at(tid)
        return And([Imp(Not(NA.has(tid)), untouched(c)),
                    Imp(NA.has(tid), And([map_del(N, NA, tid), Not(S_.at(h, 'run')), S_.at(h, 'refs') == 0] + src_same(c, h)))])

    def rel_stop(eng, c):
        return upd(eng, c, ended(c, c.arg(0), c.G('SRC'), c.G('SA'), c.F('mNativeTimerHandlers'), c.F('mNativeTimerHandlers')) if False else
                   ended(c, c.arg(0), c.G('SRC'), c.G('SA'), c.G('NA'), c.F('mNativeTimerHandlers')))
    S.at_release[N_ + 'stopTimerImpl'] = rel_stop
    A('stopTimerImpl', ['C10', 'C17'], lambda c: free(c, ('mRunningTimersSync',)), lambda c: [('C10:native-timer-ended', c.G('done'))], TBL)

    def all_ended(c, seen):
        S_, SA, NA = c.G('SRC'), c.G('SA'), c.G('NA')
        yield 'visited-timers-ended', Fa(1, lambda q: Imp(And(NA.has(q), seen(q)), And(Not(S_.at(NA.at(q), 'run')), S_.at(NA.at(q), 'refs') == 0)), lambda q: NA.has(q))
        keep = lambda q: And([S_.at(q, f) == SA.at(q, f) for f in SRC_FIELDS] + [S_.has(q) == SA.has(q)])
        yield 'others-untouched', Fa(1, lambda q: Imp(Not(And(NA.has(SA.at(q, 'tid')), NA.at(SA.at(q, 'tid')) == q, seen(SA.at(q, 'tid')))), keep(q)), lambda q: S_.has(q))
        yield 'same-timers-known', Fa(1, lambda q: And(S_.has(q) == SA.has(q), S_.at(q, 'tid') == SA.at(q, 'tid')), lambda q: S_.has(q))

    def rel_all(eng, c):
        N = c.F('mNativeTimerHandlers')
        main = And([Fa(1, lambda q: Not(N.has(q)), lambda q: N.has(q))] + [f for _, f in all_ended(c, lambda q: z3.BoolVal(True))])
        return upd(eng, c, main)
    S.at_release[N_ + 'unregisterAllTimerHandlers'] = rel_all

    def kept_private(c, h):
        S0, S1 = c.G0('SRC'), c.G('SRC')
        return Imp(And(S0.has(h), S0.at(h, 'cb') != CB_TIMER), And([S1.has(h)] + [S1.at(h, f) == S0.at(h, f) for f in SRC_FIELDS]))

    def loop_all(c):
        N, NA = c.F('mNativeTimerHandlers'), c.G('NA')
        it = c.cursor
        yield 'cursor-valid', Imp(Not(it.end), NA.has(it.pos))
        yield 'table-kept', map_same(N, NA)
        yield from all_ended(c, lambda q: Or(it.end, q < it.pos))
    A('unregisterAllTimerHandlers', ['C10', 'C17'], lambda c: free(c, ('mRunningTimersSync',)),
      lambda c: [('C10:all-native-timers-ended', c.G('done'))] + [('C10:other-sources-kept', kept_private(c, h)) for h in S.private_handles(c.eng)], TBL,
      loops={0: {'inv': loop_all}})
    return A, upd, TBL


def expiry(S, upd, tid):
    def rel_expiry(eng, c):
        N, NA, S_, SA = c.F('mNativeTimerHandlers'), c.G('NA'), c.G('SRC'), c.G('SA')
        h = NA.at(tid(c))
        gone = And(NA.has(tid(c)), c.G('pnext') <= 0)
        return upd(eng, c, And([Imp(Not(gone), untouched(c)),
                                Imp(gone, And([map_del(N, NA, tid(c))] + ([S_.at(h, 'refs') == 0] if S.counted else []) + src_same(c, h)))]))
    S.at_release[S.cls + '::onTimerEvent'] = rel_expiry


def make_glib():
    S = GLibSpecs()
    S.static_self = True
    A, upd, TBL = common(S, S.cls)
    N_ = S.cls + '::'

    def rel_start(eng, c):
        tid, ms = c.arg(0), c.arg(1)
        N, NA, S_ = c.F('mNativeTimerHandlers'), c.G('NA'), c.G('SRC')
        h = N.at(tid)
        return upd(eng, c, And([Imp(NA.has(tid), untouched(c)),
                                Imp(Not(NA.has(tid)), And([map_set(N, NA, tid), h == c.G('made'), S_.at(h, 'ms') == ms, S_.at(h, 'ctx') == c.F('mContext')] + src_same(c, h)))]))
    S.at_release[N_ + 'startTimerImpl'] = rel_start
    A('startTimerImpl', ['C10', 'C17'], lambda c: free(c, ('mRunningTimersSync',)) + [('context', c.F0('mContext') >= 0)], lambda c: [('C10:native-timer-runs-for-its-interval', c.G('done'))], TBL)

    # an expiry: the handler of exactly this timer is called once, without a lock; the native timer goes on as long as the timer does
    tid = lambda c: tid_of(c.arg(0))

    expiry(S, upd, tid)

    def ens(c):
        null = c.arg(0) == 0
        yield 'C10:handler-called-once-with-timer', Imp(Not(null), And(c.G('calls') == 1, c.G('ctid') == tid(c)))
        yield 'C10:goes-on-iff-the-timer-does', (c.ret != 0) == And(Not(null), c.G('pnext') > 0)
        yield 'C10:forgotten-when-over', Imp(And(Not(null), c.G('pnext') <= 0), c.G('done'))
    A('onTimerEvent', ['C10', 'C17'], lambda c: free(c) + [('own-timer', Or(c.arg(0) == 0, owner_of(c.arg(0)) == SELF))], ens,
      TBL + ['ghost:calls', 'ghost:ctid', 'ghost:pnext'])

    # waking the dispatcher
    A('notifyDispatcherAboutEvent', ['C11', 'C17'], lambda c: free(c, ('mPipeSync',)), lambda c: [('C11:loop-is-woken', c.G('wakes') >= 1)], ['ghost:wakes'])

    def ens(c):
        stop, hup = c.F0('mStopDispatcher'), bit(c.arg(1), 16)
        yield 'C11:dispatched-once-per-wake-up', c.G('disp') == If(And(Not(stop), Not(hup), c.G('reads') >= 1), 1, 0)
        yield 'C11:wake-up-is-read', Imp(And(Not(stop), Not(hup)), c.G('reads') != -2)
        yield 'C11:goes-on-until-stopped', (c.ret != 0) == And(Not(stop), Not(c.F('mStopDispatcher')))
    A('onPipeDataAvailable', ['C11', 'C17'], lambda c: free(c) + [('own-data', c.arg(2).a == SELF if isinstance(c.arg(2), E.PtrVal) else c.arg(2) == SELF)], ens,
      ['mStopDispatcher', 'mDispatchingIterationRunning', 'ghost:disp', 'ghost:reads'])

    def ens(c):
        yield 'C11:queued-last', Imp(c.F0('mPipeFD').tree['1'] > 0, appended(c.F('mPendingEvents'), c.F0('mPendingEvents'), 1, [c.arg(0)]))
        yield 'C11:not-running-not-queued', Imp(c.F0('mPipeFD').tree['1'] <= 0, c.F('mPendingEvents').same(c.F0('mPendingEvents')))
    A('emitEvent', ['C11', 'C17'], lambda c: free(c), ens, ['mPendingEvents', 'ghost:T', 'ghost:slot'])

    # the pipe and its source
    def stopped(c, F):
        fd = F('mPipeFD').tree
        return And(fd['0'] == -1, fd['1'] == -1, F('mReadChannel') == 0, F('mIoSource') == 0)

    def running(c, F, S_):
        fd, h = F('mPipeFD').tree, F('mIoSource')
        return And(fd['0'] > 0, fd['1'] > 0, F('mReadChannel') != 0, h > 0, S_.has(h), S_.at(h, 'cb') == CB_PIPE, S_.at(h, 'run'), S_.at(h, 'refs') == 1,
                   S_.at(h, 'ctx') == F('mContext'))
    PIPE = ['mPipeFD', 'mReadChannel', 'mIoSource', 'ghost:SRC', 'ghost:own', 'ghost:made', 'ghost:closed', 'ghost:opened', 'ghost:fails', 'ghost:nb']
    fields = ('mReadChannel', 'mIoSource')

    def ens(c):
        yield 'C11:running-when-started', Imp(c.ret, running(c, c.F, c.G('SRC')))
        yield 'C11:stopped-when-refused', Imp(Not(c.ret), And(stopped(c, c.F), c.G('opened') == c.G('closed')))
        yield 'C11:started-unless-the-system-refuses', c.ret == (c.G('fails') == 0)
        yield 'C11:waking-the-loop-never-waits-for-it', Imp(And(c.ret, c.F0('mIoSource') == 0), c.G('nb') == c.F('mPipeFD').tree['1'])
        yield 'C11:started-again-changes-nothing', Imp(c.F0('mIoSource') != 0, And([c.ret] + [c.F(f) == c.F0(f) for f in fields] + [c.F('mPipeFD').tree[i] == c.F0('mPipeFD').tree[i] for i in '01']))
    either = lambda c: Or(stopped(c, c.F0), running(c, c.F0, c.G0('SRC')))
    A('start', ['C11'], lambda c: [('stopped-or-running', either(c)), ('context', c.F0('mContext') >= 0)], ens, PIPE)

    def ens(c):
        h = c.F0('mIoSource')
        S_ = c.G('SRC')
        yield 'C11:stop-flag-set', c.F('mStopDispatcher')
        yield 'C11:pipe-closed', And(stopped(c, c.F), c.G('closed') == If(c.F0('mReadChannel') != 0, 3, 0))
        yield 'C11:source-ended', Imp(h != 0, And(Not(S_.at(h, 'run')), S_.at(h, 'refs') == 0))
        yield 'C11:handlers-removed', Fa(1, lambda q: Not(c.F('mEventHandlers').has(q)), lambda q: c.F('mEventHandlers').has(q))
        yield 'C10:all-native-timers-ended', c.G('done')
    A('stop', ['C11', 'C10', 'C17'], lambda c: free(c) + [('stopped-or-running', either(c))], ens, PIPE + TBL + ['mStopDispatcher', 'mEventHandlers'])
    return S


class GLibmmSpecs(PlatSpecs):
    """A connection is a native timer or the link of the Glib::Dispatcher (tid: which one) with dispatchPendingEvents()."""
    cls = 'HsmEventDispatcherGLibmm'
    counted = False

    def type_override(self, s):
        s = s.strip()
        if s.endswith('RefPtr<Glib::MainContext>') or s.endswith('RefPtr<MainContext>'):
            return TInt('MainContext')
        if s.startswith(('std::unique_ptr<Glib::Dispatcher', 'unique_ptr<Dispatcher', 'unique_ptr<Glib::Dispatcher')):
            return TInt('Dispatcher')
        if s in ('Glib::Dispatcher *', 'Dispatcher *'):
            return TInt('Dispatcher')
        if s in ('sigc::connection', 'connection'):
            return TInt('connection')
        if s in ('std::mutex', 'mutex'):
            return TLock()
        return super().type_override(s)

    def private_handles(self, eng):
        return [eng.store[('this',)].tree['mDispatcherConnection']]

    def ctx_ok(self, S, h, ctx):
        return S.at(h, 'ctx') != 0

    def new_object(self, eng, n):
        q = n['type']['qualType']
        if 'Dispatcher' not in q:
            raise E.Unsupported('new ' + q)
        h = z3.Int(fresh_name('dispatcher'))
        eng.assume(h > 0)
        return h

    def operator_call(self, eng, op, a0, argn, n):
        if op == 'operator->':
            q = n['inner'][1]['type']['qualType']
            v = eng.rv(a0)
            if z3.is_expr(v) and ('MainContext' in q or 'Dispatcher' in q):
                eng.oblige('safe:%s:no-null-%s' % (('C10', 'context') if 'MainContext' in q else ('C11', 'dispatcher')), v != 0)
                return E.Rec({'ctx' if 'MainContext' in q else 'disp': v})
        if op == 'operator=' and len(argn) == 1 and isinstance(a0, E.Loc):
            v = eng.rv(eng.ev(argn[0]))
            if z3.is_expr(v) and z3.is_int(v):
                eng.put(a0, v)
                return a0
        return super().operator_call(eng, op, a0, argn, n)

    def construct(self, eng, st, args):
        if 'connection' in st:
            return eng.rv(args[0]) if args else z3.IntVal(0)
        if 'slot' in st.lower() or 'functor' in st.lower():
            return args[0]
        return super().construct(eng, st, args)

    def external_function(self, eng, name, argn, n):
        if name == 'mem_fun':
            a = eng.ev(argn[0])
            a = eng.rv(a)
            if not (isinstance(a, E.PtrTo) and a.loc.root == ('this',)):
                raise E.Unsupported('method of another object')
            return E.Rec({'code': code_of(argn[1]), 'args': []})
        if name == 'bind' and len(argn) == 2:
            f = eng.rv(eng.ev(argn[0]))
            return E.Rec({'code': f.fields['code'], 'args': f.fields['args'] + [eng.rv(eng.ev(argn[1]))]})
        return super().external_function(eng, name, argn, n)

    def value_method(self, eng, name, obj, argn, me):
        o = eng.rv(obj) if isinstance(obj, E.Loc) else obj
        if isinstance(o, E.PtrTo):
            o = o.loc
        if isinstance(o, E.Rec):
            if 'ctx' in o.fields and name == 'signal_timeout':
                return E.Rec({'timeout': o.fields['ctx']})
            if 'timeout' in o.fields and name == 'connect':
                f = eng.rv(eng.ev(argn[0]))
                ms = eng.rv(eng.ev(argn[1]))
                prio = argn[2] if len(argn) > 2 else None
                if prio is not None and prio.get('kind') != 'CXXDefaultArgExpr':
                    raise E.Unsupported('priority')
                a = f.fields['args']
                return self.new_source(eng, ms=ms, tid=a[0] if len(a) == 1 else z3.IntVal(-1), cb=f.fields['code'], run=z3.BoolVal(True), ctx=o.fields['timeout'])
            if 'disp' in o.fields and name == 'connect':
                f = eng.rv(eng.ev(argn[0]))
                return self.new_source(eng, tid=o.fields['disp'], cb=f.fields['code'], run=z3.BoolVal(True))
            if 'disp' in o.fields and name == 'emit':
                self.count(eng, 'wakes')
                return None
        return super().value_method(eng, name, obj, argn, me)

    def external_method(self, eng, rec, name, obj, args, n):
        if rec == 'connection':
            h = eng.rv(obj)
            S = E.view(self.src(eng))
            if name == 'connected':
                return And(h != 0, S.at(h, 'run'))
            if name == 'disconnect':
                self.set_src(eng, h, run=z3.BoolVal(False), refs=z3.IntVal(0))
                return None
            if name == 'operator=':
                eng.put(obj, eng.rv(args[0]))
                return obj
        if rec in ('MainContext', 'Dispatcher', 'RefPtr', 'unique_ptr'):
            if name == 'operator bool':
                return eng.rv(obj) != 0
            if name == 'reset':
                new = eng.rv(args[0]) if args else z3.IntVal(0)
                # the signal of a dispatcher that is destroyed has no connections any more
                h, S = eng.store[('this',)].tree['mDispatcherConnection'], E.view(self.src(eng))
                self.set_src(eng, h, run=And(S.at(h, 'run'), Or(S.at(h, 'cb') != CB_DISPATCH, S.at(h, 'tid') != eng.rv(obj))))
                eng.put(obj, new if new is not None else z3.IntVal(0))
                return None
        return super().external_method(eng, rec, name, obj, args, n)


def make_glibmm():
    S = GLibmmSpecs()
    A, upd, TBL = common(S, S.cls)
    N_ = S.cls + '::'

    def rel_start(eng, c):
        tid, ms = c.arg(0), c.arg(1)
        N, NA, S_ = c.F('mNativeTimerHandlers'), c.G('NA'), c.G('SRC')
        h = N.at(tid)
        return upd(eng, c, And([Imp(NA.has(tid), untouched(c)),
                                Imp(Not(NA.has(tid)), And([map_set(N, NA, tid), h == c.G('made'), S_.at(h, 'ms') == ms, S_.at(h, 'ctx') == c.F('mMainContext')] + src_same(c, h)))]))
    S.at_release[N_ + 'startTimerImpl'] = rel_start
    A('startTimerImpl', ['C10', 'C17'], lambda c: free(c, ('mRunningTimersSync',)) + [('context', c.F0('mMainContext') > 0)],
      lambda c: [('C10:native-timer-runs-for-its-interval', c.G('done'))], TBL)

    tid = lambda c: c.arg(0)
    expiry(S, upd, tid)

    def ens(c):
        yield 'C10:handler-called-once-with-timer', And(c.G('calls') == 1, c.G('ctid') == tid(c))
        yield 'C10:goes-on-iff-the-timer-does', c.ret == (c.G('pnext') > 0)
        yield 'C10:forgotten-when-over', Imp(c.G('pnext') <= 0, c.G('done'))
    A('onTimerEvent', ['C10', 'C17'], lambda c: free(c), ens, TBL + ['ghost:calls', 'ghost:ctid', 'ghost:pnext'])

    A('notifyDispatcherAboutEvent', ['C11', 'C17'], lambda c: [], lambda c: [('C11:woken-when-running', c.G('wakes') == If(c.F0('mDispatcher') != 0, 1, 0))], ['ghost:wakes'])

    def on(F, S_):
        h = F('mDispatcherConnection')
        return And(h > 0, S_.has(h), S_.at(h, 'run'), S_.at(h, 'cb') == CB_DISPATCH, S_.at(h, 'tid') == F('mDispatcher'))

    def linked(F, S_):
        h = F('mDispatcherConnection')
        return Or(And(F('mDispatcher') == 0, Or(h == 0, Not(S_.at(h, 'run'))), Imp(h != 0, And(S_.has(h), S_.at(h, 'cb') == CB_DISPATCH))), And(F('mDispatcher') > 0, on(F, S_)))

    def ens(c):
        S_, S0 = c.G('SRC'), c.G0('SRC')
        run = lambda F, S_: And(F('mDispatcherConnection') != 0, S_.at(F('mDispatcherConnection'), 'run'))
        yield 'C11:queued-last', Imp(run(c.F0, S0), appended(c.F('mPendingEvents'), c.F0('mPendingEvents'), 1, [c.arg(0)]))
        yield 'C11:not-running-not-queued', Imp(Not(run(c.F0, S0)), c.F('mPendingEvents').same(c.F0('mPendingEvents')))
    A('emitEvent', ['C11', 'C17'], lambda c: free(c), ens, ['mPendingEvents', 'ghost:T', 'ghost:slot'])

    wf = lambda c: [('started-or-stopped', linked(c.F0, c.G0('SRC')))]
    PIPE = ['mDispatcher', 'mDispatcherConnection', 'ghost:SRC', 'ghost:own', 'ghost:made']

    def ens(c):
        yield 'C11:accepted-iff-context', c.ret == (c.F0('mMainContext') != 0)
        yield 'C11:running-when-started', Imp(c.ret, And(c.F('mDispatcher') > 0, on(c.F, c.G('SRC'))))
        same = And([c.F(f) == c.F0(f) for f in ('mDispatcher', 'mDispatcherConnection')])
        yield 'C11:started-again-changes-nothing', Imp(Or(c.F0('mDispatcher') != 0, Not(c.ret)), same)
    A('start', ['C11'], wf, ens, PIPE)

    def ens(c):
        yield 'C11:stop-flag-set', c.F('mStopDispatcher')
        h = c.F0('mDispatcherConnection')
        yield 'C11:not-connected-any-more', And(c.F('mDispatcher') == 0, c.F('mDispatcherConnection') == h, Or(h == 0, Not(c.G('SRC').at(h, 'run'))))
        yield 'C11:handlers-removed', Fa(1, lambda q: Not(c.F('mEventHandlers').has(q)), lambda q: c.F('mEventHandlers').has(q))
        yield 'C10:all-native-timers-ended', c.G('done')
    A('stop', ['C11', 'C10', 'C17'], lambda c: free(c) + wf(c), ens, PIPE + TBL + ['mStopDispatcher', 'mEventHandlers'])
    return S


class QtSpecs(PlatSpecs):
    """A QTimer belongs to one timer (property hsmid), announces it (signal timeout) and runs; deleteLater() ends it.  A function
    handed to the main thread runs later: after whatever other threads do, with no lock held."""
    cls = 'HsmEventDispatcherQt'

    def ghosts(self, eng):
        g = super().ghosts(eng)
        g.update({'evtype': TINT, 'home': TINT, 'main': TBOOL})   # event type, thread of this object, this code runs on the main thread
        return g

    def type_override(self, s):
        if s in ('QEvent::Type', 'Type'):
            return TInt('int', INT_RANGES['int'])
        if s in ('QTimer *', 'QObject *', 'QEvent *', 'QThread *', 'QCoreApplication *', 'QAbstractEventDispatcher *', 'QVariant',
                 'QMetaObject::Connection'):
            return TInt(s.rstrip(' *'))
        return super().type_override(s)

    def static_var(self, eng, name):
        return E.Loc(('ghost', 'evtype')) if name == 'mQtDispatchEventType' else None

    def external_enum(self, eng, ty, name):
        v = {'None': 0, 'User': 1000, 'QueuedConnection': 2, 'DirectConnection': 1, 'AutoConnection': 0}.get(name)
        return super().external_enum(eng, ty, name) if v is None else z3.IntVal(v)

    def string_literal(self, eng, n):
        r = E.StrVal()
        r.text = n.get('value', '').strip('"')
        return r

    def new_object(self, eng, n):
        q = n['type']['qualType']
        c = [x for x in n.get('inner', []) if x.get('kind') == 'CXXConstructExpr']
        a = [eng.rv(eng.ev(x)) for x in (c[0].get('inner', []) if c else []) if x.get('kind') != 'CXXDefaultArgExpr']
        if q.startswith('QTimer'):
            return self.new_source(eng)
        if q.startswith('QEvent') and len(a) == 1:
            h = z3.Int(fresh_name('event'))
            eng.assume(And(h > 0, z3.Function('event::type', IntS, IntS)(h) == a[0]))
            return h
        raise E.Unsupported('new ' + q)

    def construct(self, eng, st, args):
        if st == 'QVariant' and len(args) == 1:
            return eng.rv(args[0])
        if 'Connection' in st:
            return eng.rv(args[0]) if args else z3.IntVal(0)
        return super().construct(eng, st, args)

    MAIN = z3.Int('main_thread')

    def is_this(self, v):
        if isinstance(v, E.Moved):
            v = v.loc
        return isinstance(v, E.PtrTo) and v.loc.root == ('this',) or isinstance(v, E.PtrVal) and z3.eq(v.a, SELF) or isinstance(v, E.Loc) and v.root == ('this',) and not v.path

    def later(self, eng, f):
        """the main thread runs f"""
        if not isinstance(f, E.Closure):
            raise E.Unsupported('function for the main thread')
        th = eng.store[('this',)].tree
        eng.oblige('safe:C17:no-lock-held-for-handlers', And([Not(th[l]['held']) for l in ALL_LOCKS]))
        keepg(eng, 'main', z3.BoolVal(True))
        eng.call_closure(f, [])

    def external_function(self, eng, name, argn, n):
        ev = lambda i: eng.rv(eng.ev(argn[i]))
        if name == 'qFlagLocation':
            return ev(0)
        if name == 'connect':
            s = ev(0)
            self.known(eng, s)
            sig = ''.join(map(str, names_in(argn[1])))
            if 'timeout' not in sig:
                raise E.Unsupported('signal ' + sig)
            vals = [eng.rv(eng.ev(a)) for a in argn[2:] if a.get('kind') != 'CXXDefaultArgExpr']
            fs = [v for v in vals if isinstance(v, E.Closure)]
            if fs:
                self.pending[str(s)] = fs[0]
                self.set_src(eng, s, cb=z3.IntVal(CB_OTHER))
                return z3.Int(fresh_name('connection'))
            slot = ''.join(str(x) for a in argn[2:] for x in names_in(a))
            if not self.is_this(vals[0]):
                raise E.Unsupported('slot of another object')
            self.set_src(eng, s, cb=z3.IntVal(CB_TIMER if 'onTimerEvent' in slot else CB_OTHER))
            return z3.Int(fresh_name('connection'))
        if name == 'invokeMethod':
            s = ev(0)
            S = self.known(eng, s)
            m = eng.rv(eng.ev(argn[1]))
            if getattr(m, 'text', '') != 'start':
                raise E.Unsupported('invokeMethod')
            how = z3.simplify(eng.rv(eng.ev(argn[2])))
            eng.oblige('safe:C10:runs-on-the-main-thread', And(how == 2, S.at(s, 'ctx') == self.MAIN))
            eng.oblige('safe:C10:runs-once', S.at(s, 'one'))
            f = self.pending.get(str(s))
            if f is None:
                raise E.Unsupported('timer without function')
            self.later(eng, f)
            return z3.BoolVal(True)
        if name == 'instance' and not argn:
            return z3.IntVal(1)
        if name == 'eventDispatcher':
            return z3.IntVal(1)
        if name == 'currentThread':
            return self.cur_thread(eng)
        if name == 'registerEventType':
            h = z3.Int(fresh_name('type'))
            eng.assume(Or(h == -1, h >= 1000))
            keepg(eng, 'fails', eng.store[('ghost', 'fails')].tree + If(h > 0, 0, 1))
            return h
        if name == 'postEvent':
            to, e = eng.rv(eng.ev(argn[0])), ev(1)
            eng.oblige('safe:C11:wakes-this-dispatcher', z3.BoolVal(self.is_this(to)))
            eng.oblige('safe:C11:wakes-with-its-event', z3.Function('event::type', IntS, IntS)(e) == eng.store[('ghost', 'evtype')].tree)
            self.count(eng, 'wakes')
            return None
        if name == 'sender' and not argn:
            return self.sender(eng)
        if name == 'qobject_cast' and len(argn) == 1:
            return ev(0)
        return super().external_function(eng, name, argn, n)

    def value_method(self, eng, name, obj, argn, me):
        if z3.is_expr(obj):
            rec = me['inner'][0]['type']['qualType'].replace('const ', '').strip(' *&')
            return self.external_method(eng, rec, name, obj, [eng.ev(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr'], None)
        return super().value_method(eng, name, obj, argn, me)

    def cur_thread(self, eng):
        c = z3.Int('calling_thread')
        return If(eng.store[('ghost', 'main')].tree, self.MAIN, c)

    def sender(self, eng):
        return z3.Int('sender')

    def external_method(self, eng, rec, name, obj, args, n):
        if rec in ('QTimer', 'QObject', 'QThread', 'QCoreApplication', 'QEvent', 'QAbstractEventDispatcher', 'QVariant') or self.is_this(obj) and name in (
                'thread', 'moveToThread', 'sender', 'deleteLater'):
            if name == 'thread':
                return eng.store[('ghost', 'home')].tree if self.is_this(obj) else self.MAIN
            if name == 'sender':
                return self.sender(eng)
            if self.is_this(obj):
                if name == 'moveToThread':
                    keepg(eng, 'home', eng.rv(args[0]))
                    return None
                raise E.Unsupported('QObject::' + name)
            h = eng.rv(obj)
            if isinstance(h, E.PtrVal):
                h = h.a
            if rec == 'QEvent' and name == 'type':
                return z3.Function('event::type', IntS, IntS)(h)
            if rec == 'QVariant' and name == 'toInt':
                return h
            S = self.known(eng, h)
            if name == 'deleteLater':
                self.set_src(eng, h, run=z3.BoolVal(False), refs=z3.IntVal(0))
                return None
            if name == 'setProperty':
                if getattr(args[0], 'text', '') != 'hsmid':
                    return z3.BoolVal(False)
                self.set_src(eng, h, tid=eng.rv(args[1]))
                return z3.BoolVal(False)
            if name == 'property':
                return S.at(h, 'tid') if getattr(args[0], 'text', '') == 'hsmid' else z3.Int(fresh_name('property'))
            if name == 'setSingleShot':
                self.set_src(eng, h, one=eng.rv(args[0]))
                return None
            if name == 'moveToThread':
                self.set_src(eng, h, ctx=eng.rv(args[0]))
                return None
            if name == 'setInterval' and len(args) == 1:
                self.set_src(eng, h, ms=eng.rv(args[0]))
                return None
            if name == 'start' and len(args) < 2:
                eng.oblige('safe:C10:started-on-the-main-thread', self.cur_thread(eng) == self.MAIN)
                self.set_src(eng, h, run=z3.BoolVal(True), **({'ms': eng.rv(args[0])} if args else {}))
                return None
            if name == 'stop' and not args:
                eng.oblige('safe:C10:stopped-on-the-main-thread', self.cur_thread(eng) == self.MAIN)
                self.set_src(eng, h, run=z3.BoolVal(False))
                return None
            raise E.Unsupported('%s::%s' % (rec, name))
        return super().external_method(eng, rec, name, obj, args, n)


def make_qt():
    S = QtSpecs()
    S.pending = {}
    A, upd, TBL = common(S, S.cls)
    N_ = S.cls + '::'
    CT, MAIN = z3.Int('calling_thread'), S.MAIN

    def rel_start(eng, c):
        tid, ms, one = c.arg(0), c.arg(1), c.arg(2)
        N, NA, S_, SA, own = c.F('mNativeTimerHandlers'), c.G('NA'), c.G('SRC'), c.G('SA'), c.G('own')
        h, prev = N.at(tid), NA.at(tid)
        others = Fa(1, lambda q: Imp(And(Not(own.has(q)), Not(And(NA.has(tid), q == prev))), And([S_.has(q) == SA.has(q)] + [S_.at(q, f) == SA.at(q, f) for f in SRC_FIELDS])), lambda q: S_.has(q))
        stored = And(map_set(N, NA, tid), own.has(h), Imp(ms <= 2147483647, S_.at(h, 'ms') == ms), S_.at(h, 'one') == one,
                     Imp(NA.has(tid), And(Not(S_.at(prev, 'run')), S_.at(prev, 'refs') == 0)), others)
        keepg(eng, 'made', If(N.has(tid), h, c.G('made')))
        d, same = c.G('done'), And(map_same(N, NA), others)
        kept = And(NA.has(tid), map_same(N, NA), others, Not(own.has(h)))
        keepg(eng, 'done', Or(stored, kept, And(d, same)))
        return [('C10:only-this-timer-changes', Or(stored, same))]
    S.at_release[N_ + 'startTimerImpl'] = rel_start

    def ens(c):
        own, S_ = c.G('own'), c.G('SRC')
        yield 'C10:native-timer-runs-for-its-interval', c.G('done')
        yield 'C10:no-other-native-timer-left', Fa(1, lambda q: Imp(And(own.has(q), q != c.G('made')), And(Not(S_.at(q, 'run')), S_.at(q, 'refs') == 0)), lambda q: own.has(q))
    A('startTimerImpl', ['C10', 'C17'], lambda c: free(c), ens, TBL + ['ghost:main'])

    tid = lambda c: c.G0('SRC').at(z3.Int('sender'), 'tid')
    expiry(S, upd, tid)

    def ens(c):
        snd = z3.Int('sender') != 0
        yield 'C10:handler-called-once-with-timer', Imp(snd, And(c.G('calls') == 1, c.G('ctid') == tid(c)))
        yield 'C10:ended-when-over', Imp(And(snd, c.G('pnext') <= 0), c.G('done'))
    A('onTimerEvent', ['C10', 'C17'], lambda c: free(c) + [('sender', Or(z3.Int('sender') == 0, And(c.G0('SRC').has(z3.Int('sender')), c.G0('SRC').at(z3.Int('sender'), 'refs') > 0)))], ens,
      TBL + ['ghost:calls', 'ghost:ctid', 'ghost:pnext'])

    A('notifyDispatcherAboutEvent', ['C11', 'C17'], lambda c: [], lambda c: [('C11:woken-once', c.G('wakes') == 1)], ['ghost:wakes'])

    def ens(c):
        t = z3.Function('event::type', IntS, IntS)(c.arg(0))
        yield 'C11:dispatched-once-per-wake-up', c.G('disp') == If(And(Not(c.F0('mStopDispatcher')), t == c.G0('evtype')), 1, 0)
    A('customEvent', ['C11', 'C17'], lambda c: free(c) + [('event', c.arg(0) > 0)], ens, ['ghost:disp', 'mStopDispatcher'])

    def ens(c):
        run = c.G0('evtype') != 0
        yield 'C11:queued-last', Imp(run, appended(c.F('mPendingEvents'), c.F0('mPendingEvents'), 1, [c.arg(0)]))
        yield 'C11:not-running-not-queued', Imp(Not(run), c.F('mPendingEvents').same(c.F0('mPendingEvents')))
    A('emitEvent', ['C11', 'C17'], lambda c: free(c), ens, ['mPendingEvents', 'ghost:T', 'ghost:slot'])

    def ens(c):
        yield 'C11:started-unless-the-system-refuses', c.ret == (c.G('fails') == 0)
        yield 'C11:has-an-event-of-its-own', Imp(c.ret, c.G('evtype') != 0)
        yield 'C11:event-kept', Imp(c.G0('evtype') != 0, And(c.ret, c.G('evtype') == c.G0('evtype')))
        yield 'C11:lives-on-the-main-thread', Imp(c.ret, c.G('home') == MAIN)
    A('start', ['C11'], lambda c: [], ens, ['ghost:evtype', 'ghost:home', 'ghost:fails'])

    def ens(c):
        yield 'C11:stop-flag-set', c.F('mStopDispatcher')
        yield 'C11:handlers-removed', Fa(1, lambda q: Not(c.F('mEventHandlers').has(q)), lambda q: c.F('mEventHandlers').has(q))
        yield 'C10:all-native-timers-ended', c.G('done')
    A('stop', ['C11', 'C10', 'C17'], lambda c: free(c), ens, TBL + ['mStopDispatcher', 'mEventHandlers'])
    return S
