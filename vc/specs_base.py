"""Common part of the specification modules."""
import z3
from values import *
from cast import TU, ExtractionError, strip_type
import engine as E


class Spec:
    """Contract of one function."""

    def __init__(self, props, requires=None, ensures=None, modifies=(), loops=None, use_inv=False, defn=None,
                 ret_ref=None, tu=0, rec=None, name=None, nparams=None, pick=None, assumed=False, note='', entry=None, exit=None, after=None):
        self.entry, self.exit = entry, exit        # ghost code at function entry / exit
        self.after = after or {}                   # ghost code behind calls: {callee contract key without suite: code}
        self.props = props
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = set(modifies)
        self.loops = loops or {}
        self.use_inv = use_inv
        self.defn, self.ret_ref = defn, ret_ref
        self.rec, self.name, self.nparams, self.pick, self.tu = rec, name, nparams, pick, tu
        self.assumed, self.note = assumed, note


TRACE_FIELDS = {'k': TInt('int'), 'f': TInt('int'), 'x': TInt('int'), 'y': TInt('int'), 'z': TInt('int'), 'r': TBOOL, 's': TInt('int'), 'u': TInt('int')}


def trace_type():
    return TSeq(TStruct('TraceEntry', dict(TRACE_FIELDS)), 'list')


class Specs:
    unframed = set()
    heaps = ()
    check_overflow = False
    lock_protected = {}      # field -> lock field that must be held to modify it
    lock_label = 'C17:'

    def __init__(self):
        self.contracts = {}
        self.by_fn = {}

    def add(self, key, spec):
        rec, name = key.split('::')[-2:]
        nm = name.split('#')[0].split('/')[0]
        spec.rec, spec.name = rec, nm
        if '/' in name:
            spec.nparams = int(name.split('#')[0].split('/')[1])
        self.contracts[key] = spec
        if '#' in name:         # one of several overloads: calls look at its body
            return
        self.by_fn.setdefault((rec, nm), []).append((spec.nparams, key))

    # -------- lookup
    def lookup(self, prog, key):
        s = self.contracts[key]
        for tu in prog.tus:
            ds = tu.methods.get((s.rec, s.name), [])
            if s.nparams is not None:
                ds = [d for d in ds if len(TU.params(d)) == s.nparams]
            if s.pick:
                ds = [d for d in ds if s.pick(d)]
            if ds:
                ds[0]['_tu'] = tu
                return ds[0]
        raise ExtractionError('%s::%s not found' % (s.rec, s.name))

    def contract_for(self, rec, name, nparams):
        for n, key in self.by_fn.get((rec, name), []):
            if n is None or n == nparams:
                return key
        return None

    # -------- hooks with default behaviour
    def type_override(self, s):
        if s in ('Mutex', 'InterruptsFreeSection'):
            return TLock()
        if s in ('std::string', 'std::filebuf', 'std::ostream', 'std::shared_ptr<std::ostream>', 'ConditionVariable', 'std::thread'):
            return TInt('opaque')
        return None

    diag_functions = ()     # functions whose library values are opaque (see Engine.is_diag)
    diag_types = None
    diag_calls = ()

    member_defaults = False
    aliased = False      # verify a function also for an argument that is the object itself
    opaque = ()          # library types that are one opaque value

    def canonical(self, tn):
        """name of the heap for objects of a type"""
        return tn

    def on_pointee(self, eng, p, loc):
        """an object is used through a pointer"""

    scoped_values = False    # local variables have an end of scope of their own (scope_end)

    def scope_end(self, eng, loc):
        """a local variable goes out of scope"""

    def deref_value(self, eng, v, n):
        """the object behind a pointer that is an opaque value"""
        return None

    def string_literal(self, eng, n):
        return E.StrVal()

    def range_of(self, eng, loc):
        """the sequence behind a container that is otherwise an opaque value"""
        return None

    def reinterpret(self, eng, v, n):
        raise E.Unsupported('reinterpret_cast')

    def new_object(self, eng, n):
        raise E.Unsupported('new')

    def delete_object(self, eng, v, n):
        raise E.Unsupported('delete')

    def subscript(self, eng, n):
        raise E.Unsupported('array subscript')

    def lib_method(self, eng, obj, tgt, t, name, args, n):
        return NotImplemented

    def lib_function(self, eng, name, argn, n):
        return NotImplemented

    def axioms(self, eng):
        return []

    def ghosts(self, eng):
        return {}

    def invariant(self, ctx):
        return []

    def lock_fields(self, eng):
        return []

    def guard_object(self, eng, st, args):
        a = args[0]
        if isinstance(a, E.Moved):
            a = a.loc
        t, x = eng.locate(a)
        if not isinstance(t, TLock):
            raise E.Unsupported('guard over %r' % t)
        eng.oblige('safe:' + self.lock_label + 'lock-not-already-held', z3.Not(x['held']))
        self.on_acquire(eng, a)
        eng.put(a, V(t, {'held': z3.BoolVal(True)}))

        def release():
            self.on_release(eng, a)
            eng.put(a, V(t, {'held': z3.BoolVal(False)}))
        return release

    def on_access(self, eng, loc):
        """data shared between threads is used"""
        if loc.root != ('this',) or not loc.path:
            return
        f = loc.path[0][1]
        if f in self.lock_protected and eng.frames and eng.fr.fn.get('kind') not in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            lk = self.lock_protected[f]
            th = eng.store[('this',)].tree
            if lk in th:
                eng.oblige('safe:%slock-held-for-access:%s' % (self.lock_label, f), th[lk]['held'])

    self_type = None         # class of which the only object reached through pointers is this one

    def deref_self(self, eng, p):
        raise E.Unsupported('pointer to ' + self.self_type)

    def lock_self(self, eng, a):
        raise E.Unsupported('weak pointer to ' + self.self_type)

    lock_order = ()          # locks of this object in the order in which they may be nested

    def on_acquire(self, eng, loc):
        """a lock is about to be taken: no lock that comes later in the order is held"""
        if loc.root != ('this',) or len(loc.path) != 1 or loc.path[0][1] not in self.lock_order:
            return
        th = eng.store[('this',)].tree
        i = self.lock_order.index(loc.path[0][1])
        for l in self.lock_order[i + 1:]:
            if l in th:
                eng.oblige('safe:%slock-order:%s-before-%s' % (self.lock_label, self.lock_order[i], l), z3.Not(th[l]['held']))

    def on_release(self, eng, loc):
        """a lock is about to be released"""

    def value_method(self, eng, name, obj, argn, me):
        return NotImplemented

    def address_of(self, eng, loc):
        return None

    def on_deref(self, eng, loc):
        """a heap cell is used through a pointer"""

    def on_write(self, eng, loc):
        if loc.root != ('this',) or not loc.path:
            return
        f = loc.path[0][1]
        if f in self.lock_protected and eng.frames and eng.fr.fn.get('kind') != 'CXXConstructorDecl':
            lk = self.lock_protected[f]
            th = eng.store[('this',)].tree
            if lk in th:
                eng.oblige('safe:%slock-held-for-write:%s' % (self.lock_label, f), th[lk]['held'])

    def on_seq(self, eng, op, loc, t, before):
        """after a structural operation on a sequence (before: the tree it had)"""

    def on_closure(self, eng, h, c):
        pass

    def on_declared(self, eng, st, v):
        return None

    def may_throw(self, eng, n):
        return False

    def static_var(self, eng, name):
        """a static data member that changes"""
        return None

    def external_global(self, eng, name):
        return None

    def external_enum(self, eng, ty, name):
        return None

    def float_literal(self, eng, n):
        raise E.Unsupported('floating literal')

    def float_cast(self, eng, ck, v, f, t):
        raise E.Unsupported('floating cast')

    def value_eq(self, eng, a, b):
        return None

    def arith(self, eng, op, a, b, n):
        return None

    def construct(self, eng, st, args):
        return NotImplemented

    def external_method(self, eng, rec, name, obj, args, n):
        return NotImplemented

    def external_function(self, eng, name, argn, n):
        return NotImplemented

    def callback(self, eng, h, alias, args, rt, ty):
        raise E.Unsupported('callback of type ' + alias)

    def compare(self, eng, op, a, b, n):
        return NotImplemented

    def stored_operator(self, eng, op, a0, a1, n):
        return NotImplemented

    def operator_call(self, eng, op, a0, argn, n):
        return NotImplemented

    def index(self, eng, t, x, i):
        return NotImplemented

    def slots(self, eng, kw, cur, at):
        """witness maps updated when a trace entry is appended: (ghost, key, trace position)"""
        return [('slot', cur, at)]

    # -------- ghost trace
    def emit(self, eng, **kw):
        """append one entry to the ghost call trace"""
        loc = E.Loc(('ghost', 'T'))
        t, s = eng.locate(loc)
        entry = {}
        for f, ft in TRACE_FIELDS.items():
            v = kw.get(f)
            if v is None:
                v = z3.BoolVal(False) if f == 'r' else z3.IntVal(0)
            entry[f] = v
        if ('ghost', 'cur') in eng.store and 's' not in kw:
            cur = eng.store[('ghost', 'cur')].tree
            entry['s'] = cur
            for g, key, val in self.slots(eng, kw, cur, s['hi']):
                sl = eng.store[('ghost', g)]
                eng.store[('ghost', g)] = V(sl.t, eng.named({'d': z3.Store(sl.tree['d'], key, val), 'dom': sl.tree['dom']}))
        eng.seq_push_back(loc, V(t.elem, entry))


# ------------------------------------------------------------------ formula helpers
def Fa(n, body, pats=None):
    """forall over n fresh ints: body(*vars) ; pats(*vars) -> list of patterns"""
    vs = [z3.Int(fresh_name('q')) for _ in range(n)]
    b = body(*vs)
    if pats is None:
        return forall(vs, b)
    ps = pats(*vs)
    return forall(vs, b, patterns=ps if isinstance(ps, list) else [ps])


def MP(*a):
    """multi-pattern, unless a term is unusable as trigger"""
    import values
    if any(values._bad(x) for x in a):
        return a[0]
    return z3.MultiPattern(*a)


And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


def seq_prefix(new, old, leaf='k'):
    """old is a prefix of new (same lo): all entries of old unchanged"""
    fs = [new.lo == old.lo, new.hi >= old.hi]
    for a, b in zip(t_leaves(new.tr['d']), t_leaves(old.tr['d'])):
        q = z3.Int(fresh_name('q'))
        fs.append(forall([q], Imp(And(old.lo <= q, q < old.hi), z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(a, q)]))
    return And(fs)


def appended(new, old, count, entries=()):
    """new == old ++ entries; `entries`: list of dicts field->value for positions old.hi, old.hi+1.."""
    fs = [new.lo == old.lo, new.hi == old.hi + count]
    nd, od = new.tr['d'], old.tr['d']
    q = z3.Int(fresh_name('q'))
    for a, b in zip(t_leaves(nd), t_leaves(od)):
        fs.append(forall([q], Imp(And(old.lo <= q, q < old.hi), z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(a, q)]))
    for i, e in enumerate(entries):
        if isinstance(e, dict):
            for f, v in e.items():
                fs.append(new.at(old.hi + i, f) == v)
        else:
            fs.append(new.at(old.hi + i) == e)
    return And(fs)


def same_seq(a, b):
    """element-wise equality (positions normalised to lo)"""
    q = z3.Int(fresh_name('q'))
    fs = [a.hi - a.lo == b.hi - b.lo]
    off = b.lo - a.lo
    for x, y in zip(t_leaves(a.tr['d']), t_leaves(b.tr['d'])):
        fs.append(forall([q], Imp(And(a.lo <= q, q < a.hi), z3.Select(x, q) == z3.Select(y, q + off)), patterns=[z3.Select(x, q)]))
    return And(fs)


def map_set(new, old, key, **vals):
    """new == old[key := vals]"""
    fs = [new.tr['dom'] == z3.Store(old.tr['dom'], key, z3.BoolVal(True))]
    q = z3.Const(fresh_name('mq'), key.sort())
    for a, b in zip(t_leaves(new.tr['d']), t_leaves(old.tr['d'])):
        fs.append(forall([q], Imp(And(q != key, old.has(q)), z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(a, q)]))
    for f, v in vals.items():
        fs.append((new.at(key, f.replace('__', '.')) if f != '_' else new.at(key)) == v)
    return And(fs)


def map_same(new, old):
    """same domain, same values on the domain"""
    q = z3.Const(fresh_name('mq'), old.tr['dom'].sort().domain())
    fs = [forall([q], new.has(q) == old.has(q), patterns=[new.has(q)]), forall([q], new.has(q) == old.has(q), patterns=[old.has(q)])]
    for a, b in zip(t_leaves(new.tr['d']), t_leaves(old.tr['d'])):
        fs.append(forall([q], Imp(old.has(q), z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(a, q)]))
    return And(fs)


def map_del(new, old, key):
    q = z3.Const(fresh_name('mq'), key.sort())
    fs = [Not(new.has(key)),
          forall([q], Imp(q != key, new.has(q) == old.has(q)), patterns=[new.has(q)]),
          forall([q], Imp(q != key, new.has(q) == old.has(q)), patterns=[old.has(q)])]
    for a, b in zip(t_leaves(new.tr['d']), t_leaves(old.tr['d'])):
        fs.append(forall([q], Imp(And(q != key, old.has(q)), z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(a, q)]))
    return And(fs)

