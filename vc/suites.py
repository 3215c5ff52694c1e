"""Translation units, specification modules and property -> suite map."""
import importlib
import os
import subprocess

SUITES = {
    # name: (spec module, sources, extensions)
    'disp': ('specs_disp', ['src/HsmEventDispatcherBase.cpp'], []),
    'std': ('specs_std', ['src/HsmEventDispatcherSTD.cpp', 'src/HsmEventDispatcherBase.cpp'], []),
    'impl': ('specs_impl', ['src/HsmImpl.cpp', 'src/HsmImplTypes.cpp'], ['specs_impl_reg', 'specs_impl_hist', 'specs_impl_ext']),
    'variant': ('specs_variant', ['src/variant.cpp', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst_variant.cpp')], []),
    'os': ('specs_os', ['src/os/common/LockGuard.cpp', 'src/os/common/CriticalSection.cpp', 'src/os/common/UniqueLock.cpp',
                        'src/os/stl/ConditionVariable.cpp', 'src/os/stl/AtomicFlag.cpp', 'src/os/posix/InterruptsFreeSection.cpp'], []),
    'glib': ('specs_glib', ['src/HsmEventDispatcherGLib.cpp', 'src/HsmEventDispatcherBase.cpp'], []),
    'glibmm': ('specs_glibmm', ['src/HsmEventDispatcherGLibmm.cpp', 'src/HsmEventDispatcherBase.cpp'], []),
    'qt': ('specs_qt', ['src/HsmEventDispatcherQt.cpp', 'src/HsmEventDispatcherBase.cpp'], []),
    'api': ('specs_api', ['src/hsm.cpp', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst_api.cpp')], []),
}
PKG = {'src/HsmEventDispatcherGLib.cpp': 'glib-2.0', 'src/HsmEventDispatcherGLibmm.cpp': 'glibmm-2.4', 'src/HsmEventDispatcherQt.cpp': 'Qt5Core'}


def flags(src):
    """further compiler flags of a source file"""
    if src not in PKG:
        return []
    out = subprocess.run(['pkg-config', '--cflags', PKG[src]], capture_output=True, text=True, check=True).stdout.split()
    return out + ['-fPIC']


# what the contracts of a suite leave unchecked (listed in the evidence of every property that uses the suite)
ASSUMPTIONS = {
    'disp': ['dispatcher: handlers that are called back may register, unregister, send and start timers (everything public), and return'],
    'std': ['STD dispatcher: other threads are represented by replacing what a lock protects by an arbitrary value allowed by the '
            'rely condition whenever the lock is taken, a wait ends or a handler is called; memory order of the two plain stop flags is not modelled',
            'STD dispatcher: the clock is an integer number of nanoseconds that never decreases; std::thread starts its function once'],
    'impl': ['state machine: conditions are functions of their arguments and have no effect; state and transition callbacks may send events, '
             'start timers and release the machine, but do not register states or transitions while a transition is executed',
             'state machine: the platform dispatcher is used through its interface: each call is recorded, registration returns an identifier '
             'that is valid or not; values are read through function symbols (their conversions: suite variant)',
             'state machine: getStateName()/getEventName() of a derived class return a text and do nothing else; std streams, texts and clock '
             'calls of the debugging log are opaque values without effect on the machine',
             'state machine: ~PendingEventInfo is modelled as the release of a synchronous wait by the last copy; its check of the number of '
             'copies (cvLock.unique()) is not; a machine that was released is not initialised again'],
    'api': ['public class: member function forms are verified for the instances in vc/inst_api.cpp (one handler class, typical argument packs); '
            'std::bind and std::function are function symbols of the method, the object and the order of the parameters'],
    'variant': ['variant: templates are verified for the instances in vc/inst_variant.cpp (every type of the library; `Custom` stands for any '
                'user-defined type with == and >; vector<long>, list<long>, map<long, ...> and pair<long, ...> for the container forms)',
                'variant: std::to_string, std::stoll, std::stod and other library conversions, floating-point arithmetic and comparison are function symbols; '
                'containers and pairs copy their items with the copy constructor of Variant',
                'variant: the class invariant (type, object and functions fit together, every variant owns its own object) holds for items of containers; '
                'comparing two values of user-defined type requires that they have the same type'],
}
ASSUMPTIONS['os'] = ['synchronisation wrappers: std::mutex, std::condition_variable, std::atomic<bool> and pthread_sigmask behave as their standards say; '
                     'ConditionVariable::wait is used with a lock that is owned (every caller here does); the wrappers of other platforms are not verified']
ASSUMPTIONS['glib'] = ['GLib dispatcher: GLib calls, pipe, read, write and fcntl behave as documented (a source runs with the interval, callback and context it was given '
                       'until it is destroyed or its callback returns 0); a single-shot expiry that races a start of the same timer in another thread, the '
                       'destructor and deleteSafe() are not covered']
ASSUMPTIONS['glibmm'] = ['glibmm dispatcher: glibmm and sigc calls behave as documented (a connection calls its slot until it is disconnected or the slot returns false); '
                         'timers are used in the thread of the loop as glibmm requires; a dispatcher without main context, the destructor and deleteSafe() are not covered']
ASSUMPTIONS['qt'] = ['Qt dispatcher: Qt calls behave as documented (a function connected to the deferred timer runs once, later, in the main thread; deleteLater() ends a '
                     'timer, which may announce one expiry that is already queued); intervals above INT_MAX ms, the destructor and deleteSafe() are not covered']
ENABLED = ['disp', 'std', 'impl', 'api', 'variant', 'os', 'glib', 'glibmm', 'qt']


def load(name):
    mod, srcs, ext = SUITES[name]
    S = importlib.import_module(mod).make()
    for x in ext:
        importlib.import_module(x).extend(S)
    return S, srcs
