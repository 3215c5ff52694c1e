// Bounded search with real threads: the repository's HsmEventDispatcherSTD, timers and synchronous transitions.
//   std_check search <profile> <kinds> <seed> <max sessions> <seconds> <replay file>
//   std_check replay <file> <kinds>
// Every check is a bound that holds whatever the scheduler does (minimum delays, exact counts, per-thread order); "does not
// return" is reported only after 25 s without any progress.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <vector>
#include <csignal>
#include "hsmcpp/HsmEventDispatcherSTD.hpp"
#include "hsmcpp/os/AtomicFlag.hpp"
#include "hsmcpp/os/ConditionVariable.hpp"
#include "hsmcpp/os/CriticalSection.hpp"
#include "hsmcpp/os/InterruptsFreeSection.hpp"
#include "hsmcpp/os/LockGuard.hpp"
#include "hsmcpp/os/Mutex.hpp"
#include "hsmcpp/os/UniqueLock.hpp"
#include "hsmcpp/hsm.hpp"
#include "scenario.hpp"

#if defined(__SANITIZE_THREAD__)
// the two stop flags are plain bools that are only ever set to true (described in DESIGN.md)
extern "C" const char* __tsan_default_suppressions() { return "race:hsmcpp::HsmEventDispatcherBase::stop\nrace:hsmcpp::HierarchicalStateMachine::Impl::release\n"; }
extern "C" const char* __tsan_default_options() { return "exitcode=66:halt_on_error=1:report_signal_unsafe=0"; }
#endif

using namespace hsmcpp;
using Clock = std::chrono::steady_clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
static void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }

static std::atomic<long> progress{0};
static std::atomic<bool> finished{false};
static int outFd = 1;
static void tell(const std::string& s) { if (write(outFd, s.data(), s.size()) < 0) {} }
static void fail(const std::string& s) {
    static std::mutex m;
    std::lock_guard<std::mutex> l(m);
    tell(s + "\n");
    _exit(1);
}
static double LIMIT = 25.0;
// waits for a condition that must come true
template <class F>
static void await(const char* what, F f) {
    auto t = Clock::now();
    while (!f()) {
        if (since(t) > LIMIT) fail(std::string("never happens: ") + what);
        nap(200);
    }
    ++progress;
}

// ---- events sent by several threads are handled once each, in each sender's order, one at a time
static void sOrder(Rng& r) {
    auto d = HsmEventDispatcherSTD::create();
    HierarchicalStateMachine h(0);
    const int K = 1 + r.below(3), M = 20 + r.below(150);
    std::vector<std::atomic<int>> next(static_cast<size_t>(K));
    for (auto& n : next) n = 0;
    std::atomic<int> inside{0}, handled{0}, refused{0};
    std::atomic<size_t> thread{0};
    h.registerState(0);
    h.registerFailedTransitionCallback([&](const std::list<StateID_t>&, const EventID_t, const VariantVector_t&) { ++refused; });
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t& a) {
        if (inside.fetch_add(1) != 0) fail("two events are handled at the same time");
        const size_t me = std::hash<std::thread::id>()(std::this_thread::get_id());
        size_t none = 0;
        if (!thread.compare_exchange_strong(none, me) && none != me) fail("callbacks are called from different threads");
        const size_t k = static_cast<size_t>(a.at(0).toInt64());
        const int i = static_cast<int>(a.at(1).toInt64());
        if (next[k] != i) fail("event " + std::to_string(i) + " of a thread is handled when " + std::to_string(next[k]) + " is due");
        next[k] = i + 1;
        ++handled;
        ++progress;
        --inside;
    });
    if (!h.initialize(d)) fail("initialize() failed");
    std::vector<std::thread> ts;
    const uint64_t sd = r.next();
    for (int k = 0; k < K; ++k)
        ts.emplace_back([&, k]() {
            Rng q(sd + static_cast<uint64_t>(k));
            for (int i = 0; i < M; ++i) {
                switch (q.below(12)) {
                    case 0:
                        if (!h.transitionSync(1, HSM_WAIT_INDEFINITELY, k, i)) fail("a synchronous transition that succeeds returned false");
                        if (next[static_cast<size_t>(k)] <= i) fail("transitionSync() returned before the event was handled");
                        break;
                    case 1:
                        if (!h.transitionEx(1, false, false, 0, k, i)) fail("an asynchronous transition returned false");
                        break;
                    case 2:
                        if (h.transitionSync(2, HSM_WAIT_INDEFINITELY)) fail("a synchronous transition that is not registered returned true");
                        h.transition(1, k, i);
                        break;
                    default: h.transition(1, k, i); break;
                }
                if (q.below(20) == 0) nap(q.below(300));
                ++progress;
            }
        });
    for (auto& t : ts) t.join();
    await("all events are handled", [&] { return handled == K * M; });
    nap(r.below(2000));
    if (handled != K * M) fail("an event is handled twice");
    h.release();
    d->stop();
    d->join();
}

// ---- the caller of a synchronous transition always gets its result
static void sSync(Rng& r, double secs) {
    auto d = HsmEventDispatcherSTD::create();
    HierarchicalStateMachine h(0);
    std::atomic<bool> slow{false}, done{false};
    h.registerState(0);
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t&) {
        if (slow) nap(6000);
        done = true;
    });
    h.registerSelfTransition(0, 3, TransitionType::INTERNAL_TRANSITION, nullptr, [](const VariantVector_t&) { return false; }, true);
    if (!h.initialize(d)) fail("initialize() failed");
    auto t0 = Clock::now();
    volatile int x = 0;
    const int spin = 1 + r.below(400);
    for (long n = 0; since(t0) < secs; ++n) {
        done = false;
        if (!h.transitionSync(1, HSM_WAIT_INDEFINITELY)) fail("a synchronous transition that succeeds returned false");
        if (!done) fail("transitionSync() returned before the event was handled");
        for (int k = 0; k < (n % spin); ++k) x = x + 1;
        if (n % 16 == 0 && h.transitionSync(2, HSM_WAIT_INDEFINITELY)) fail("a synchronous transition that is not registered returned true");
        if (n % 16 == 8 && h.transitionSync(3, HSM_WAIT_INDEFINITELY)) fail("a synchronous transition whose condition does not hold returned true");
        ++progress;
    }
    for (int i = 0; i < 3; ++i) {      // with a time limit
        slow = true;
        done = false;
        const int limit = 1 + r.below(9);
        auto t = Clock::now();
        const bool ok = h.transitionSync(1, limit);
        const double el = since(t) * 1000;
        if (ok && !done) fail("transitionSync() with a time limit returned true before the event was handled");
        if (!ok && el < limit - 1.0) fail("transitionSync() gave up before its time limit");
        slow = false;
        await("the event is handled after the time limit", [&] { return done.load(); });
        if (!h.transitionSync(1, 20000)) fail("a synchronous transition that succeeds returned false");
    }
    h.release();
    d->stop();
    d->join();
}

// ---- timers of a state machine
static void sTimers(Rng& r) {
    auto d = HsmEventDispatcherSTD::create();
    HierarchicalStateMachine h(0);
    struct T { int interval; bool once; std::atomic<int> count; std::atomic<double> first; };
    const int N = 2 + r.below(3);
    std::vector<T> ts(static_cast<size_t>(N + 1));
    auto t0 = Clock::now();
    h.registerState(0);
    for (int i = 0; i <= N; ++i) {
        T* t = &ts[static_cast<size_t>(i)];
        t->interval = 5 + r.below(40);
        t->once = r.below(2) == 0;
        t->count = 0;
        t->first = -1;
        h.registerTimer(i, 10 + i);
        h.registerSelfTransition(0, 10 + i, TransitionType::INTERNAL_TRANSITION, [=](const VariantVector_t&) {
            if (t->count == 0) t->first = since(t0);
            ++t->count;
            ++progress;
        });
    }
    if (!h.initialize(d)) fail("initialize() failed");
    T& never = ts[static_cast<size_t>(N)];
    never.interval = 60000;
    std::vector<double> started(static_cast<size_t>(N));
    static const unsigned kLong[] = {60000u, 2147483647u, 2147483648u, 3000000000u, 4294967295u, 4294967000u};
    h.startTimer(N, kLong[r.below(6)], r.below(2) == 0);
    for (int i = 0; i < N; ++i) {
        started[static_cast<size_t>(i)] = since(t0);
        h.startTimer(i, static_cast<unsigned>(ts[static_cast<size_t>(i)].interval), ts[static_cast<size_t>(i)].once);
        if (r.below(2)) nap(r.below(3000));
    }
    if (!h.isTimerRunning(N)) fail("a timer that has been started is not running");
    for (int i = 0; i < N; ++i) await("a started timer fires as often as requested", [&] { T& t = ts[static_cast<size_t>(i)]; return t.count >= (t.once ? 1 : 3); });
    for (int i = 0; i < N; ++i) {
        T& t = ts[static_cast<size_t>(i)];
        if (t.first * 1000 < started[static_cast<size_t>(i)] * 1000 + t.interval - 2) fail("timer fires before its interval of " + std::to_string(t.interval) + " ms");
        if (t.once) await("a single shot timer that fired is not running", [&] { return !h.isTimerRunning(i); });
        else if (!h.isTimerRunning(i)) fail("a repeating timer stopped by itself");
    }
    // an upper bound of the number of events: one per interval (which may be cut by 1 ms)
    for (int i = 0; i < N; ++i) {
        T& t = ts[static_cast<size_t>(i)];
        const int c = t.count;
        const double el = since(t0) * 1000 - started[static_cast<size_t>(i)] * 1000;
        if (t.once ? c > 1 : c > el / (t.interval - 1) + 2) fail("timer fires more often than requested: " + std::to_string(c) + " times in " + std::to_string(el) + " ms, interval " + std::to_string(t.interval));
    }
    for (int i = 0; i < N; ++i) { h.stopTimer(i); if (h.isTimerRunning(i)) fail("a stopped timer is running"); }
    nap(20000);
    await("events of stopped timers are handled", [&] { return h.transitionSync(99, HSM_WAIT_INDEFINITELY) == false; });
    std::vector<int> c;
    for (auto& t : ts) c.push_back(t.count);
    nap(60000);
    (void)h.transitionSync(99, HSM_WAIT_INDEFINITELY);
    for (int i = 0; i < N; ++i) if (ts[static_cast<size_t>(i)].count != c[static_cast<size_t>(i)]) fail("a stopped timer fires");
    if (never.count != 0) fail("a timer of 60 s or more fires in a second");
    // restarting starts the interval again, and the remaining timer is not lost when others stop
    const int iv = 60 + r.below(60);
    ts[0].count = 0;
    ts[0].first = -1;
    h.startTimer(0, static_cast<unsigned>(iv), true);
    const double s1 = since(t0);
    nap(15000 + r.below(20000));
    const double s2 = since(t0);
    if (r.below(2)) h.restartTimer(0);
    else h.startTimer(0, static_cast<unsigned>(iv), true);
    const bool inTime = (since(t0) - s1) * 1000 < iv * 0.7;   // surely before it expired
    await("a restarted timer fires", [&] { return ts[0].count >= 1; });
    if (inTime && ts[0].first * 1000 < s2 * 1000 + iv - 2) fail("a restarted timer fires before its interval");
    if (inTime) {
        nap(iv * 1500);
        (void)h.transitionSync(99, HSM_WAIT_INDEFINITELY);
        if (ts[0].count != 1) fail("a restarted single shot timer fires " + std::to_string(ts[0].count) + " times");
    }
    if (!h.isTimerRunning(N)) fail("a timer that has not expired is not running");
    h.release();
    d->stop();
    d->join();
}

// ---- timers are started and stopped while others expire
static void sTimerRace(Rng& r) {
    auto d = HsmEventDispatcherSTD::create();
    if (!d->start()) fail("start() failed");
    std::atomic<long> fired{0};
    std::atomic<bool> gone{false};
    const HandlerID_t h1 = d->registerTimerHandler([&](TimerID_t) { ++fired; return true; });
    const HandlerID_t h2 = d->registerTimerHandler([&](TimerID_t t) { if (gone) fail("timer " + std::to_string(t) + " of an unregistered handler fires"); ++fired; return true; });
    const int K = 1 + r.below(2);
    std::vector<std::thread> ts;
    const uint64_t sd = r.next();
    for (int k = 0; k < K; ++k)
        ts.emplace_back([&, k]() {
            Rng q(sd + static_cast<uint64_t>(k));
            auto t0 = Clock::now();
            while (since(t0) < 0.5) {
                const int t = k * 4 + q.below(4);
                switch (q.below(6)) {
                    case 0: d->stopTimer(t); break;
                    case 1: d->restartTimer(t); break;
                    case 2: (void)d->isTimerRunning(t); break;
                    default: d->startTimer((t & 1) ? h1 : h2, t, static_cast<unsigned>(1 + q.below(3)), q.below(2) == 0); break;
                }
                if (q.below(8) == 0) nap(q.below(1500));
                ++progress;
            }
        });
    for (auto& t : ts) t.join();
    d->startTimer(h1, 100, 1, true);
    d->startTimer(h2, 101, 1, false);
    const long f = fired;
    await("a started timer fires", [&] { return fired > f; });
    d->unregisterTimerHandler(h2);
    gone = true;
    if (d->isTimerRunning(101)) fail("a timer of an unregistered handler is running");
    nap(10000);
    d->stop();
    d->join();
}

// ---- handlers, events and actions of the dispatcher itself
static void sDispatch(Rng& r) {
    auto d = HsmEventDispatcherSTD::create(static_cast<size_t>(4 + r.below(8)));
    if (!d->start()) fail("start() failed");
    const int K = 1 + r.below(3), M = 10 + r.below(60);
    std::mutex m;
    std::set<HandlerID_t> ids;
    std::atomic<int> inside{0};
    std::vector<std::thread> ts;
    const uint64_t sd = r.next();
    auto enter = [&] { if (inside.fetch_add(1) != 0) fail("two handlers run at the same time"); };
    struct Box { std::atomic<int> events, actions, enq, accepted; };
    std::vector<std::unique_ptr<Box>> boxes;
    for (int k = 0; k < K; ++k) { boxes.emplace_back(new Box); boxes.back()->events = boxes.back()->actions = boxes.back()->enq = boxes.back()->accepted = 0; }
    for (int k = 0; k < K; ++k)
        ts.emplace_back([&, k]() {
            Rng q(sd + static_cast<uint64_t>(k));
            Box* b = boxes[static_cast<size_t>(k)].get();
            int sent = 0, acts = 0;
            HandlerID_t h = d->registerEventHandler([&, b] { enter(); ++b->events; --inside; ++progress; return true; });
            HandlerID_t e = d->registerEnqueuedEventHandler([&, b](const EventID_t) { enter(); ++b->enq; --inside; return true; });
            HandlerID_t other = d->registerEventHandler([] { return true; });
            HandlerID_t tm = d->registerTimerHandler([](TimerID_t) { return true; });
            {
                std::lock_guard<std::mutex> l(m);
                for (HandlerID_t id : {h, e, other, tm}) {
                    if (id == INVALID_HSM_DISPATCHER_HANDLER_ID) fail("an invalid handler id is returned");
                    if (!ids.insert(id).second) fail("two handlers get the same id");
                }
            }
            for (int i = 0; i < M; ++i) {
                switch (q.below(6)) {
                    case 0: { const int due = acts++; d->enqueueAction([&, b, due] {
                        enter();
                        if (b->actions != due) fail("actions of a thread run out of order");
                        ++b->actions;
                        --inside;
                        ++progress;
                    }); break; }
                    case 1: if (d->enqueueEvent(e, i)) ++b->accepted; break;
                    case 2: if (q.below(4) == 0) { d->unregisterEventHandler(other); other = d->registerEventHandler([] { return true; }); } break;
                    default: d->emitEvent(h); ++sent; break;
                }
                if (q.below(10) == 0) nap(q.below(400));
                if (q.below(12) == 0) {      // nothing else is going on in this thread: what is pending gets done
                    await("emitted events are dispatched", [&] { return b->events == sent; });
                    await("enqueued actions run", [&] { return b->actions == acts; });
                }
                ++progress;
            }
            await("emitted events are dispatched", [&] { return b->events == sent; });
            await("enqueued actions run", [&] { return b->actions == acts; });
            d->emitEvent(other);
            await("enqueued events are dispatched", [&] { d->emitEvent(other); nap(500); return b->enq == b->accepted; });
            nap(500);
            if (b->events != sent || b->actions != acts || b->enq != b->accepted) fail("something is dispatched twice");
        });
    for (auto& t : ts) t.join();
    // an idle dispatcher wakes up for a single action
    for (int i = 0; i < 3; ++i) {
        nap(3000);
        std::atomic<int> n{0};
        d->enqueueAction([&] { ++n; });
        await("an action enqueued while the dispatcher is idle runs", [&] { return n == 1; });
    }
    d->stop();
    d->join();
}

// ---- dispatchers and machines come and go
static void sLife(Rng& r) {
    for (int n = 0; n < 8; ++n) {
        auto d = HsmEventDispatcherSTD::create();
        std::unique_ptr<HierarchicalStateMachine> h(new HierarchicalStateMachine(0));
        std::atomic<bool> gone{false};
        h->registerState(0);
        h->registerTimer(0, 1);
        h->registerSelfTransition(0, 1, TransitionType::EXTERNAL_TRANSITION, [&](const VariantVector_t&) { ++progress; });
        if (!h->initialize(d)) fail("initialize() failed");
        if (r.below(2)) h->startTimer(0, static_cast<unsigned>(1 + r.below(3)), r.below(2) == 0);
        for (int i = r.below(20); i > 0; --i) h->transition(1, i);
        if (r.below(2)) nap(r.below(4000));
        switch (r.below(5)) {
            // the dispatcher outlives its own threads: it cannot wait for itself (see DESIGN.md)
            case 0: h->release(); h.reset(); d->stop(); d->join(); break;
            case 1: d->stop(); d->join(); h->release(); break;
            case 2: d->stop(); d->join(); d.reset(); h.reset(); break;
            case 3: h.reset(); d->stop(); d->join(); d.reset(); break;
            default: (void)h->transitionSync(1, HSM_WAIT_INDEFINITELY); h->release(); d->stop(); d->join(); d.reset(); break;
        }
        ++progress;
    }
}

// ---- the lock wrappers
static bool isFree(Mutex& m) {
    bool ok = false;
    std::thread([&] { ok = m.nativeHandle().try_lock(); if (ok) m.nativeHandle().unlock(); }).join();
    return ok;
}
static bool usrBlocked() {
    sigset_t now;
    pthread_sigmask(SIG_BLOCK, nullptr, &now);
    return sigismember(&now, SIGUSR1) == 1 && sigismember(&now, SIGALRM) == 1;
}
static void sLocks(Rng& r) {
    Mutex ms[3];
    struct L { std::unique_ptr<UniqueLock> l; int m; bool owns; } ls[4];
    bool held[3] = {false, false, false};
    for (auto& x : ls) { x.l.reset(new UniqueLock()); x.m = -1; x.owns = false; }
    auto check = [&](const char* what) {
        for (auto& x : ls) {
            if (x.l->owns_lock() != x.owns || static_cast<bool>(*x.l) != x.owns) fail(std::string("UniqueLock: wrong owns_lock() after ") + what);
            if (x.l->mutex() != (x.m < 0 ? nullptr : &ms[x.m])) fail(std::string("UniqueLock: wrong mutex() after ") + what);
        }
        for (int i = 0; i < 3; ++i) if (isFree(ms[i]) == held[i]) fail(std::string(held[i] ? "a mutex is free although it is locked after " : "a mutex stays locked after ") + what);
        ++progress;
    };
    auto drop = [&](L& x) { if (x.owns) held[x.m] = false; };      // what it owns is unlocked
    for (int n = 0; n < 60; ++n) {
        L& x = ls[r.below(4)];
        L& y = ls[r.below(4)];
        const int m = r.below(3);
        switch (r.below(8)) {
            case 0:
                if (held[m] && !(x.owns && x.m == m)) break;
                drop(x);
                x.l.reset();
                x.l.reset(new UniqueLock(ms[m]));
                x.m = m; x.owns = true; held[m] = true;
                check("construction");
                break;
            case 1:
                if (x.m >= 0 && !x.owns && held[x.m]) break;
                x.l->lock();
                if (x.m >= 0) { x.owns = true; held[x.m] = true; }
                check("lock()");
                break;
            case 2: x.l->unlock(); drop(x); x.owns = false; check("unlock()"); break;
            case 3: if (&x == &y) break; drop(x); *x.l = std::move(*y.l); x.m = y.m; x.owns = y.owns; y.m = -1; y.owns = false; check("move assignment"); break;
            case 4: if (&x == &y) break; drop(x); x.l.reset(new UniqueLock(std::move(*y.l))); x.m = y.m; x.owns = y.owns; y.m = -1; y.owns = false; check("move construction"); break;
            case 5: {
                Mutex* p = x.l->release();
                if (p != (x.m < 0 ? nullptr : &ms[x.m])) fail("UniqueLock: wrong result of release()");
                if (x.owns) { if (isFree(ms[x.m])) fail("UniqueLock: release() unlocks"); p->unlock(); held[x.m] = false; }
                x.m = -1; x.owns = false;
                check("release()");
                break;
            }
            case 6:
                if (held[m]) break;
                { LockGuard g(ms[m]); if (isFree(ms[m])) fail("LockGuard does not lock"); }
                check("LockGuard");
                break;
            default: {
                if (held[m]) break;
                const bool before = usrBlocked();
                { CriticalSection g(ms[m]); if (isFree(ms[m])) fail("CriticalSection does not lock"); if (!usrBlocked()) fail("CriticalSection does not block signals"); }
                if (usrBlocked() != before) fail("CriticalSection does not restore the signal mask");
                check("CriticalSection");
                break;
            }
        }
    }
    for (auto& x : ls) x.l.reset();
    for (int i = 0; i < 3; ++i) if (!isFree(ms[i])) fail("a mutex stays locked after its locks are gone");
    // signals blocked before a section stay blocked after it
    sigset_t set, old;
    sigemptyset(&set);
    sigaddset(&set, SIGUSR1);
    sigaddset(&set, SIGALRM);
    pthread_sigmask(SIG_BLOCK, &set, &old);
    { InterruptsFreeSection s1; { InterruptsFreeSection s2; } if (!usrBlocked()) fail("an inner InterruptsFreeSection ends the outer one"); }
    if (!usrBlocked()) fail("InterruptsFreeSection does not restore the signal mask");
    pthread_sigmask(SIG_SETMASK, &old, nullptr);
    // waiting
    Mutex m;
    ConditionVariable v;
    for (int n = 0; n < 4; ++n) {
        bool flag = false;
        std::atomic<bool> go{false};
        std::thread t([&] {
            while (!go) nap(50);
            nap(r.below(2) ? 0 : 1500);
            LockGuard g(m);
            flag = true;
            v.notify();
        });
        {
            UniqueLock l(m);
            go = true;
            if (n % 2) v.wait(l, [&] { return flag; });
            else if (!v.wait_for(l, 60000, [&] { return flag; })) fail("wait_for() gives up early");
            if (!flag) fail("waiting ends before its condition holds");
            if (l.owns_lock() == isFree(m)) fail("the lock is in disorder after waiting");
        }
        t.join();
        if (!isFree(m)) fail("a mutex stays locked after waiting");
        UniqueLock l(m);
        auto t0 = Clock::now();
        const int limit = 1 + r.below(6);
        if (v.wait_for(l, limit, [] { return false; })) fail("wait_for() returns true although its condition never holds");
        if (since(t0) * 1000 < limit - 0.5) fail("wait_for() gives up before its time limit");
        if (l.owns_lock() == isFree(m)) fail("the lock is in disorder after waiting");
        ++progress;
    }
    AtomicFlag f;
    if (f.test()) fail("a new AtomicFlag is set");
    if (f.test_and_set() || !f.test() || !f.test_and_set()) fail("AtomicFlag::test_and_set() does not set");
    std::thread t([&] { nap(1000); UniqueLock l = f.lock(); f.clear(); f.notify(); });
    f.wait(true);
    if (f.test()) fail("AtomicFlag::wait() returns before the flag changed");
    t.join();
    f.wait(true);
    ++progress;
}

struct Session { const char* name; void (*run)(Rng&); };
static void sSyncShort(Rng& r) { sSync(r, 0.8); }
static const Session SESSIONS[] = {{"order", sOrder}, {"sync", sSyncShort}, {"timers", sTimers}, {"timerrace", sTimerRace}, {"dispatch", sDispatch}, {"life", sLife}, {"locks", sLocks}};
static std::vector<std::string> plan(const std::string& prof) {
    if (prof == "C09") return {"sync", "order", "sync", "order"};
    if (prof == "C10") return {"timers", "timers", "timerrace"};
    if (prof == "C11") return {"dispatch", "dispatch", "life"};
#if defined(__SANITIZE_THREAD__)
    return {"sync", "timerrace", "dispatch", "life", "order", "timers"};      // "locks" takes the same locks in any order
#else
    return {"sync", "timerrace", "locks", "dispatch", "life", "order", "timers"};
#endif
}

// runs in a child: 0 fine, 1 violated, 3 cannot run
static int guarded(const std::string& name, uint64_t seed, std::string* why, long* ops) {
    int fd[2];
    if (pipe(fd) != 0) return 3;
    auto* cnt = static_cast<volatile long*>(mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        outFd = fd[1];
        dup2(fd[1], 2);
        std::thread([cnt] {
            long last = -1;
            auto t = Clock::now();
            while (!finished) {
                nap(50000);
                __atomic_store_n(const_cast<long*>(cnt), progress.load(), __ATOMIC_RELAXED);
                if (progress != last) { last = progress; t = Clock::now(); }
                else if (since(t) > LIMIT + 5) fail("a call does not return (no progress for 30 s)");
            }
        }).detach();
        Rng r(seed);
        for (auto& s : SESSIONS) if (name == s.name) s.run(r);
        __atomic_store_n(const_cast<long*>(cnt), progress.load(), __ATOMIC_RELAXED);
        finished = true;
        nap(60000);
        exit(0);
    }
    close(fd[1]);
    std::string w;
    char buf[4096];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) w.append(buf, static_cast<size_t>(k));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (ops) *ops += *cnt;
    munmap(const_cast<long*>(cnt), sizeof(long));
    if (why) *why = w;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66 && w.find("data race") == std::string::npos && w.find("lock-order") == std::string::npos) return 3;
    if (why && WIFSIGNALED(st)) *why += "the process is terminated by signal " + std::to_string(WTERMSIG(st)) + "\n";
    return 1;
}

int main(int argc, char** argv) {
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        std::ifstream in(argv[2]);
        std::string row, name;
        uint64_t seed = 0;
        while (std::getline(in, row)) {
            std::istringstream ls(row);
            std::string a, c;
            ls >> a;
            if (a == "session") ls >> name >> c >> seed;
        }
        std::string why;
        for (int i = 0; i < 40; ++i)      // real threads: the same session is repeated
            if (guarded(name, seed, &why, nullptr) == 1) { printf("%sVIOLATED\n", why.c_str()); return 1; }
        printf("as expected\n");
        return 0;
    }
    if (argc < 8 || strcmp(argv[1], "search")) return 3;
    const std::string prof = argv[2];
    const uint64_t seed = strtoull(argv[4], nullptr, 10);
    const long maxN = atol(argv[5]);
    const double secs = atof(argv[6]);
    auto t0 = Clock::now();
    const auto names = plan(prof);
    long ops = 0, sessions = 0;
    int verdict = 0;
    for (long i = 0; i < maxN && since(t0) < secs; ++i) {
        const std::string& n = names[(static_cast<size_t>(i) + seed) % names.size()];
        const uint64_t s = seed * 1000003ull + static_cast<uint64_t>(i);
        std::string why;
        const int g = guarded(n, s, &why, &ops);
        if (g == 3) { fprintf(stderr, "%s", why.c_str()); return 4; }
        ++sessions;
        if (g == 1) {
            verdict = 1;
            std::ofstream o(argv[7]);
            o << "session " << n << " seed " << s << "\n";
            std::istringstream ws(why);
            std::string row;
            while (std::getline(ws, row)) o << "# " << row << "\n";
            break;
        }
    }
    printf("{\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"violations\": %d, \"wall_s\": %.2f, \"sample\": \"%s: %ld operations in %ld sessions with real threads\"}\n", sessions, sessions, verdict,
           since(t0), prof.c_str(), ops, sessions);
    return verdict;
}
