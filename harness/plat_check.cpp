// Bounded search with real event loops: the repository's dispatchers for GLib, glibmm and Qt (one program each, -DPLAT_GLIB / -DPLAT_GLIBMM / -DPLAT_QT).
//   plat_check search <profile> <kinds> <seed> <max sessions> <seconds> <replay file>
//   plat_check replay <file> <kinds>
// The loop runs in the main thread of a child process; a second thread plays the session.  Every check is a bound that holds
// whatever the scheduler does; "does not return" is reported only after 25 s without any progress.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <vector>
#if defined(PLAT_GLIB)
#include <glib.h>
#include "hsmcpp/HsmEventDispatcherGLib.hpp"
typedef hsmcpp::HsmEventDispatcherGLib Disp;
#elif defined(PLAT_GLIBMM)
#include <glibmm.h>
#include "hsmcpp/HsmEventDispatcherGLibmm.hpp"
typedef hsmcpp::HsmEventDispatcherGLibmm Disp;
#else
#include <QCoreApplication>
#include <QMetaObject>
#include "hsmcpp/HsmEventDispatcherQt.hpp"
typedef hsmcpp::HsmEventDispatcherQt Disp;
#endif
#include "hsmcpp/hsm.hpp"
#include "scenario.hpp"

using namespace hsmcpp;
using Clock = std::chrono::steady_clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
static void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }

static std::atomic<long> progress{0};
static std::atomic<bool> finished{false};
static int outFd = 1;
static void fail(const std::string& s, int code = 1) {
    static std::mutex m;
    std::lock_guard<std::mutex> l(m);
    const std::string t = s + "\n";
    if (write(outFd, t.data(), t.size()) < 0) {}
    _exit(code);
}
static const double LIMIT = 25.0;
template <class F>
static void await(const char* what, F f) {
    auto t = Clock::now();
    while (!f()) {
        if (since(t) > LIMIT) fail(std::string("never happens: ") + what);
        nap(200);
    }
    ++progress;
}

// ---- the event loop
static std::thread::id mainThread;
#if defined(PLAT_QT)
static QCoreApplication* app = nullptr;
static const bool kAnyThread = true;        // timers may be started and stopped in any thread
static const double kEarly = 0.05;          // coarse timers may expire 5% early
static const int kQueued = 1;               // an expiry that is already queued is still announced
static void post(std::function<void()> f) { QMetaObject::invokeMethod(app, f, Qt::QueuedConnection); }
static std::shared_ptr<Disp> make(Rng&) { return Disp::create(); }
static void loop() { app->exec(); }
static void quit() { post([] { app->quit(); }); }
#else
static GMainContext* ctx = nullptr;
static GMainLoop* mainLoop = nullptr;
static const double kEarly = 0;
static const int kQueued = 0;
static void post(std::function<void()> f) {
    GSource* s = g_idle_source_new();
    g_source_set_priority(s, G_PRIORITY_DEFAULT);
    g_source_set_callback(s, [](gpointer p) -> gboolean { (*static_cast<std::function<void()>*>(p))(); return G_SOURCE_REMOVE; },
                          new std::function<void()>(std::move(f)), [](gpointer p) { delete static_cast<std::function<void()>*>(p); });
    g_source_attach(s, ctx);
    g_source_unref(s);
}
static void loop() { g_main_loop_run(mainLoop); }
static void quit() { post([] { g_main_loop_quit(mainLoop); }); }
#if defined(PLAT_GLIB)
static const bool kAnyThread = true;
static bool ownContext = false;
static std::shared_ptr<Disp> make(Rng& r) { return ownContext ? Disp::create(ctx) : r.below(2) ? Disp::create(ctx) : Disp::create(); }
#else
static const bool kAnyThread = false;       // glibmm's signals belong to the thread of the loop
static std::shared_ptr<Disp> make(Rng&) { return Disp::create(Glib::MainContext::get_default()); }
#endif
#endif
// runs f in the thread of the loop and waits for it
static void onMain(std::function<void()> f) {
    if (std::this_thread::get_id() == mainThread) { f(); return; }
    std::shared_ptr<std::atomic<bool>> done(new std::atomic<bool>(false));
    post([=] { f(); *done = true; });
    await("a function posted to the event loop runs", [=] { return done->load(); });
}
static void anywhere(Rng& r, bool allowed, std::function<void()> f) {
    if (allowed && r.below(2)) f();
    else onMain(f);
}
static std::shared_ptr<Disp> running(Rng& r) {
    std::shared_ptr<Disp> d;
    onMain([&] { d = make(r); if (!d->start()) fail("start() failed"); if (!d->start()) fail("start() of a running dispatcher failed"); });
    return d;
}
static void finish(std::shared_ptr<Disp>& d) { onMain([&] { d->stop(); d.reset(); }); }
static void here() { if (std::this_thread::get_id() != mainThread) fail("a handler runs outside of the thread of the event loop"); }

// ---- handlers, events and actions
static void sDispatch(Rng& r) {
    auto d = running(r);
    const int K = 1 + r.below(3), M = 10 + r.below(80);
    std::mutex m;
    std::set<HandlerID_t> ids;
    std::atomic<int> inside{0};
    std::vector<std::thread> ts;
    const uint64_t sd = r.next();
    auto enter = [&] { here(); if (inside.fetch_add(1) != 0) fail("two handlers run at the same time"); };
    struct Box { std::atomic<int> events, actions, enq, accepted; };
    std::vector<std::unique_ptr<Box>> boxes;
    for (int k = 0; k < K; ++k) { boxes.emplace_back(new Box); boxes.back()->events = boxes.back()->actions = boxes.back()->enq = boxes.back()->accepted = 0; }
    for (int k = 0; k < K; ++k)
        ts.emplace_back([&, k]() {
            Rng q(sd + static_cast<uint64_t>(k));
            Box* b = boxes[static_cast<size_t>(k)].get();
            int sent = 0, acts = 0;
            const HandlerID_t h = d->registerEventHandler([&, b] { enter(); ++b->events; --inside; ++progress; return true; });
            const HandlerID_t e = d->registerEnqueuedEventHandler([&, b](const EventID_t) { enter(); ++b->enq; --inside; return true; });
            const HandlerID_t never = d->registerEventHandler([] { return true; });
            {
                std::lock_guard<std::mutex> l(m);
                for (HandlerID_t id : {h, e, never}) {
                    if (id == INVALID_HSM_DISPATCHER_HANDLER_ID) fail("an invalid handler id is returned");
                    if (!ids.insert(id).second) fail("two handlers get the same id");
                }
            }
            for (int i = 0; i < M; ++i) {
                switch (q.below(5)) {
                    case 0: { const int due = acts++; d->enqueueAction([&, b, due] {
                        enter();
                        if (b->actions != due) fail("actions of a thread run out of order");
                        ++b->actions;
                        --inside;
                        ++progress;
                    }); break; }
                    case 1: if (d->enqueueEvent(e, i)) ++b->accepted; break;
                    default: d->emitEvent(h); ++sent; break;
                }
                if (q.below(10) == 0) nap(q.below(400));
                if (q.below(12) == 0) {
                    await("emitted events are dispatched", [&] { return b->events == sent; });
                    await("enqueued actions run", [&] { return b->actions == acts; });
                }
                ++progress;
            }
            await("emitted events are dispatched", [&] { return b->events == sent; });
            await("enqueued actions run", [&] { return b->actions == acts; });
            d->emitEvent(never);
            await("enqueued events are dispatched", [&] { d->emitEvent(never); nap(500); return b->enq == b->accepted; });
            nap(500);
            if (b->events != sent || b->actions != acts || b->enq != b->accepted) fail("something is dispatched twice");
        });
    for (auto& t : ts) t.join();
    for (int i = 0; i < 3; ++i) {      // an idle dispatcher wakes up for a single event and a single action
        nap(2000);
        std::atomic<int> n{0};
        const HandlerID_t h = d->registerEventHandler([&] { here(); ++n; return true; });
        d->emitEvent(h);
        await("an event emitted while the dispatcher is idle is dispatched", [&] { return n == 1; });
        d->unregisterEventHandler(h);
        d->enqueueAction([&] { here(); ++n; });
        await("an action enqueued while the dispatcher is idle runs", [&] { return n == 2; });
    }
    finish(d);
}

// ---- calls before start() and after stop()
static void sLife(Rng& r) {
    for (int n = 0; n < 4; ++n) {
        std::shared_ptr<Disp> d;
        std::atomic<int> seen{0};
        bool stopped = false;
        onMain([&] { d = make(r); });
        const HandlerID_t h = d->registerEventHandler([&] { here(); if (stopped) fail("an event is dispatched after stop()"); ++seen; return true; });
        std::atomic<bool> early{false};
        if (r.below(2)) d->enqueueAction([&] { early = true; });
        else early = true;
        if (r.below(3) == 0) d->emitEvent(h);
        if (r.below(4) == 0) { finish(d); continue; }
        onMain([&] { if (!d->start()) fail("start() failed"); });
        const int before = seen;
        d->emitEvent(h);
        await("an event emitted after start() is dispatched", [&] { return seen > before; });
        await("an action enqueued before start() runs", [&] { return early.load(); });
        for (int i = r.below(20); i > 0; --i) d->emitEvent(h);
        if (r.below(2)) nap(r.below(1500));
        onMain([&] { d->stop(); stopped = true; });
        for (int i = r.below(3); i > 0; --i) d->emitEvent(h);
        if (r.below(2)) d->enqueueAction([&] { fail("an action runs after stop()"); });
        nap(1000);
        int other[2];      // most likely the descriptors the dispatcher had
        if (pipe(other) == 0) {
            fcntl(other[0], F_SETFL, O_NONBLOCK);
            d->emitEvent(h);
            if (r.below(2)) d->enqueueAction([&] { fail("an action runs after stop()"); });
            char c;
            if (read(other[0], &c, 1) == 1) fail("a stopped dispatcher writes into a file of somebody else");
            close(other[0]);
            close(other[1]);
        }
        if (r.below(2)) onMain([&] { d->stop(); });
        onMain([&] { d.reset(); });
        ++progress;
    }
#if defined(PLAT_GLIB)
    // no file descriptors: start() fails, and works once there are some
    auto d = make(r);
    std::atomic<int> seen{0};
    const HandlerID_t h = d->registerEventHandler([&] { ++seen; return true; });
    onMain([&] {
        rlimit old, none;
        getrlimit(RLIMIT_NOFILE, &old);
        none = old;
        none.rlim_cur = 0;
        setrlimit(RLIMIT_NOFILE, &none);
        const bool ok = d->start();
        const bool again = r.below(2) ? d->start() : false;
        setrlimit(RLIMIT_NOFILE, &old);
        if (ok || again) fail("start() claims to work without file descriptors");
        if (!d->start()) fail("start() failed");
    });
    d->emitEvent(h);
    await("an event emitted after start() is dispatched", [&] { return seen == 1; });
    finish(d);
#endif
}

// ---- many events while the loop is busy: emitting does not wait for it
static void sBurst(Rng& r) {
#if defined(PLAT_GLIBMM)
    const int N = 1000 + r.below(3000);     // Glib::Dispatcher::emit() itself waits when its pipe is full
#else
    const int N = r.below(2) ? 70000 : 1000 + r.below(3000);
#endif
    auto d = running(r);
    std::atomic<int> seen{0};
    const HandlerID_t h = d->registerEventHandler([&] { ++seen; return true; });
    onMain([&] { for (int i = 0; i < N; ++i) d->emitEvent(h); });
    await("a burst of events is dispatched", [&] { ++progress; return seen == N; });
    finish(d);
}

// ---- timers of the dispatcher
static void sTimers(Rng& r) {
    auto d = running(r);
    HsmEventDispatcherBase* b = d.get();
    struct T { int interval; bool once; std::atomic<int> count; std::atomic<double> first; double started; };
    const int N = 2 + r.below(3);
    std::vector<T> ts(static_cast<size_t>(N + 1));
    auto t0 = Clock::now();
    std::atomic<int> inside{0};
    const HandlerID_t h = d->registerTimerHandler([&](TimerID_t id) {
        here();
        if (inside.fetch_add(1) != 0) fail("two handlers run at the same time");
        if (id < 0 || id > N) fail("an unknown timer fires");
        T& t = ts[static_cast<size_t>(id)];
        if (t.count == 0) t.first = since(t0);
        ++t.count;
        ++progress;
        --inside;
        return true;
    });
    auto start = [&](int i) {
        T& t = ts[static_cast<size_t>(i)];
        t.started = since(t0);
        anywhere(r, kAnyThread, [&, i] { b->startTimer(h, i, static_cast<unsigned>(t.interval), t.once); });
    };
    auto stop = [&](int i) { anywhere(r, kAnyThread, [&, i] { d->stopTimer(i); }); };
    for (int i = 0; i <= N; ++i) {
        T& t = ts[static_cast<size_t>(i)];
        t.interval = i == N ? 60000 + r.below(100000) : 5 + r.below(40);
        t.once = r.below(2) == 0;
        t.count = 0;
        t.first = -1;
    }
    start(N);
    for (int i = 0; i < N; ++i) { start(i); if (r.below(2)) nap(r.below(3000)); }
    if (!d->isTimerRunning(N)) fail("a timer that has been started is not running");
    for (int i = 0; i < N; ++i) await("a started timer fires as often as requested", [&] { T& t = ts[static_cast<size_t>(i)]; return t.count >= (t.once ? 1 : 3); });
    for (int i = 0; i < N; ++i) {
        T& t = ts[static_cast<size_t>(i)];
        if (t.first * 1000 < t.started * 1000 + t.interval * (1 - kEarly) - 2) fail("timer fires before its interval of " + std::to_string(t.interval) + " ms");
        if (t.once) await("a single shot timer that fired is not running", [&] { return !d->isTimerRunning(i); });
        else if (!d->isTimerRunning(i)) fail("a repeating timer stopped by itself");
    }
    for (int i = 0; i < N; ++i) {
        T& t = ts[static_cast<size_t>(i)];
        const int c = t.count;
        const double el = since(t0) * 1000 - t.started * 1000;
        if (t.once ? c > 1 : c > el / (t.interval * (1 - kEarly) - 1) + 3) fail("timer fires more often than requested: " + std::to_string(c) + " times in " + std::to_string(el) + " ms, interval " + std::to_string(t.interval));
    }
    for (int i = 0; i < N; ++i) { stop(i); if (d->isTimerRunning(i)) fail("a stopped timer is running"); }
    onMain([] {});
    nap(15000);
    onMain([] {});
    std::vector<int> c;
    for (auto& t : ts) c.push_back(t.count);
    nap(60000);
    onMain([] {});
    for (int i = 0; i < N; ++i) if (ts[static_cast<size_t>(i)].count != c[static_cast<size_t>(i)]) fail("a stopped timer fires");
    if (ts[static_cast<size_t>(N)].count != 0) fail("a timer of 60 s or more fires in a second");
    // restarting starts the interval again; stopped timers can be started again; a restarted timer is one timer
    for (int n = 0; n < 2; ++n) {
        T& t = ts[static_cast<size_t>(n)];
        t.interval = 60 + r.below(60);
        t.once = r.below(2) == 0;
        t.count = 0;
        t.first = -1;
        if (r.below(2)) post([] { nap(4000); });      // the loop is busy
        start(n);
        const double s1 = since(t0);
        switch (r.below(3)) {
            case 0: break;
            case 1: nap(10000); break;
            default: onMain([] {}); break;
        }
        const double s2 = since(t0);
        switch (r.below(4)) {
            case 0: start(n); break;
            case 1: stop(n); start(n); break;
            case 2: anywhere(r, kAnyThread, [&] { d->restartTimer(n); d->restartTimer(n); }); break;
            default: anywhere(r, kAnyThread, [&] { d->restartTimer(n); }); break;
        }
        const bool inTime = (since(t0) - s1) * 1000 < t.interval * 0.7;   // surely before it expired
        await("a restarted timer fires", [&] { return t.count >= (t.once ? 1 : 6); });
        if (inTime) {
            if (t.first * 1000 < s2 * 1000 + t.interval * (1 - kEarly) - 2) fail("a restarted timer fires before its interval");
            nap(t.interval * 1500);
            onMain([] {});
            const int k = t.count;
            const double el = (since(t0) - s2) * 1000;
            if (t.once ? k > 1 : k > el / (t.interval * (1 - kEarly) - 1) + 3) fail("a restarted timer fires " + std::to_string(k) + " times in " + std::to_string(el) + " ms, interval " + std::to_string(t.interval));
        }
        stop(n);
    }
    if (!d->isTimerRunning(N)) fail("a timer that has not expired is not running");
    // timers of a handler that is gone are silent
    if (r.below(2)) {
        T& t = ts[0];
        t.interval = 5;
        t.once = false;
        start(0);
        nap(r.below(12000));
        onMain([&] { d->unregisterTimerHandler(h); t.count = 0; });
        if (d->isTimerRunning(0)) fail("a timer of an unregistered handler is running");
        nap(20000);
        onMain([] {});
        if (t.count != 0) fail("a timer of an unregistered handler fires");
    } else {
        T& t = ts[0];
        t.interval = 3;
        t.once = r.below(2) == 0;
        start(0);
        nap(r.below(8000));
        onMain([&] { d->stop(); t.count = 0; });
        nap(15000);
        onMain([] {});
        if (t.count > kQueued) fail("a timer fires after stop()");
    }
    finish(d);
}

// ---- a state machine on this dispatcher
static void sMachine(Rng& r) {
    std::shared_ptr<Disp> d;
    HierarchicalStateMachine h(0);
    std::atomic<int> handled{0}, ticks{0}, inside{0};
    const int M = 20 + r.below(100);
    int next = 0;
    h.registerState(0);
    h.registerTimer(0, 2);
    h.registerSelfTransition(0, 1, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t& a) {
        here();
        if (inside.fetch_add(1) != 0) fail("two events are handled at the same time");
        const int i = static_cast<int>(a.at(0).toInt64());
        if (i != next) fail("event " + std::to_string(i) + " is handled when " + std::to_string(next) + " is due");
        ++next;
        --inside;
        ++handled;
        ++progress;
    });
    h.registerSelfTransition(0, 2, TransitionType::INTERNAL_TRANSITION, [&](const VariantVector_t&) { here(); ++ticks; ++progress; });
    onMain([&] { d = make(r); if (!h.initialize(d)) fail("initialize() failed"); });
    Rng q(r.next());
    const bool timer = r.below(2) == 0;
    if (timer) anywhere(r, kAnyThread, [&] { h.startTimer(0, 4, false); });
    for (int i = 0; i < M; ++i) {
        if (q.below(6) == 0) {
            if (!h.transitionSync(1, HSM_WAIT_INDEFINITELY, i)) fail("a synchronous transition that succeeds returned false");
            if (handled <= i) fail("transitionSync() returned before the event was handled");
        } else {
            h.transition(1, i);
        }
        if (q.below(20) == 0) nap(q.below(300));
    }
    await("all events are handled", [&] { return handled == M; });
    if (timer) await("the timer of the machine fires", [&] { return ticks >= 3; });
    nap(r.below(2000));
    if (handled != M) fail("an event is handled twice");
    onMain([&] { h.release(); });
    finish(d);
}

struct Session { const char* name; void (*run)(Rng&); };
static const Session SESSIONS[] = {{"dispatch", sDispatch}, {"life", sLife}, {"burst", sBurst}, {"timers", sTimers}, {"machine", sMachine}};
static std::vector<std::string> plan(const std::string& prof) {
    if (prof == "C10") return {"timers", "timers", "machine"};
    if (prof == "C11") return {"dispatch", "life", "machine", "burst"};
    return {"dispatch", "timers", "burst", "life", "machine"};
}

// runs in a child: 0 fine, 1 violated, 2 hangs or crashes, 3 cannot run
static int guarded(const std::string& name, uint64_t seed, std::string* why, long* ops) {
    int fd[2];
    if (pipe(fd) != 0) return 3;
    auto* cnt = static_cast<volatile long*>(mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        outFd = fd[1];
        dup2(fd[1], 2);
        std::thread([cnt] {
            long last = -1;
            auto t = Clock::now();
            while (!finished) {
                nap(50000);
                __atomic_store_n(const_cast<long*>(cnt), progress.load(), __ATOMIC_RELAXED);
                if (progress != last) { last = progress; t = Clock::now(); }
                else if (since(t) > LIMIT - 3) fail("a call does not return (no progress for 22 s)", 2);
            }
        }).detach();
        Rng r(seed);
        mainThread = std::this_thread::get_id();
#if defined(PLAT_QT)
        int argc = 1;
        char arg0[] = "plat";
        char* argv[] = {arg0, nullptr};
        app = new QCoreApplication(argc, argv);
#else
#if defined(PLAT_GLIBMM)
        Glib::init();
        ctx = g_main_context_default();
#else
        ownContext = r.below(2) == 0;
        ctx = ownContext ? g_main_context_new() : g_main_context_default();
#endif
        mainLoop = g_main_loop_new(ctx, FALSE);
#endif
        std::thread worker([&] {
            for (auto& s : SESSIONS) if (name == s.name) s.run(r);
            quit();
        });
        loop();
        worker.join();
        __atomic_store_n(const_cast<long*>(cnt), progress.load(), __ATOMIC_RELAXED);
        finished = true;
        _exit(0);
    }
    close(fd[1]);
    std::string w;
    char buf[4096];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) w.append(buf, static_cast<size_t>(k));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (ops) *ops += *cnt;
    munmap(const_cast<long*>(cnt), sizeof(long));
    if (why) *why = w;
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    if (why) *why += "the process is terminated by signal " + std::to_string(WTERMSIG(st)) + "\n";
    return 2;
}

int main(int argc, char** argv) {
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        std::ifstream in(argv[2]);
        std::string row, name;
        uint64_t seed = 0;
        while (std::getline(in, row)) {
            std::istringstream ls(row);
            std::string a, c;
            ls >> a;
            if (a == "session") ls >> name >> c >> seed;
        }
        std::string why;
        for (int i = 0; i < 20; ++i) {
            const int g = guarded(name, seed, &why, nullptr);
            if (g == 1 || g == 2) { printf("%sVIOLATED\n", why.c_str()); return 1; }
        }
        printf("as expected\n");
        return 0;
    }
    if (argc < 8 || strcmp(argv[1], "search")) return 3;
    const std::string prof = argv[2];
    const uint64_t seed = strtoull(argv[4], nullptr, 10);
    const long maxN = atol(argv[5]);
    const double secs = atof(argv[6]);
    auto t0 = Clock::now();
    const auto names = plan(prof);
    long ops = 0, sessions = 0;
    int verdict = 0;
    for (long i = 0; i < maxN && since(t0) < secs; ++i) {
        const std::string& n = names[(static_cast<size_t>(i) + seed) % names.size()];
        const uint64_t s = seed * 1000003ull + static_cast<uint64_t>(i);
        std::string why;
        const int g = guarded(n, s, &why, &ops);
        if (g != 0 && g != 1 && g != 2) { fprintf(stderr, "%s", why.c_str()); return 4; }
        ++sessions;
        if (g == 2 || (g == 1 && prof != "C17")) {
            verdict = 1;
            std::ofstream o(argv[7]);
            o << "session " << n << " seed " << s << "\n";
            std::istringstream ws(why);
            std::string row;
            while (std::getline(ws, row)) o << "# " << row << "\n";
            break;
        }
    }
    printf("{\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"violations\": %d, \"wall_s\": %.2f, \"sample\": \"%s: %ld operations in %ld sessions with a real event loop\"}\n", sessions, sessions, verdict,
           since(t0), prof.c_str(), ops, sessions);
    return verdict;
}
