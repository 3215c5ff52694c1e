// Bounded replay search for HsmEventDispatcherBase: random registrations, events, actions and timers, also from within
// handlers, compared with a reference model.
#include "driver.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include "hsmcpp/HsmEventDispatcherBase.hpp"

using namespace hsmcpp;

static std::string num(long v) { return std::to_string(v); }

// The world performs operations and logs what happened; handlers are numbered in order of registration.
struct World {
    Log log;
    std::vector<Line> scripts;
    std::map<std::string, int> calls;
    bool inTimer = false;
    int depth = 0;
    virtual ~World() = default;
    void out(char k, const std::string& s) { log.push_back({k, s}); }
    virtual void op(const Line& l) = 0;
    // returns the value an event handler gives back
    bool called(const std::string& what, int h) {
        int n = calls[what + num(h)]++;
        bool res = true;
        for (auto& l : scripts) {
            static const char* kinds[] = {"E", "Q", "A", "M"};
            if (what == kinds[l.at(0)] && h == l.at(1) && n == l.at(2)) {
                if (l.at(3) == 0) { res = false; continue; }
                Line o = decode(l);
                bool locks = !(o.op == "emit" || o.op == "enq" || o.op == "act" || o.op == "stop");
                if (inTimer && locks) continue;       // a timer handler must not call back into the timer and handler functions
                if (log.size() < 300) op(o);
            }
        }
        return res;
    }
    static Line decode(const Line& l) {
        static const char* ops[] = {"", "emit", "enq", "act", "regE", "unregE", "regQ", "unregQ", "regT", "unregT", "tstart", "tstop", "trestart", "stop", "emit", "enq", "unregAll"};
        Line o;
        o.op = ops[l.at(3) % 17];
        o.a.assign(l.a.begin() + 4, l.a.end());
        return o;
    }
};

struct Model : World {
    std::vector<int> pend;
    std::vector<int> acts;
    std::vector<std::pair<int, int>> enq;
    int nE = 0, nQ = 0, nT = 0;
    std::set<int> hE, hQ, hT;
    struct Tm { int h, i; bool once; };
    std::map<int, Tm> timers;
    bool stopped = false;
    void dispatch() {
        auto as = acts;
        acts.clear();
        for (int a : as) { out('A', num(a)); called("A", a); }
        auto es = pend;
        pend.clear();
        if (!stopped && !enq.empty()) {
            auto q = enq;
            enq.clear();
            int prev = -1;
            bool known = false;
            for (auto it = q.rbegin(); it != q.rend() && !stopped; ++it) {
                if (it->first != prev) { known = hQ.count(it->first) != 0; prev = it->first; }
                if (known) { out('Q', num(it->first) + " " + num(it->second)); called("Q", it->first); }
            }
        }
        if (!stopped && !es.empty()) {
            auto hs = hE;
            for (int e : es) {
                if (stopped) break;
                if (hs.count(e)) { out('E', num(e)); if (!called("E", e)) hs.erase(e); }
            }
        }
    }
    void op(const Line& l) override {
        const std::string& o = l.op;
        if (o == "regE") { hE.insert(nE++); }
        else if (o == "regQ") { hQ.insert(nQ++); }
        else if (o == "regT") { hT.insert(nT++); }
        else if (o == "unregE") { int h = l.at(0); if (h >= nE) return; hE.erase(h); pend.erase(std::remove(pend.begin(), pend.end(), h), pend.end()); }
        else if (o == "unregQ") { hQ.erase(l.at(0)); }
        else if (o == "unregT") {
            int h = l.at(0);
            if (!hT.count(h)) return;
            for (auto it = timers.begin(); it != timers.end();)
                if (it->second.h == h) { out('I', "stop " + num(it->first)); it = timers.erase(it); } else ++it;
            hT.erase(h);
        }
        else if (o == "unregAll") { hE.clear(); }
        else if (o == "emit") { if (l.at(0) < nE) { pend.push_back(l.at(0)); out('W', "wake"); } }
        else if (o == "enq") { if (l.at(0) < nQ) { bool ok = enq.size() < 10; if (ok) enq.push_back({l.at(0), l.at(1)}); out('R', "enq " + num(ok)); if (ok) out('W', "wake"); } }
        else if (o == "act") { acts.push_back(l.at(0)); out('W', "wake"); }
        else if (o == "tstart") {
            int h = l.at(0), t = l.at(1), i = l.at(2);
            if (i > 0 && hT.count(h)) {
                if (timers.count(t)) out('I', "stop " + num(t));
                timers[t] = Tm{h, i, l.at(3) != 0};
                out('I', "start " + num(t) + " " + num(i) + (l.at(3) ? " once" : ""));
            }
        }
        else if (o == "tstop") { if (timers.erase(l.at(0))) out('I', "stop " + num(l.at(0))); }
        else if (o == "trestart") {
            auto it = timers.find(l.at(0));
            if (it != timers.end()) { out('I', "stop " + num(it->first)); out('I', "start " + num(it->first) + " " + num(it->second.i) + (it->second.once ? " once" : "")); }
        }
        else if (o == "trun") out('R', "running " + num(timers.count(l.at(0))));
        else if (o == "fire") {
            auto it = timers.find(l.at(0));
            int next = 0;
            if (it != timers.end()) {
                Tm t = it->second;
                next = t.once ? 0 : t.i;
                if (t.once) timers.erase(it);
                out('M', num(t.h) + " " + num(l.at(0)));
                inTimer = true;
                called("M", t.h);
                inTimer = false;
            }
            out('R', "next " + num(next));
        }
        else if (o == "stop") stopped = true;
        else if (o == "disp") { if (depth == 0) { ++depth; dispatch(); --depth; } }
    }
};

struct Disp : HsmEventDispatcherBase {
    World* w;
    explicit Disp(World* p) : w(p) {}
    bool start() override { return true; }
    void emitEvent(const HandlerID_t h) override { HsmEventDispatcherBase::emitEvent(h); }
    void notifyDispatcherAboutEvent() override { w->out('W', "wake"); }
    bool deleteSafe() override { return true; }
    void startTimerImpl(const TimerID_t t, const unsigned int i, const bool once) override { w->out('I', "start " + num(t) + " " + num(static_cast<long>(i)) + (once ? " once" : "")); }
    void stopTimerImpl(const TimerID_t t) override { w->out('I', "stop " + num(t)); }
    void dispatch() { dispatchPendingEvents(); }
    unsigned int fire(int t) { return handleTimerEvent(t); }
    void all() { unregisterAllEventHandlers(); }
};

struct RealWorld : World {
    std::shared_ptr<Disp> d{std::make_shared<Disp>(this)};
    std::vector<HandlerID_t> e, q, t;
    std::set<HandlerID_t> ids;
    HandlerID_t fresh(HandlerID_t id) {
        if (id == INVALID_HSM_DISPATCHER_HANDLER_ID || !ids.insert(id).second) out('!', "handler id " + num(id) + " is not a fresh valid id");
        return id;
    }
    static HandlerID_t at(const std::vector<HandlerID_t>& v, int i) { return static_cast<size_t>(i) < v.size() ? v[static_cast<size_t>(i)] : 9999; }
    void op(const Line& l) override {
        const std::string& o = l.op;
        if (o == "regE") { int n = static_cast<int>(e.size()); e.push_back(0); e[static_cast<size_t>(n)] = fresh(d->registerEventHandler([this, n]() { out('E', num(n)); return called("E", n); })); }
        else if (o == "regQ") { int n = static_cast<int>(q.size()); q.push_back(0); q[static_cast<size_t>(n)] = fresh(d->registerEnqueuedEventHandler([this, n](const EventID_t ev) { out('Q', num(n) + " " + num(ev)); return called("Q", n); })); }
        else if (o == "regT") { int n = static_cast<int>(t.size()); t.push_back(0); t[static_cast<size_t>(n)] = fresh(d->registerTimerHandler([this, n](const TimerID_t id) { out('M', num(n) + " " + num(id)); inTimer = true; bool b = called("M", n); inTimer = false; return b; })); }
        else if (o == "unregE") { if (l.at(0) < static_cast<int>(e.size())) d->unregisterEventHandler(at(e, l.at(0))); }
        else if (o == "unregQ") d->unregisterEnqueuedEventHandler(at(q, l.at(0)));
        else if (o == "unregT") d->unregisterTimerHandler(at(t, l.at(0)));
        else if (o == "unregAll") d->all();
        else if (o == "emit") { if (l.at(0) < static_cast<int>(e.size())) d->emitEvent(at(e, l.at(0))); }
        else if (o == "enq") {
            if (l.at(0) < static_cast<int>(q.size())) {
                size_t n = log.size();
                bool ok = d->enqueueEvent(at(q, l.at(0)), l.at(1));
                log.insert(log.begin() + static_cast<long>(n), Item{'R', "enq " + num(ok)});
            }
        }
        else if (o == "act") { int a = l.at(0); d->enqueueAction([this, a]() { out('A', num(a)); called("A", a); }); }
        else if (o == "tstart") d->startTimer(at(t, l.at(0)), l.at(1), static_cast<unsigned>(l.at(2)), l.at(3) != 0);
        else if (o == "tstop") d->stopTimer(l.at(0));
        else if (o == "trestart") d->restartTimer(l.at(0));
        else if (o == "trun") out('R', "running " + num(d->isTimerRunning(l.at(0))));
        else if (o == "fire") { unsigned n = d->fire(l.at(0)); out('R', "next " + num(static_cast<long>(n))); }
        else if (o == "stop") d->stop();
        else if (o == "disp") { if (depth == 0) { ++depth; d->dispatch(); --depth; } }
    }
};

static Scenario generate(Rng& r, const std::string& prof) {
    Scenario s;
    bool tim = prof == "C10";
    auto rnd = [&](bool scr) {
        Line l;
        int k = r.below(scr ? 17 : 20);
        if (tim && r.pct(60)) k = (r.below(4) == 0) ? 10 : 9 + r.below(4);
        static const char* ops[] = {"disp", "emit", "enq", "act", "regE", "unregE", "regQ", "unregQ", "regT", "unregT", "tstart", "tstop", "trestart", "stop", "emit", "enq", "unregAll", "fire", "trun", "fire"};
        if (!scr && k == 13 && !r.pct(10)) k = 14;
        if (k == 16 && !r.pct(20)) k = 1;
        if (scr && k == 0) k = 1;
        if (tim && !scr && r.pct(25)) k = 17 + r.below(3);
        l.op = ops[k];
        if (scr) l.a.push_back(k);
        if (l.op == "tstart") { l.a.push_back(r.below(3)); l.a.push_back(r.pct(5) ? -1000 : r.below(3)); l.a.push_back(r.pct(12) ? 0 : 5 + r.below(5)); l.a.push_back(r.below(2)); }
        else { l.a.push_back(r.below(3)); l.a.push_back(10 + r.below(5)); }
        return l;
    };
    int n = 2 + r.below(3);
    for (int i = 0; i < n; ++i) s.push_back(Line{"regE", {}});
    for (int i = 0; i < n; ++i) if (r.pct(80)) s.push_back(Line{"regQ", {}});
    for (int i = 0; i < n; ++i) if (r.pct(tim ? 95 : 50)) s.push_back(Line{"regT", {}});
    int k = r.below(6);
    for (int i = 0; i < k; ++i) {
        Line o = rnd(true);
        Line l{"scr", {r.below(4), r.below(3), r.below(3)}};
        if (r.pct(20)) { l.a.push_back(0); l.a.push_back(0); }
        else l.a.insert(l.a.end(), o.a.begin(), o.a.end());
        s.push_back(l);
    }
    int m = 4 + r.below(20);
    for (int i = 0; i < m; ++i) {
        Line l = rnd(false);
        s.push_back(l);
        if (r.pct(8)) for (int j = 0; j < 12; ++j) s.push_back(Line{"enq", {r.below(2), 10 + j}});
        if (r.pct(30)) s.push_back(Line{"disp", {}});
    }
    s.push_back(Line{"disp", {}});
    s.push_back(Line{"disp", {}});
    return s;
}

static bool differs(const Scenario& sc, const std::string& kinds, std::string* why, bool* rel, const std::string& prof) {
    auto proj = [&](const Log& log) {
        std::string r;
        for (auto& i : log) if (i.k == '!' || kinds.find(i.k) != std::string::npos) r += i.str() + "\n";
        return r;
    };
    auto run = [&](World& w) {
        for (auto& l : sc) if (l.op == "scr") w.scripts.push_back(l);
        for (auto& l : sc) if (l.op != "scr") w.op(l);
    };
    Model m;
    run(m);
    if (rel) {
        *rel = false;
        for (auto& i : m.log) if (prof == "C10" ? (i.k == 'M' || i.k == 'I') : (i.k == 'E' || i.k == 'Q')) *rel = true;
    }
    RealWorld w;
    run(w);
    std::string a = proj(m.log), b = proj(w.log);
    if (a != b && why) *why = "expected:\n" + a + "observed:\n" + b;
    return a != b;
}

#include "driver_main.hpp"
