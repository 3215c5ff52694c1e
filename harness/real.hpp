// Executes a scenario on the repository's code.
#pragma once
#include <csignal>
#include <unistd.h>
#include "ref.hpp"
#include "sync_dispatcher.hpp"

struct Real {
    using VV = hsmcpp::VariantVector_t;
    using H = hsmcpp::HierarchicalStateMachine;
    struct Disp : public SyncDispatcher {
        Real* owner = nullptr;
        void startTimer(const hsmcpp::HandlerID_t h, const hsmcpp::TimerID_t t, const unsigned int i, const bool once) override {
            if (owner) owner->out('A', "start " + std::to_string(t) + " " + std::to_string(static_cast<int>(i)) + (once ? " once" : ""));
            SyncDispatcher::startTimer(h, t, i, once);
        }
        void stopTimer(const hsmcpp::TimerID_t t) override {
            if (owner) owner->out('A', "stop " + std::to_string(t));
            SyncDispatcher::stopTimer(t);
        }
        void restartTimer(const hsmcpp::TimerID_t t) override {
            if (owner) owner->out('A', "restart " + std::to_string(t));
            SyncDispatcher::restartTimer(t);
        }
        void fire(int t) { handleTimerEvent(t); }
    };
    static std::vector<int> ints(const VV& v) {
        std::vector<int> r;
        for (const auto& x : v) r.push_back(static_cast<int>(x.toInt64()));
        return r;
    }

    // one object per state / transition, registered through member function pointers or lambdas
    struct StateCb {
        Real* r; int s;
        void changed(const VV& a) { r->out('C', std::to_string(s) + (r->h->isStateActive(s) ? "" : "?") + join(ints(a))); r->script("changed", s); }
        bool entering(const VV& a) {
            bool ok = !((r->enterVeto[s] >> r->calls["enter" + std::to_string(s)]) & 1);
            r->out('N', std::to_string(s) + join(ints(a)) + (ok ? "" : " veto"));
            r->script("enter", s);
            return ok;
        }
        bool exiting() {
            bool ok = !((r->exitVeto[s] >> r->calls["exit" + std::to_string(s)]) & 1);
            r->out('X', std::to_string(s) + (r->h->isStateActive(s) ? "" : "?") + (ok ? "" : " veto"));
            r->script("exit", s);
            return ok;
        }
    };
    struct TransCb {
        Real* r; int id; int c;
        void trans(const VV& a) { r->out('T', std::to_string(id) + join(ints(a))); r->script("trans", id); }
        bool cond(const VV& a) { return condValue(c, r->mask, ints(a)); }
    };
    struct FailCb {
        Real* r;
        void fail(const std::list<hsmcpp::StateID_t>& act, const hsmcpp::EventID_t e, const VV& a) {
            r->out('F', std::to_string(e) + join(ints(a)) + " active " + join(std::vector<int>(act.begin(), act.end())));
            r->script("fail", 0);
        }
    };

    Log log;
    std::shared_ptr<Disp> d;
    std::unique_ptr<H> h;
    std::map<int, unsigned> exitVeto, enterVeto;
    std::map<int, int> cbMask;
    std::map<std::string, int> calls;
    std::vector<Line> scripts;
    std::vector<std::shared_ptr<StateCb>> stateCbs;
    std::vector<std::shared_ptr<TransCb>> transCbs;
    FailCb failCb{this};
    unsigned mask = 0;
    bool members = false;      // register member functions
    bool live = false;         // between initialize() and release()
    unsigned form = 0;         // which of the equivalent calls is used next
    unsigned nextForm(unsigned n) { form = form * 1103515245u + 12345u; return (form >> 16) % n; }

    void out(char k, const std::string& s) { log.push_back({k, s}); }
    void script(const std::string& what, int id) {
        int n = calls[what + std::to_string(id)]++;
        for (auto& l : scripts) {
            static const char* kinds[] = {"exit", "enter", "changed", "trans", "fail"};
            if (what == kinds[l.at(0)] && id == l.at(1) && n == l.at(2)) {
                int x = l.at(4);
                switch (l.at(3)) {
                    case 0: h->transition(x); break;
                    case 1: h->transition(x, l.at(5)); break;
                    case 2: h->transitionWithQueueClear(x); break;
                    case 3: out('P', std::to_string(h->isTransitionPossible(x))); break;
                    case 4: h->startTimer(x, static_cast<unsigned>(10 + l.at(5)), (l.at(5) & 1) != 0); break;
                    case 5: h->stopTimer(x); break;
                    case 6: h->transitionInterruptSafe(x); break;
                    default: break;
                }
            }
        }
    }
    std::shared_ptr<TransCb> tcb(int id, int c) {
        auto p = std::make_shared<TransCb>(TransCb{this, id, c});
        transCbs.push_back(p);
        return p;
    }
    static VV vv(const std::vector<int>& v) {
        VV r;
        for (int x : v) r.emplace_back(x);
        return r;
    }
    void config() {
        const auto& a = h->getActiveStates();
        std::vector<int> v(a.begin(), a.end());
        out('=', join(v));
        // the other queries tell the same
        for (int s = 0; s < 24; ++s)
            if (h->isStateActive(s) != (std::find(v.begin(), v.end(), s) != v.end())) out('~', "isStateActive(" + std::to_string(s) + ") differs from " + join(v));
        if (!v.empty() && h->getLastActiveState() != v.back()) out('~', "getLastActiveState() is not the last of " + join(v));
    }
    // the equivalent ways to send an event; l-value arguments stay as they are
    bool sendForm(int e, bool clear, bool sync, const std::vector<int>& a) {
        const int to = sync ? 30 : 0;
        const unsigned f = nextForm(5);
        bool r = true;
        if (a.size() > 3 || f == 0) {
            if (!clear && !sync && nextForm(2)) h->transitionWithArgsArray(e, vv(a));
            else r = h->transitionExWithArgsArray(e, clear, sync, to, vv(a));
        } else if (f == 1) {          // general call, temporaries
            if (a.empty()) r = h->transitionEx(e, clear, sync, to);
            else if (a.size() == 1) r = h->transitionEx(e, clear, sync, to, int(a[0]));
            else if (a.size() == 2) r = h->transitionEx(e, clear, sync, to, int(a[0]), hsmcpp::Variant(a[1]));
            else r = h->transitionEx(e, clear, sync, to, int(a[0]), hsmcpp::Variant(a[1]), std::to_string(a[2]));
        } else if (f == 2 && !sync && !clear) {
            if (a.empty()) h->transition(e);
            else if (a.size() == 1) h->transition(e, a[0]);
            else if (a.size() == 2) h->transition(e, a[0], a[1]);
            else h->transition(e, a[0], a[1], a[2]);
        } else {                      // l-values
            hsmcpp::Variant x0, x1;
            std::string x2;
            if (a.size() > 0) x0 = hsmcpp::Variant(std::to_string(a[0]));
            if (a.size() > 1) x1 = hsmcpp::Variant(a[1]);
            if (a.size() > 2) x2 = std::to_string(a[2]);
            const hsmcpp::Variant y0(x0), y1(x1);
            const std::string y2 = x2;
            if (sync && !clear) {
                if (a.empty()) r = h->transitionSync(e, to);
                else if (a.size() == 1) r = h->transitionSync(e, to, x0);
                else if (a.size() == 2) r = h->transitionSync(e, to, x0, x1);
                else r = h->transitionSync(e, to, x0, x1, x2);
            } else if (clear && !sync) {
                if (a.empty()) h->transitionWithQueueClear(e);
                else if (a.size() == 1) h->transitionWithQueueClear(e, x0);
                else if (a.size() == 2) h->transitionWithQueueClear(e, x0, x1);
                else h->transitionWithQueueClear(e, x0, x1, x2);
            } else if (clear) {
                if (a.empty()) r = h->transitionEx(e, clear, sync, to);
                else if (a.size() == 1) r = h->transitionEx(e, clear, sync, to, x0);
                else if (a.size() == 2) r = h->transitionEx(e, clear, sync, to, x0, x1);
                else r = h->transitionEx(e, clear, sync, to, x0, x1, x2);
            } else {
                if (a.empty()) h->transition(e);
                else if (a.size() == 1) h->transition(e, x0);
                else if (a.size() == 2) h->transition(e, x0, x1);
                else h->transition(e, x0, x1, x2);
            }
            if (changed(x0, y0) || changed(x1, y1) || x2 != y2) out('V', "an argument passed by reference was changed");
        }
        if (!sync && !r && live) out('V', "sending an event without waiting returned false");
        return r;
    }
    static bool changed(const hsmcpp::Variant& a, const hsmcpp::Variant& b) { return a.getType() != b.getType() || a.toString() != b.toString(); }
    bool askForm(int e, const std::vector<int>& a) {
        if (nextForm(2)) {
            if (a.empty()) return h->isTransitionPossible(e);
            if (a.size() == 1) return h->isTransitionPossible(e, a[0]);
            if (a.size() == 2) return h->isTransitionPossible(e, a[0], a[1]);
            return h->isTransitionPossible(e, a[0], a[1], std::to_string(a[2]));
        }
        hsmcpp::Variant x0, x1;
        if (a.size() > 0) x0 = hsmcpp::Variant(std::to_string(a[0]));
        if (a.size() > 1) x1 = hsmcpp::Variant(a[1]);
        const hsmcpp::Variant y0(x0), y1(x1);
        const bool r = a.empty() ? h->isTransitionPossible(e) : a.size() == 1 ? h->isTransitionPossible(e, x0) : a.size() == 2 ? h->isTransitionPossible(e, x0, x1)
                       : h->isTransitionPossible(e, x0, x1, a[2]);
        if (changed(x0, y0) || changed(x1, y1)) out('V', "an argument passed by reference was changed");
        return r;
    }
    struct Named : public H {
        explicit Named(int s) : H(s) {}
        std::string st(int s) const { return getStateName(s); }
        std::string ev(int e) const { return getEventName(e); }
    };
    void names() {
        const auto* n = static_cast<const Named*>(h.get());
        for (int i : {0, 3, 1234567}) if (n->st(i) != std::to_string(i) || n->ev(i) != std::to_string(i)) out('V', "default name of " + std::to_string(i));
        if (!n->st(hsmcpp::INVALID_HSM_STATE_ID).empty() || !n->ev(hsmcpp::INVALID_HSM_EVENT_ID).empty()) out('V', "name of an invalid id");
    }
    template <class F0, class F1, class F2>
    void regState(int s, bool fin, int ev, bool nohandler, F0 ch, F1 en, F2 ex) {
        int m = cbMask.count(s) ? cbMask[s] : 0;
        auto p = std::make_shared<StateCb>(StateCb{this, s});
        stateCbs.push_back(p);
        StateCb* q = nohandler ? nullptr : p.get();
        (void)ch; (void)en; (void)ex;
        if (members) {
            auto c = (m & 1) ? &StateCb::changed : nullptr;
            auto e = (m & 2) ? &StateCb::entering : nullptr;
            auto x = (m & 4) ? &StateCb::exiting : nullptr;
            if (fin) h->registerFinalState<StateCb>(s, ev, q, c, e, x);
            else h->registerState<StateCb>(s, q, c, e, x);
        } else {
            hsmcpp::HsmStateChangedCallback_t c;
            hsmcpp::HsmStateEnterCallback_t e;
            hsmcpp::HsmStateExitCallback_t x;
            if (m & 1) c = [q](const VV& a) { q->changed(a); };
            if (m & 2) e = [q](const VV& a) { return q->entering(a); };
            if (m & 4) x = [q]() { return q->exiting(); };
            if (fin) h->registerFinalState(s, ev, c, e, x);
            else h->registerState(s, c, e, x);
        }
    }
    void inlineRun() {
        if (!d->run(400)) out('!', "does not settle");
    }
    void exec(const Scenario& sc) {
        d = std::shared_ptr<Disp>(new Disp);
        d->owner = this;
        for (auto& l : sc) {
            if (l.op == "members") members = true;
            if (l.op == "st") {
                cbMask[l.at(0)] = l.at(1);
                exitVeto[l.at(0)] = static_cast<unsigned>(l.at(2));
                enterVeto[l.at(0)] = static_cast<unsigned>(l.at(3));
            }
        }
        int init = 0;
        for (auto& l : sc) if (l.op == "init") init = l.at(0);
        form = static_cast<unsigned>(sc.size()) * 7919u;
        for (auto& l : sc) for (int x : l.a) form = form * 31u + static_cast<unsigned>(x);
        bool later = false;        // the initial state can be set later than construction
        for (auto& l : sc) later = later || l.op == "init";
        h.reset(new Named((later && nextForm(2)) ? init + 1 : init));
        if (h->isInitialized()) out('V', "initialized before initialize()");
        for (auto& l : sc) {
            const std::string& o = l.op;
            if (o == "init") h->setInitialState(l.at(0));
            else if (o == "members") continue;
            else if (o == "st") regState(l.at(0), false, 0, members && l.at(4) == 1, 0, 0, 0);
            else if (o == "fail") {
                if (members) h->registerFailedTransitionCallback(&failCb, &FailCb::fail);
                else h->registerFailedTransitionCallback([this](const std::list<hsmcpp::StateID_t>& a, const hsmcpp::EventID_t e, const VV& v) { failCb.fail(a, e, v); });
            } else if (o == "sub") out('R', "sub " + std::to_string(h->registerSubstate(l.at(0), l.at(1))));
            else if (o == "ep") {
                int c = l.at(3, -1);
                bool ok;
                if (members) {
                    auto p = tcb(-1, c);
                    ok = h->registerSubstateEntryPoint<TransCb>(l.at(0), l.at(1), l.at(2, NOEV), l.at(5) == 1 ? nullptr : p.get(), c >= 0 ? &TransCb::cond : nullptr, l.at(4, 1) != 0);
                } else {
                    hsmcpp::HsmTransitionConditionCallback_t f;
                    if (c >= 0) f = [this, c](const VV& a) { return condValue(c, mask, ints(a)); };
                    ok = h->registerSubstateEntryPoint(l.at(0), l.at(1), l.at(2, NOEV), f, l.at(4, 1) != 0);
                }
                out('R', "ep " + std::to_string(ok));
            } else if (o == "hist") {
                bool dup = false;
                for (auto& x : sc) {
                    if (&x == &l) break;
                    dup = dup || (x.op == "hist" && x.at(1) == l.at(1));
                }
                if (dup) continue;
                int id = l.at(4, -1);
                auto type = l.at(2) == 0 ? hsmcpp::HistoryType::SHALLOW : hsmcpp::HistoryType::DEEP;
                if (members) {
                    auto p = tcb(id, -1);
                    h->registerHistory<TransCb>(l.at(0), l.at(1), type, l.at(3, NOST), l.at(5) == 1 ? nullptr : p.get(), id >= 0 ? &TransCb::trans : nullptr);
                } else {
                    hsmcpp::HsmTransitionCallback_t f;
                    if (id >= 0) { auto p = tcb(id, -1); f = [p](const VV& a) { p->trans(a); }; }
                    h->registerHistory(l.at(0), l.at(1), type, l.at(3, NOST), f);
                }
            } else if (o == "fin") regState(l.at(0), true, l.at(1, NOEV), members && l.at(2) == 1, 0, 0, 0);
            else if (o == "tr" || o == "self") {
                bool self = o == "self";
                int id = l.at(3, -1), c = l.at(4, -1);
                bool ex = l.at(5, 1) != 0;
                auto p = tcb(id, c);
                auto type = l.at(2) == 0 ? hsmcpp::TransitionType::INTERNAL_TRANSITION : hsmcpp::TransitionType::EXTERNAL_TRANSITION;
                if (members) {
                    auto t = id >= 0 ? &TransCb::trans : nullptr;
                    auto k = c >= 0 ? &TransCb::cond : nullptr;
                    if (self) h->registerSelfTransition<TransCb>(l.at(0), l.at(1), type, l.at(6) == 1 ? nullptr : p.get(), t, k, ex);
                    else h->registerTransition<TransCb>(l.at(0), l.at(1), l.at(2), l.at(6) == 1 ? nullptr : p.get(), t, k, ex);
                } else {
                    hsmcpp::HsmTransitionCallback_t t;
                    hsmcpp::HsmTransitionConditionCallback_t k;
                    if (id >= 0) t = [p](const VV& a) { p->trans(a); };
                    if (c >= 0) k = [p](const VV& a) { return p->cond(a); };
                    if (self) h->registerSelfTransition(l.at(0), l.at(1), type, t, k, ex);
                    else h->registerTransition(l.at(0), l.at(1), l.at(2), t, k, ex);
                }
            } else if (o == "act") {
                using A = hsmcpp::StateAction;
                static const A as[] = {A::START_TIMER, A::STOP_TIMER, A::RESTART_TIMER, A::TRANSITION};
                auto trig = l.at(1) == 0 ? hsmcpp::StateActionTrigger::ON_STATE_ENTRY : hsmcpp::StateActionTrigger::ON_STATE_EXIT;
                int s = l.at(0);
                A a = as[l.at(2) & 3];
                bool ok = false;
                size_t n = l.a.size() - 3;
                if (n == 0) ok = h->registerStateAction(s, trig, a);
                else if (n == 1) ok = h->registerStateAction(s, trig, a, l.at(3));
                else if (n == 2) ok = h->registerStateAction(s, trig, a, l.at(3), l.at(4));
                else if (a == A::START_TIMER) ok = h->registerStateAction(s, trig, a, l.at(3), l.at(4), l.at(5) != 0);
                else ok = h->registerStateAction(s, trig, a, l.at(3), l.at(4), l.at(5));
                out('R', "act " + std::to_string(ok));
            } else if (o == "tmr") h->registerTimer(l.at(0), l.at(1));
            else if (o == "scr") scripts.push_back(l);
            else if (o == "cond") mask = static_cast<unsigned>(l.at(0));
            else {
                std::vector<int> rest;
                if (!l.a.empty()) rest.assign(l.a.begin() + 1, l.a.end());
                if (o == "start") {
                    bool ok = h->initialize(d);
                    live = ok;
                    out('I', "initialize " + std::to_string(ok));
                    if (!h->isInitialized() || h->dispatcher().lock() != d) out('V', "not initialized after initialize()");
                    names();
                }
                else if (o == "post" || o == "clr") {
                    (void)sendForm(l.at(0), o == "clr", false, rest);
                    continue;
                } else if (o == "sync" || o == "syncclr") {
                    d->inlineMode = true;
                    bool r = sendForm(l.at(0), o == "syncclr", true, rest);
                    d->inlineMode = false;
                    inlineRun();
                    out('S', std::to_string(r));
                } else if (o == "intr") { out('I', std::to_string(h->transitionInterruptSafe(l.at(0)))); continue; }
                else if (o == "q") {
                    out('P', std::to_string(askForm(l.at(0), rest)));
                    continue;
                } else if (o == "fire") { d->fire(l.at(0)); }
                else if (o == "tstart") h->startTimer(l.at(0), static_cast<unsigned>(l.at(1)), l.at(2) != 0);
                else if (o == "tstop") h->stopTimer(l.at(0));
                else if (o == "trestart") h->restartTimer(l.at(0));
                else if (o == "trun") out('I', "running " + std::to_string(h->isTimerRunning(l.at(0))));
                else if (o == "isact") out('I', "active " + std::to_string(h->isStateActive(l.at(0))));
                else if (o == "release") { h->release(); live = false; }
                else if (o == "run") inlineRun();
                config();
            }
        }
        d->owner = nullptr;
        h.reset();
    }
};
