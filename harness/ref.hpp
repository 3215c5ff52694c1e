// Reference interpreter of a scenario: the documented behaviour of the state machine, written over plain vectors.
#pragma once
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include "scenario.hpp"

struct Ref {
    struct Tr { int from, to, ev; bool internal; int cb, cond; bool exp; };
    struct Ep { int parent, child, ev, cond; bool exp; };
    struct Hist { int parent, h, type, def, cb; std::vector<int> prev; };
    struct Act { int state, trig, action; std::vector<int> a; };
    enum Kind { REG, ENTRY, FORCED };
    struct Ev { Kind kind = REG; int id = NOEV; std::vector<int> args; bool noEntry = false; std::vector<Tr> forced; int sync = -1; };
    enum St { PENDING, OK, FAILED, CANCELED };

    Log log;
    bool diverges = false;     // endless event chains are not used as scenarios
    int processed = 0;

    int initial = 0;
    std::map<int, std::vector<int>> cbs;       // state -> mask, exit veto mask, enter veto mask
    std::map<int, int> parent;
    std::vector<std::pair<int, int>> subs;
    std::vector<Tr> trs;
    std::vector<Ep> eps;
    std::vector<Hist> hists;
    std::map<int, int> finals, timers;
    std::vector<Act> acts;
    std::vector<Line> scripts;
    std::map<std::string, int> calls;
    unsigned mask = 0;
    bool started = false, released = false, failCb = false;
    std::vector<int> active;
    std::deque<Ev> queue;
    std::vector<int> interrupts;
    std::map<int, St> syncs;
    int nextSync = 0;
    struct Tm { int interval; bool single; };
    std::map<int, Tm> running;

    void out(char k, const std::string& s) { log.push_back({k, s}); }
    bool isActive(int s) const { return std::find(active.begin(), active.end(), s) != active.end(); }
    bool anc(int p, int c) const {
        int n = 0;
        while (parent.count(c) && n++ < 100) {
            c = parent.at(c);
            if (c == p) return true;
        }
        return false;
    }
    bool hasSub(int s) const { for (auto& x : subs) if (x.first == s) return true; return false; }
    bool hasEp(int s) const { for (auto& x : eps) if (x.parent == s) return true; return false; }
    bool cond(int c, bool exp, const std::vector<int>& args) const { return c < 0 || condValue(c, mask, args) == exp; }
    std::vector<int> entries(int s, int ev, const std::vector<int>& args) const {
        std::vector<int> r;
        for (auto& e : eps) if (e.parent == s && (e.ev == NOEV || e.ev == ev) && cond(e.cond, e.exp, args)) r.push_back(e.child);
        return r;
    }
    // can the target be entered down to a leaf?
    bool enterable(int s, int ev, const std::vector<int>& args) const {
        std::deque<int> todo{s};
        while (!todo.empty()) {
            int p = todo.front();
            todo.pop_front();
            if (!hasSub(p)) return true;
            auto es = entries(p, ev, args);
            if (es.empty()) return false;
            todo.insert(todo.end(), es.begin(), es.end());
        }
        return false;
    }
    std::vector<Tr> targets(int from, int ev, const std::vector<int>& args, bool up) const {
        std::vector<Tr> r;
        int cur = from;
        for (int n = 0; n < 100; ++n) {
            bool any = false;
            for (auto& t : trs)
                if (t.from == cur && t.ev == ev) {
                    any = true;
                    if (cond(t.cond, t.exp, args) && enterable(t.to, ev, args)) r.push_back(t);
                }
            if (any || !up || !parent.count(cur)) break;
            cur = parent.at(cur);
        }
        return r;
    }

    // ---- what callbacks do
    void script(const std::string& what, int id) {
        int n = calls[what + std::to_string(id)]++;
        for (auto& l : scripts) {
            static const char* kinds[] = {"exit", "enter", "changed", "trans", "fail"};
            if (what == kinds[l.at(0)] && id == l.at(1) && n == l.at(2)) {
                int x = l.at(4);
                switch (l.at(3)) {
                    case 0: post(x, {}, false); break;
                    case 1: post(x, {l.at(5)}, false); break;
                    case 2: post(x, {}, true); break;
                    case 3: out('P', std::to_string(possible(x, {}))); break;
                    case 4: startTimer(x, 10 + l.at(5), l.at(5) & 1); break;
                    case 5: stopTimer(x); break;
                    case 6: interrupt(x); break;
                    default: break;
                }
            }
        }
    }
    int callNo(const std::string& what, int id) { return calls[what + std::to_string(id)]; }
    bool cbExit(int s) {
        auto it = cbs.find(s);
        bool ok = true;
        if (it != cbs.end() && (it->second[0] & 4)) {
            ok = !((it->second[1] >> callNo("exit", s)) & 1);
            out('X', std::to_string(s) + (isActive(s) ? "" : "?") + (ok ? "" : " veto"));
            script("exit", s);
        }
        if (ok) actions(s, 1);
        return ok;
    }
    bool cbEnter(int s, const std::vector<int>& args) {
        if (isActive(s)) return true;
        auto it = cbs.find(s);
        bool ok = true;
        if (it != cbs.end() && (it->second[0] & 2)) {
            ok = !((it->second[2] >> callNo("enter", s)) & 1);
            out('N', std::to_string(s) + join(args) + (ok ? "" : " veto"));
            script("enter", s);
        }
        if (ok) actions(s, 0);
        return ok;
    }
    void cbChanged(int s, const std::vector<int>& args) {
        auto it = cbs.find(s);
        if (it != cbs.end() && (it->second[0] & 1)) {
            out('C', std::to_string(s) + (isActive(s) ? "" : "?") + join(args));
            script("changed", s);
        }
    }
    void cbTrans(int id, const std::vector<int>& args) {
        if (id < 0) return;
        out('T', std::to_string(id) + join(args));
        script("trans", id);
    }
    void actions(int s, int trig) {
        for (auto& a : acts)
            if (a.state == s && a.trig == trig) switch (a.action) {
                case 0: startTimer(a.a[0], a.a[1], a.a[2] != 0); break;
                case 1: stopTimer(a.a[0]); break;
                case 2: restartTimer(a.a[0]); break;
                case 3: post(a.a[0], std::vector<int>(a.a.begin() + 1, a.a.end()), false); break;
            }
    }
    void startTimer(int t, int i, bool single) {
        if (!started || released) return;
        out('A', "start " + std::to_string(t) + " " + std::to_string(i) + (single ? " once" : ""));
        if (i > 0) running[t] = Tm{i, single};
    }
    void stopTimer(int t) {
        if (!started || released) return;
        out('A', "stop " + std::to_string(t));
        running.erase(t);
    }
    void restartTimer(int t) {
        if (!started || released) return;
        out('A', "restart " + std::to_string(t));
    }

    // ---- events
    int post(int e, const std::vector<int>& args, bool clear, bool sync = false) {
        if (!started || released) return -1;
        if (clear) {
            std::deque<Ev> keep;
            for (auto& x : queue)
                if (x.kind != REG) keep.push_back(x);
                else if (x.sync >= 0) syncs[x.sync] = FAILED;
            queue = keep;
        }
        Ev ev;
        ev.id = e;
        ev.args = args;
        if (sync) {
            ev.sync = nextSync++;
            syncs[ev.sync] = PENDING;
        }
        queue.push_back(ev);
        return ev.sync;
    }
    bool interrupt(int e) {
        if (!started || released || interrupts.size() >= 10) return false;
        interrupts.push_back(e);
        return true;
    }
    bool possible(int e, const std::vector<int>& args) const {
        for (int s : active) {
            int cur = s;
            bool ok = true;
            for (auto& p : queue) {
                auto t = targets(cur, p.id, p.args, true);
                if (t.empty()) { ok = false; break; }
                cur = t.front().to;
            }
            if (ok && !targets(cur, e, args, true).empty()) return true;
        }
        return false;
    }
    void fire(int t) {
        auto it = running.find(t);
        if (it == running.end()) return;
        if (it->second.single) running.erase(it);
        if (released) return;
        auto m = timers.find(t);
        if (m != timers.end()) post(m->second, {}, false);
    }

    void saveHistory(int top, const std::vector<int>& exited) {
        std::set<int> cleared;
        for (int s : exited) {
            int cur = s;
            while (parent.count(cur)) {
                int p = parent.at(cur);
                for (auto& h : hists)
                    if (h.parent == p) {
                        if (cleared.insert(h.h).second) h.prev.clear();
                        int rec = h.type == 0 ? cur : s;
                        if (std::find(h.prev.begin(), h.prev.end(), rec) == h.prev.end()) h.prev.push_back(rec);
                    }
                if (p == top) break;
                cur = p;
            }
        }
    }
    void drop(int s) { active.erase(std::remove(active.begin(), active.end(), s), active.end()); }
    bool leave(const std::vector<Tr>& ts, std::vector<int>& exited) {
        for (auto& t : ts) {
            if (t.internal && t.from == t.to) continue;
            bool ok = true;
            auto snap = active;
            for (auto it = snap.rbegin(); it != snap.rend(); ++it)
                if (*it == t.from || anc(t.from, *it)) {
                    ok = cbExit(*it);
                    if (!ok) break;
                    exited.push_back(*it);
                }
            if (ok) {
                saveHistory(t.from, exited);
                for (int s : exited) drop(s);
            } else {
                for (auto it = exited.rbegin(); it != exited.rend(); ++it) {
                    drop(*it);
                    cbEnter(*it, {});
                    active.push_back(*it);
                    cbChanged(*it, {});
                }
                return false;
            }
        }
        return true;
    }
    Hist* history(int s) { for (auto& h : hists) if (h.h == s) return &h; return nullptr; }
    Ev forced(const Ev& base, bool noEntry) {
        Ev e = base;
        e.kind = FORCED;
        e.forced.clear();
        e.noEntry = noEntry;
        return e;
    }
    St arrive(const Ev& ev, const Tr& t, const std::vector<int>& exited) {
        cbTrans(t.cb, ev.args);
        if (!cbEnter(t.to, ev.args)) {
            for (auto it = exited.rbegin(); it != exited.rend(); ++it) {
                cbEnter(*it, {});
                if (!isActive(*it)) active.push_back(*it);
                cbChanged(*it, {});
            }
            return FAILED;
        }
        if (!anc(t.from, t.to)) drop(t.from);
        if (!isActive(t.to)) {
            active.push_back(t.to);
            cbChanged(t.to, ev.args);
        }
        auto f = finals.find(t.to);
        if (f != finals.end()) {
            if (parent.count(t.to)) {
                int p = parent.at(t.to);
                bool busy = false;
                for (int s : active) if (!finals.count(s) && anc(p, s)) busy = true;
                if (!busy) {
                    Ev e;
                    e.id = f->second != NOEV ? f->second : ev.id;
                    e.args = ev.args;
                    queue.push_front(e);
                }
            }
            return OK;
        }
        if (Hist* h = history(t.to)) {
            if (!h->prev.empty()) {
                // innermost states were recorded first; a state is restored in an earlier step than its descendants
                Ev e = forced(ev, false);
                for (int s : h->prev) {
                    bool outer = false;
                    for (auto& t : e.forced) outer = outer || anc(s, t.to);
                    if (outer) {
                        queue.push_front(e);
                        e = forced(ev, true);
                    }
                    e.forced.push_back(Tr{t.to, s, ev.id, false, -1, -1, true});
                }
                queue.push_front(e);
                h->prev.clear();
                Ev pe = forced(ev, true);
                pe.forced.push_back(Tr{t.to, h->parent, ev.id, false, -1, -1, true});
                queue.push_front(pe);
            } else if (h->def == NOST) {
                Ev e = forced(ev, ev.noEntry);
                e.forced.push_back(Tr{t.to, h->parent, ev.id, false, h->cb, -1, true});
                queue.push_front(e);
            } else {
                Ev e = forced(ev, ev.noEntry);
                e.forced.push_back(Tr{t.to, h->def, ev.id, false, h->cb, -1, true});
                queue.push_front(e);
                Ev p = forced(ev, true);
                p.forced.push_back(Tr{t.to, h->parent, ev.id, false, -1, -1, true});
                queue.push_front(p);
            }
            return PENDING;
        }
        if (ev.noEntry) return PENDING;
        if (!entries(t.to, ev.id, ev.args).empty()) {
            Ev e = ev;
            e.kind = ENTRY;
            queue.push_front(e);
            return PENDING;
        }
        return OK;
    }
    St single(int from, const Ev& ev) {
        std::vector<Tr> ts;
        if (ev.kind == REG) ts = targets(from, ev.id, ev.args, false);
        else if (ev.kind == FORCED) ts = ev.forced;
        else {
            bool busy = false;
            for (int s : active) if (s != from && parent.count(s) && parent.at(s) == from) busy = true;
            if (!busy) for (int c : entries(from, ev.id, ev.args)) ts.push_back(Tr{from, c, ev.id, false, -1, -1, true});
        }
        if (ts.empty()) return FAILED;
        St res = FAILED;
        for (auto& t : ts)
            if (t.internal && t.from == t.to) {
                cbTrans(t.cb, ev.args);
                res = OK;
            }
        std::vector<int> exited;
        if (ev.kind == REG && !leave(ts, exited)) return CANCELED;
        for (auto& t : ts) if (!(t.internal && t.from == t.to)) res = arrive(ev, t, exited);
        return res;
    }
    St process(const Ev& ev) {
        St res = FAILED;
        auto snap = active;
        std::vector<int> accepted;
        for (auto it = snap.rbegin(); it != snap.rend(); ++it) {
            if (!isActive(*it)) continue;
            bool done = false;
            for (int a : accepted) if (anc(*it, a)) done = true;
            if (done) continue;
            St r = single(*it, ev);
            if (r == PENDING || r == OK) {
                accepted.push_back(*it);
                if (!(r == OK && res == PENDING)) res = r;
            }
            if (ev.kind == FORCED) break;
        }
        if (res == FAILED && failCb) {
            out('F', std::to_string(ev.id) + join(ev.args) + " active " + join(snap));
            script("fail", 0);
        }
        return res;
    }
    void run() {
        if (!started || released) return;
        while (true) {
            if (!interrupts.empty()) {
                auto xs = interrupts;
                interrupts.clear();
                for (auto it = xs.rbegin(); it != xs.rend(); ++it) post(*it, {}, false);
            }
            if (queue.empty()) break;
            if (++processed > 80) { diverges = true; return; }
            Ev e = queue.front();
            queue.pop_front();
            St r = process(e);
            if (e.sync >= 0) syncs[e.sync] = r;
        }
    }
    bool addSub(int p, int c) {
        if (p == c || parent.count(c) || anc(c, p)) return false;
        parent[c] = p;
        subs.push_back({p, c});
        return true;
    }
    void start() {
        if (started) return;
        started = true;
        cbEnter(initial, {});
        active.push_back(initial);
        cbChanged(initial, {});
        if (!entries(initial, NOEV, {}).empty()) {
            Ev e;
            e.kind = ENTRY;
            queue.push_front(e);
        }
    }
    void config() { out('=', join(active)); }

    // callbacks registered as members of a null object do not exist
    static Scenario plain(Scenario sc) {
        bool members = false;
        for (auto& l : sc) members = members || l.op == "members";
        auto set = [](Line& l, size_t i, int v) { if (i < l.a.size()) l.a[i] = v; };
        if (members)
            for (auto& l : sc) {
                if (l.op == "st" && l.at(4) == 1) set(l, 1, 0);
                else if (l.op == "ep" && l.at(5) == 1) set(l, 3, -1);
                else if (l.op == "hist" && l.at(5) == 1) set(l, 4, -1);
                else if ((l.op == "tr" || l.op == "self") && l.at(6) == 1) { set(l, 3, -1); set(l, 4, -1); }
            }
        return sc;
    }
    void exec(const Scenario& given) {
        const Scenario sc = plain(given);
        for (auto& l : sc) {
            const std::string& o = l.op;
            std::vector<int> rest;
            if (o == "members") continue;
            if (o == "init") initial = l.at(0);
            else if (o == "st") cbs[l.at(0)] = {l.at(1), l.at(2), l.at(3)};
            else if (o == "fail") failCb = true;
            else if (o == "sub") out('R', "sub " + std::to_string(addSub(l.at(0), l.at(1))));
            else if (o == "ep") {
                bool ok = addSub(l.at(0), l.at(1));
                if (ok) eps.push_back({l.at(0), l.at(1), l.at(2, NOEV), l.at(3, -1), l.at(4, 1) != 0});
                out('R', "ep " + std::to_string(ok));
            } else if (o == "hist") {
                bool dup = false;
                for (auto& h : hists) dup = dup || h.h == l.at(1);
                if (!dup) hists.push_back({l.at(0), l.at(1), l.at(2), l.at(3, NOST), l.at(4, -1), {}});
            } else if (o == "fin") finals[l.at(0)] = l.at(1, NOEV);
            else if (o == "tr") trs.push_back({l.at(0), l.at(1), l.at(2), false, l.at(3, -1), l.at(4, -1), l.at(5, 1) != 0});
            else if (o == "self") trs.push_back({l.at(0), l.at(0), l.at(1), l.at(2) == 0, l.at(3, -1), l.at(4, -1), l.at(5, 1) != 0});
            else if (o == "act") {
                rest.assign(l.a.begin() + 3, l.a.end());
                bool ok = l.at(2) == 0 ? rest.size() == 3 : l.at(2) == 3 ? !rest.empty() : rest.size() == 1;
                if (ok) acts.push_back({l.at(0), l.at(1), l.at(2), rest});
                out('R', "act " + std::to_string(ok));
            } else if (o == "tmr") timers[l.at(0)] = l.at(1);
            else if (o == "scr") scripts.push_back(l);
            else if (o == "cond") mask = static_cast<unsigned>(l.at(0));
            else {
                if (o == "start") { bool fresh = !started; start(); out('I', "initialize " + std::to_string(fresh)); }
                else if (o == "post" || o == "clr") { rest.assign(l.a.begin() + 1, l.a.end()); post(l.at(0), rest, o == "clr"); continue; }
                else if (o == "sync" || o == "syncclr") {
                    rest.assign(l.a.begin() + 1, l.a.end());
                    int id = post(l.at(0), rest, o == "syncclr", true);
                    run();
                    out('S', std::to_string(id >= 0 && syncs[id] == OK));
                } else if (o == "intr") { out('I', std::to_string(interrupt(l.at(0)))); continue; }
                else if (o == "q") { rest.assign(l.a.begin() + 1, l.a.end()); out('P', std::to_string(possible(l.at(0), rest))); continue; }
                else if (o == "fire") { fire(l.at(0)); }
                else if (o == "tstart") startTimer(l.at(0), l.at(1), l.at(2) != 0);
                else if (o == "tstop") stopTimer(l.at(0));
                else if (o == "trestart") restartTimer(l.at(0));
                else if (o == "trun") out('I', "running " + std::to_string(started && !released && running.count(l.at(0))));
                else if (o == "isact") out('I', "active " + std::to_string(isActive(l.at(0))));
                else if (o == "release") { released = true; running.clear(); }
                else if (o == "run") run();
                config();
            }
            if (diverges) return;
        }
    }
};
