// Bounded replay search: random small state machines, driven through the public API, compared with a reference interpreter.
#include "driver.hpp"
#include "real.hpp"

struct Feat {
    int nmin = 3, nmax = 7;
    int nest = 50, ep = 65, epcond = 15, epev = 15, multiTr = 15;
    int cond = 20, self = 15, exitVeto = 0, enterVeto = 0, hist = 0, fin = 0, act = 0, tmr = 0, scr = 0;
    int args = 30, clr = 0, sync = 10, query = 0, intr = 0, timerOps = 0, release = 0, wildReg = 0, members = 30, cbmiss = 15, nullh = 2, noNestTr = 0;
    int trPerState = 2, ops = 8, events = 4, burst = 0;
};

static Feat profile(const std::string& p) {
    Feat f;
    if (p == "C01") { f.cond = 45; f.multiTr = 25; f.self = 25; f.events = 5; f.hist = 10; f.fin = 5; }
    else if (p == "C02") { f.exitVeto = 35; f.nest = 75; f.multiTr = 30; f.hist = 10; f.act = 15; f.tmr = 15; f.scr = 10; }
    else if (p == "C03") { f.enterVeto = 35; f.nest = 75; f.act = 15; f.tmr = 15; f.scr = 10; f.multiTr = 5; f.hist = 10; }
    else if (p == "C04") { f.nest = 70; f.multiTr = 20; f.args = 70; f.act = 10; f.hist = 15; f.fin = 15; f.exitVeto = 8; f.enterVeto = 8; f.scr = 15; }
    else if (p == "C05") { f.nest = 80; f.ep = 85; f.nmin = 5; f.nmax = 9; f.multiTr = 20; f.events = 3; f.trPerState = 3; f.hist = 10; f.fin = 10; f.exitVeto = 5; }
    else if (p == "C06") { f.nest = 80; f.ep = 80; f.epcond = 40; f.epev = 35; f.args = 50; f.nmin = 4; f.nmax = 8; f.burst = 20; f.clr = 10; }
    else if (p == "C07") { f.nest = 75; f.ep = 75; f.hist = 100; f.nmin = 4; f.nmax = 8; f.trPerState = 3; f.ops = 14; f.events = 4; f.multiTr = 15; f.cond = 5; f.epcond = 5; f.sync = 15; }
    else if (p == "C08") { f.nest = 80; f.ep = 80; f.fin = 100; f.hist = 35; f.nmin = 4; f.nmax = 8; f.trPerState = 3; f.events = 4; f.ops = 12; f.cond = 5; }
    else if (p == "C09") { f.scr = 70; f.clr = 25; f.sync = 30; f.burst = 60; f.args = 60; f.nest = 50; f.ep = 85; f.ops = 10; f.fin = 15; f.hist = 15; f.act = 15; f.multiTr = 25; f.intr = 10; f.release = 4; }
    else if (p == "C10") { f.tmr = 100; f.act = 60; f.timerOps = 60; f.ops = 14; f.scr = 20; f.release = 8; }
    else if (p == "C12") { f.act = 100; f.tmr = 60; f.timerOps = 25; f.ops = 10; f.exitVeto = 15; f.enterVeto = 15; f.nest = 60; f.args = 40; }
    else if (p == "C15") { f.nest = 75; f.ep = 80; f.multiTr = 40; f.hist = 40; f.fin = 20; f.exitVeto = 15; f.enterVeto = 15; f.trPerState = 3; f.ops = 12; }
    else if (p == "C16") { f.query = 100; f.burst = 50; f.cond = 45; f.epcond = 30; f.nest = 60; f.scr = 20; f.args = 50; f.ops = 12; f.hist = 10; }
    else if (p == "C17") { f.scr = 100; f.query = 40; f.hist = 25; f.fin = 25; f.act = 30; f.tmr = 40; f.timerOps = 20; f.sync = 30; f.clr = 20; f.exitVeto = 10; f.enterVeto = 10; f.intr = 15; f.release = 10; }
    else if (p == "C18") { f.nullh = 8; f.members = 70; f.query = 30; f.timerOps = 25; f.tmr = 40; f.act = 25; f.hist = 30; f.fin = 30; f.clr = 20; f.sync = 30; f.intr = 20; f.args = 70; f.release = 10; f.cond = 40; f.epcond = 30; f.self = 25; }
    else if (p == "C19") { f.wildReg = 100; f.nmin = 4; f.nmax = 7; f.ops = 5; }
    // a little of everything everywhere
    f.hist = std::max(f.hist, 12);
    f.fin = std::max(f.fin, 12);
    f.exitVeto = std::max(f.exitVeto, 4);
    f.enterVeto = std::max(f.enterVeto, 4);
    f.act = std::max(f.act, 8);
    f.scr = std::max(f.scr, 8);
    return f;
}

static Scenario generate(Rng& r, const std::string& prof) {
    const Feat f = profile(prof);
    Scenario s;
    auto add = [&](const std::string& op, std::vector<int> a) { s.push_back(Line{op, a}); };
    const int n = f.nmin + r.below(f.nmax - f.nmin + 1);
    std::map<int, int> par;
    std::vector<std::vector<int>> kids(static_cast<size_t>(n));
    int tid = 100;
    auto ev = [&]() { return 10 + r.below(f.events); };
    auto cnd = [&](int p) { return r.pct(p) ? r.below(6) : -1; };
    if (r.pct(f.members)) add("members", {});
    add("init", {r.pct(75) ? 0 : r.below(n)});
    add("cond", {r.below(64)});
    std::set<int> fin;
    // nesting
    std::vector<Line> nestLines;
    for (int i = 1; i < n; ++i)
        if (r.pct(f.nest)) {
            int p = r.below(i);
            // prefer deep or wide
            if (r.pct(30) && par.count(i - 1)) p = par[i - 1];
            par[i] = p;
            kids[static_cast<size_t>(p)].push_back(i);
            bool first = kids[static_cast<size_t>(p)].size() == 1;
            if (r.pct(first ? 92 : f.ep - 25)) nestLines.push_back(Line{"ep", {p, i, r.pct(f.epev) ? ev() : NOEV, cnd(f.epcond), r.pct(70) ? 1 : 0, r.pct(f.nullh) ? 1 : 0}});
            else nestLines.push_back(Line{"sub", {p, i}});
        }
    std::vector<int> hs;
    if (r.pct(f.hist)) {
        int k = 1 + r.below(2);
        for (int i = 0; i < k; ++i) {
            std::vector<int> ps;
            for (int p = 0; p < n; ++p) if (!kids[static_cast<size_t>(p)].empty()) ps.push_back(p);
            if (ps.empty()) break;
            int p = ps[static_cast<size_t>(r.below(static_cast<int>(ps.size())))];
            int def = NOST;
            if (r.pct(50)) def = kids[static_cast<size_t>(p)][static_cast<size_t>(r.below(static_cast<int>(kids[static_cast<size_t>(p)].size())))];
            hs.push_back(20 + i);
            nestLines.push_back(Line{"hist", {p, 20 + i, r.below(2), def, r.pct(50) ? tid++ : -1, r.pct(f.nullh) ? 1 : 0}});
        }
    }
    // states
    for (int i = 0; i < n; ++i) {
        if (kids[static_cast<size_t>(i)].empty() && r.pct(f.fin) && r.pct(45)) {
            fin.insert(i);
        }
        int m = 0;
        for (int b = 0; b < 3; ++b) if (!r.pct(f.cbmiss)) m |= 1 << b;
        int xv = r.pct(f.exitVeto) ? r.below(8) : 0, nv = r.pct(f.enterVeto) ? r.below(8) : 0;
        if (r.pct(97)) add("st", {i, m, xv, nv, r.pct(f.nullh) && !fin.count(i) ? 1 : 0});
    }
    for (int h : hs) if (r.pct(60)) add("st", {h, 7, 0, r.pct(f.enterVeto) ? r.below(4) : 0});
    for (int i : fin) add("fin", {i, r.pct(55) ? ev() : NOEV});
    if (r.pct(85)) add("fail", {});
    if (r.pct(f.wildReg)) {
        // arbitrary registration attempts, most of them must be refused
        int k = 3 + r.below(8);
        for (int i = 0; i < k; ++i) {
            if (r.pct(40)) nestLines.push_back(Line{"sub", {r.below(n), r.below(n)}});
            else nestLines.push_back(Line{"ep", {r.below(n), r.below(n), NOEV, -1, 1}});
        }
        for (size_t i = nestLines.size(); i > 1; --i) std::swap(nestLines[i - 1], nestLines[static_cast<size_t>(r.below(static_cast<int>(i)))]);
    }
    for (auto& l : nestLines) s.push_back(l);
    // transitions
    auto target = [&]() { return (!hs.empty() && r.pct(30)) ? hs[static_cast<size_t>(r.below(static_cast<int>(hs.size())))] : r.below(n); };
    int nt = n * f.trPerState / 2 + r.below(n * f.trPerState / 2 + 1);
    std::vector<std::pair<int, int>> keys;
    for (int i = 0; i < nt; ++i) {
        int fr = r.below(n), e = ev();
        if (!keys.empty() && r.pct(f.multiTr)) { auto k = keys[static_cast<size_t>(r.below(static_cast<int>(keys.size())))]; fr = k.first; e = k.second; }
        keys.push_back({fr, e});
        int cb = r.pct(85) ? tid++ : -1;
        if (r.pct(f.self)) add("self", {fr, e, r.below(2), cb, cnd(f.cond), r.pct(60) ? 1 : 0, r.pct(f.nullh) ? 1 : 0});
        else {
            int to = target();
            // siblings are the usual target
            if (par.count(fr) && r.pct(45)) { auto& k = kids[static_cast<size_t>(par[fr])]; to = k[static_cast<size_t>(r.below(static_cast<int>(k.size())))]; }
            add("tr", {fr, to, e, cb, cnd(f.cond), r.pct(60) ? 1 : 0, r.pct(f.nullh) ? 1 : 0});
        }
    }
    if (r.pct(f.tmr)) for (int t = 0; t < 3; ++t) if (r.pct(70)) add("tmr", {t, ev()});
    if (r.pct(f.act)) {
        int k = 1 + r.below(4);
        for (int i = 0; i < k; ++i) {
            int st = r.below(n), trig = r.below(2);
            switch (r.below(5)) {
                case 0: add("act", {st, trig, 0, r.below(3), r.pct(15) ? 0 : 10 + r.below(5) * 10, r.below(2)}); break;
                case 1: add("act", {st, trig, 1, r.below(3)}); break;
                case 2: add("act", {st, trig, 2, r.below(3)}); break;
                case 3: { std::vector<int> a{st, trig, 3, ev()}; int q = r.below(3); for (int j = 0; j < q; ++j) a.push_back(r.below(20)); add("act", a); break; }
                default: { std::vector<int> a{st, trig, r.below(4)}; int q = r.below(4); for (int j = 0; j < q; ++j) a.push_back(10 + r.below(4)); add("act", a); break; }
            }
        }
    }
    if (r.pct(f.scr)) {
        int k = 1 + r.below(4);
        for (int i = 0; i < k; ++i) {
            int kind = r.below(5);
            int id = kind == 4 ? 0 : kind == 3 ? 100 + r.below(std::max(1, tid - 100)) : r.below(n);
            int what = r.below(6);
            if (what == 3 && !r.pct(f.query)) what = 1;
            if ((what == 4 || what == 5) && f.tmr == 0) what = 0;
            add("scr", {kind, id, r.below(3), what, what == 4 || what == 5 ? r.below(3) : ev(), r.below(20)});
        }
    }
    if (r.pct(2)) add("post", {ev()});
    add("start", {});
    if (r.pct(80)) add("run", {});
    int no = 2 + r.below(f.ops);
    for (int i = 0; i < no; ++i) {
        std::vector<int> a{ev()};
        if (r.pct(f.args)) { int q = 1 + r.below(r.pct(20) ? 4 : 2); for (int j = 0; j < q; ++j) a.push_back(r.below(30)); }
        if (r.pct(f.timerOps)) {
            int t = r.below(3);
            switch (r.below(6)) {
                case 0: add("tstart", {t, r.pct(12) ? 0 : 10 + r.below(4) * 5, r.below(2)}); break;
                case 1: add("tstop", {t}); break;
                case 2: add("trestart", {t}); break;
                case 3: add("trun", {t}); break;
                default: add("fire", {t}); if (r.pct(70)) add("run", {}); break;
            }
            continue;
        }
        if (r.pct(8)) { add("cond", {r.below(64)}); }
        if (r.pct(f.query)) { add("q", a); a[0] = ev(); }
        if (r.pct(f.intr)) { add("intr", {ev()}); if (r.pct(50)) add("intr", {ev()}); }
        if (r.pct(f.sync)) add(r.pct(f.clr) ? "syncclr" : "sync", a);
        else {
            add(r.pct(f.clr) ? "clr" : "post", a);
            int k = 0;
            while (r.pct(f.burst) && k++ < 4) { a[0] = ev(); add("post", a); if (r.pct(f.query)) add("q", {ev()}); }
            if (r.pct(90)) add("run", {});
        }
        if (r.pct(5)) add("isact", {r.below(n)});
        if (r.pct(2) && r.pct(f.release * 5)) add("release", {});
    }
    add("run", {});
    return s;
}

static std::string project(const Log& log, const std::string& kinds) {
    std::string r;
    for (auto& i : log) if (i.k == '!' || kinds.find(i.k) != std::string::npos) r += i.str() + "\n";
    return r;
}

static bool duplicates(const Log& log, std::string& what) {
    for (auto& i : log)
        if (i.k == '=') {
            std::set<std::string> seen;
            std::string t = i.s.substr(1, i.s.size() - 2), x;
            std::istringstream in(t);
            while (std::getline(in, x, ',')) if (!seen.insert(x).second) { what = "duplicate active state in " + i.s; return true; }
        }
    return false;
}

// independent of the reference: whoever disappears from the configuration was told so, whoever appears was entered
static bool silent(const Scenario& sc, const Log& log, std::string& what) {
    std::map<int, int> mask;
    for (auto& l : Ref::plain(sc)) if (l.op == "st") mask[l.at(0)] = l.at(1);
    auto ids = [](const std::string& t) {
        std::set<int> r;
        std::string x;
        std::istringstream in(t.substr(1, t.size() - 2));
        while (std::getline(in, x, ',')) r.insert(atoi(x.c_str()));
        return r;
    };
    std::set<int> prev, left, entered;
    for (auto& i : log) {
        bool veto = i.s.find("veto") != std::string::npos;
        if (i.k == 'X' && !veto) left.insert(atoi(i.s.c_str()));
        if (i.k == 'N') entered.insert(atoi(i.s.c_str()));
        if (i.k == '=') {
            auto now = ids(i.s);
            for (int s : prev) if (s < 20 && !now.count(s) && (mask[s] & 4) && !left.count(s)) { what = "state " + std::to_string(s) + " left the configuration " + i.s + " without its exit callback"; return true; }
            for (int s : now) if (!prev.count(s) && (mask[s] & 2) && !entered.count(s)) { what = "state " + std::to_string(s) + " joined the configuration " + i.s + " without its entering callback"; return true; }
            prev = now;
            left.clear();
            entered.clear();
        }
    }
    return false;
}

// is the profile's subject exercised?
static bool relevant(const std::string& p, const Log& log) {
    auto has = [&](char k, const char* sub) {
        for (auto& i : log) if (i.k == k && (!sub || i.s.find(sub) != std::string::npos)) return true;
        return false;
    };
    if (p == "C02") return has('X', "veto");
    if (p == "C03") return has('N', "veto");
    if (p == "C07") return has('N', "20[") || has('N', "21[") || has('T', nullptr);
    if (p == "C10" || p == "C12") return has('A', nullptr);
    if (p == "C16") return has('P', "1");
    if (p == "C19") return has('R', "0");
    return has('T', nullptr) || has('N', nullptr);
}

static bool differs(const Scenario& sc, const std::string& kinds, std::string* why, bool* rel, const std::string& prof) {
    Ref ref;
    ref.exec(sc);
    if (ref.diverges) return false;
    if (rel) *rel = relevant(prof, ref.log);
    Real real;
    real.exec(sc);
    std::string a = project(ref.log, kinds), b = project(real.log, kinds), d;
    bool bad = a != b;
    if (!bad && kinds.find('d') != std::string::npos && duplicates(real.log, d)) bad = true;
    if (!bad && kinds.find('s') != std::string::npos && silent(sc, real.log, d)) bad = true;
    if (bad && why) *why = "expected:\n" + a + "observed:\n" + b + (d.empty() ? "" : d + "\n");
    return bad;
}

#include "driver_main.hpp"
