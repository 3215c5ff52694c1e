// A scenario: state machine description + a sequence of operations, as independent text lines.
#pragma once
#include <cstdint>
#include <sstream>
#include <string>
#include <vector>

struct Line {
    std::string op;
    std::vector<int> a;
    int at(size_t i, int d = 0) const { return i < a.size() ? a[i] : d; }
    std::string str() const {
        std::string s = op;
        for (int v : a) s += " " + std::to_string(v);
        return s;
    }
};
using Scenario = std::vector<Line>;

inline std::string text(const Scenario& s) {
    std::string r;
    for (const auto& l : s) r += l.str() + "\n";
    return r;
}
inline Scenario parse(const std::string& t) {
    Scenario s;
    std::istringstream in(t);
    std::string row;
    while (std::getline(in, row)) {
        if (row.empty() || row[0] == '#') continue;
        std::istringstream ls(row);
        Line l;
        ls >> l.op;
        int v;
        while (ls >> v) l.a.push_back(v);
        s.push_back(l);
    }
    return s;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull;
    }
    int below(int n) { return n <= 0 ? 0 : static_cast<int>((next() >> 33) % static_cast<uint64_t>(n)); }
    bool pct(int p) { return below(100) < p; }
};

// conditions are pure functions of (condition id, condition mask, arguments)
inline bool condValue(int c, unsigned mask, const std::vector<int>& args) {
    bool v = ((mask >> c) & 1u) != 0;
    if ((c & 1) && !args.empty() && (args[0] & 1)) v = !v;
    return v;
}

constexpr int NOEV = -1000, NOST = -1000;

// one observable action; kind:
//  X exit callback, N entering callback, C changed callback, T transition callback, F failure callback,
//  A timer request, R registration result, P query result, S sync result, I other results, = configuration, ! internal error
struct Item {
    char k;
    std::string s;
    bool operator==(const Item& o) const { return k == o.k && s == o.s; }
    std::string str() const { return std::string(1, k) + ":" + s; }
};
using Log = std::vector<Item>;
inline std::string join(const std::vector<int>& v) {
    std::string r;
    for (int x : v) r += (r.empty() ? "" : ",") + std::to_string(x);
    return "[" + r + "]";
}
