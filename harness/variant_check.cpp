// Bounded replay search for Variant: random values, copies, moves, nesting, conversions and comparisons against a model.
#include "driver.hpp"
#include <cmath>
#include <limits>
#include "hsmcpp/variant.hpp"

using namespace hsmcpp;
using T = Variant::Type;

struct Custom {
    int a; int b;
    bool operator==(const Custom& o) const { return a == o.a && b == o.b; }
    bool operator>(const Custom& o) const { return a > o.a; }
};

struct M {
    T t = T::UNKNOWN;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<M> v;        // elements; map: key, value, key, value ...
    bool sgn() const { return t == T::BYTE_1 || t == T::BYTE_2 || t == T::BYTE_4 || t == T::BYTE_8; }
    bool uns() const { return t == T::UBYTE_1 || t == T::UBYTE_2 || t == T::UBYTE_4 || t == T::UBYTE_8; }
    bool num() const { return sgn() || uns() || t == T::DOUBLE; }
};

static std::string dstr(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static bool str2i(const std::string& s, int64_t& r) {
    errno = 0;
    char* e = nullptr;
    r = strtoll(s.c_str(), &e, 10);
    return e != s.c_str() && errno == 0;
}
static bool str2u(const std::string& s, uint64_t& r) {
    errno = 0;
    char* e = nullptr;
    r = strtoull(s.c_str(), &e, 10);
    return e != s.c_str() && errno == 0;
}
static bool str2d(const std::string& s, double& r) {
    errno = 0;
    char* e = nullptr;
    r = strtod(s.c_str(), &e);
    return e != s.c_str() && errno == 0;
}
static int64_t mInt(const M& m) {
    if (m.sgn()) return m.i;
    if (m.uns()) return static_cast<int64_t>(m.u);
    if (m.t == T::DOUBLE) return static_cast<int64_t>(m.d);
    if (m.t == T::BOOL) return m.i != 0;
    int64_t r = 0;
    if (m.t == T::STRING && str2i(m.s, r)) return r;
    return 0;
}
static uint64_t mUns(const M& m) {
    if (m.sgn()) return static_cast<uint64_t>(m.i);
    if (m.uns()) return m.u;
    if (m.t == T::DOUBLE) return m.d < 0 ? 0 : static_cast<uint64_t>(m.d);
    if (m.t == T::BOOL) return m.i != 0;
    uint64_t r = 0;
    if (m.t == T::STRING && str2u(m.s, r)) return r;
    return 0;
}
static double mDbl(const M& m) {
    if (m.sgn()) return static_cast<double>(m.i);
    if (m.uns()) return static_cast<double>(m.u);
    if (m.t == T::DOUBLE) return m.d;
    if (m.t == T::BOOL) return m.i != 0;
    double r = 0;
    if (m.t == T::STRING && str2d(m.s, r)) return r;
    return 0;
}
static bool mBool(const M& m) {
    if (m.t == T::STRING) {
        int64_t r = 0;
        return m.s == "true" || (str2i(m.s, r) && r != 0);
    }
    return mInt(m) != 0;
}
static std::string mStr(const M& m) {
    if (m.sgn()) return std::to_string(m.i);
    if (m.uns()) return std::to_string(m.u);
    if (m.t == T::DOUBLE) return std::to_string(m.d);
    if (m.t == T::BOOL) return m.i ? "true" : "false";
    if (m.t == T::STRING || m.t == T::BYTEARRAY) return m.s;
    std::string r;
    if (m.t == T::PAIR) return "(" + mStr(m.v[0]) + ", " + mStr(m.v[1]) + ")";
    if (m.t == T::MAP) {
        for (size_t k = 0; k + 1 < m.v.size(); k += 2) { if (!r.empty()) r += ", "; r += mStr(m.v[k]) + "=[" + mStr(m.v[k + 1]) + "]"; }
        return r;
    }
    for (auto& x : m.v) { if (!r.empty()) r += ", "; r += mStr(x); }
    return r;
}
template <class X> static ByteArray_t raw(X x) { ByteArray_t r(sizeof(X)); memcpy(r.data(), &x, sizeof(X)); return r; }
static ByteArray_t mBytes(const M& m) {
    switch (m.t) {
        case T::BYTE_1: return raw(static_cast<int8_t>(m.i));
        case T::BYTE_2: return raw(static_cast<int16_t>(m.i));
        case T::BYTE_4: return raw(static_cast<int32_t>(m.i));
        case T::BYTE_8: return raw(m.i);
        case T::UBYTE_1: return raw(static_cast<uint8_t>(m.u));
        case T::UBYTE_2: return raw(static_cast<uint16_t>(m.u));
        case T::UBYTE_4: return raw(static_cast<uint32_t>(m.u));
        case T::UBYTE_8: return raw(m.u);
        case T::DOUBLE: return raw(m.d);
        case T::BOOL: return ByteArray_t{static_cast<unsigned char>(m.i ? 1 : 0)};
        case T::STRING: case T::BYTEARRAY: return ByteArray_t(m.s.begin(), m.s.end());
        case T::VECTOR: case T::LIST: case T::PAIR: {
            ByteArray_t r;
            for (auto& x : m.v) { auto b = mBytes(x); r.insert(r.end(), b.begin(), b.end()); }
            return r;
        }
        default: return {};
    }
}
static bool mEq(const M& a, const M& b) {
    if (a.t == T::UNKNOWN || b.t == T::UNKNOWN) return a.t == b.t;
    if (a.num() && b.num()) {
        if (a.t == T::DOUBLE || b.t == T::DOUBLE) return std::abs(mDbl(a) - mDbl(b)) < 0.00000001;
        if (a.uns() || b.uns()) return mUns(a) == mUns(b);
        return a.i == b.i;
    }
    if (a.t != b.t) return false;
    if (a.t == T::BOOL) return a.i == b.i;
    if (a.t == T::STRING || a.t == T::BYTEARRAY) return a.s == b.s;
    if (a.t == T::CUSTOM) return a.i == b.i && a.u == b.u;
    if (a.v.size() != b.v.size()) return false;
    for (size_t k = 0; k < a.v.size(); ++k) if (!mEq(a.v[k], b.v[k])) return false;
    return true;
}
// order of values of the same kind; containers are left out
static bool ordered(const M& a, const M& b) {
    if (a.num() && b.num()) return true;
    return a.t == b.t && (a.t == T::BOOL || a.t == T::STRING || a.t == T::BYTEARRAY);
}
static bool mGt(const M& a, const M& b) {
    if (a.num()) {
        if (a.t == T::DOUBLE || b.t == T::DOUBLE) return mDbl(a) > mDbl(b);
        if (a.uns() || b.uns()) return mUns(a) > mUns(b);
        return a.i > b.i;
    }
    if (a.t == T::BOOL) return a.i > b.i;
    if (a.t == T::BYTEARRAY) return ByteArray_t(a.s.begin(), a.s.end()) > ByteArray_t(b.s.begin(), b.s.end());
    return a.s > b.s;
}

struct Run {
    std::vector<std::string> bad;      // "k:..." entries, k = C conversion, P copy, O order
    Variant v[6];
    M m[6];
    void fail(char k, const std::string& s) { bad.push_back(std::string(1, k) + ":" + s); }
    static bool same(const Variant& a, const M& b) {      // deep comparison without the operators under test
        if (a.getType() != b.t) return false;
        switch (b.t) {
            case T::UNKNOWN: return !a && a.isEmpty();
            case T::CUSTOM: { auto p = a.getCustomType<Custom>(); return p && p->a == static_cast<int>(b.i) && p->b == static_cast<int>(b.u); }
            case T::DOUBLE: return std::memcmp(raw(a.toDouble()).data(), raw(b.d).data(), 8) == 0;
            case T::STRING: return a.toString() == b.s;
            case T::BYTEARRAY: { auto p = a.getByteArray(); return p && std::string(p->begin(), p->end()) == b.s; }
            case T::VECTOR: {
                auto p = a.getVector();
                if (!p || p->size() != b.v.size()) return false;
                for (size_t k = 0; k < b.v.size(); ++k) if (!same((*p)[k], b.v[k])) return false;
                return true;
            }
            case T::LIST: {
                auto p = a.getList();
                if (!p || p->size() != b.v.size()) return false;
                size_t k = 0;
                for (auto& x : *p) if (!same(x, b.v[k++])) return false;
                return true;
            }
            case T::MAP: {
                auto p = a.getMap();
                if (!p || p->size() * 2 != b.v.size()) return false;
                size_t k = 0;
                for (auto& x : *p) { if (!same(x.first, b.v[k]) || !same(x.second, b.v[k + 1])) return false; k += 2; }
                return true;
            }
            case T::PAIR: { auto p = a.getPair(); return p && same(p->first, b.v[0]) && same(p->second, b.v[1]); }
            default: return a.toByteArray() == mBytes(b);
        }
    }
    void all(char k, const std::string& what) {
        for (int i = 0; i < 6; ++i) if (!same(v[i], m[i])) { fail(k, "value " + std::to_string(i) + " is wrong after: " + what); m[i] = M(); v[i] = Variant(); }
    }
    void conversions(int i) {
        const Variant& x = v[i];
        const M& y = m[i];
        std::string w = "value " + std::to_string(i) + " type " + std::to_string(static_cast<int>(y.t)) + " '" + (y.t == T::DOUBLE ? dstr(y.d) : mStr(y)) + "': ";
        bool big = y.t == T::DOUBLE && !(std::abs(y.d) < 9e18);
        if (x.isNumeric() != y.num() || x.isSignedNumeric() != (y.sgn() || y.t == T::DOUBLE) || x.isUnsignedNumeric() != y.uns() || x.isBool() != (y.t == T::BOOL) ||
            x.isString() != (y.t == T::STRING) || x.isByteArray() != (y.t == T::BYTEARRAY) || x.isVector() != (y.t == T::VECTOR) || x.isList() != (y.t == T::LIST) ||
            x.isMap() != (y.t == T::MAP) || x.isPair() != (y.t == T::PAIR) || x.isCustomType() != (y.t == T::CUSTOM) || x.isEmpty() != (y.t == T::UNKNOWN) ||
            static_cast<bool>(x) != (y.t != T::UNKNOWN)) fail('C', w + "type predicates");
        if (!big && x.toInt64() != mInt(y)) fail('C', w + "toInt64 gives " + std::to_string(x.toInt64()));
        if (!big && !(y.t == T::DOUBLE && y.d < 0) && x.toUInt64() != mUns(y)) fail('C', w + "toUInt64 gives " + std::to_string(x.toUInt64()));
        if (raw(x.toDouble()) != raw(mDbl(y))) fail('C', w + "toDouble gives " + dstr(x.toDouble()));
        if (!big && x.toBool() != mBool(y)) fail('C', w + "toBool gives " + std::to_string(x.toBool()));
        if (x.toString() != mStr(y)) fail('C', w + "toString gives " + x.toString());
        if (x.toByteArray() != mBytes(y)) fail('C', w + "toByteArray differs");
        if ((x.getVector() != nullptr) != (y.t == T::VECTOR) || (x.getList() != nullptr) != (y.t == T::LIST) || (x.getMap() != nullptr) != (y.t == T::MAP) ||
            (x.getPair() != nullptr) != (y.t == T::PAIR) || (x.getByteArray() != nullptr) != (y.t == T::BYTEARRAY)) fail('C', w + "container access");
        if (y.t == T::VECTOR) { auto z = x.toVector<int64_t>([](const Variant& a) { return a.toInt64(); }); bool ok = z.size() == y.v.size(); for (size_t k = 0; ok && k < z.size(); ++k) ok = huge(y.v[k]) || z[k] == mInt(y.v[k]); if (!ok) fail('C', w + "toVector"); }
        if (y.t == T::LIST) { auto z = x.toList<std::string>([](const Variant& a) { return a.toString(); }); bool ok = z.size() == y.v.size(); size_t k = 0; for (auto& q : z) { if (ok) ok = q == mStr(y.v[k]); ++k; } if (!ok) fail('C', w + "toList"); }
        if (y.t == T::MAP) { auto z = x.toMap<int64_t, std::string>([](const Variant& a) { return a.toInt64(); }, [](const Variant& a) { return a.toString(); }); bool ok = z.size() * 2 == y.v.size(); for (size_t k = 0; ok && k < y.v.size(); k += 2) ok = z.count(y.v[k].i) && z[y.v[k].i] == mStr(y.v[k + 1]); if (!ok) fail('C', w + "toMap"); }
        if (y.t == T::PAIR) { auto z = x.toPair<std::string, double>([](const Variant& a) { return a.toString(); }, [](const Variant& a) { return a.toDouble(); }); if (z.first != mStr(y.v[0]) || raw(z.second) != raw(mDbl(y.v[1]))) fail('C', w + "toPair"); }
    }
    static bool huge(const M& y) { return y.t == T::DOUBLE && !(std::abs(y.d) < 9e18); }
    static bool hasHuge(const M& y) { if (huge(y)) return true; for (auto& x : y.v) if (hasHuge(x)) return true; return false; }
    void compare(int i, int j) {
        const Variant &a = v[i], &b = v[j];
        const M &x = m[i], &y = m[j];
        bool inf = hasHuge(x) || hasHuge(y);
        if (inf) return;
        std::string w = "values " + std::to_string(i) + " '" + mStr(x) + "' and " + std::to_string(j) + " '" + mStr(y) + "': ";
        bool e = mEq(x, y);
        if ((a == b) != e) fail('O', w + "== gives " + std::to_string(a == b));
        if ((b == a) != (a == b)) fail('O', w + "== is not symmetric");
        if ((a != b) == (a == b)) fail('O', w + "!= is not the negation of ==");
        if (ordered(x, y)) {
            bool g = mGt(x, y);
            if ((a > b) != g) fail('O', w + "> gives " + std::to_string(a > b));
            if ((a >= b) != (e || g)) fail('O', w + ">= gives " + std::to_string(a >= b));
            if ((a < b) != (!e && !g)) fail('O', w + "< gives " + std::to_string(a < b));
            if ((a <= b) != (e || !g)) fail('O', w + "<= gives " + std::to_string(a <= b));
        }
    }
    template <class X> void set(int i, X x, bool viaAssign, int how) {
        if (viaAssign) v[i] = x;
        else if (how & 1) v[i] = Variant::make(x);
        else v[i] = Variant(x);
    }
    void make(int i, int kind, int hi, int lo, int how) {
        uint64_t w = (static_cast<uint64_t>(static_cast<uint32_t>(hi)) << 32) | static_cast<uint32_t>(lo);
        bool as = (how & 2) != 0;
        M n;
        if (kind == 13) hi &= 0xffff;
        switch (kind) {
            case 0: n.t = T::BYTE_1; n.i = static_cast<int8_t>(w); set(i, static_cast<int8_t>(w), as, how); break;
            case 1: n.t = T::BYTE_2; n.i = static_cast<int16_t>(w); set(i, static_cast<int16_t>(w), as, how); break;
            case 2: n.t = T::BYTE_4; n.i = static_cast<int32_t>(w); set(i, static_cast<int32_t>(w), as, how); break;
            case 3: n.t = T::BYTE_8; n.i = static_cast<int64_t>(w); set(i, static_cast<int64_t>(w), as, how); break;
            case 4: n.t = T::UBYTE_1; n.u = static_cast<uint8_t>(w); set(i, static_cast<uint8_t>(w), as, how); break;
            case 5: n.t = T::UBYTE_2; n.u = static_cast<uint16_t>(w); set(i, static_cast<uint16_t>(w), as, how); break;
            case 6: n.t = T::UBYTE_4; n.u = static_cast<uint32_t>(w); set(i, static_cast<uint32_t>(w), as, how); break;
            case 7: n.t = T::UBYTE_8; n.u = w; set(i, w, as, how); break;
            case 8: n.t = T::DOUBLE; n.d = dbl(hi, lo); set(i, n.d, as, how); break;
            case 9: n.t = T::BOOL; n.i = lo & 1; set(i, (lo & 1) != 0, as, how); break;
            case 10: n.t = T::STRING; n.s = strOf(hi, lo); if (how & 4) { if (as) v[i] = n.s.c_str(); else if (how & 1) v[i] = Variant::make(n.s.c_str()); else v[i] = Variant(n.s.c_str()); } else { const std::string& c = n.s; if (as) v[i] = c; else if (how & 1) v[i] = Variant::make(c); else v[i] = Variant(c); } break;
            case 11: { n.t = T::BYTEARRAY; n.s = strOf(hi, lo); if (hi & 1) n.s += std::string("\0\xff", 2); const ByteArray_t b(n.s.begin(), n.s.end()); if (as) v[i] = b; else if (how & 1) v[i] = Variant::make(n.s.data(), n.s.size()); else if (how & 4) v[i] = Variant(n.s.data(), n.s.size()); else v[i] = Variant(b); break; }
            case 12: { n.t = T::CUSTOM; n.i = lo % 4; n.u = static_cast<uint64_t>(static_cast<int64_t>(hi % 4)); const Custom c{static_cast<int>(n.i), static_cast<int>(n.u)}; if (as) v[i] = c; else if (how & 1) v[i] = Variant::make(c); else if (how & 4) v[i] = Variant::makeCustom(c); else v[i] = Variant(c); break; }
            case 13: { n.t = T::VECTOR; std::vector<int> z; for (int k = 0; k < (lo & 3); ++k) { z.push_back(hi + k); M e; e.t = T::BYTE_4; e.i = hi + k; n.v.push_back(e); } if (how & 1) v[i] = Variant::make(z); else v[i] = Variant(z); break; }
            case 14: { n.t = T::LIST; std::list<std::string> z; for (int k = 0; k < (lo & 3); ++k) { std::string q = strOf(hi ^ k, lo); z.push_back(q); M e; e.t = T::STRING; e.s = q; n.v.push_back(e); } if (how & 1) v[i] = Variant::make(z); else v[i] = Variant(z); break; }
            case 15: { n.t = T::MAP; std::map<int, bool> z; for (int k = 0; k < (lo & 3); ++k) z[(hi & 0xff) + k] = ((k + lo) & 1) != 0; for (auto& q : z) { M a; a.t = T::BYTE_4; a.i = q.first; M b; b.t = T::BOOL; b.i = q.second; n.v.push_back(a); n.v.push_back(b); } if (how & 1) v[i] = Variant::make(z); else v[i] = Variant(z); break; }
            default: { n.t = T::PAIR; M a; a.t = T::BYTE_4; a.i = hi; M b; b.t = T::UBYTE_2; b.u = static_cast<uint16_t>(lo); n.v = {a, b}; if (how & 1) v[i] = Variant::make(hi, static_cast<uint16_t>(lo)); else v[i] = Variant(hi, static_cast<uint16_t>(lo)); break; }
        }
        m[i] = n;
    }
    static double dbl(int hi, int lo) {
        static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-9, 5e-8, 3.999999999, 4294967296.0, 9007199254740993.0, -2147483649.0, 1e300, 123456.789, 255.0, 4.0};
        if ((hi & 3) == 0) return sp[lo & 15];
        if ((hi & 3) == 1) return lo / 7.0;
        return static_cast<double>(lo) + (hi % 1000) / 1000.0;
    }
    static std::string strOf(int hi, int lo) {
        static const char* sp[] = {"", "true", "false", "0", "1", "-1", "abc", "12abc", " 7", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "3.75", "1e3", "True", "0x10", "-0", "00042", "1e999", "+5", "a", "b"};
        if (hi & 1) return sp[static_cast<unsigned>(lo) % 24];
        if (hi & 2) return std::to_string(lo);
        return std::to_string(static_cast<int64_t>((static_cast<uint64_t>(static_cast<uint32_t>(hi)) << 32) | static_cast<uint32_t>(lo)));
    }
    void exec(const Scenario& sc) {
        for (auto& l : sc) {
            int a = l.at(0) % 6, b = l.at(1) % 6, c = l.at(2) % 6;
            const std::string w = l.str();
            if (l.op == "mk") { make(a, l.at(1), l.at(2), l.at(3), l.at(4)); all('C', w); conversions(a); }
            else if (l.op == "copy") { if (l.at(2) & 1) { Variant t(v[b]); m[a] = m[b]; v[a] = t; } else if (l.at(2) & 2) { M t = m[b]; v[a] = Variant::make(v[b]); m[a] = t; } else { M t = m[b]; v[a] = v[b]; m[a] = t; } all('P', w); }
            else if (l.op == "move") {
                if (a == b) { Variant& x = v[a]; v[a] = std::move(x); }
                else if (l.at(2) & 1) { Variant t(std::move(v[b])); v[a] = std::move(t); m[a] = m[b]; m[b] = M(); }
                else { v[a] = std::move(v[b]); m[a] = m[b]; m[b] = M(); }
                all('P', w);
            }
            else if (l.op == "inner") {      // assign a part of the value to the value itself
                if (m[a].v.empty()) continue;
                const Variant* e = nullptr;
                if (m[a].t == T::VECTOR) e = &(*v[a].getVector())[0];
                else if (m[a].t == T::LIST) e = &v[a].getList()->front();
                else if (m[a].t == T::PAIR) e = &v[a].getPair()->first;
                else if (m[a].t == T::MAP) e = &v[a].getMap()->begin()->second;
                M t = m[a].v[m[a].t == T::MAP ? 1 : 0];
                int how = l.at(1);
                if (how == 2 && m[a].t == T::VECTOR) { const VariantVector_t& z = *v[a].getVector(); v[a] = z; t = m[a]; }
                else if (how == 1 && m[a].t != T::MAP) v[a] = std::move(*const_cast<Variant*>(e));
                else v[a] = *e;
                m[a] = t;
                all('P', w);
            }
            else if (l.op == "clear") { v[a].clear(); m[a] = M(); all('P', w); }
            else if (l.op == "mut") {
                switch (m[a].t) {
                    case T::VECTOR: { auto p = v[a].getVector(); if (l.at(1) & 1 && !p->empty()) { (*p)[0] = Variant(77); M e; e.t = T::BYTE_4; e.i = 77; m[a].v[0] = e; } else { p->push_back(Variant(true)); M e; e.t = T::BOOL; e.i = 1; m[a].v.push_back(e); } break; }
                    case T::LIST: { v[a].getList()->push_front(Variant(uint8_t(9))); M e; e.t = T::UBYTE_1; e.u = 9; m[a].v.insert(m[a].v.begin(), e); break; }
                    case T::PAIR: { v[a].getPair()->first = Variant(static_cast<int64_t>(5)); M e; e.t = T::BYTE_8; e.i = 5; m[a].v[0] = e; break; }
                    case T::MAP: { if (!m[a].v.empty()) { v[a].getMap()->begin()->second = Variant("x"); M e; e.t = T::STRING; e.s = "x"; m[a].v[1] = e; } break; }
                    case T::BYTEARRAY: { v[a].getByteArray()->push_back('z'); m[a].s += "z"; break; }
                    case T::CUSTOM: { auto p = v[a].getCustomType<Custom>(); p->a = 3; m[a].i = 3; break; }
                    default: break;
                }
                all('P', w);
            }
            else if (l.op == "wrap") {
                if (depth(m[b]) > 3 || depth(m[c]) > 3) continue;
                M n;
                n.v = {m[b], m[c]};
                if (l.at(3) == 0) { n.t = T::VECTOR; VariantVector_t z{v[b], v[c]}; v[a] = Variant(z); }
                else if (l.at(3) == 1) { n.t = T::LIST; VariantList_t z{v[b], v[c]}; v[a] = Variant::make(z); }
                else { n.t = T::PAIR; VariantPair_t z(v[b], v[c]); v[a] = z; }
                m[a] = n;
                all('P', w);
            }
            else if (l.op == "conv") { conversions(a); all('C', w); }
            else if (l.op == "cmp") { compare(a, b); all('O', w); }
            if (bad.size() > 20) return;
        }
    }
    static int depth(const M& x) { int d = 0; for (auto& y : x.v) d = std::max(d, depth(y)); return d + 1; }
};

static Scenario generate(Rng& r, const std::string& prof) {
    Scenario s;
    auto word = [&]() -> int {
        static const int sp[] = {0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2147483647, -2147483647 - 1, 42};
        if (r.pct(55)) return sp[r.below(16)];
        if (r.pct(50)) return static_cast<int>(r.next());
        return r.below(200) - 100;
    };
    int n = 6 + r.below(18);
    for (int i = 0; i < n; ++i) {
        int k = r.below(100), a = r.below(6), b = r.below(6);
        if (i < 4 || k < 25) {
            int kind = prof == "C13" ? r.below(17) : r.below(17);
            int hi = word();
            if (r.pct(30)) hi = r.below(8);
            int lo = word();
            s.push_back(Line{"mk", {i < 4 ? i : a, kind, hi, lo, r.below(8)}});
        }
        else if (k < 40) s.push_back(Line{"copy", {a, b, r.below(4)}});
        else if (k < 50) s.push_back(Line{"move", {a, b, r.below(2)}});
        else if (k < 53) s.push_back(Line{"clear", {a}});
        else if (k < 56) s.push_back(Line{"inner", {a, r.below(3)}});
        else if (k < 62) s.push_back(Line{"mut", {a, r.below(2)}});
        else if (k < 70) s.push_back(Line{"wrap", {a, b, r.below(6), r.below(3)}});
        else if (k < 82) s.push_back(Line{"conv", {a}});
        else s.push_back(Line{"cmp", {a, b}});
    }
    for (int i = 0; i < 6; ++i) s.push_back(prof == "C13" ? Line{"conv", {i}} : Line{"cmp", {i, r.below(6)}});
    return s;
}

static bool differs(const Scenario& sc, const std::string& kinds, std::string* why, bool* rel, const std::string&) {
    Run run;
    run.exec(sc);
    if (rel) *rel = true;
    bool bad = false;
    for (auto& b : run.bad)
        if (kinds.find(b[0]) != std::string::npos) {
            bad = true;
            if (why) *why += b + "\n";
        }
    return bad;
}

#include "driver_main.hpp"
