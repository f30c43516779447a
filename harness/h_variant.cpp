// Variants against an independent value model: C19 (values, alias, convert) and C25 (order, keys).
// Runs under AddressSanitizer and UBSan including float-cast-overflow.
#include <cmath>
#include <algorithm>
#include <limits>
#include <list>
#include <memory>
#include "common.hpp"
#include "hsmcpp/variant.hpp"

namespace vh { Result R; std::string gOut = "/dev/null"; }
using namespace vh;
using namespace hsmcpp;
using T = Variant::Type;
typedef __int128 i128;

// ---------------------------------------------------------------- custom type which counts its instances
struct Cust {
    static long live;
    int a;
    std::string s;
    Cust(int x = 0, const std::string& y = "") : a(x), s(y) { ++live; }
    Cust(const Cust& o) : a(o.a), s(o.s) { ++live; }
    Cust& operator=(const Cust& o) = default;
    ~Cust() { a = -99; --live; }
    bool operator==(const Cust& o) const { return a == o.a && s == o.s; }
    bool operator>(const Cust& o) const { return a > o.a || (a == o.a && s > o.s); }
    bool operator<(const Cust& o) const { return o > *this; }
};
long Cust::live = 0;
// second custom type, smaller than the first one
struct Cust2 {
    signed char a;
    bool operator==(const Cust2& o) const { return a == o.a; }
    bool operator>(const Cust2& o) const { return a > o.a; }
    bool operator<(const Cust2& o) const { return a < o.a; }
};

// ---------------------------------------------------------------- model
enum K { UNK, I8, I16, I32, I64, U8, U16, U32, U64, DBL, BOOL, STR, BYT, LIST, VEC, MAP, PAIR, CUS, CU2, KCOUNT };
static const char* kname[] = {"empty", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "double", "bool", "string", "bytes", "list", "vector", "map", "pair", "custom", "custom2"};
static T ktype(K k) {
    switch (k) {
        case UNK: return T::UNKNOWN; case I8: return T::BYTE_1; case I16: return T::BYTE_2; case I32: return T::BYTE_4; case I64: return T::BYTE_8;
        case U8: return T::UBYTE_1; case U16: return T::UBYTE_2; case U32: return T::UBYTE_4; case U64: return T::UBYTE_8; case DBL: return T::DOUBLE;
        case BOOL: return T::BOOL; case STR: return T::STRING; case BYT: return T::BYTEARRAY; case LIST: return T::LIST; case VEC: return T::VECTOR;
        case MAP: return T::MAP; case PAIR: return T::PAIR; default: return T::CUSTOM;
    }
}
static bool isInt(K k) { return k >= I8 && k <= U64; }
static bool isNum(K k) { return k >= I8 && k <= DBL; }
static bool isBox(K k) { return k == LIST || k == VEC || k == MAP || k == PAIR; }

struct Val {
    K k = UNK;
    i128 i = 0;
    double d = 0;
    std::string s;
    std::vector<Val> c;  // MAP: key, value, key, value...
};

static std::string i128s(i128 v) {
    if (v == 0) return "0";
    bool neg = v < 0;
    std::string s;
    while (v != 0) { int dgt = (int)(v % 10); s += (char)('0' + (dgt < 0 ? -dgt : dgt)); v /= 10; }
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
static std::string show(const Val& v) {
    std::string s = kname[v.k];
    if (isInt(v.k) || v.k == BOOL || v.k >= CUS) s += ":" + i128s(v.i);
    if (v.k == DBL) { char b[40]; snprintf(b, sizeof b, ":%.17g", v.d); s += b; }
    if (v.k == STR || v.k == BYT || v.k == CUS) s += ":'" + v.s + "'";
    if (isBox(v.k)) { s += "("; for (size_t i = 0; i < v.c.size(); ++i) { if (i) s += ","; s += show(v.c[i]); } s += ")"; }
    return s;
}

enum Ord { EQ, LT, GT, DIFF };  // DIFF: different, no natural order required
static Ord flip(Ord o) { return o == LT ? GT : o == GT ? LT : o; }
template <class A> static Ord three(const A& a, const A& b) { return a == b ? EQ : a < b ? LT : GT; }
static double asD(const Val& v) { return v.k == DBL ? v.d : (double)v.i; }
static Ord cmp(const Val& a, const Val& b);
static Ord cmpSeq(const std::vector<const Val*>& a, const std::vector<const Val*>& b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) { Ord o = cmp(*a[i], *b[i]); if (o != EQ) return o; }
    return three(a.size(), b.size());
}
static std::vector<const Val*> ptrs(const Val& v) { std::vector<const Val*> p; for (auto& x : v.c) p.push_back(&x); return p; }
static Ord cmp(const Val& a, const Val& b) {
    if (isNum(a.k) && isNum(b.k)) {
        if (a.k != DBL && b.k != DBL) return three(a.i, b.i);
        double x = asD(a), y = asD(b);
        if (x == y || std::abs(x - y) < 0.00000001) return EQ;
        return x < y ? LT : GT;
    }
    if (a.k != b.k) return DIFF;
    switch (a.k) {
        case UNK: return EQ;
        case BOOL: return three(a.i, b.i);
        case STR: return three(a.s, b.s);
        case BYT: return three(std::vector<unsigned char>(a.s.begin(), a.s.end()), std::vector<unsigned char>(b.s.begin(), b.s.end()));
        case CUS: return a.i != b.i ? three(a.i, b.i) : three(a.s, b.s);
        case CU2: return three(a.i, b.i);
        case LIST: case VEC: case PAIR: return cmpSeq(ptrs(a), ptrs(b));
        default: break;
    }
    // maps: equal if they have the same keys and values
    if (a.c.size() == b.c.size()) {
        bool all = true;
        for (size_t i = 0; i < a.c.size() && all; i += 2) {
            bool hit = false;
            for (size_t j = 0; j < b.c.size() && !hit; j += 2) hit = cmp(a.c[i], b.c[j]) == EQ && cmp(a.c[i + 1], b.c[j + 1]) == EQ;
            all = hit;
        }
        if (all) return EQ;
    }
    // natural order is only defined if all keys are comparable
    std::vector<std::pair<const Val*, const Val*>> sa, sb;
    for (size_t i = 0; i < a.c.size(); i += 2) sa.push_back({&a.c[i], &a.c[i + 1]});
    for (size_t i = 0; i < b.c.size(); i += 2) sb.push_back({&b.c[i], &b.c[i + 1]});
    std::vector<const Val*> keys;
    for (auto& p : sa) keys.push_back(p.first);
    for (auto& p : sb) keys.push_back(p.first);
    for (size_t i = 0; i < keys.size(); ++i) for (size_t j = 0; j < i; ++j) if (cmp(*keys[i], *keys[j]) == DIFF) return DIFF;
    auto less = [](const std::pair<const Val*, const Val*>& x, const std::pair<const Val*, const Val*>& y) { return cmp(*x.first, *y.first) == LT; };
    std::sort(sa.begin(), sa.end(), less);
    std::sort(sb.begin(), sb.end(), less);
    std::vector<const Val*> fa, fb;
    for (auto& p : sa) { fa.push_back(p.first); fa.push_back(p.second); }
    for (auto& p : sb) { fb.push_back(p.first); fb.push_back(p.second); }
    return cmpSeq(fa, fb);
}

// ---------------------------------------------------------------- generator
struct Gen {
    Rng& r;
    bool nan = false;      // also not a number
    bool tight = false;    // also doubles close to each other
    bool samekind = false; // elements of a container have one kind
    explicit Gen(Rng& x) : r(x) {}
    static i128 lo(K k) { switch (k) { case I8: return -128; case I16: return -32768; case I32: return -(i128)2147483648LL; case I64: return std::numeric_limits<int64_t>::min(); default: return 0; } }
    static i128 hi(K k) {
        switch (k) { case I8: return 127; case I16: return 32767; case I32: return 2147483647; case I64: return std::numeric_limits<int64_t>::max();
            case U8: return 255; case U16: return 65535; case U32: return 4294967295LL; default: return std::numeric_limits<uint64_t>::max(); }
    }
    i128 integer(K k) {
        i128 l = lo(k), h = hi(k);
        switch (r.below(6)) {
            case 0: return l + r.below(3);
            case 1: return h - r.below(3);
            case 2: { i128 v = r.range(-4, 4); return v < l ? -v : v; }
            case 3: { // around powers of two of all widths
                i128 v = ((i128)1 << r.range(0, 64)) + r.range(-1, 1);
                if (r.chance(50)) v = -v;
                return v < l ? l : v > h ? h : v; }
            default: { i128 v = l + (i128)(((unsigned __int128)r.next()) % ((unsigned __int128)(h - l) + 1)); return v; }
        }
    }
    double dbl(bool boxed) {
        double v;
        switch (r.below(8)) {
            case 0: v = 0.0; break;
            case 1: v = std::ldexp(1.0, r.range(0, 66)) * (r.chance(50) ? 1 : -1); break;
            case 2: v = r.chance(50) ? INFINITY : -INFINITY; break;
            case 3: v = (double)integer(I64); break;
            case 4: v = r.chance(50) ? 1e300 : -1e300; break;
            case 5: v = std::numeric_limits<double>::denorm_min() * (boxed ? 0 : 1); break;
            default: v = r.range(-2000, 2000) * 0.25; break;
        }
        if (boxed && std::abs(v) > 1e9 && !std::isinf(v)) v = r.range(-4000, 4000) * 0.25;
        if (!boxed && tight && r.chance(30)) v = r.range(-2, 2) + r.range(-4, 4) * 0.4e-8;
        if (!boxed && nan && r.chance(6)) v = r.chance(50) ? std::numeric_limits<double>::quiet_NaN() : -0.0;
        return v;
    }
    std::string str(bool bytes) {
        static const char* fixed[] = {"", "true", "false", "0", "1", "-1", "abc", "12x", " 7", "+5", "-", "nan", "inf", "1e5", "99999999999999999999999", "-99999999999999999999",
                                      "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "0x10", "1.5"};
        switch (r.below(4)) {
            case 0: return fixed[r.below(sizeof(fixed) / sizeof(fixed[0]))];
            case 1: return i128s(integer(r.chance(50) ? I64 : U64));
            case 2: { std::string s; for (int n = r.below(6); n > 0; --n) s += (char)(bytes || r.chance(20) ? r.below(256) : r.range(97, 100)); return s; }
            default: { std::string s; for (int n = r.below(40); n > 0; --n) s += (char)r.range(97, 122); return s; }
        }
    }
    Val scalar(K k, bool boxed) {
        Val v;
        v.k = k;
        if (isInt(k)) v.i = integer(k);
        else if (k == DBL) v.d = dbl(boxed);
        else if (k == BOOL) v.i = r.below(2);
        else if (k == STR) v.s = str(false);
        else if (k == BYT) v.s = str(true);
        else if (k == CUS) { v.i = r.range(-3, 3); v.s = r.chance(50) ? "" : str(false); }
        else if (k == CU2) v.i = r.range(-128, 127);
        return v;
    }
    Val key() { static const K ks[] = {I8, I32, U64, STR, BOOL, DBL, BYT, I64}; return scalar(ks[r.below(8)], true); }
    Val any(int depth, bool boxed = false) {
        K k;
        do k = (K)r.below(KCOUNT); while ((depth <= 0 && isBox(k)) || (k >= CUS && samekind && boxed));
        if (depth > 0 && r.chance(25)) k = (K)r.range(LIST, PAIR);
        return of(k, depth, boxed);
    }
    Val of(K k, int depth, bool boxed = false) {
        if (!isBox(k)) return scalar(k, boxed);
        Val v;
        v.k = k;
        if (k == PAIR) { v.c.push_back(any(depth - 1, true)); v.c.push_back(any(depth - 1, true)); return v; }
        int n = r.below(5);
        if (k == MAP) {
            K kk = samekind ? (K[]){I32, U64, STR, DBL, I8}[r.below(5)] : UNK;
            for (int t = 0; t < n; ++t) {
                Val x = kk == UNK ? key() : scalar(kk, true);
                bool dup = false;
                for (size_t j = 0; j < v.c.size(); j += 2) dup = dup || cmp(v.c[j], x) == EQ;
                if (dup) continue;
                v.c.push_back(x);
                v.c.push_back(any(depth - 1, true));
            }
            return v;
        }
        K ek = samekind ? (K)r.range(I8, BYT) : UNK;
        for (int t = 0; t < n; ++t) v.c.push_back(ek == UNK ? any(depth - 1, true) : scalar(ek, true));
        return v;
    }
};

// ---------------------------------------------------------------- model value -> variant, by different constructors
static ByteArray_t bytesOf(const std::string& s) { return ByteArray_t(s.begin(), s.end()); }
static Variant mk(const Val& v, Rng& r);
static bool allKind(const Val& v, K k) { for (auto& x : v.c) if (x.k != k) return false; return true; }

template <class A> static Variant num(A a, Rng& r) {
    switch (r.below(4)) {
        case 0: return Variant(a);
        case 1: return Variant::make(a);
        case 2: { Variant v; v = a; return v; }
        default: { Variant v(std::string("something else")); v = a; return v; }
    }
}
template <class A> static Variant obj(const A& a, Rng& r) {
    switch (r.below(4)) {
        case 0: return Variant(a);
        case 1: return Variant::make(a);
        case 2: { Variant v(5); v = a; return v; }
        default: { Variant v; v = a; return v; }
    }
}
static Variant mk(const Val& v, Rng& r) {
    switch (v.k) {
        case UNK: return Variant();
        case I8: return num((int8_t)v.i, r);
        case I16: return num((int16_t)v.i, r);
        case I32: return num((int32_t)v.i, r);
        case I64: return num((int64_t)v.i, r);
        case U8: return num((uint8_t)v.i, r);
        case U16: return num((uint16_t)v.i, r);
        case U32: return num((uint32_t)v.i, r);
        case U64: return num((uint64_t)v.i, r);
        case DBL: return num(v.d, r);
        case BOOL: return num(v.i != 0, r);
        case STR:
            if (v.s.find('\0') == std::string::npos && r.chance(30)) { Variant x(7); switch (r.below(3)) { case 0: return Variant(v.s.c_str()); case 1: return Variant::make(v.s.c_str()); default: x = v.s.c_str(); return x; } }
            return obj(v.s, r);
        case BYT:
            if (r.chance(30)) return r.chance(50) ? Variant(v.s.data(), v.s.size()) : Variant::make(v.s.data(), v.s.size());
            return obj(bytesOf(v.s), r);
        case VEC: {
            if (allKind(v, I32) && r.chance(70)) { std::vector<int> t; for (auto& x : v.c) t.push_back((int)x.i); if (!t.empty()) return r.chance(50) ? Variant(t) : Variant::make(t); }
            if (allKind(v, STR) && r.chance(70)) { std::vector<std::string> t; for (auto& x : v.c) t.push_back(x.s); return r.chance(50) ? Variant(t) : Variant::make(t); }
            VariantVector_t t;
            for (auto& x : v.c) t.push_back(mk(x, r));
            return obj(t, r);
        }
        case LIST: {
            if (allKind(v, U64) && r.chance(70)) { std::list<uint64_t> t; for (auto& x : v.c) t.push_back((uint64_t)x.i); return r.chance(50) ? Variant(t) : Variant::make(t); }
            VariantList_t t;
            for (auto& x : v.c) t.push_back(mk(x, r));
            return obj(t, r);
        }
        case MAP: {
            VariantMap_t t;
            for (size_t i = 0; i < v.c.size(); i += 2) t.emplace(mk(v.c[i], r), mk(v.c[i + 1], r));
            return obj(t, r);
        }
        case PAIR: {
            if (v.c[0].k == I32 && v.c[1].k == STR && r.chance(70)) return r.chance(50) ? Variant((int)v.c[0].i, v.c[1].s) : Variant::make((int)v.c[0].i, v.c[1].s);
            return obj(VariantPair_t(mk(v.c[0], r), mk(v.c[1], r)), r);
        }
        case CU2: {
            Cust2 c{(signed char)v.i};
            switch (r.below(4)) { case 0: return Variant(c); case 1: return Variant::makeCustom(c); case 2: return Variant::make(c); default: { Variant x(std::string("x")); x = c; return x; } }
        }
        default: {
            Cust c((int)v.i, v.s);
            switch (r.below(4)) { case 0: return Variant(c); case 1: return Variant::makeCustom(c); case 2: return Variant::make(c); default: { Variant x(std::string("x")); x = c; return x; } }
        }
    }
}

// ---------------------------------------------------------------- monitor: variant has exactly the model's value
static void bad(const std::string& key, const std::string& what, const std::string& detail) { R.violate(key, what, detail); }
static bool sameD(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

// returns an empty string or what is wrong
static std::string diff(const Variant& x, const Val& v) {
    if (x.getType() != ktype(v.k)) return "type";
    struct { bool got, want; const char* n; } q[] = {
        {x.isEmpty(), v.k == UNK, "isEmpty"}, {(bool)x, v.k != UNK, "bool()"}, {x.isNumeric(), isNum(v.k), "isNumeric"},
        {x.isSignedNumeric(), (v.k >= I8 && v.k <= I64) || v.k == DBL, "isSignedNumeric"}, {x.isUnsignedNumeric(), v.k >= U8 && v.k <= U64, "isUnsignedNumeric"},
        {x.isBool(), v.k == BOOL, "isBool"}, {x.isString(), v.k == STR, "isString"}, {x.isByteArray(), v.k == BYT, "isByteArray"}, {x.isVector(), v.k == VEC, "isVector"},
        {x.isList(), v.k == LIST, "isList"}, {x.isMap(), v.k == MAP, "isMap"}, {x.isPair(), v.k == PAIR, "isPair"}, {x.isCustomType(), v.k >= CUS, "isCustomType"},
        {(bool)x.getByteArray(), v.k == BYT, "getByteArray"}, {(bool)x.getVector(), v.k == VEC, "getVector"}, {(bool)x.getList(), v.k == LIST, "getList"},
        {(bool)x.getMap(), v.k == MAP, "getMap"}, {(bool)x.getPair(), v.k == PAIR, "getPair"}, {(bool)x.getCustomType<Cust>(), v.k >= CUS, "getCustomType"}};
    for (auto& e : q) if (e.got != e.want) return std::string("query ") + e.n;
    R.add("value_checks");
    switch (v.k) {
        case I8: case I16: case I32: case I64: return (i128)x.toInt64() == v.i ? "" : "value";
        case U8: case U16: case U32: case U64: return (i128)x.toUInt64() == v.i ? "" : "value";
        case DBL: return sameD(x.toDouble(), v.d) ? "" : "value";
        case BOOL: return x.toBool() == (v.i != 0) ? "" : "value";
        case STR: return x.toString() == v.s ? "" : "value";
        case BYT: return *x.getByteArray() == bytesOf(v.s) ? "" : "value";
        case CU2: return x.getCustomType<Cust2>()->a == (int)v.i ? "" : "value";
        case CUS: { auto p = x.getCustomType<Cust>(); return p->a == (int)v.i && p->s == v.s ? "" : "value"; }
        case VEC: {
            auto p = x.getVector();
            if (p->size() != v.c.size()) return "size";
            for (size_t i = 0; i < v.c.size(); ++i) { auto d = diff((*p)[i], v.c[i]); if (!d.empty()) return d; }
            return "";
        }
        case LIST: {
            auto p = x.getList();
            if (p->size() != v.c.size()) return "size";
            size_t i = 0;
            for (auto& e : *p) { auto d = diff(e, v.c[i++]); if (!d.empty()) return d; }
            return "";
        }
        case PAIR: { auto p = x.getPair(); auto d = diff(p->first, v.c[0]); return d.empty() ? diff(p->second, v.c[1]) : d; }
        case MAP: {
            auto p = x.getMap();
            if (p->size() * 2 != v.c.size()) return "size";
            for (auto& e : *p) {
                bool hit = false;
                for (size_t j = 0; j < v.c.size() && !hit; j += 2) hit = diff(e.first, v.c[j]).empty() && diff(e.second, v.c[j + 1]).empty();
                if (!hit) return "map entry";
            }
            return "";
        }
        default: return "";
    }
}
static bool expectVal(const char* when, const Variant& x, const Val& v) {
    std::string d = diff(x, v);
    if (!d.empty()) { bad(std::string("value:") + when + ":" + d + ":" + kname[v.k], std::string(when) + ": variant doesn't have the expected " + d, "expected " + show(v) + " got '" + x.toString() + "'"); return false; }
    return true;
}

// ---------------------------------------------------------------- C19: random operations on a pool of variants
static bool noNan(const Val& v) { if (v.k == DBL && std::isnan(v.d)) return false; for (auto& x : v.c) if (!noNan(x)) return false; return true; }

// picks a random element of a container; map keys are not touched
static bool element(Variant& x, Val& v, Rng& r, Variant*& xe, Val*& ve) {
    if (v.c.empty()) return false;
    int i = r.below((int)v.c.size());
    if (v.k == VEC) { xe = &(*x.getVector())[i]; ve = &v.c[i]; return true; }
    if (v.k == LIST) { auto it = x.getList()->begin(); std::advance(it, i); xe = &*it; ve = &v.c[i]; return true; }
    if (v.k == PAIR) { xe = i ? &x.getPair()->second : &x.getPair()->first; ve = &v.c[i]; return true; }
    if (v.k == MAP) {
        i |= 1;
        for (auto& e : *x.getMap()) if (diff(e.first, v.c[i - 1]).empty()) { xe = &e.second; ve = &v.c[i]; return true; }
    }
    return false;
}
// random path into nested containers
static bool deepElement(Variant& x, Val& v, Rng& r, Variant*& xe, Val*& ve) {
    Variant* cx = &x; Val* cv = &v;
    bool any = false;
    for (int d = 0; d < 4; ++d) {
        if (any && r.chance(40)) break;
        if (!element(*cx, *cv, r, xe, ve)) break;
        cx = xe; cv = ve; any = true;
    }
    return any;
}
// assigns the own content (typed) back to the variant
static void assignOwnContent(Variant& x, const Val& v) {
    switch (v.k) {
        case BYT: x = *x.getByteArray(); break;
        case VEC: x = *x.getVector(); break;
        case LIST: x = *x.getList(); break;
        case MAP: x = *x.getMap(); break;
        case PAIR: x = *x.getPair(); break;
        case CUS: x = *x.getCustomType<Cust>(); break;
        case CU2: x = *x.getCustomType<Cust2>(); break;
        default: break;
    }
}
static int size(const Val& v) { int n = 1; for (auto& x : v.c) n += size(x); return n; }

static void caseValues(uint64_t seed, long idx) {
    Rng r(seed * 7919 + (uint64_t)idx);
    Gen g(r);
    g.nan = true;
    long live0 = Cust::live;
    std::string hist;
    {
        const int N = 5;
        std::vector<Variant> x(N);
        std::vector<Val> v(N);
        int ops = r.range(10, 40);
        for (int o = 0; o < ops; ++o) {
            int a = r.below(N), b = r.below(N), op = r.below(16);
            for (int i = 0; i < N; ++i) if (size(v[i]) > 60) { x[i].clear(); v[i] = Val(); }
            hist += (char)('a' + op);
            Variant* xe = nullptr; Val* ve = nullptr;
            switch (op) {
                case 0: case 1: v[a] = r.chance(60) ? g.of((K)r.range(LIST, PAIR), 3) : g.any(3); x[a] = mk(v[a], r); break;
                case 2: x[a] = x[b]; v[a] = v[b]; break;
                case 3: { Variant t(x[b]); x[a] = t; v[a] = v[b]; t.clear(); break; }
                case 4: if (a != b) { x[a] = std::move(x[b]); v[a] = v[b]; v[b] = Val(); } break;
                case 5: { Variant t(std::move(x[b])); expectVal("after being moved from", x[b], Val()); x[a] = t; if (a != b) { v[a] = v[b]; v[b] = Val(); } break; }
                case 6: x[a].clear(); v[a] = Val(); break;
                case 7: if (deepElement(x[a], v[a], r, xe, ve)) { Val n = g.any(1, true); *xe = mk(n, r); *ve = n; R.add("inner_writes"); } break;
                case 8: if (a != b && deepElement(x[a], v[a], r, xe, ve)) { *xe = x[b]; Val c = v[b]; *ve = c; R.add("inner_writes"); } break;
                case 9: if (deepElement(x[a], v[a], r, xe, ve)) { Val c = *ve; x[a] = *xe; v[a] = c; R.add("part_to_whole"); } break;
                case 10: if (deepElement(x[a], v[a], r, xe, ve)) { Val c = *ve; x[a] = std::move(*xe); v[a] = c; R.add("part_to_whole"); } break;
                case 11: assignOwnContent(x[a], v[a]); R.add("own_content"); break;
                case 12: { Variant& alias = x[a]; x[a] = alias; x[a] = std::move(alias); break; }
                case 13: if (deepElement(x[a], v[a], r, xe, ve)) { Val c = v[a]; *xe = x[a]; *ve = c; R.add("whole_to_part"); } break;
                case 14: std::swap(x[a], x[b]); if (a != b) std::swap(v[a], v[b]); break;
                default: {
                    Val e = g.any(1, true);
                    if (v[a].k == VEC) { x[a].getVector()->push_back(mk(e, r)); v[a].c.push_back(e); }
                    else if (v[a].k == LIST) { x[a].getList()->push_front(mk(e, r)); v[a].c.insert(v[a].c.begin(), e); }
                    else if (v[a].k == BYT) { x[a].getByteArray()->push_back('z'); v[a].s += 'z'; }
                    else if (v[a].k == CUS) { x[a].getCustomType<Cust>()->a = 77; v[a].i = 77; }
                    else if (v[a].k == CU2) { x[a].getCustomType<Cust2>()->a = 99; v[a].i = 99; }
                }
            }
            R.add("value_ops");
            bool ok = true;
            for (int i = 0; i < N; ++i) ok = expectVal((std::string("after operation ") + (char)('a' + op)).c_str(), x[i], v[i]) && ok;
            if (!ok) return;
            // a copy is equal to the original and independent of it
            if (r.chance(30)) {
                Variant c(x[a]);
                if (noNan(v[a])) {
                    if (!(c == x[a]) || c != x[a]) bad(std::string("copy-not-equal:") + kname[v[a].k], "a copy is not equal to the original", show(v[a]));
                }
                Val cv = v[a];
                if (deepElement(c, cv, r, xe, ve)) { *xe = Variant(std::string("changed")); ve->k = STR; ve->s = "changed"; ve->c.clear(); R.add("independence_checks"); }
                else if (c.isByteArray()) { c.getByteArray()->push_back('!'); cv.s += '!'; R.add("independence_checks"); }
                else if (cv.k == CU2) { c.getCustomType<Cust2>()->a = 101; cv.i = 101; R.add("independence_checks"); }
                else if (c.isCustomType()) { c.getCustomType<Cust>()->s += "!"; cv.s += "!"; R.add("independence_checks"); }
                expectVal("changed copy", c, cv);
                expectVal("original after its copy was changed", x[a], v[a]);
            }
        }
        for (auto& m : v) hist += show(m).substr(0, 60);
    }
    if (Cust::live != live0) bad("instances", "custom values were leaked or destroyed twice", std::to_string(Cust::live - live0));
    R.note(hashStr(hist));
    if (idx % 997 == 0) R.sample(hist);
}

// ---------------------------------------------------------------- C19: conversions
static bool canonical(const std::string& s, i128& out) {
    if (s.empty() || s.size() > 25) return false;
    size_t i = s[0] == '-' ? 1 : 0;
    if (i == s.size() || (s[i] == '0' && s.size() > 1)) return false;
    i128 v = 0;
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
    out = s[0] == '-' ? -v : v;
    return true;
}
static bool noNumber(const std::string& s) {  // certainly not a number in any notation
    if (s.empty()) return true;
    char c = s[0];
    return !(c >= '0' && c <= '9') && c != '+' && c != '-' && c != '.' && !isspace((unsigned char)c) && c != 'i' && c != 'I' && c != 'n' && c != 'N';
}
// false: the textual form is not specified (order of keys of different kinds)
static bool text(const Val& v, std::string& out) {
    char b[400];
    std::string t, u;
    out.clear();
    switch (v.k) {
        case DBL: snprintf(b, sizeof b, "%f", v.d); out = b; return true;
        case BOOL: out = v.i ? "true" : "false"; return true;
        case STR: case BYT: out = v.s; return true;
        case VEC: case LIST:
            for (size_t i = 0; i < v.c.size(); ++i) {
                if (!text(v.c[i], t)) return false;
                if (i == 0 && t.empty() && v.c.size() > 1) return false;  // separator after leading empty texts is not specified
                if (i) out += ", ";
                out += t;
            }
            return true;
        case PAIR: if (!text(v.c[0], t) || !text(v.c[1], u)) return false; out = "(" + t + ", " + u + ")"; return true;
        case MAP: {
            std::vector<std::pair<const Val*, const Val*>> e;
            for (size_t i = 0; i < v.c.size(); i += 2) e.push_back({&v.c[i], &v.c[i + 1]});
            for (auto& a : e) for (auto& c : e) if (cmp(*a.first, *c.first) == DIFF) return false;
            std::sort(e.begin(), e.end(), [](const std::pair<const Val*, const Val*>& x, const std::pair<const Val*, const Val*>& y) { return cmp(*x.first, *y.first) == LT; });
            for (size_t i = 0; i < e.size(); ++i) {
                if (!text(*e[i].first, t) || !text(*e[i].second, u)) return false;
                if (i) out += ", ";
                out += t + "=[" + u + "]";
            }
            return true;
        }
        default: if (isInt(v.k)) out = i128s(v.i); return true;
    }
}
static bool bytes(const Val& v, std::string& out) {
    out.clear();
    auto raw = [&](const void* p, size_t n) { out.assign((const char*)p, n); };
    switch (v.k) {
        case I8: { int8_t t = (int8_t)v.i; raw(&t, sizeof t); return true; }
        case U8: { uint8_t t = (uint8_t)v.i; raw(&t, sizeof t); return true; }
        case I16: { int16_t t = (int16_t)v.i; raw(&t, sizeof t); return true; }
        case U16: { uint16_t t = (uint16_t)v.i; raw(&t, sizeof t); return true; }
        case I32: { int32_t t = (int32_t)v.i; raw(&t, sizeof t); return true; }
        case U32: { uint32_t t = (uint32_t)v.i; raw(&t, sizeof t); return true; }
        case I64: { int64_t t = (int64_t)v.i; raw(&t, sizeof t); return true; }
        case U64: { uint64_t t = (uint64_t)v.i; raw(&t, sizeof t); return true; }
        case DBL: raw(&v.d, sizeof v.d); return true;
        case BOOL: out = std::string(1, v.i ? '\1' : '\0'); return true;
        case STR: case BYT: out = v.s; return true;
        case VEC: case LIST: case PAIR: { std::string all; for (auto& x : v.c) { std::string t; if (!bytes(x, t)) return false; all += t; } out = all; return true; }
        case MAP: return false;  // not documented
        default: return true;    // documented: empty
    }
}

static void convertAll(const Val& v, Rng& r) {
    const Variant x = mk(v, r);
    const std::string k = kname[v.k];
    const i128 I64MIN = Gen::lo(I64), I64MAX = Gen::hi(I64), U64MAX = Gen::hi(U64);
    // all conversions are performed, no matter if specified: nothing may be undefined
    int64_t i64 = x.toInt64();
    uint64_t u64 = x.toUInt64();
    double dbl = x.toDouble();
    bool b = x.toBool();
    std::string s = x.toString();
    ByteArray_t ba = x.toByteArray();
    R.add("conversions", 6);
    auto fail = [&](const char* fn, const std::string& got) { bad(std::string("convert:") + fn + ":" + k, std::string(fn) + " of " + k + " returned a wrong value", show(v) + " -> " + got); };
    i128 n = 0;
    bool integral = false;
    if (isInt(v.k) || v.k == BOOL) { n = v.i; integral = true; }
    if (v.k == DBL && std::isfinite(v.d) && std::abs(v.d) < 1e30) { n = (i128)std::trunc(v.d); integral = true; }
    if (v.k == STR && canonical(v.s, n)) integral = true;
    bool zero = v.k == UNK || v.k >= CUS || v.k == BYT || isBox(v.k) || (v.k == STR && noNumber(v.s));
    if (integral && n >= I64MIN && n <= I64MAX) { R.add("conv_int64"); if (i64 != (int64_t)n) fail("toInt64", std::to_string(i64)); }
    if (integral && n >= 0 && n <= U64MAX) { R.add("conv_uint64"); if (u64 != (uint64_t)n) fail("toUInt64", std::to_string(u64)); }
    if (zero) { R.add("conv_zero"); if (i64 != 0) fail("toInt64", std::to_string(i64)); if (u64 != 0) fail("toUInt64", std::to_string(u64)); if (dbl != 0) fail("toDouble", std::to_string(dbl)); }
    if (v.k == DBL) { if (!sameD(dbl, v.d)) fail("toDouble", std::to_string(dbl)); }
    else if (integral) { if (dbl != (double)n) fail("toDouble", std::to_string(dbl)); }
    // booleans
    bool want = false, known = true;
    if (isInt(v.k) || v.k == BOOL) want = v.i != 0;
    else if (v.k == DBL) { known = v.d == 0 || std::abs(v.d) >= 1; want = v.d != 0; if (!std::isfinite(v.d) || std::abs(v.d) > 9e18) known = false; }
    else if (v.k == STR) { if (v.s == "true") want = true; else if (canonical(v.s, n) && n >= I64MIN && n <= I64MAX) want = n != 0; else known = noNumber(v.s); }
    if (known) { R.add("conv_bool"); if (b != want) fail("toBool", b ? "true" : "false"); }
    std::string t;
    if (text(v, t)) { R.add("conv_string"); if (s != t) fail("toString", "'" + s + "' instead of '" + t + "'"); }
    if (bytes(v, t)) { R.add("conv_bytes"); if (ba != bytesOf(t)) fail("toByteArray", std::to_string(ba.size()) + " bytes"); }
    // round trips
    if (isInt(v.k) || v.k == BOOL) { Variant y(s); if (isInt(v.k) && (v.i < 0 ? (i128)y.toInt64() != v.i : (i128)y.toUInt64() != v.i)) fail("round trip through a string", y.toString()); if (v.k == BOOL && y.toBool() != (v.i != 0)) fail("round trip through a string", s); }
    if (v.k == STR) { Variant y(ba); if (y.toString() != v.s) fail("round trip through bytes", y.toString()); }
    if (v.k == BYT) { Variant y(s); if (y.toByteArray() != bytesOf(v.s)) fail("round trip through a string", s); }
    if (v.k == DBL) { double dd; if (ba.size() == sizeof dd) { memcpy(&dd, ba.data(), sizeof dd); if (memcmp(&dd, &v.d, sizeof dd) != 0) fail("toByteArray", "other value"); } }
    // typed containers: every element once, in order, converted by the given function
    auto conv = std::function<std::string(const Variant&)>([](const Variant& e) { return e.toString(); });
    std::vector<std::string> want1;
    bool wk = true;
    for (auto& e : v.c) { std::string u; wk = text(e, u) && wk; want1.push_back(u); }
    auto tv = x.toVector<std::string>(conv);
    auto tl = x.toList<std::string>(conv);
    auto tm = x.toMap<std::string, std::string>(conv, conv);
    auto tp = x.toPair<std::string, std::string>(conv, conv);
    if (wk) {
        if (v.k == VEC ? tv != want1 : !tv.empty()) fail("toVector", std::to_string(tv.size()));
        if (v.k == LIST ? tl != std::list<std::string>(want1.begin(), want1.end()) : !tl.empty()) fail("toList", std::to_string(tl.size()));
        if (v.k == PAIR ? tp != std::make_pair(want1[0], want1[1]) : (tp.first != "" || tp.second != "")) fail("toPair", tp.first);
        if (v.k != MAP) { if (!tm.empty()) fail("toMap", std::to_string(tm.size())); }
        else for (size_t i = 0; i < v.c.size(); i += 2) if (!tm.count(want1[i])) fail("toMap", "key is missing");
    }
    expectVal("after conversions", x, v);
}

static void caseConvert(uint64_t seed, long idx) {
    Rng r(seed * 104729 + (uint64_t)idx);
    Gen g(r);
    g.nan = true;
    std::string hist;
    for (int n = 0; n < 20; ++n) {
        Val v = r.chance(75) ? g.scalar((K)r.below(KCOUNT), false) : g.any(2);
        if (isBox(v.k) && v.c.empty() && v.k == PAIR) v = g.of(PAIR, 1);
        convertAll(v, r);
        hist += show(v) + ";";
    }
    R.note(hashStr(hist));
    if (idx % 997 == 0) R.sample(hist.substr(0, 300));
}

// ---------------------------------------------------------------- C25
struct Rel { bool eq, ne, lt, le, gt, ge; };
static Rel rel(const Variant& a, const Variant& b) { R.add("comparisons", 6); return {a == b, a != b, a < b, a <= b, a > b, a >= b}; }
static bool natural(K a, K b) { return a == b || (isNum(a) && isNum(b)); }

static void pairLaws(const Variant& a, const Val& va, const Variant& b, const Val& vb) {
    Rel p = rel(a, b), q = rel(b, a);
    const std::string k = va.k == vb.k ? kname[va.k] : natural(va.k, vb.k) ? std::string("numeric") : std::string("mixed");
    const std::string d = show(va) + " | " + show(vb);
    auto fail = [&](const char* what) { bad(std::string("order:") + what + ":" + k, what, d); };
    if (p.eq != q.eq) fail("equality is not symmetric");
    if (p.ne == p.eq) fail("== and != agree");
    Ord o = cmp(va, vb);
    if (p.eq != (o == EQ)) fail(o == EQ ? "equal values are not equal" : "different values are equal");
    if (p.lt + p.eq + q.lt != 1) fail("not exactly one of less, equal, greater");
    if (p.le != (p.lt || p.eq) || p.ge != (p.gt || p.eq)) fail("<= or >= disagree with <, > and ==");
    if (natural(va.k, vb.k)) {
        if (p.gt != q.lt || q.gt != p.lt) fail("> is not the inverse of <");
        if (o == LT && !p.lt) fail("smaller value is not less");
        if (o == GT && !p.gt) fail("greater value is not greater");
        R.add(o == EQ ? "pairs_equal" : o == LT ? "pairs_less" : o == GT ? "pairs_greater" : "pairs_unspecified");
    } else {
        if (p.gt || q.gt) fail("values of different kinds are greater");
        R.add("pairs_mixed");
    }
}

static void caseOrder(uint64_t seed, long idx) {
    Rng r(seed * 15485863 + (uint64_t)idx);
    Gen g(r);
    g.tight = r.chance(20);
    g.samekind = r.chance(50);
    // a family of related values: one kind, a second kind or anything
    int shape = r.below(4);
    K k1 = (K)r.below(KCOUNT), k2 = (K)r.below(KCOUNT);
    int n = r.range(4, 8);
    std::vector<Val> v;
    for (int i = 0; i < n; ++i) {
        if (i > 0 && r.chance(25)) {  // variation of an earlier value
            Val m = v[r.below(i)];
            Val* t = &m;
            while (!t->c.empty() && t->k != MAP && r.chance(70)) t = &t->c[r.below((int)t->c.size())];
            if (isInt(t->k)) t->i = t->i < Gen::hi(t->k) ? t->i + 1 : t->i - 1;
            else if (t->k == STR || t->k == BYT) t->s += 'a';
            else if (t->k == BOOL) t->i = !t->i;
            else if ((t->k == VEC || t->k == LIST) && !t->c.empty()) t->c.pop_back();
            else if (t->k == MAP && !t->c.empty()) { if (r.chance(50)) t->c.resize(t->c.size() - 2); else t->c[1] = g.scalar(I32, true); }
            v.push_back(m);
            continue;
        }
        switch (shape) {
            case 0: v.push_back(g.of(k1, 2)); break;
            case 1: v.push_back(g.of(r.chance(50) ? k1 : k2, 2)); break;
            case 2: v.push_back(g.scalar((K)r.range(I8, DBL), false)); break;
            default: v.push_back(g.any(2)); break;
        }
    }
    std::vector<Variant> x;
    for (auto& m : v) x.push_back(mk(m, r));
    for (int i = 0; i < n; ++i) {
        Rel s = rel(x[i], x[i]);
        if (!s.eq || s.ne || s.lt || s.gt || !s.le || !s.ge) bad(std::string("order:reflexive:") + kname[v[i].k], "a variant compared to itself", show(v[i]));
        Variant twin = mk(v[i], r);
        pairLaws(x[i], v[i], twin, v[i]);
        for (int j = 0; j < i; ++j) pairLaws(x[i], v[i], x[j], v[j]);
    }
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (x[a] < x[b]) for (int c = 0; c < n; ++c) {
        R.add("triples");
        if (x[b] < x[c] && !(x[a] < x[c])) bad("order:not transitive", "less is not transitive", show(v[a]) + " | " + show(v[b]) + " | " + show(v[c]));
    }
    std::string hist;
    for (int i = 0; i < n; ++i) { expectVal("after comparisons", x[i], v[i]); hist += show(v[i]) + ";"; }
    R.note(hashStr(hist));
    if (idx % 997 == 0) R.sample(hist.substr(0, 300));
}

static void caseKeys(uint64_t seed, long idx) {
    Rng r(seed * 32452843 + (uint64_t)idx);
    Gen g(r);
    int shape = r.below(3);
    K k1 = (K)r.range(I8, BYT);
    VariantMap_t m;
    std::vector<std::pair<Val, int>> model;
    std::string hist;
    int ops = r.range(10, 60);
    for (int o = 0; o < ops; ++o) {
        Val k = shape == 0 ? g.scalar(k1, true) : shape == 1 ? g.key() : g.any(1, true);
        if (!model.empty() && r.chance(25)) k = model[r.below((int)model.size())].first;
        Variant x = mk(k, r);
        auto it = std::find_if(model.begin(), model.end(), [&](const std::pair<Val, int>& e) { return cmp(e.first, k) == EQ; });
        int op = r.below(10);
        hist += show(k).substr(0, 30) + (op < 7 ? "+" : "-");
        if (op < 6) {
            auto res = m.emplace(x, Variant(o));
            if (res.second != (it == model.end())) bad("keys:insert", res.second ? "a key was inserted twice" : "a new key was refused", hist);
            if (it == model.end()) model.push_back({k, o});
        } else if (op < 8) {
            auto f = m.find(x);
            if ((f != m.end()) != (it != model.end())) bad("keys:find", it != model.end() ? "an inserted key was not found" : "a key was found which was not inserted", hist);
            else if (f != m.end() && f->second.toInt64() != it->second) bad("keys:value", "a key has the value of another key", hist);
        } else {
            size_t n = m.erase(x);
            if (n != (it != model.end() ? 1u : 0u)) bad("keys:erase", "wrong number of keys erased", hist);
            if (it != model.end()) model.erase(it);
        }
        R.add("key_ops");
        if (m.size() != model.size()) { bad("keys:size", "dictionary has another number of keys", hist); return; }
    }
    for (auto& e : model) { auto f = m.find(mk(e.first, r)); if (f == m.end()) bad("keys:find", "an inserted key was not found", hist); else if (f->second.toInt64() != e.second) bad("keys:value", "a key has the value of another key", hist); }
    // the same through a variant which holds the dictionary, and sorting
    Variant boxed(m);
    Variant copy(boxed);
    if (!(boxed == copy)) bad("keys:copy", "a copied dictionary is not equal", hist);
    for (auto& e : model) if (!copy.getMap()->count(mk(e.first, r))) bad("keys:find", "an inserted key was not found in a copy", hist);
    std::vector<Variant> s;
    for (auto& e : m) s.insert(s.begin() + r.below((int)s.size() + 1), e.first);
    std::stable_sort(s.begin(), s.end());
    size_t i = 0;
    for (auto& e : m) if (!(s[i++] == e.first)) { bad("keys:sort", "sorted keys have another order than the dictionary", hist); break; }
    R.note(hashStr(hist));
    if (idx % 997 == 0) R.sample(hist.substr(0, 300));
}

int main(int argc, char** argv) {
    Options o(argc, argv);
    gOut = o.str("out", "/dev/null");
    std::string modes = o.str("mode", "values,convert,order,keys");
    uint64_t seed = (uint64_t)o.num("seed", 1);
    long cases = o.num("cases", 1000), only = o.num("only", -1);
    std::vector<std::string> ml;
    std::stringstream ss(modes);
    for (std::string t; std::getline(ss, t, ',');) ml.push_back(t);
    vh::CaseGuard guard(R, gOut);
    for (long i = 0; i < cases; ++i) {
        if (only >= 0 && i != only) continue;
        const std::string& m = ml[i % ml.size()];
        R.eval();
        if (m == "values") caseValues(seed, i);
        else if (m == "convert") caseConvert(seed, i);
        else if (m == "order") caseOrder(seed, i);
        else if (m == "keys") caseKeys(seed, i);
        if (R.nviol() >= 6) break;
    }
    R.write(gOut);
    finishProcess();
}
