// Value domain of the abstract interpreter: IEEE float sets (interval + NaN + signed-zero flags),
// wrap-aware integer intervals, exact linear forms, value-graph nodes, Taylor models.
#pragma once
#include "tm.hpp"
#include <cstdint>
#include <map>
#include <string>
#include <limits>
#include <tuple>
#include <unordered_map>
typedef __int128 I128;
enum FT : uint8_t { F32 = 0, F64 = 1, F80 = 2 };
static const R INF = std::numeric_limits<R>::infinity();

inline R ft_max(FT t) { return t == F32 ? (R)std::numeric_limits<float>::max() : t == F64 ? (R)std::numeric_limits<double>::max() : std::numeric_limits<R>::max(); }
inline R ft_denorm(FT t) { return t == F32 ? (R)std::numeric_limits<float>::denorm_min() : t == F64 ? (R)std::numeric_limits<double>::denorm_min() : std::numeric_limits<R>::denorm_min(); }
inline R ft_u(FT t) { return t == F32 ? 0x1p-24L : t == F64 ? 0x1p-53L : 0x1p-64L; }
inline int ft_p(FT t) { return t == F32 ? 24 : t == F64 ? 53 : 64; }
inline R ft_round(R v, FT t) { return t == F32 ? (R)(float)v : t == F64 ? (R)(double)v : v; }
inline R ft_next(R v, FT t, bool up) {
    if (t == F32) return nextafterf((float)v, up ? INFINITY : -INFINITY);
    if (t == F64) return nextafter((double)v, up ? (double)INFINITY : -(double)INFINITY);
    return nextafterl(v, up ? INF : -INF);
}
inline I128 ft_ord(R v, FT t) {
    if (t == F32) { float f = v; int32_t b; memcpy(&b, &f, 4); return b >= 0 ? (I128)b : -(I128)(b & 0x7fffffff); }
    if (t == F64) { double f = v; int64_t b; memcpy(&b, &f, 8); return b >= 0 ? (I128)b : -(I128)(b & 0x7fffffffffffffffLL); }
    uint64_t m; uint16_t e; memcpy(&m, &v, 8); memcpy(&e, (char *)&v + 8, 2); I128 o = ((I128)(e & 0x7fff) << 63) | (I128)(m & 0x7fffffffffffffffULL); return (e & 0x8000) ? -o : o;
}
inline R ft_unord(I128 o, FT t) {
    bool neg = o < 0; if (neg) o = -o;
    if (t == F32) { int32_t b = (int32_t)o; float f; memcpy(&f, &b, 4); return neg ? -f : f; }
    if (t == F64) { int64_t b = (int64_t)o; double f; memcpy(&f, &b, 8); return neg ? -f : f; }
    uint64_t frac = (uint64_t)(o & 0x7fffffffffffffffULL); uint16_t e = (uint16_t)(o >> 63); uint64_t m = frac | (e ? 0x8000000000000000ULL : 0);
    R v = 0; memcpy(&v, &m, 8); memcpy((char *)&v + 8, &e, 2); return neg ? -v : v;
}

struct FV {
    bool nan = false, emp = true, pz = false, nz = false;
    R lo = 0, hi = 0;
    bool has0() const { return !emp && lo <= 0 && hi >= 0 && (pz || nz); }
    bool bot() const { return emp && !nan; }
    bool single() const { return !nan && !emp && lo == hi && !(lo == 0 && pz && nz); }
    bool isnan() const { return nan && emp; }
    bool cneg() const { return !emp && (lo < 0 || nz); }
    bool cpos() const { return !emp && (hi > 0 || pz); }
    bool hasinf() const { return !emp && (lo == -INF || hi == INF); }
    void norm() {
        if (emp) { pz = nz = false; lo = hi = 0; return; }
        if (lo > hi) { emp = true; pz = nz = false; lo = hi = 0; return; }
        if (lo > 0 || hi < 0) pz = nz = false;
        if (lo == 0) lo = 0; if (hi == 0) hi = 0;
    }
};
inline FV fv_const(R v) { FV f; if (std::isnan(v)) { f.nan = true; return f; } f.emp = false; f.lo = f.hi = v; if (v == 0) { if (std::signbit(v)) f.nz = true; else f.pz = true; f.lo = f.hi = 0; } return f; }
inline FV fv_range(R lo, R hi) { FV f; f.emp = false; f.lo = lo; f.hi = hi; if (lo <= 0 && hi >= 0) f.pz = f.nz = true; f.norm(); return f; }
inline FV fv_top() { FV f = fv_range(-INF, INF); f.nan = true; return f; }
inline FV fv_join(const FV &a, const FV &b) {
    FV r = a; if (a.emp) { r = b; r.nan = a.nan || b.nan; return r; } r.nan |= b.nan; if (b.emp) return r;
    r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); r.pz |= b.pz; r.nz |= b.nz;
    // the hull may newly cover zero although neither operand contains it: zero stays excluded by the flags
    r.norm(); return r;
}
inline bool fv_leq(const FV &a, const FV &b) {
    if (a.nan && !b.nan) return false; if (a.emp) return true; if (b.emp) return false;
    return a.lo >= b.lo && a.hi <= b.hi && (!a.pz || b.pz) && (!a.nz || b.nz);
}
inline FV fv_meet(const FV &a, const FV &b) {
    FV r; r.nan = a.nan && b.nan; if (a.emp || b.emp) return r; r.emp = false; r.lo = std::max(a.lo, b.lo); r.hi = std::min(a.hi, b.hi); r.pz = a.pz && b.pz; r.nz = a.nz && b.nz; r.norm(); return r;
}
inline R fop(char op, R a, R b, FT t) {
    if (t == F32) { volatile float x = a, y = b, z; z = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y; return z; }
    if (t == F64) { volatile double x = a, y = b, z; z = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y; return z; }
    return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b;
}
inline FV fv_neg(const FV &a) { FV r = a; r.lo = -a.hi; r.hi = -a.lo; std::swap(r.pz, r.nz); if (r.lo == 0) r.lo = 0; if (r.hi == 0) r.hi = 0; return r; }
inline FV fv_add(const FV &a, const FV &b, FT t) {
    FV r; r.nan = a.nan || b.nan; if (a.emp || b.emp) return r;
    if ((a.hi == INF && b.lo == -INF) || (a.lo == -INF && b.hi == INF)) r.nan = true;
    R lo = fop('+', a.lo, b.lo, t), hi = fop('+', a.hi, b.hi, t);
    if (std::isnan(lo)) lo = INF; if (std::isnan(hi)) hi = -INF;
    if (lo > hi) return r;
    r.emp = false; r.lo = lo; r.hi = hi;
    if (lo <= 0 && hi >= 0) {
        r.nz = a.nz && b.nz;
        bool onlynz = a.lo == 0 && a.hi == 0 && !a.pz && b.lo == 0 && b.hi == 0 && !b.pz;
        r.pz = !onlynz;
        // zero sum needs a == -b attainable
        if (a.single() && b.single() && a.lo != -b.lo) r.pz = r.nz = false;
        if (a.lo == 0 && a.hi == 0 && b.lo <= 0 && b.hi >= 0 && !b.pz && !b.nz) r.pz = r.nz = false;
        if (b.lo == 0 && b.hi == 0 && a.lo <= 0 && a.hi >= 0 && !a.pz && !a.nz) r.pz = r.nz = false;
    }
    r.norm(); return r;
}
inline FV fv_mul(const FV &a, const FV &b, FT t) {
    FV r; r.nan = a.nan || b.nan; if (a.emp || b.emp) return r;
    if ((a.has0() && b.hasinf()) || (b.has0() && a.hasinf())) r.nan = true;
    R lo = INF, hi = -INF; bool any = false;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { R c = fop('*', i ? a.hi : a.lo, j ? b.hi : b.lo, t); if (std::isnan(c)) continue; any = true; lo = std::min(lo, c); hi = std::max(hi, c); }
    if (a.has0() || b.has0()) { // 0 * finite
        bool fin = (a.has0() && !(b.lo == INF || b.hi == -INF)) || (b.has0() && !(a.lo == INF || a.hi == -INF));
        if (fin) { any = true; lo = std::min(lo, (R)0); hi = std::max(hi, (R)0); }
    }
    if (!any) return r;
    r.emp = false; r.lo = lo; r.hi = hi;
    if (lo <= 0 && hi >= 0) { r.pz = (a.cpos() && b.cpos()) || (a.cneg() && b.cneg()); r.nz = (a.cpos() && b.cneg()) || (a.cneg() && b.cpos());
        if (!a.has0() && !b.has0()) { // underflow only
            R m = fop('*', std::min(fabsl(a.lo), fabsl(a.hi)), std::min(fabsl(b.lo), fabsl(b.hi)), t);
            bool aspan = a.lo < 0 && a.hi > 0, bspan = b.lo < 0 && b.hi > 0; if (!aspan && !bspan && m > 0) r.pz = r.nz = false; } }
    r.norm(); return r;
}
inline FV fv_div(const FV &a, const FV &b, FT t, bool *dz = nullptr) {
    FV r; r.nan = a.nan || b.nan; if (a.emp || b.emp) return r;
    if (a.hasinf() && b.hasinf()) r.nan = true;
    if (a.has0() && b.has0()) r.nan = true;
    R lo = INF, hi = -INF; bool any = false;
    auto part = [&](R bl, R bh) { if (bl > bh) return; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { R c = fop('/', i ? a.hi : a.lo, j ? bh : bl, t); if (std::isnan(c)) continue; any = true; lo = std::min(lo, c); hi = std::max(hi, c); }
        if (a.has0()) { any = true; lo = std::min(lo, (R)0); hi = std::max(hi, (R)0); } };
    R d = ft_denorm(t);
    if (b.hi > 0) part(std::max(b.lo, d), b.hi);
    if (b.lo < 0) part(b.lo, std::min(b.hi, -d));
    if (b.has0()) {
        if (dz) *dz = true;
        bool ap = a.hi > 0, an = a.lo < 0;
        if ((ap && b.pz) || (an && b.nz)) { any = true; hi = INF; lo = std::min(lo, INF); }
        if ((ap && b.nz) || (an && b.pz)) { any = true; lo = -INF; hi = std::max(hi, -INF); }
    }
    if (!any) return r;
    r.emp = false; r.lo = lo; r.hi = hi;
    if (lo <= 0 && hi >= 0) { r.pz = (a.cpos() && b.cpos()) || (a.cneg() && b.cneg()); r.nz = (a.cpos() && b.cneg()) || (a.cneg() && b.cpos());
        if (!a.has0() && !b.hasinf() && !(a.lo < 0 && a.hi > 0)) { R m = fop('/', std::min(fabsl(a.lo), fabsl(a.hi)), std::max(fabsl(b.lo), fabsl(b.hi)), t); if (m > 0) r.pz = r.nz = false; } }
    r.norm(); return r;
}

struct Lin { bool ok = false; int an = 0, af = 0; R c = 0; };
struct AV;
typedef std::shared_ptr<AV> AVP;
struct AV {
    enum K : uint8_t { Bot, Int, Flt, Ptr, Agg } k = Bot;
    FT ft = F64; uint16_t w = 0;
    bool sneg = false; int sym = 0;
    FV f;
    I128 slo = 0, shi = -1, ulo = 0, uhi = -1;   // Int: signed/unsigned views; Ptr: offset range in slo..shi
    int obj = 0; const void *cond = nullptr;
    Lin lin; TMP tm; AVP src; std::shared_ptr<std::vector<AV>> agg;
    bool isbot() const { return k == Bot || (k == Flt && f.bot()) || (k == Int && slo > shi); }
};
inline I128 imax_s(int w) { return ((I128)1 << (w - 1)) - 1; }
inline I128 imin_s(int w) { return -((I128)1 << (w - 1)); }
inline I128 imax_u(int w) { return ((I128)1 << w) - 1; }
inline void inorm(AV &a) {
    int w = a.w; I128 M = (I128)1 << w;
    for (int it = 0; it < 2; it++) {
        if (a.slo > a.shi || a.ulo > a.uhi) { a.slo = 1; a.shi = 0; a.ulo = 1; a.uhi = 0; return; }
        if (a.slo >= 0) { a.ulo = std::max(a.ulo, a.slo); a.uhi = std::min(a.uhi, a.shi); }
        else if (a.shi < 0) { a.ulo = std::max(a.ulo, a.slo + M); a.uhi = std::min(a.uhi, a.shi + M); }
        if (a.uhi <= imax_s(w)) { a.slo = std::max(a.slo, a.ulo); a.shi = std::min(a.shi, a.uhi); }
        else if (a.ulo > imax_s(w)) { a.slo = std::max(a.slo, a.ulo - M); a.shi = std::min(a.shi, a.uhi - M); }
    }
}
inline AV av_int(int w, I128 lo, I128 hi, bool sgn) {  // lo..hi in the given view, in range
    AV a; a.k = AV::Int; a.w = w; a.slo = imin_s(w); a.shi = imax_s(w); a.ulo = 0; a.uhi = imax_u(w);
    if (sgn) { a.slo = lo; a.shi = hi; } else { a.ulo = lo; a.uhi = hi; } inorm(a); return a;
}
inline AV av_itop(int w) { return av_int(w, imin_s(w), imax_s(w), true); }
inline AV av_bool(bool ct, bool cf) { return av_int(1, cf ? 0 : 1, ct ? 1 : 0, false); }
inline AV av_flt(FT t, const FV &f) { AV a; a.k = AV::Flt; a.ft = t; a.f = f; return a; }
inline bool isingle(const AV &a) { return a.k == AV::Int && a.ulo == a.uhi; }
