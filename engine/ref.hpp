// Reference functions on Taylor models: value + rigorous truncation bound, from textbook series.
#pragma once
#include "tm.hpp"
#include <quadmath.h>
#include <functional>
#include <stdexcept>
struct RefFail : std::runtime_error { using std::runtime_error::runtime_error; };
typedef __float128 Q;
// sum_k a[k] d^k  (d = x - c0) with per-coefficient relative error 2^-62 and truncation bound `trunc`
inline TM tm_series(const TM &x, const std::vector<R> &a, R trunc) {
    TM d = x; d.c[0] = 0; tm_trim(d); TM r = tm_const(x.b, a.back(), fabsl(a.back()) * 2 * EPSR);
    for (int k = (int)a.size() - 2; k >= 0; k--) { r = tm_mul(r, d); r = tm_add(r, tm_const(x.b, a[k], fabsl(a[k]) * 2 * EPSR)); }
    r.rem = rup(r.rem + trunc); return r;
}
inline R dmag(const TM &x) { R s = 0; for (int i = 1; i < x.top; i++) s += fabsl(x.c[i]); return rup(s) + x.rem; }
inline R pw(R b, int n) { R r = 1; for (int i = 0; i < n; i++) r = rup(r * b); return r; }
inline TM ref_exp(const TM &x) {
    int D = x.b->D; std::vector<R> a(D + 1); Q e = expq((Q)x.c[0]), f = 1; for (int k = 0; k <= D; k++) { if (k) f *= k; a[k] = (R)(e / f); }
    R d = dmag(x); R t = (R)expq((Q)(x.c[0] + d)) * 1.0001L; for (int k = 1; k <= D + 1; k++) t = rup(t * d / k); if (!std::isfinite(t)) throw RefFail("exp"); return tm_series(x, a, t);
}
inline TM ref_log(const TM &x) {
    int D = x.b->D; R c = x.c[0], d = dmag(x); if (!(c - d > 0)) throw RefFail("log"); std::vector<R> a(D + 1); a[0] = (R)logq((Q)c); Q p = 1; for (int k = 1; k <= D; k++) { p /= (Q)c; a[k] = (R)((k & 1) ? p / k : -p / k); }
    R t = pw(rup(d / ((c - d) * (1 - 4 * EPSR))), D + 1) / (D + 1); return tm_series(x, a, t);
}
inline TM ref_sqrt(const TM &x) {
    int D = x.b->D; R c = x.c[0], d = dmag(x); if (!(c - d > 0)) throw RefFail("sqrt"); std::vector<R> a(D + 1); Q s = sqrtq((Q)c), b = 1; for (int k = 0; k <= D; k++) { a[k] = (R)(s * b); b = b * ((Q)0.5 - k) / ((k + 1) * (Q)c); }
    R bin = 1; for (int k = 0; k <= D; k++) bin = bin * fabsl(0.5L - k) / (k + 1); R t = bin * pw(rup(d / ((c - d) * (1 - 4 * EPSR))), D + 1) * sqrtl(c + d) * 1.0001L; return tm_series(x, a, t);
}
inline void ref_sincos(const TM &x, TM &s, TM &c) {
    int D = x.b->D; R d = dmag(x); Q sv = sinq((Q)x.c[0]), cv = cosq((Q)x.c[0]); std::vector<R> a(D + 1), b(D + 1); Q f = 1; Q ds[4] = { sv, cv, -sv, -cv }, dc[4] = { cv, -sv, -cv, sv }; for (int k = 0; k <= D; k++) { if (k) f *= k; a[k] = (R)(ds[k & 3] / f); b[k] = (R)(dc[k & 3] / f); }
    R t = 1; for (int k = 1; k <= D + 1; k++) t = rup(t * d / k); s = tm_series(x, a, t); c = tm_series(x, b, t);
}
inline TM ref_atan(const TM &x) {
    int D = x.b->D; R c0 = x.c[0], d = dmag(x); std::vector<R> a(D + 1); // derivative series 1/(1+(c+d)^2)
    Q c = c0, w = 1 + c * c; std::vector<Q> g(D + 1); g[0] = 1 / w; if (D >= 1) g[1] = -2 * c * g[0] / w; for (int k = 2; k <= D; k++) g[k] = -(2 * c * g[k - 1] + g[k - 2]) / w;
    a[0] = (R)atanq(c); for (int k = 1; k <= D; k++) a[k] = (R)(g[k - 1] / k);
    R m = fabsl(c0) - d; if (m < 0) m = 0; R s = sqrtl(1 + m * m) * (1 - 4 * EPSR); R t = pw(rup(d / s), D + 1) / (D + 1) * 1.0001L; return tm_series(x, a, t);
}
inline TM ref_erf(const TM &x) {
    int D = x.b->D; Q c = x.c[0]; R d = dmag(x); std::vector<R> a(D + 1); a[0] = (R)erfq(c); Q e = 2 / sqrtq(M_PIq) * expq(-c * c); // erf^{(n+1)} = e * (-1)^n H_n
    Q h0 = 1, h1 = 2 * c, f = 1; for (int k = 1; k <= D; k++) { f *= k; Q h = k == 1 ? h0 : h1; a[k] = (R)((((k - 1) & 1) ? -1 : 1) * e * h / f); if (k >= 2) { Q h2 = 2 * c * h1 - 2 * (k - 1) * h0; h0 = h1; h1 = h2; } }
    // |erf^{(n+1)}(xi)| <= 2/sqrt(pi) 1.0865 2^{n/2} sqrt(n!) e^{-xi^2/2}
    int n = D; R t = 1.129L * 1.087L; for (int k = 1; k <= n; k++) t = rup(t * sqrtl(2.0L * k) * 1.0001L); R m = fabsl((R)c) - d; if (m < 0) m = 0; t *= expl(-m * m / 2) * 1.0001L; for (int k = 1; k <= D + 1; k++) t = rup(t * d / k); return tm_series(x, a, t);
}
inline TM tmc(const TM &x, R v, R e = 0) { return tm_const(x.b, v, e); }
inline TM tmdiv(const TM &a, const TM &b) { TM q; if (!tm_div(a, b, q)) throw RefFail("division"); return q; }
inline TM qc(const TM &x, Q v) { return tm_const(x.b, (R)v, fabsl((R)v) * EPSR); }
inline TM ref_lgamma(TM x) { // x > 0; recurrence up to x >= 16 then Stirling (first omitted term bounds the error for real x > 0)
    R lo, hi; tm_bounds(x, lo, hi); if (!(lo > 0)) throw RefFail("lgamma"); TM prod = tmc(x, 1); bool any = false; TM acc = tmc(x, 0);
    int n = 0; while (lo < 18) { prod = any ? tm_mul(prod, x) : x; any = true; if (++n % 6 == 0) { acc = tm_add(acc, ref_log(prod)); any = false; } x = tm_add(x, tmc(x, 1)); tm_bounds(x, lo, hi); }
    if (any) acc = tm_add(acc, ref_log(prod));
    TM L = ref_log(x); TM r = tm_add(tm_mul(tm_add(x, tmc(x, -0.5L)), L), x, -1); r = tm_add(r, qc(x, logq(2 * M_PIq) / 2));
    static const Q B[] = { 1.0Q / 6, -1.0Q / 30, 1.0Q / 42, -1.0Q / 30, 5.0Q / 66, -691.0Q / 2730, 7.0Q / 6, -3617.0Q / 510, 43867.0Q / 798, -174611.0Q / 330, 854513.0Q / 138 };
    TM ix = tmdiv(tmc(x, 1), x), ix2 = tm_mul(ix, ix); TM s = tmc(x, 0); for (int k = 10; k >= 1; k--) { s = tm_mul(s, ix2); s = tm_add(s, qc(x, B[k - 1] / (2 * k * (2 * k - 1)))); } s = tm_mul(s, ix);
    R om = fabsl((R)B[10]) / (22 * 21); for (int k = 0; k < 21; k++) om = rup(om / lo); s.rem += om; r = tm_add(r, s); return tm_add(r, acc, -1);
}
// regularised lower incomplete gamma P(a,z), z >= 0, a > 0: series e^{-z + a log z - lgamma(a+1)} sum z^n / ((a+1)...(a+n))
inline TM ref_gammap(const TM &a, const TM &z) {
    TM lead = ref_exp(tm_add(tm_add(tm_mul(a, ref_log(z)), z, -1), ref_lgamma(tm_add(a, tmc(a, 1))), -1));
    R al, ah, zl, zh; tm_bounds(a, al, ah); tm_bounds(z, zl, zh); TM t = tmc(a, 1), s = t, den = a; R last = 1; int n = 0;
    for (n = 1; n < 600; n++) { den = tm_add(den, tmc(a, 1)); t = tmdiv(tm_mul(t, z), den); s = tm_add(s, t); last = tm_maxabs(t); R q = zh / (al + n + 1); if (q < 0.9L && last * q / (1 - q) < 1e-19L) { s.rem += rup(last * q / (1 - q)); break; } }
    if (n >= 600) throw RefFail("gammap"); return tm_mul(lead, s);
}
// regularised incomplete beta I_z(a,b), 0<z<1: z^a (1-z)^b / (a B(a,b)) * sum_n prod (a+b+k)/(a+1+k) z^{n}
inline TM ref_betai(const TM &a, const TM &b, const TM &z) {
    R zl, zh, al, ah, bl, bh; tm_bounds(z, zl, zh); tm_bounds(a, al, ah); tm_bounds(b, bl, bh); TM one = tmc(a, 1);
    if (zl + zh > 1) { // reflect
        TM y = tm_add(one, z, -1); TM r = ref_betai(b, a, y); return tm_add(one, r, -1); }
    TM lb = tm_add(tm_add(ref_lgamma(a), ref_lgamma(b)), ref_lgamma(tm_add(a, b)), -1); TM omz = tm_add(one, z, -1);
    TM lead = tmdiv(ref_exp(tm_add(tm_add(tm_mul(a, ref_log(z)), tm_mul(b, ref_log(omz))), lb, -1)), a);
    TM t = one, s = one; int n; for (n = 0; n < 2000; n++) { TM num = tm_add(tm_add(a, b), tmc(a, n)), den = tm_add(a, tmc(a, n + 1)); t = tmdiv(tm_mul(tm_mul(t, z), num), den); s = tm_add(s, t); R last = tm_maxabs(t); R q = zh * std::max((R)1, (ah + bh + n + 1) / (al + n + 2)); if (q < 0.97L && last * q / (1 - q) < 1e-19L) { s.rem += rup(last * q / (1 - q)); break; } }
    if (n >= 2000) throw RefFail("betai"); return tm_mul(lead, s);
}
typedef std::function<TM(const std::vector<TM> &)> RefFn;
inline const std::map<std::string, RefFn> &refTable() {
    typedef const std::vector<TM> &V;
    static std::map<std::string, RefFn> T = {
        { "exp", [](V v) { return ref_exp(v[0]); } }, { "log", [](V v) { return ref_log(v[0]); } }, { "sqrt", [](V v) { return ref_sqrt(v[0]); } },
        { "id", [](V v) { return v[0]; } }, { "zero", [](V v) { return tmc(v[0], 0); } }, { "one", [](V v) { return tmc(v[0], 1); } },
        { "inv_sqrt", [](V v) { return tmdiv(tmc(v[0], 1), ref_sqrt(v[0])); } },
        { "expm1", [](V v) { return tm_add(ref_exp(v[0]), tmc(v[0], -1)); } }, { "log1p", [](V v) { return ref_log(tm_add(v[0], tmc(v[0], 1))); } },
        { "log2", [](V v) { return tm_mul(ref_log(v[0]), qc(v[0], 1 / logq(2))); } }, { "log10", [](V v) { return tm_mul(ref_log(v[0]), qc(v[0], 1 / logq(10))); } },
        { "sin", [](V v) { TM s, c; ref_sincos(v[0], s, c); return s; } }, { "cos", [](V v) { TM s, c; ref_sincos(v[0], s, c); return c; } }, { "tan", [](V v) { TM s, c; ref_sincos(v[0], s, c); return tmdiv(s, c); } },
        { "sinh", [](V v) { TM e = ref_exp(v[0]); return tm_scale(tm_add(e, ref_exp(tm_neg(v[0])), -1), 0.5L); } }, { "cosh", [](V v) { TM e = ref_exp(v[0]); return tm_scale(tm_add(e, ref_exp(tm_neg(v[0]))), 0.5L); } },
        { "tanh", [](V v) { TM e = ref_exp(tm_scale(v[0], v[0].c[0] > 0 ? -2 : 2)); TM q = tmdiv(tm_add(tmc(e, 1), e, -1), tm_add(tmc(e, 1), e)); return v[0].c[0] > 0 ? q : tm_neg(q); } },
        { "atan", [](V v) { return ref_atan(v[0]); } },
        { "asin", [](V v) { TM x = v[0]; TM w = tm_mul(tm_add(tmc(x, 1), x, -1), tm_add(tmc(x, 1), x)); return ref_atan(tmdiv(x, ref_sqrt(w))); } },
        { "acos", [](V v) { TM x = v[0]; TM w = tm_mul(tm_add(tmc(x, 1), x, -1), tm_add(tmc(x, 1), x)); TM r = ref_atan(tmdiv(x, ref_sqrt(w))); return tm_add(qc(x, M_PIq / 2), r, -1); } },
        { "asinh", [](V v) { TM x = v[0]; bool n = x.c[0] < 0; if (n) x = tm_neg(x); TM r; R lo, hi; tm_bounds(x, lo, hi); if (hi > 1e30L) { if (!(lo > 1e15L)) throw RefFail("asinh"); TM ix = tmdiv(tmc(x, 1), x); r = tm_add(ref_log(x), qc(x, logq(2))); r.rem += tm_maxabs(tm_mul(ix, ix)); } else r = ref_log(tm_add(x, ref_sqrt(tm_add(tm_mul(x, x), tmc(x, 1))))); return n ? tm_neg(r) : r; } },
        { "acosh", [](V v) { TM x = v[0]; R lo, hi; tm_bounds(x, lo, hi); if (hi > 1e30L) { if (!(lo > 1e15L)) throw RefFail("acosh"); TM ix = tmdiv(tmc(x, 1), x); TM r = tm_add(ref_log(x), qc(x, logq(2))); r.rem += tm_maxabs(tm_mul(ix, ix)); return r; } return ref_log(tm_add(x, ref_sqrt(tm_mul(tm_add(x, tmc(x, -1)), tm_add(x, tmc(x, 1)))))); } },
        { "atanh", [](V v) { TM x = v[0]; return tm_scale(tm_add(ref_log(tm_add(tmc(x, 1), x)), ref_log(tm_add(tmc(x, 1), x, -1)), -1), 0.5L); } },
        { "erf", [](V v) { return ref_erf(v[0]); } },
        { "lgamma", [](V v) { return ref_lgamma(v[0]); } },
        { "tgamma", [](V v) { TM x = v[0]; TM p = tmc(x, 1); R lo, hi; tm_bounds(x, lo, hi); bool any = false; while (lo <= 0.25L) { p = any ? tm_mul(p, x) : x; any = true; x = tm_add(x, tmc(x, 1)); tm_bounds(x, lo, hi); } TM g = ref_exp(ref_lgamma(x)); return any ? tmdiv(g, p) : g; } },
        { "beta", [](V v) { return ref_exp(tm_add(tm_add(ref_lgamma(v[0]), ref_lgamma(v[1])), ref_lgamma(tm_add(v[0], v[1])), -1)); } },
        { "lbeta", [](V v) { return tm_add(tm_add(ref_lgamma(v[0]), ref_lgamma(v[1])), ref_lgamma(tm_add(v[0], v[1])), -1); } },
        { "pow", [](V v) { return ref_exp(tm_mul(v[1], ref_log(v[0]))); } },
        { "hypot", [](V v) { return ref_sqrt(tm_add(tm_mul(v[0], v[0]), tm_mul(v[1], v[1]))); } },
        { "atan2", [](V v) { TM y = v[0], x = v[1]; R xl, xh, yl, yh; tm_bounds(x, xl, xh); tm_bounds(y, yl, yh);
              if (xl > 0) { if (xl >= yh && -xl <= yl) return ref_atan(tmdiv(y, x)); }
              if (yl > 0) return tm_add(qc(x, M_PIq / 2), ref_atan(tmdiv(x, y)), -1); if (yh < 0) return tm_add(qc(x, -M_PIq / 2), ref_atan(tmdiv(x, y)), -1);
              if (xl > 0) return ref_atan(tmdiv(y, x)); if (xh < 0 && yl >= 0) return tm_add(ref_atan(tmdiv(y, x)), qc(x, M_PIq)); if (xh < 0 && yh <= 0) return tm_add(ref_atan(tmdiv(y, x)), qc(x, -M_PIq)); throw RefFail("atan2"); } },
        { "factorial", [](V v) { return ref_exp(ref_lgamma(tm_add(v[0], tmc(v[0], 1)))); } },
        { "logbinom", [](V v) { TM one = tmc(v[0], 1); return tm_add(tm_add(ref_lgamma(tm_add(v[0], one)), ref_lgamma(tm_add(v[1], one)), -1), ref_lgamma(tm_add(tm_add(v[0], v[1], -1), one)), -1); } },
        { "fmod", [](V v) { TM q = tmdiv(v[0], v[1]); R lo, hi; tm_bounds(q, lo, hi); R k = truncl(q.c[0]); if (truncl(lo) != k || truncl(hi) != k) throw RefFail("fmod"); return tm_add(v[0], tm_scale(v[1], k), -1); } },
        { "powi", [](V v) { R n = v[1].c[0]; long m = (long)fabsl(n); TM b = v[0], r = tmc(b, 1); bool any = false; while (m) { if (m & 1) { r = any ? tm_mul(r, b) : b; any = true; } m >>= 1; if (m) b = tm_mul(b, b); } return n < 0 ? tmdiv(tmc(r, 1), r) : r; } },
        { "gammap", [](V v) { return ref_gammap(v[0], v[1]); } },
        { "betai", [](V v) { return ref_betai(v[0], v[1], v[2]); } },
        { "lmgamma", [](V v) { TM a = v[0]; int p = (int)v[1].c[0]; TM s = qc(a, (Q)p * (p - 1) / 4 * logq(M_PIq)); for (int j = 1; j <= p; j++) s = tm_add(s, ref_lgamma(tm_add(a, tmc(a, (1 - j) / 2.0L)))); return s; } },
    };
    return T;
}
