// Taylor-model domain: P(t) + [-rem,rem], t in [-1,1]^nv, coefficients in x87 extended precision.
// All rounding of the domain's own arithmetic is charged to `rem`.
#pragma once
#include <cmath>
#include <cstring>
#include <memory>
#include <vector>
#include <algorithm>
typedef long double R;
static const R EPSR = 0x1p-63L;          // > unit roundoff of the coefficient type (2^-64)
static const R TINYR = 0x1p-16440L;      // absolute floor added for underflow in coefficient arithmetic
inline R rup(R v) { return v + v * (4 * EPSR) + TINYR; }

struct Basis {
    int nv, D, n;
    std::vector<std::vector<int>> ex;   // exponents
    std::vector<int> deg;
    std::vector<int> mul;               // n*n -> index or -1
    Basis(int nv_, int D_) : nv(nv_), D(D_) {
        for (int d = 0; d <= D; d++) gen(std::vector<int>(), d);
        n = ex.size();
        for (auto &e : ex) { int s = 0; for (int k : e) s += k; deg.push_back(s); }
        mul.assign(n * n, -1);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            if (deg[i] + deg[j] > D) continue;
            std::vector<int> e(nv); for (int v = 0; v < nv; v++) e[v] = ex[i][v] + ex[j][v];
            for (int k = 0; k < n; k++) if (ex[k] == e) { mul[i * n + j] = k; break; }
        }
    }
    void gen(std::vector<int> p, int left) {
        if ((int)p.size() == nv - 1) { p.push_back(left); ex.push_back(p); return; }
        for (int k = left; k >= 0; k--) { auto q = p; q.push_back(k); gen(q, left - k); }
    }
};
static const int TMMAX = 56;
struct TM {
    const Basis *b;
    int top;            // number of leading coefficients that may be nonzero
    R c[TMMAX];
    R rem;
};
typedef std::shared_ptr<const TM> TMP;

inline R tm_dev(const TM &a) { R s = 0; for (int i = 1; i < a.top; i++) s += fabsl(a.c[i]); return rup(s) + a.rem; }
inline void tm_bounds(const TM &a, R &lo, R &hi) {
    R d;
    if (a.b->nv == 1 && a.top >= 3) {
        // tighter bound for the linear+quadratic part: even powers lie in [0,1]
        R l = a.c[0] - 0, h = a.c[0]; R up = 0, dn = 0;
        for (int i = 1; i < a.top; i++) {
            R v = a.c[i];
            if (i & 1) { up += fabsl(v); dn += fabsl(v); }
            else { if (v > 0) up += v; else dn += -v; }
        }
        lo = l - rup(dn) - a.rem; hi = h + rup(up) + a.rem;
        R pad = (fabsl(lo) + fabsl(hi)) * EPSR + TINYR; lo -= pad; hi += pad;
        return;
    }
    d = tm_dev(a);
    lo = a.c[0] - d; hi = a.c[0] + d;
    R pad = (fabsl(lo) + fabsl(hi)) * EPSR + TINYR; lo -= pad; hi += pad;
}
inline R tm_maxabs(const TM &a) { R s = 0; for (int i = 0; i < a.top; i++) s += fabsl(a.c[i]); return rup(s) + a.rem; }
inline TM tm_const(const Basis *b, R v, R rad = 0) { TM t; t.b = b; t.top = 1; memset(t.c, 0, sizeof(t.c)); t.c[0] = v; t.rem = rad; return t; }
inline TM tm_var(const Basis *b, int var, R lo, R hi) {
    TM t = tm_const(b, 0);
    if (lo == hi) { t.c[0] = lo; return t; }
    R mid = lo / 2 + hi / 2; R rad = std::max(mid - lo, hi - mid); rad = rup(rad);
    t.c[0] = mid;
    for (int i = 1; i < b->n; i++) if (b->deg[i] == 1 && b->ex[i][var] == 1) { t.c[i] = rad; t.top = i + 1; }
    return t;
}
inline void tm_trim(TM &t) { while (t.top > 1 && t.c[t.top - 1] == 0) t.top--; }
inline bool tm_ok(const TM &t) { if (!std::isfinite(t.rem)) return false; for (int i = 0; i < t.top; i++) if (!std::isfinite(t.c[i])) return false; return true; }
inline TM tm_add(const TM &a, const TM &x, R s = 1) {
    TM t; t.b = a.b; t.top = std::max(a.top, x.top); memset(t.c, 0, sizeof(t.c)); R e = 0;
    for (int i = 0; i < t.top; i++) { R p = i < a.top ? a.c[i] : 0, q = i < x.top ? x.c[i] : 0; t.c[i] = p + s * q; e += fabsl(t.c[i]); }
    t.rem = rup(a.rem + x.rem + e * EPSR); if (a.rem == 0 && x.rem == 0 && t.top == 1) { // exact sum detection
        R p = a.c[0], q = s * x.c[0], z = t.c[0]; R bb = z - p; R err = (p - (z - bb)) + (q - bb); if (err == 0) t.rem = 0; }
    tm_trim(t); return t;
}
inline TM tm_neg(const TM &a) { TM t = a; for (int i = 0; i < t.top; i++) t.c[i] = -t.c[i]; return t; }
inline TM tm_scale(const TM &a, R s) {   // s exact real
    TM t = a; R e = 0; for (int i = 0; i < t.top; i++) { t.c[i] = a.c[i] * s; e += fabsl(t.c[i]); }
    t.rem = rup(a.rem * fabsl(s) + e * EPSR); int ex; if (s != 0 && fabsl(frexpl(s, &ex)) == 0.5L) t.rem = a.rem * fabsl(s);
    return t;
}
inline TM tm_mul(const TM &a, const TM &x) {
    if (a.top == 1 && a.rem == 0) return tm_scale(x, a.c[0]);
    if (x.top == 1 && x.rem == 0) return tm_scale(a, x.c[0]);
    const Basis *b = a.b; TM t; t.b = b; t.top = 1; memset(t.c, 0, sizeof(t.c));
    R over = 0, na = 0, nx = 0;
    for (int j = 0; j < x.top; j++) nx += fabsl(x.c[j]);
    for (int i = 0; i < a.top; i++) {
        R p = a.c[i]; if (p == 0) continue; na += fabsl(p);
        const int *row = &b->mul[i * b->n]; R ov = 0;
        for (int j = 0; j < x.top; j++) { R q = x.c[j]; if (q == 0) continue; int k = row[j]; if (k >= 0) { t.c[k] += p * q; if (k >= t.top) t.top = k + 1; } else ov += fabsl(q); }
        over += fabsl(p) * ov;
    }
    t.rem = rup(over + na * nx * (EPSR * (b->D + 3)) + a.rem * nx + x.rem * na + a.rem * x.rem);
    return t;
}
// a / x; false when the divisor may vanish
inline bool tm_div(const TM &a, const TM &x, TM &t) {
    const Basis *b = a.b; int n = b->n;
    R devx = 0; for (int i = 1; i < x.top; i++) devx += fabsl(x.c[i]);
    R minx = fabsl(x.c[0]) - rup(devx) - x.rem; minx -= fabsl(x.c[0]) * 4 * EPSR;
    if (!(minx > 0)) return false;
    t.b = b; memset(t.c, 0, sizeof(t.c)); t.top = 1;
    R work[TMMAX]; for (int i = 0; i < n; i++) work[i] = i < a.top ? a.c[i] : 0;
    R inv = x.c[0], nq = 0, na = 0, over = 0; for (int i = 0; i < a.top; i++) na += fabsl(a.c[i]);
    for (int j = 0; j < n; j++) {
        R q = work[j] / inv; if (q == 0) continue; t.c[j] = q; if (j >= t.top) t.top = j + 1; nq += fabsl(q);
        R ov = 0;
        for (int i = 1; i < x.top; i++) { R p = x.c[i]; if (p == 0) continue; int k = b->mul[i * n + j]; if (k >= 0) work[k] -= p * q; else ov += fabsl(p); }
        over += ov * fabsl(q);
    }
    R nxs = fabsl(x.c[0]) + devx;
    R resid = over + (na + nxs * nq) * (EPSR * (b->D + 4)) + a.rem + x.rem * nq;
    t.rem = rup(rup(resid) / minx);
    return true;
}
inline TM tm_join(const TM &a, const TM &x) {
    TM t; t.b = a.b; t.top = std::max(a.top, x.top); memset(t.c, 0, sizeof(t.c)); R d = 0, e = 0;
    for (int i = 0; i < t.top; i++) { R p = i < a.top ? a.c[i] : 0, q = i < x.top ? x.c[i] : 0; t.c[i] = p / 2 + q / 2; d += fabsl(p - q); e += fabsl(p) + fabsl(q); }
    t.rem = rup(d / 2 + std::max(a.rem, x.rem) + e * EPSR * 2); tm_trim(t); return t;
}
