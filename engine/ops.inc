// (included inside struct Interp) transfer functions
AV fbin(char op, const AV &a, const AV &b) {
    FT t = a.ft; AV r = av_flt(t, FV());
    bool lneg = false; (void)lneg;
    if (op == '+') r.f = fv_add(a.f, b.f, t);
    else if (op == '-') { FV nb = fv_neg(b.f); r.f = fv_add(a.f, nb, t); }
    else if (op == '*') r.f = fv_mul(a.f, b.f, t);
    else r.f = fv_div(a.f, b.f, t);
    if (o.sym && a.sym && b.sym && a.sym == b.sym && a.sneg == b.sneg && !a.f.nan && !a.f.hasinf()) {
        if (op == '-') { r.f = fv_const(0); }                       // x - x
        if (op == '*' && !r.f.emp && r.f.lo < 0) { r.f.lo = 0; r.f.nz = false; r.f.pz = true; r.f.norm(); } // x * x
    }
    if (o.basis) {
        TMP x = getTM(a), y = getTM(b);
        if (x && y && !r.f.isnan()) {
            R u = ft_u(t), d = ft_denorm(t);
            if (op == '+' || op == '-') {
                if (op == '-' && a.tm && a.tm == b.tm) { r.f = fv_const(0); r.tm = std::make_shared<TM>(tm_const(o.basis, 0)); }
                else setTM(r, tm_add(*x, *y, op == '+' ? 1 : -1), u, 0);
            }
            else if (op == '*') {
                int ex; bool p2 = (x->top == 1 && x->rem == 0 && fabsl(frexpl(x->c[0], &ex)) == 0.5L) || (y->top == 1 && y->rem == 0 && fabsl(frexpl(y->c[0], &ex)) == 0.5L);
                TM m = tm_mul(*x, *y); bool tiny = false; R lo, hi; tm_bounds(m, lo, hi); if (!(lo > 4 * d / u || hi < -4 * d / u)) tiny = true;
                if (a.tm && a.tm == b.tm) { // a square is non-negative
                    if (!r.f.emp && r.f.lo < 0) { r.f.lo = 0; r.f.nz = false; r.f.norm(); } }
                setTM(r, m, p2 ? 0 : u, (p2 && !tiny) ? 0 : d);
            } else { TM q; if (tm_div(*x, *y, q)) setTM(r, q, u, d); }
        }
    }
    if (o.lin) {
        if (op == '+') r.lin = linAdd(a, b, 1, r.f); if (op == '-') r.lin = linAdd(a, b, -1, r.f);
        if (op == '*') { Lin x = linOf(a), y = linOf(b); const Lin *v = nullptr; R k = 0;
            if (x.ok && x.an == 0 && x.af == 0 && (x.c == 1 || x.c == -1)) { v = &y; k = x.c; } else if (y.ok && y.an == 0 && y.af == 0 && (y.c == 1 || y.c == -1)) { v = &x; k = y.c; }
            if (v && v->ok) { r.lin = *v; if (k < 0) { r.lin.an = -r.lin.an; r.lin.af = -r.lin.af; r.lin.c = -r.lin.c; } } }
        if (op == '/') { Lin x = linOf(a), y = linOf(b); if (y.ok && y.an == 0 && y.af == 0 && (y.c == 1 || y.c == -1) && x.ok) { r.lin = x; if (y.c < 0) { r.lin.an = -x.an; r.lin.af = -x.af; r.lin.c = -x.c; } } }
    }
    symBin(r, op, a, b, t);
    if (o.basis && !r.tm && r.f.single() && std::isfinite(r.f.lo)) r.tm = std::make_shared<TM>(tm_const(o.basis, r.f.lo));
    return r;
}
// arithmetic that a compiler refuses to evaluate in a constant expression
void fpEvents(char op, const AV &a, const AV &b, const AV &r, const Instruction *I) {
    if (a.f.emp && !a.f.nan) return; if (b.f.emp && !b.f.nan) return;
    if (op == '/' && b.f.has0()) event("fp-division-by-zero", I);
    if (r.f.nan && !a.f.nan && !b.f.nan) event("fp-invalid", I);
    if (r.f.hasinf() && !a.f.hasinf() && !b.f.hasinf() && !(op == '/' && b.f.has0())) event("fp-overflow", I);
}
AV fneg(const AV &a) { AV r = a; r.f = fv_neg(a.f); if (a.tm) r.tm = std::make_shared<TM>(tm_neg(*a.tm)); r.sneg = !a.sneg; if (a.lin.ok) { r.lin.an = -a.lin.an; r.lin.af = -a.lin.af; r.lin.c = -a.lin.c; } return r; }
AV fabsAV(const AV &a) {
    if (!a.f.nan && !a.f.emp && !a.f.cneg()) return a; if (!a.f.nan && !a.f.emp && !a.f.cpos()) return fneg(a);
    AV r = av_flt(a.ft, a.f); FV n = fv_neg(a.f); FV f = a.f;
    if (!f.emp) { r.f.emp = false; r.f.hi = std::max(f.hi, n.hi); r.f.lo = (f.lo <= 0 && f.hi >= 0) ? 0 : std::min(fabsl(f.lo), fabsl(f.hi)); r.f.pz = f.pz || f.nz; r.f.nz = false; if (f.lo < 0 && f.hi > 0) {} r.f.norm(); }
    if (o.sym && a.sym) r.sym = S("abs" + ss(a.sym, 0)); return r;
}
struct Rel { bool lt, eq, gt, uno; };
Rel frel(const AV &a, const AV &b) {
    Rel r{ false, false, false, a.f.nan || b.f.nan };
    if (a.f.emp || b.f.emp) return r;
    r.lt = a.f.lo < b.f.hi; r.gt = a.f.hi > b.f.lo;
    R lo = std::max(a.f.lo, b.f.lo), hi = std::min(a.f.hi, b.f.hi); r.eq = lo <= hi; if (lo == 0 && hi == 0 && !(a.f.has0() && b.f.has0())) r.eq = false;
    if (o.lin) { bool l, e, g; if (linCmp(a, b, l, e, g)) { r.lt &= l; r.eq &= e; r.gt &= g; } }
    if (o.basis && (r.lt + r.eq + r.gt > 1)) { TMP x = getTM(a), y = getTM(b); if (x && y && (a.tm || b.tm)) { bool same = x->rem == 0 && y->rem == 0 && x->top == y->top; for (int i = 0; same && i < x->top; i++) if (x->c[i] != y->c[i]) same = false; if (same) r.lt = r.gt = false; TM d = tm_add(*x, *y, -1); R l, h; tm_bounds(d, l, h); if (l > 0) r.lt = r.eq = false; if (h < 0) r.gt = r.eq = false; if (l >= 0) r.lt = false; if (h <= 0) r.gt = false; } }
    if (o.sym && a.sym && a.sym == b.sym && a.sneg == b.sneg) { r.lt = r.gt = false; }
    relFacts(a, b, r.lt, r.eq, r.gt);
    if (o.trel && a.tm && b.tm) { auto is = [&](const AV &v, int k) { const TM &x = *v.tm, &y = *o.trArg[k]; if (x.rem != 0 || x.top != y.top) return false; for (int i = 0; i < x.top; i++) if (x.c[i] != y.c[i]) return false; return true; };
        int s = is(a, 0) && is(b, 1) ? o.trel : is(a, 1) && is(b, 0) ? -o.trel : 0; if (s < 0) r.gt = r.eq = false; if (s > 0) r.lt = r.eq = false; }
    return r;
}
static void predBits(CmpInst::Predicate p, bool &lt, bool &eq, bool &gt, bool &un) {
    lt = eq = gt = un = false;
    switch (p) {
    case CmpInst::FCMP_OEQ: eq = true; break; case CmpInst::FCMP_OGT: gt = true; break; case CmpInst::FCMP_OGE: gt = eq = true; break; case CmpInst::FCMP_OLT: lt = true; break; case CmpInst::FCMP_OLE: lt = eq = true; break; case CmpInst::FCMP_ONE: lt = gt = true; break; case CmpInst::FCMP_ORD: lt = eq = gt = true; break;
    case CmpInst::FCMP_UNO: un = true; break; case CmpInst::FCMP_UEQ: un = eq = true; break; case CmpInst::FCMP_UGT: un = gt = true; break; case CmpInst::FCMP_UGE: un = gt = eq = true; break; case CmpInst::FCMP_ULT: un = lt = true; break; case CmpInst::FCMP_ULE: un = lt = eq = true; break; case CmpInst::FCMP_UNE: un = lt = gt = true; break; case CmpInst::FCMP_TRUE: lt = eq = gt = un = true; break; default: break;
    }
}
AV fcmp(CmpInst::Predicate p, const AV &a, const AV &b, bool same = false) {
    bool lt, eq, gt, un; predBits(p, lt, eq, gt, un); Rel r = frel(a, b); if (same) { r.lt = r.gt = false; r.eq = !a.f.emp; r.uno = a.f.nan; }
    bool ct = (r.lt && lt) || (r.eq && eq) || (r.gt && gt) || (r.uno && un), cf = (r.lt && !lt) || (r.eq && !eq) || (r.gt && !gt) || (r.uno && !un);
    AV v; if (!ct && !cf) { v = av_int(1, 0, 1, false); v.slo = v.ulo = 1; v.shi = v.uhi = 0; return v; }
    v = av_bool(ct, cf); if (ct && cf) { amb++; } if (ct && cf && o.basis && hintVar < 0) { if (a.tm) hint(a, 0, &b); else if (b.tm) hint(b, 0, &a); }
    if (o.sym && a.sym && b.sym) {
        symConst(v); if (v.sym) return v;
        int x = a.sym, y = b.sym; bool nx = a.sneg, ny = b.sneg; bool l = lt, g = gt;
        if (isZeroSym(x)) nx = false; if (isZeroSym(y)) ny = false;
        if (x > y) { std::swap(x, y); std::swap(nx, ny); std::swap(l, g); }
        if (nx || (isZeroSym(x) && ny)) { nx = !nx; ny = !ny; if (isZeroSym(x)) nx = false; if (isZeroSym(y)) ny = false; std::swap(l, g); }
        // canonical polarity: complement so that 'uno' is excluded
        bool e = eq, u = un, comp = false; if (u) { l = !l; g = !g; e = !e; u = false; comp = true; }
        v.sym = S("fcmp" + std::to_string(l) + std::to_string(e) + std::to_string(g) + ss(x, nx) + ss(y, ny)); v.sneg = comp;
    }
    return v;
}
static void refineRel(FV &a, const FV &b, bool lt, bool eq, bool gt, bool un, FT t) {
    // keep the values of a for which some value of b satisfies the relation
    bool keepAll = un && b.nan; FV s = a; if (!un) a.nan = false;
    if (keepAll) return;
    if (a.emp) return;
    if (b.emp) { a.emp = true; a.norm(); return; }
    if (!lt && !eq && !gt) { a.emp = true; a.norm(); return; }
    if (lt && !gt) { // a <= b or a < b
        R h = b.hi; bool hz = h == 0; if (!eq) { h = (h == -INF) ? -INF : ft_next(h, t, false); if (b.hi == -INF) { a.emp = true; a.norm(); return; } }
        if (a.hi > h) a.hi = h; if (hz && !eq) { a.pz = a.nz = false; } if (hz && eq && b.lo == 0) {}
    }
    if (gt && !lt) {
        R l = b.lo; bool lz = l == 0; if (!eq) { if (b.lo == INF) { a.emp = true; a.norm(); return; } l = ft_next(l, t, true); }
        if (a.lo < l) a.lo = l; if (lz && !eq) a.pz = a.nz = false;
    }
    if (eq && !lt && !gt) { if (b.lo > a.lo) a.lo = b.lo; if (b.hi < a.hi) a.hi = b.hi; if (!b.has0()) a.pz = a.nz = false; if (a.lo <= 0 && a.hi >= 0 && a.lo == 0 && a.hi == 0 && !a.has0()) a.emp = true; }
    if (!eq && lt && gt) { // a != b
        if (b.lo == b.hi) { if (b.lo == 0) { a.pz = a.nz = false; if (a.lo == 0 && a.hi == 0) a.emp = true; else { if (a.lo == 0) a.lo = ft_denorm(t); if (a.hi == 0) a.hi = -ft_denorm(t); } } else { if (a.lo == b.lo && a.hi == b.lo) a.emp = true; else { if (a.lo == b.lo) a.lo = ft_next(a.lo, t, true); if (a.hi == b.lo) a.hi = ft_next(a.hi, t, false); } } }
    }
    a.norm();
    if (!a.emp && a.lo == 0 && a.hi == 0 && !a.pz && !a.nz) { a.emp = true; a.norm(); }
}
// ---- integers
AV iwrap(int w, I128 lo, I128 hi) { // exact integer range lo..hi reduced modulo 2^w
    I128 M = (I128)1 << w; AV a = av_itop(w);
    if (hi - lo >= M) return a;
    bool any = false;
    { I128 k = lo >= 0 ? lo / M : -((-lo + M - 1) / M); I128 l = lo - k * M, h = hi - k * M; if (h < M) { a.ulo = l; a.uhi = h; any = true; } }
    { I128 l = lo - imin_s(w); I128 k = l >= 0 ? l / M : -((-l + M - 1) / M); I128 L = lo - k * M, H = hi - k * M; if (H <= imax_s(w)) { a.slo = L; a.shi = H; any = true; } }
    if (any) inorm(a); return a;
}
AV ibin(const BinaryOperator *I, const AV &a, const AV &b) {
    int w = a.w; unsigned op = I->getOpcode(); AV r = av_itop(w);
    if (a.isbot() || b.isbot()) { r.slo = r.ulo = 1; r.shi = r.uhi = 0; return r; }
    auto *ob = dyn_cast<OverflowingBinaryOperator>(I); bool nsw = ob && ob->hasNoSignedWrap(), nuw = ob && ob->hasNoUnsignedWrap();
    auto range = [&](I128 sl, I128 sh, I128 ul, I128 uh) {
        AV x = iwrap(w, sl, sh);
        if (nsw) { if (sl < imin_s(w) || sh > imax_s(w)) { event("signed-overflow", I); } x = av_itop(w); x.slo = std::max(sl, imin_s(w)); x.shi = std::min(sh, imax_s(w)); if (x.slo > x.shi) { x.slo = imin_s(w); x.shi = imax_s(w); } inorm(x); }
        AV y = iwrap(w, ul, uh); if (nuw) { y = av_itop(w); y.ulo = std::max(ul, (I128)0); y.uhi = std::min(uh, imax_u(w)); if (y.ulo > y.uhi) { y.ulo = 0; y.uhi = imax_u(w); } inorm(y); }
        AV z = x; z.slo = std::max(x.slo, y.slo); z.shi = std::min(x.shi, y.shi); z.ulo = std::max(x.ulo, y.ulo); z.uhi = std::min(x.uhi, y.uhi); inorm(z); if (z.isbot()) z = x; return z;
    };
    auto mulr = [&](I128 al, I128 ah, I128 bl, I128 bh, I128 &l, I128 &h) { // saturating 128-bit products
        l = 0; h = 0; bool first = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { I128 p; I128 x = i ? ah : al, y = j ? bh : bl; if (__builtin_mul_overflow(x, y, &p)) p = ((x < 0) != (y < 0)) ? -((I128)1 << 126) : ((I128)1 << 126); if (first || p < l) l = p; if (first || p > h) h = p; first = false; } };
    if (w > 1) { bool b0 = isingle(b) && b.ulo == 0, b1 = isingle(b) && b.ulo == 1, a0 = isingle(a) && a.ulo == 0, a1 = isingle(a) && a.ulo == 1; // operations that return an operand unchanged
        if ((b1 && (op == Instruction::Mul || op == Instruction::SDiv || op == Instruction::UDiv)) || (b0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr || op == Instruction::Or || op == Instruction::Xor))) return a;
        if ((a1 && op == Instruction::Mul) || (a0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor))) return b; }
    switch (op) {
    case Instruction::Add: r = range(a.slo + b.slo, a.shi + b.shi, a.ulo + b.ulo, a.uhi + b.uhi); break;
    case Instruction::Sub: r = range(a.slo - b.shi, a.shi - b.slo, a.ulo - b.uhi, a.uhi - b.ulo); break;
    case Instruction::Mul: { I128 l, h, l2, h2; mulr(a.slo, a.shi, b.slo, b.shi, l, h); mulr(a.ulo, a.uhi, b.ulo, b.uhi, l2, h2); r = range(l, h, l2, h2); break; }
    case Instruction::UDiv: case Instruction::URem: {
        if (b.ulo == 0) event("division-by-zero", I); I128 bl = std::max(b.ulo, (I128)1); if (b.uhi == 0) break;
        if (op == Instruction::UDiv) r = av_int(w, a.ulo / b.uhi, a.uhi / bl, false); else if (isingle(a) && isingle(b)) r = av_int(w, a.ulo % b.ulo, a.ulo % b.ulo, false); else if (a.uhi < bl) r = a; else r = av_int(w, 0, std::min(a.uhi, b.uhi - 1), false); break; }
    case Instruction::SDiv: case Instruction::SRem: {
        bool z = b.slo <= 0 && b.shi >= 0 && b.ulo == 0; if (z) event("division-by-zero", I); if (b.slo == 0 && b.shi == 0) break;
        if (a.slo == imin_s(w) && b.slo <= -1 && b.shi >= -1) event("signed-overflow", I);
        I128 bl = b.slo == 0 ? 1 : b.slo, bh = b.shi == 0 ? -1 : b.shi;
        if (op == Instruction::SDiv) { I128 lo = (I128)1 << 120, hi = -lo; auto part = [&](I128 l, I128 h) { if (l > h) return; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { I128 q = (i ? a.shi : a.slo) / (j ? h : l); lo = std::min(lo, q); hi = std::max(hi, q); } if (a.slo <= 0 && a.shi >= 0) { lo = std::min(lo, (I128)0); hi = std::max(hi, (I128)0); } };
            part(std::max(bl, (I128)1), bh); part(bl, std::min(bh, (I128)-1)); lo = std::max(lo, imin_s(w)); hi = std::min(hi, imax_s(w)); r = av_int(w, lo, hi, true); }
        else { if (isingle(a) && isingle(b) && b.slo != 0 && !(b.slo == -1)) { r = av_int(w, a.slo % b.slo, a.slo % b.slo, true); break; } I128 mb = std::max(bh < 0 ? -bh : bh, bl < 0 ? -bl : bl) - 1; I128 lo = a.slo < 0 ? std::max(a.slo, -mb) : 0, hi = a.shi > 0 ? std::min(a.shi, mb) : 0; if (hi < lo) hi = lo; r = av_int(w, lo, hi, true); }
        break; }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (b.uhi >= w) event("shift-amount", I); I128 sl = b.ulo, sh = std::min(b.uhi, (I128)w - 1); if (sl > sh) break;
        if (op == Instruction::Shl) { I128 p = (I128)1 << sl, q = (I128)1 << sh, l, h, l2, h2; mulr(a.slo, a.shi, p, q, l, h); mulr(a.ulo, a.uhi, p, q, l2, h2); r = range(l, h, l2, h2); }
        else if (op == Instruction::LShr) r = av_int(w, a.ulo >> sh, a.uhi >> sl, false);
        else r = av_int(w, std::min(a.slo >> sl, a.slo >> sh), std::max(a.shi >> sl, a.shi >> sh), true);
        break; }
    case Instruction::And: if (isingle(a) && isingle(b)) r = av_int(w, a.ulo & b.ulo, a.ulo & b.ulo, false); else { r = av_int(w, 0, std::min(a.uhi, b.uhi), false); if (w == 1) { bool ct = a.uhi && b.uhi, cf = !a.ulo || !b.ulo; r = av_bool(ct, cf); } } break;
    case Instruction::Or: if (isingle(a) && isingle(b)) r = av_int(w, a.ulo | b.ulo, a.ulo | b.ulo, false); else if (w == 1) r = av_bool(a.uhi || b.uhi, !a.ulo && !b.ulo); else { I128 m = 1; while (m <= std::max(a.uhi, b.uhi)) m <<= 1; r = av_int(w, std::max(a.ulo, b.ulo), std::min(m - 1, imax_u(w)), false); } break;
    case Instruction::Xor: if (isingle(a) && isingle(b)) r = av_int(w, a.ulo ^ b.ulo, a.ulo ^ b.ulo, false); else if (w > 1) { I128 m = 1; while (m <= std::max(a.uhi, b.uhi)) m <<= 1; r = av_int(w, 0, std::min(m - 1, imax_u(w)), false); } break;
    default: throw Unsupported("int op");
    }
    if (o.sym) { symConst(r); if (!r.sym && a.sym && b.sym) { int x = a.sym, y = b.sym; bool nx = a.sneg, ny = b.sneg;
        if (op == Instruction::Xor && w == 1 && isingle(b) && b.ulo == 1) { r.sym = a.sym; r.sneg = !a.sneg; }
        else if (op == Instruction::Mul) { // products modulo 2^w form a commutative monoid: canonical multiset of factors
            std::string tag = "im" + std::to_string(w) + ":"; std::vector<std::string> f; auto put = [&](int q, bool n) { const std::string &nm = st->names[q]; if (nm.compare(0, tag.size(), tag) == 0 && !n) { size_t p = tag.size(); while (p < nm.size()) { size_t e = nm.find(',', p); f.push_back(nm.substr(p, e - p)); p = e + 1; } } else if (nm != "i1" || n) f.push_back(ss(q, n)); };
            put(x, nx); put(y, ny); if (f.size() == 1 && (isingle(a) || isingle(b))) { bool ka = isingle(a); r.sym = ka ? y : x; r.sneg = ka ? ny : nx; } else { std::sort(f.begin(), f.end()); std::string k = tag; for (auto &t : f) k += t + ","; r.sym = S(k); } }
        else { if ((op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && x > y) { std::swap(x, y); std::swap(nx, ny); } r.sym = S("ib" + std::to_string(op) + "w" + std::to_string(w) + ss(x, nx) + ss(y, ny)); } } }
    if (o.lin && nsw && (op == Instruction::Add || op == Instruction::Sub)) { Lin x = linOf(a), y = linOf(b); if (x.ok && y.ok && (a.lin.ok || b.lin.ok)) { R s = op == Instruction::Add ? 1 : -1; r.lin = x; r.lin.an += (int)s * y.an; r.lin.af += (int)s * y.af; r.lin.c += s * y.c; } }
    return r;
}
AV icmp(CmpInst::Predicate p, const AV &a, const AV &b) {
    if (a.k == AV::Ptr || b.k == AV::Ptr) return av_bool(true, true);
    if (a.isbot() || b.isbot()) { AV v = av_bool(true, true); v.slo = v.ulo = 1; v.shi = v.uhi = 0; return v; }
    if (a.src && isingle(b)) { // sign-bit test on reinterpretation of a float
        const FV &f = a.src->f; bool n = f.cneg() || f.nan, q = f.cpos() || f.nan; 
        if (p == CmpInst::ICMP_SLT && b.slo == 0) return av_bool(n, q); if (p == CmpInst::ICMP_SGT && b.slo == -1) return av_bool(q, n); if (p == CmpInst::ICMP_SGE && b.slo == 0) return av_bool(q, n);
    }
    bool s = CmpInst::isSigned(p); I128 al = s ? a.slo : a.ulo, ah = s ? a.shi : a.uhi, bl = s ? b.slo : b.ulo, bh = s ? b.shi : b.uhi;
    bool lt = al < bh, gt = ah > bl, eq = std::max(a.slo, b.slo) <= std::min(a.shi, b.shi) && std::max(a.ulo, b.ulo) <= std::min(a.uhi, b.uhi);
    if (!s && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { bool ne = !(isingle(a) && isingle(b) && a.ulo == b.ulo); if (o.sym && a.sym && a.sym == b.sym && a.sneg == b.sneg) ne = false; { bool l = true, g = true; relFacts(a, b, l, eq, g); } AV v = p == CmpInst::ICMP_EQ ? av_bool(eq, ne) : av_bool(ne, eq); symIcmp(v, p, a, b); return v; }
    bool L = false, E = false, G = false;
    switch (p) { case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: L = 1; break; case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: L = E = 1; break; case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: G = 1; break; default: G = E = 1; }
    if (o.sym && a.sym && a.sym == b.sym && a.sneg == b.sneg) lt = gt = false;
    relFacts(a, b, lt, eq, gt);
    AV v = av_bool((lt && L) || (eq && E) || (gt && G), (lt && !L) || (eq && !E) || (gt && !G)); symIcmp(v, p, a, b); return v;
}
void symIcmp(AV &v, CmpInst::Predicate p, const AV &a, const AV &b) {
    if (!o.sym) return; symConst(v); if (v.sym) return; if (!a.sym || !b.sym) return;
    int x = a.sym, y = b.sym; bool nx = a.sneg, ny = b.sneg; bool neg = false;
    if (x > y) { std::swap(x, y); std::swap(nx, ny); p = CmpInst::getSwappedPredicate(p); }
    switch (p) { case CmpInst::ICMP_NE: p = CmpInst::ICMP_EQ; neg = true; break; case CmpInst::ICMP_SGE: p = CmpInst::ICMP_SLT; neg = true; break; case CmpInst::ICMP_SLE: p = CmpInst::ICMP_SGT; neg = true; break; case CmpInst::ICMP_UGE: p = CmpInst::ICMP_ULT; neg = true; break; case CmpInst::ICMP_ULE: p = CmpInst::ICMP_UGT; neg = true; break; default: break; }
    v.sym = S("ic" + std::to_string(p) + ss(x, nx) + ss(y, ny)); v.sneg = neg;
}
AV toFloat(const AV &a, FT t, bool sgn, const Instruction *) {
    AV r = av_flt(t, FV()); I128 l = sgn ? a.slo : a.ulo, h = sgn ? a.shi : a.uhi; r.f = fv_range(ft_round((R)l, t), ft_round((R)h, t)); r.f.nz = false; if (l > 0 || h < 0) r.f.pz = false;
    r.f.norm(); if (r.f.single() && o.basis) r.tm = std::make_shared<TM>(tm_const(o.basis, r.f.lo));
    if (a.lin.ok && r.f.lo >= -ldexpl(1, ft_p(t)) && r.f.hi <= ldexpl(1, ft_p(t))) r.lin = a.lin;
    if (o.sym) { symConst(r); if (!r.sym && a.sym) { int sy = a.sym, ng = a.sneg; bool sg = sgn; // the value before widening
            for (auto e = st->ext.find(sy); !ng && e != st->ext.end() && (!e->second[3] || sg); e = st->ext.find(sy)) { sg = e->second[3]; sy = e->second[0]; ng = e->second[1]; }
            r.sym = S("i2f" + std::to_string((int)t) + (sg ? "s" : "u") + ss(sy, ng)); } }
    return r;
}
AV toInt(const AV &a, int w, bool sgn, const Instruction *I) {
    AV r = av_itop(w); R mn = sgn ? -ldexpl(1, w - 1) : 0, mx = ldexpl(1, sgn ? w - 1 : w); // valid: trunc(x) in [mn, mx)
    bool bad = a.f.nan || (!a.f.emp && (!(truncl(a.f.lo) >= mn) || !(truncl(a.f.hi) < mx)));
    if (bad) event(sgn ? "float-to-int-range" : "float-to-uint-range", I);
    if (a.f.emp) { return r; }
    R lo = truncl(std::max(a.f.lo, mn)), hi = truncl(std::min(a.f.hi, mx)); if (lo > hi) return r;
    I128 L = (I128)lo, H = (I128)hi; if (H >= (I128)mx) H = (I128)mx - 1; if (L > H) return r;
    r = av_int(w, L, H, sgn);
    if (a.lin.ok && !bad) { Lin fl; bool integ; if (linFloor(a.lin, fl, integ)) { if (integ || a.f.lo >= 0) r.lin = fl; else if (a.f.hi <= 0) { fl.c += 1; r.lin = fl; } } }
    if (o.sym) { symConst(r); if (!r.sym && a.sym) r.sym = S("f2i" + std::to_string(w) + (sgn ? "s" : "u") + ss(a.sym, a.sneg)); }
    return r;
}
AV fconv(const AV &a, FT t) {
    AV r = a; r.ft = t; if (t >= a.ft) return r;   // extension is exact
    r.lin = Lin(); r.tm = nullptr; r.f.lo = ft_round(a.f.lo, t); r.f.hi = ft_round(a.f.hi, t);
    if (!r.f.emp && r.f.lo <= 0 && r.f.hi >= 0) { if (a.f.hi > 0 && a.f.lo <= ft_denorm(t)) r.f.pz = true; if (a.f.lo < 0 && a.f.hi >= -ft_denorm(t)) r.f.nz = true; if (a.f.lo > 0 && r.f.lo > 0) r.f.pz = false; }
    r.f.norm();
    if (r.f.single() && std::isfinite(r.f.lo)) { if (o.basis) r.tm = std::make_shared<TM>(tm_const(o.basis, r.f.lo)); }
    else if (a.tm) setTM(r, *a.tm, ft_u(t), ft_denorm(t));
    if (o.sym) { r.sym = 0; r.sneg = false; symConst(r); if (!r.sym && a.sym) { r.sym = S("ftr" + std::to_string((int)t) + ss(a.sym, 0)); r.sneg = a.sneg; } }
    return r;
}
AV roundInt(const AV &a, int mode) { // 0 floor 1 ceil 2 trunc
    AV r = av_flt(a.ft, a.f); auto fn = [&](R v) { return mode == 0 ? floorl(v) : mode == 1 ? ceill(v) : truncl(v); };
    if (!a.f.emp) { r.f.lo = fn(a.f.lo); r.f.hi = fn(a.f.hi); r.f.pz = a.f.pz || (a.f.hi > 0 && r.f.lo <= 0); r.f.nz = a.f.nz || (a.f.lo < 0 && r.f.hi >= 0); r.f.norm(); }
    if (a.lin.ok) { Lin fl; bool integ; if (linFloor(a.lin, fl, integ)) { if (integ) r.lin = fl; else { R add = mode == 0 ? 0 : mode == 1 ? 1 : a.f.lo >= 0 ? 0 : a.f.hi <= 0 ? 1 : -9; if (add >= 0) { fl.c += add; r.lin = fl; } } } }
    if (r.f.single() && o.basis && std::isfinite(r.f.lo)) r.tm = std::make_shared<TM>(tm_const(o.basis, r.f.lo));
    if (o.sym) { symConst(r); if (!r.sym && a.sym) r.sym = S("rnd" + std::to_string(mode) + ss(a.sym, a.sneg)); }
    return r;
}
