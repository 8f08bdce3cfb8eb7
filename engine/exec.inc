// (included inside struct Interp) control flow, calls, memory
struct Frame {
    const Function *F; const FuncInfo *fi; std::vector<AV> base; Path cur;
    std::map<int, std::vector<Path>> pend;               // prio -> partitions
    std::unordered_map<const Value *, BRInfo> br; std::unordered_map<int, int> hdrCount; std::unordered_map<int, Path> hdrAcc;
    AV ret; bool hasRet = false; int retPc = 0; std::vector<std::pair<int, AV>> rets; BRInfo rb; MemP retMem;
    std::vector<int> myObjs; bool renamed = false;
};
AV val(Frame &fr, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    auto it = fr.fi->id.find(v); if (it == fr.fi->id.end()) throw Unsupported("operand");
    for (auto &p : fr.cur.ov) if (p.first == it->second) return p.second;
    return fr.base[it->second];
}
void ovSet(Path &p, int id, const AV &a) { for (auto &q : p.ov) if (q.first == id) { q.second = a; return; } p.ov.push_back({ id, a }); }
void ovErase(Path &p, int id) { for (size_t i = 0; i < p.ov.size(); i++) if (p.ov[i].first == id) { p.ov.erase(p.ov.begin() + i); return; } }
void setv(Frame &fr, const Instruction *I, const AV &a, bool multi) {
    int id = fr.fi->id.at(I); ovErase(fr.cur, id);
    if (multi) { fr.base[id] = join(fr.base[id], a); ovSet(fr.cur, id, a); } else fr.base[id] = a;
}
// refine value v to abstract value a (a <= current) on the current path; returns false when the path is infeasible
bool refTo(Frame &fr, const Value *v, const AV &a) {
    if (a.isbot()) return false; if (isa<Constant>(v)) return true; auto it = fr.fi->id.find(v); if (it == fr.fi->id.end()) return true;
    ovSet(fr.cur, it->second, a);
    if (auto *I = dyn_cast<Instruction>(v)) { // push through exact unary operations
        if (I->getOpcode() == Instruction::FNeg) { AV x = val(fr, I->getOperand(0)); FV m = fv_meet(x.f, fv_neg(a.f)); if (!(fv_leq(x.f, m))) { x.f = m; return refTo(fr, I->getOperand(0), x); } }
        else if (I->getOpcode() == Instruction::FPExt) { AV x = val(fr, I->getOperand(0)); FV g = a.f; FT t = x.ft; if (!g.emp) { R l = ft_round(g.lo, t), h = ft_round(g.hi, t); if (l < g.lo) l = ft_next(l, t, true); if (h > g.hi) h = ft_next(h, t, false); if (l > h) return g.nan; g.lo = l; g.hi = h; } FV m = fv_meet(x.f, g); if (m.bot()) return false; if (!fv_leq(x.f, m)) { x.f = m; return refTo(fr, I->getOperand(0), x); } }
        else if (auto *c = dyn_cast<IntrinsicInst>(I)) {
            if (c->getIntrinsicID() == Intrinsic::fabs) { AV x = val(fr, I->getOperand(0)); FV g = a.f, n = fv_neg(a.f); FV u = fv_join(g, n); if (!u.emp && u.lo <= 0 && u.hi >= 0) { u.pz = u.nz = g.has0(); } FV m = fv_meet(x.f, u); m.nan = x.f.nan && a.f.nan; if (!m.emp && !g.emp && g.lo > 0) { if (m.lo > -g.lo && m.lo < g.lo) m.lo = g.lo; if (m.hi < g.lo && m.hi > -g.lo) m.hi = -g.lo; m.norm(); } if (m.bot()) return false; if (!fv_leq(x.f, m)) { x.f = m; return refTo(fr, I->getOperand(0), x); } }
        }
        else if ((I->getOpcode() == Instruction::SExt || I->getOpcode() == Instruction::ZExt) && a.k == AV::Int) { AV x = val(fr, I->getOperand(0)); if (x.k == AV::Int && x.w > 1) { AV m = x; if (I->getOpcode() == Instruction::SExt) { m.slo = std::max(m.slo, a.slo); m.shi = std::min(m.shi, a.shi); } else { m.ulo = std::max(m.ulo, a.ulo); m.uhi = std::min(m.uhi, a.uhi); } inorm(m); if (m.isbot()) return false; if (!leq(x, m)) return refTo(fr, I->getOperand(0), m); } }
        else if (I->getOpcode() == Instruction::SIToFP && !a.f.emp && !a.f.nan) { AV x = val(fr, I->getOperand(0)); R l = ceill(a.f.lo), h = floorl(a.f.hi); if (fabsl(l) < 0x1p52L && (I128)l > x.slo) x.slo = (I128)l; if (fabsl(h) < 0x1p52L && (I128)h < x.shi) x.shi = (I128)h; inorm(x); return refTo(fr, I->getOperand(0), x); }
        else if (auto *p = dyn_cast<PHINode>(I)) { (void)p; }
        else if (auto *ci = dyn_cast<CallInst>(I)) refCall(fr, ci, a);
    }
    return true;
}
// a call whose result equals its argument up to sign (abs-like helper): nothing to do by default
// backward refinement through a cheap unary floating-point helper (abs-like): drop the parts of the argument range whose image misses a
std::map<const Function *, long> callCost; int refDepth = 0;
bool imageMeets(const Function *F, const AV &x, const AV &a) {
    Opts so = o; so.basis = nullptr; so.sym = so.lin = false; so.fix = false; so.maxSteps = 400; so.maxDepth = 4; so.opaque = nullptr; so.contracts = nullptr; Interp in(mi, so); in.refDepth = 1; MemP mem;
    try { AV y = x; y.tm = nullptr; y.sym = 0; y.lin = Lin(); AV r = in.call(nullptr, nullptr, F, { y }, mem, nullptr); if (r.k != AV::Flt) return true; return !fv_meet(r.f, a.f).bot() || (a.f.has0() && r.f.has0()); } catch (std::exception &) { return true; }
}
void refCall(Frame &fr, const CallInst *ci, const AV &a) {
    const Function *F = ci->getCalledFunction(); if (refDepth || !F || F->isDeclaration() || F->arg_size() != 1 || a.k != AV::Flt || !F->getArg(0)->getType()->isFloatingPointTy()) return;
    auto it = callCost.find(F); if (it == callCost.end() || it->second > 60) return;
    AV x = val(fr, ci->getArgOperand(0)); if (x.f.emp || x.f.nan || x.f.lo == x.f.hi) return; FT t = x.ft; FV f = x.f; bool ch = false;
    auto meets = [&](R lo, R hi) { AV y = x; y.f = fv_range(lo, hi); if (lo <= 0 && hi >= 0) { y.f.pz = f.pz; y.f.nz = f.nz; } y.f.norm(); return imageMeets(F, y, a); };
    for (int side = 0; side < 2; side++) { // cut from each end while the removed part provably misses a
        I128 l = ft_ord(f.lo, t), h = ft_ord(f.hi, t), good = side ? h : l, bad = side ? l : h; bool any = false;
        if (f.lo == f.hi) break;
        // largest removable piece by bisection: piece = [lo, m] or [m, hi]
        I128 p = side ? l : h; (void)good; (void)bad; I128 a0 = side ? h : l, b0 = p; // remove (a0 .. m) ; m between
        for (int k = 0; k < 90 && a0 != b0; k++) { I128 m = a0 + (b0 - a0) / 2; if (m == a0) { break; } bool mt = side ? meets(ft_unord(m, t), f.hi) : meets(f.lo, ft_unord(m, t)); if (!mt) { a0 = m; any = true; } else b0 = m; }
        if (any) { R v = ft_unord(a0, t); if (side) { f.hi = v; } else f.lo = v; ch = true; f.norm(); }
    }
    if (ch) { x.f = f; x.sym = x.sym; refTo(fr, ci->getArgOperand(0), x); }
}
bool refine(Frame &fr, const Value *c, bool pol, int fuel = 24) {
    if (fuel <= 0) return true; AV cv = val(fr, c);
    if (cv.k == AV::Int && cv.w == 1) { if (cv.isbot()) return false; if (isingle(cv) && (cv.ulo == 1) != pol) return false; }
    if (auto *I = dyn_cast<Instruction>(c)) {
        if (auto *p = dyn_cast<PHINode>(I)) { if (cv.cond && cv.cond != (const void *)p) { if (!refine(fr, (const Value *)cv.cond, pol, fuel - 1)) return false; } }
        else if (auto *f = dyn_cast<FCmpInst>(I)) {
            bool lt, eq, gt, un; predBits(f->getPredicate(), lt, eq, gt, un); if (!pol) { lt = !lt; eq = !eq; gt = !gt; un = !un; }
            const Value *x = f->getOperand(0), *y = f->getOperand(1); AV a = val(fr, x), b = val(fr, y);
            if (x == y) { FV m = a.f; if (!eq) { m.emp = true; m.norm(); } if (!un) m.nan = false; if (m.bot()) return false; if (!fv_leq(a.f, m)) { a.f = m; if (!refTo(fr, x, a)) return false; } return true; }
            AV a2 = a, b2 = b; refineRel(a2.f, b.f, lt, eq, gt, un, a.ft); refineRel(b2.f, a.f, gt, eq, lt, un, a.ft);
            if (un && a.f.nan) {} 
            if (a2.f.bot() || b2.f.bot()) return false;
            if (!fv_leq(a.f, a2.f) && !refTo(fr, x, a2)) return false; if (!fv_leq(b.f, b2.f) && !refTo(fr, y, b2)) return false;
        } else if (auto *ic = dyn_cast<ICmpInst>(I)) {
            const Value *x = ic->getOperand(0), *y = ic->getOperand(1); AV a = val(fr, x), b = val(fr, y); CmpInst::Predicate p = pol ? ic->getPredicate() : ic->getInversePredicate();
            if (a.k != AV::Int) return true;
            if (a.src && isingle(b)) { int neg = (p == CmpInst::ICMP_SLT && b.slo == 0) ? 1 : ((p == CmpInst::ICMP_SGT && b.slo == -1) || (p == CmpInst::ICMP_SGE && b.slo == 0)) ? 0 : -1;
                if (neg >= 0) if (auto *bc = dyn_cast<BitCastInst>(x)) { AV fx = val(fr, bc->getOperand(0)); if (fx.k == AV::Flt) { FV m = fx.f; if (neg) { if (!m.emp) { m.pz = false; if (m.hi > 0) m.hi = m.nz ? 0 : -ft_denorm(fx.ft); m.norm(); } } else if (!m.emp) { m.nz = false; if (m.lo < 0) m.lo = m.pz ? 0 : ft_denorm(fx.ft); m.norm(); } if (m.bot()) return false; if (!fv_leq(fx.f, m)) { fx.f = m; if (!refTo(fr, bc->getOperand(0), fx)) return false; } } }
                return true; }
            // booleans widened to integers
            if (isingle(b) && (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_EQ) && (b.ulo == 0 || b.ulo == 1)) { if (auto *z = dyn_cast<ZExtInst>(x)) if (z->getOperand(0)->getType()->isIntegerTy(1)) { bool bit = (b.ulo == 1) == (p == CmpInst::ICMP_EQ); if (!refine(fr, z->getOperand(0), bit, fuel - 1)) return false; } }
            AV a2 = a, b2 = b; irefine(a2, b, p); irefine(b2, a, CmpInst::getSwappedPredicate(p)); if (a2.isbot() || b2.isbot()) return false;
            if (!leq(a, a2) && !refTo(fr, x, a2)) return false; if (!leq(b, b2) && !refTo(fr, y, b2)) return false;
        } else if (I->getOpcode() == Instruction::Xor && I->getType()->isIntegerTy(1)) {
            AV b = val(fr, I->getOperand(1)); if (isingle(b)) { if (!refine(fr, I->getOperand(0), pol != (b.ulo == 1), fuel - 1)) return false; }
        } else if ((I->getOpcode() == Instruction::And && pol) || (I->getOpcode() == Instruction::Or && !pol)) {
            if (I->getType()->isIntegerTy(1)) { if (!refine(fr, I->getOperand(0), pol, fuel - 1)) return false; if (!refine(fr, I->getOperand(1), pol, fuel - 1)) return false; }
        } else if (auto *s = dyn_cast<SelectInst>(I)) {
            AV t = val(fr, s->getTrueValue()), e = val(fr, s->getFalseValue());
            if (isingle(t) && (t.ulo == 1) != pol) { if (!refine(fr, s->getCondition(), false, fuel - 1) || !refine(fr, s->getFalseValue(), pol, fuel - 1)) return false; }
            else if (isingle(e) && (e.ulo == 1) != pol) { if (!refine(fr, s->getCondition(), true, fuel - 1) || !refine(fr, s->getTrueValue(), pol, fuel - 1)) return false; }
        } else if (I->getOpcode() == Instruction::Trunc || I->getOpcode() == Instruction::ZExt || I->getOpcode() == Instruction::Freeze) {
            const Value *x = I->getOperand(0); if (auto *z = dyn_cast<ZExtInst>(x)) x = z->getOperand(0); if (x->getType()->isIntegerTy(1)) { if (!refine(fr, x, pol, fuel - 1)) return false; }
            else if (auto *ph = dyn_cast<PHINode>(x)) { AV pv = val(fr, ph); if (pv.cond) if (!refine(fr, (const Value *)pv.cond, pol, fuel - 1)) return false; }
        } else if (auto *ci = dyn_cast<CallInst>(I)) {
            auto it = fr.br.find(ci); if (it != fr.br.end()) { BRInfo &b = it->second; if (!b.feas[pol]) return false;
                for (unsigned k = 0; k < ci->arg_size() && k < b.args[pol].size(); k++) { const Value *av = ci->getArgOperand(k); AV x = val(fr, av), m = meet(x, b.args[pol][k]); if (m.isbot()) return false; if (!leq(x, m) && !refTo(fr, av, m)) return false; } }
            else if (auto *ii = dyn_cast<IntrinsicInst>(ci)) if (ii->getIntrinsicID() == Intrinsic::is_fpclass) { AV x = val(fr, ci->getArgOperand(0)); unsigned m = cast<ConstantInt>(ci->getArgOperand(1))->getZExtValue(); if (!pol) m = ~m & 0x3ff; FV f = fpclassSet(x.f, x.ft, m); if (f.bot()) return false; if (!fv_leq(x.f, f)) { x.f = f; if (!refTo(fr, ci->getArgOperand(0), x)) return false; } }
        }
        if (cv.k == AV::Int && cv.w == 1 && !isingle(cv)) { AV b = av_bool(pol, !pol); b.cond = cv.cond; b.sym = 0; auto it = fr.fi->id.find(c); if (it != fr.fi->id.end()) ovSet(fr.cur, it->second, b); }
    }
    return true;
}
static FV fpclassSet(const FV &f, FT t, unsigned m) { // values of f in the class mask (hull)
    FV r; r.nan = f.nan && (m & 3); if (f.emp) return r; R mn = t == F32 ? (R)std::numeric_limits<float>::min() : t == F64 ? (R)std::numeric_limits<double>::min() : std::numeric_limits<R>::min(); R d = ft_denorm(t), mx = ft_max(t);
    auto add = [&](R lo, R hi) { FV s = f; s.nan = false; s.lo = std::max(f.lo, lo); s.hi = std::min(f.hi, hi); if (s.lo > s.hi) return; s.pz = s.nz = false; s.emp = false; r = fv_join(r, s); };
    if (m & 4) add(-INF, -INF); if (m & 8) add(-mx, -mn); if (m & 16) add(-ft_next(mn, t, false), -d); if ((m & 32) && f.nz) { FV z = fv_const(-0.0L); r = fv_join(r, z); } if ((m & 64) && f.pz) { FV z = fv_const(0.0L); r = fv_join(r, z); } if (m & 128) add(d, ft_next(mn, t, false)); if (m & 256) add(mn, mx); if (m & 512) add(INF, INF);
    return r;
}
AV meet(const AV &a, const AV &b) {
    AV r = a; if (b.k != a.k) return a;
    if (a.k == AV::Flt) { r.f = fv_meet(a.f, b.f); return r; }
    if (a.k == AV::Int) { r.slo = std::max(a.slo, b.slo); r.shi = std::min(a.shi, b.shi); r.ulo = std::max(a.ulo, b.ulo); r.uhi = std::min(a.uhi, b.uhi); inorm(r); return r; } return a;
}
static void irefine(AV &a, const AV &b, CmpInst::Predicate p) {
    switch (p) {
    case CmpInst::ICMP_EQ: a.slo = std::max(a.slo, b.slo); a.shi = std::min(a.shi, b.shi); a.ulo = std::max(a.ulo, b.ulo); a.uhi = std::min(a.uhi, b.uhi); break;
    case CmpInst::ICMP_NE: if (isingle(b)) { if (a.ulo == b.ulo && a.uhi == b.ulo) { a.ulo = 1; a.uhi = 0; a.slo = 1; a.shi = 0; return; } if (a.ulo == b.ulo) a.ulo++; if (a.uhi == b.ulo) a.uhi--; if (a.slo == b.slo) a.slo++; if (a.shi == b.slo) a.shi--; } break;
    case CmpInst::ICMP_SLT: a.shi = std::min(a.shi, b.shi - 1); break; case CmpInst::ICMP_SLE: a.shi = std::min(a.shi, b.shi); break; case CmpInst::ICMP_SGT: a.slo = std::max(a.slo, b.slo + 1); break; case CmpInst::ICMP_SGE: a.slo = std::max(a.slo, b.slo); break;
    case CmpInst::ICMP_ULT: a.uhi = std::min(a.uhi, b.uhi - 1); break; case CmpInst::ICMP_ULE: a.uhi = std::min(a.uhi, b.uhi); break; case CmpInst::ICMP_UGT: a.ulo = std::max(a.ulo, b.ulo + 1); break; case CmpInst::ICMP_UGE: a.ulo = std::max(a.ulo, b.ulo); break; default: break;
    }
    inorm(a);
}
int pcAnd(int pc, const AV &c, bool pol) { if (!o.sym) return 0; if (!c.sym) return S("pc" + std::to_string(pc) + "?" + std::to_string(steps)); return S("pc" + std::to_string(pc) + "&" + ss(c.sym, c.sneg == pol)); }
void joinMem(Path &a, const Path &b) {
    if (a.mem == b.mem) return; if (!a.mem || !b.mem) { a.mem = std::make_shared<Mem>(); return; }
    auto r = std::make_shared<Mem>();
    for (auto &x : *a.mem) { auto y = b.mem->find(x.first); if (y == b.mem->end()) continue; auto &ro = (*r)[x.first]; for (auto &c : x.second) { auto d = y->second.find(c.first); if (d == y->second.end() || d->second.second != c.second.second || d->second.first.k != c.second.first.k) continue; ro[c.first] = { join(c.second.first, d->second.first), c.second.second }; } }
    a.mem = r;
}
void joinPath(Path &a, const Path &b, int npc) {
    std::vector<std::pair<int, AV>> ov; for (auto &x : a.ov) for (auto &y : b.ov) if (x.first == y.first) { ov.push_back({ x.first, joinS(x.second, y.second, a.pc, b.pc) }); break; }
    a.ov = ov; for (size_t i = 0; i < a.phis.size(); i++) a.phis[i] = joinS(a.phis[i], b.phis[i], a.pc, b.pc);
    joinMem(a, b); a.pc = npc;
}
AV joinS(const AV &a, const AV &b, int pa, int pb) {
    AV r = join(a, b); if (o.sym && !r.sym && a.sym && b.sym && (a.k == AV::Flt || a.k == AV::Int)) {
        int x = a.sym, y = b.sym; bool nx = a.sneg, ny = b.sneg; if (pa > pb) { std::swap(pa, pb); std::swap(x, y); std::swap(nx, ny); }
        bool out = a.k == AV::Flt && nx; if (a.k == AV::Flt && nx) { nx = !nx; ny = !ny; }
        r.sym = S("phi" + std::to_string(pa) + ":" + ss(x, nx) + "," + std::to_string(pb) + ":" + ss(y, ny)); r.sneg = out; }
    return r;
}
int mergePc(int a, int b) { if (!o.sym) return 0; if (a == b) return a; if (a > b) std::swap(a, b); return S("pm" + std::to_string(a) + "|" + std::to_string(b)); }
void pushEdge(Frame &fr, const BasicBlock *from, const BasicBlock *to, const Path &st0) {
    Path st = st0; st.live = true; int pr = fr.fi->prio.at(to); st.phis.clear(); long key = 0; int nb = 0;
    for (auto &ph : to->phis()) {
        const Value *in = ph.getIncomingValueForBlock(from); AV a; { Path sv = fr.cur; fr.cur = st0; a = val(fr, in); fr.cur = sv; }
        if (a.k == AV::Int && (a.w == 1 || ph.getType()->isIntegerTy(8))) { if (!isa<Constant>(in)) { if (!(isa<PHINode>(in) && a.cond)) a.cond = in; } else a.cond = nullptr; if (fr.fi->header[pr] || fr.fi->loop[pr] != fr.fi->loop[fr.fi->prio.at(from)]) a.cond = nullptr; if (a.w == 1 && nb < 3) { key = key * 4 + (isingle(a) ? 1 + (int)a.ulo : 3); nb++; } }
        st.phis.push_back(a);
    }
    if (nb == 0) key = 0;
    for (auto &ph : to->phis()) { auto it = fr.fi->id.find(&ph); if (it != fr.fi->id.end()) ovErase(st, it->second); }
    st.live = true; auto &v = fr.pend[pr];
    // partitions: only for blocks that merge boolean phis (short-circuit conditions)
    for (size_t i = 0; i < v.size(); i++) { long k2 = 0; int n2 = 0; for (auto &a : v[i].phis) if (a.k == AV::Int && a.w == 1 && n2 < 3) { k2 = k2 * 4 + (isingle(a) ? 1 + (int)a.ulo : 3); n2++; } if (n2 == 0) k2 = 0;
        if (k2 == key) { joinPath(v[i], st, mergePc(v[i].pc, st.pc)); return; } }
    v.push_back(st);
}
AV readMem(Frame &fr, const AV &p, Type *t, const Instruction *I) {
    const DataLayout &dl = mi->m->getDataLayout(); int sz = (int)dl.getTypeStoreSize(t);
    if (p.k != AV::Ptr || p.obj == 0) { event("unknown-memory", I); return topOf(t); }
    if (p.obj == -1) { event("null-deref", I); return topOf(t); }
    if (p.obj < (1 << 20)) {
        const GObj &g = mi->gobj[p.obj - 1]; if (p.slo < 0 || p.shi + sz > (I128)g.size) event("out-of-bounds", I);
        if (!g.constant) { event("mutable-global", I); return topOf(t); }
        AV r; for (auto it = g.cells.lower_bound((int64_t)std::max(p.slo, (I128)0)); it != g.cells.end() && it->first <= p.shi; ++it) { if (it->second.second != sz) return topOf(t); AV c = it->second.first; if (o.basis && c.k == AV::Flt && std::isfinite(c.f.lo)) c.tm = std::make_shared<TM>(tm_const(o.basis, c.f.lo)); symConst(c); r = r.k == AV::Bot ? c : join(r, c); }
        if (r.k == AV::Bot) { // zero-initialised aggregate tails
            return topOf(t); }
        if ((t->isFloatingPointTy() && r.k != AV::Flt) || (t->isIntegerTy() && r.k != AV::Int)) return topOf(t);
        if (o.sym && p.slo != p.shi) { r.sym = 0; r.sneg = false; if (p.sym) { std::string key = "ld" + std::to_string(sz) + (t->isFloatingPointTy() ? "f" : "i") + ss(p.sym, false); for (auto &c : g.cells) { const AV &v = c.second.first; key += ";" + std::to_string((long long)c.first) + ":" + (v.k == AV::Flt ? num(v.f.lo) : v.k == AV::Int ? std::to_string((long long)v.slo) : std::string("?")); } r.sym = S(key); } }
        return r;
    }
    auto sz2 = objSize.find(p.obj); if (sz2 != objSize.end() && (p.slo < 0 || p.shi + sz > (I128)sz2->second)) event("out-of-bounds", I);
    if (!fr.cur.mem) return topOf(t); auto it = fr.cur.mem->find(p.obj); if (it == fr.cur.mem->end()) { return topOf(t); }
    if (t->isStructTy() || t->isArrayTy()) {
        AV a; a.k = AV::Agg; a.agg = std::make_shared<std::vector<AV>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); int64_t off = t->isStructTy() ? (int64_t)dl.getStructLayout(cast<StructType>(t))->getElementOffset(i) : (int64_t)(i * dl.getTypeAllocSize(et)); AV q = p; q.slo += off; q.shi += off; a.agg->push_back(readMem(fr, q, et, I)); } return a; }
    AV r; bool all = true; I128 expect = p.slo;
    for (auto c = it->second.lower_bound((int64_t)p.slo); c != it->second.end() && c->first <= p.shi; ++c) { if (c->second.second != sz) return topOf(t); r = r.k == AV::Bot ? c->second.first : join(r, c->second.first); (void)expect; }
    if (r.k == AV::Bot || !all) return topOf(t);
    if (p.slo == p.shi && it->second.find((int64_t)p.slo) == it->second.end()) return topOf(t);
    if (p.slo != p.shi) { // range access: every aligned element must be present
        int64_t cnt = 0; for (auto c = it->second.lower_bound((int64_t)p.slo); c != it->second.end() && c->first <= p.shi; ++c) cnt++; if (cnt < (int64_t)((p.shi - p.slo) / sz + 1)) return topOf(t); }
    if ((t->isFloatingPointTy() && r.k != AV::Flt) || (t->isIntegerTy() && (r.k != AV::Int || r.w != t->getIntegerBitWidth())) || (t->isPointerTy() && r.k != AV::Ptr)) return topOf(t);
    return r;
}
void writeMem(Frame &fr, const AV &p, const AV &v, Type *t, const Instruction *I) {
    const DataLayout &dl = mi->m->getDataLayout(); int sz = (int)dl.getTypeStoreSize(t);
    if (p.k != AV::Ptr || p.obj <= 0) { event("unknown-memory", I); if (fr.cur.mem) fr.cur.mem = std::make_shared<Mem>(); return; }
    if (p.obj < (1 << 20)) { event("mutable-global", I); return; }
    auto s2 = objSize.find(p.obj); if (s2 != objSize.end() && (p.slo < 0 || p.shi + sz > (I128)s2->second)) event("out-of-bounds", I);
    fr.cur.mem = fr.cur.mem ? std::make_shared<Mem>(*fr.cur.mem) : std::make_shared<Mem>(); auto &ob = (*fr.cur.mem)[p.obj];
    if (v.k == AV::Agg) { unsigned n = v.agg->size(); for (unsigned i = 0; i < n; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); int64_t off = t->isStructTy() ? (int64_t)dl.getStructLayout(cast<StructType>(t))->getElementOffset(i) : (int64_t)(i * dl.getTypeAllocSize(et)); AV q = p; q.slo += off; q.shi += off; writeMem(fr, q, (*v.agg)[i], et, I); } return; }
    if (p.slo == p.shi) { // strong update, drop overlapping cells
        for (auto c = ob.begin(); c != ob.end();) { if (c->first < p.slo + sz && c->first + c->second.second > p.slo) c = ob.erase(c); else ++c; } ob[(int64_t)p.slo] = { v, sz }; }
    else for (auto c = ob.begin(); c != ob.end();) { if (c->first < p.shi + sz && c->first + c->second.second > p.slo) { if (c->second.second == sz && c->second.first.k == v.k) { c->second.first = join(c->second.first, v); ++c; } else c = ob.erase(c); } else ++c; }
}
void copyMem(Frame &fr, const AV &d, const AV &s, const AV &len, const Instruction *I) {
    if (d.k != AV::Ptr || d.obj < (1 << 20) || d.slo != d.shi || s.k != AV::Ptr || s.obj <= 0 || s.slo != s.shi || !isingle(len)) { event("unknown-memory", I); if (fr.cur.mem) fr.cur.mem = std::make_shared<Mem>(); return; }
    I128 n = len.ulo; std::map<int64_t, std::pair<AV, int>> src; if (s.obj < (1 << 20)) { if (mi->gobj[s.obj - 1].constant) src = mi->gobj[s.obj - 1].cells; if (s.slo + n > (I128)mi->gobj[s.obj - 1].size) event("out-of-bounds", I); } else if (fr.cur.mem && fr.cur.mem->count(s.obj)) src = fr.cur.mem->at(s.obj);
    auto z = objSize.find(d.obj); if (z != objSize.end() && d.slo + n > (I128)z->second) event("out-of-bounds", I);
    fr.cur.mem = fr.cur.mem ? std::make_shared<Mem>(*fr.cur.mem) : std::make_shared<Mem>(); auto &ob = (*fr.cur.mem)[d.obj];
    for (auto c = ob.begin(); c != ob.end();) { if (c->first < d.slo + n && c->first + c->second.second > d.slo) c = ob.erase(c); else ++c; }
    for (auto &c : src) if (c.first >= s.slo && c.first + c.second.second <= s.slo + n) { AV v = c.second.first; if (o.basis && !v.tm && v.k == AV::Flt && v.f.single() && std::isfinite(v.f.lo)) v.tm = std::make_shared<TM>(tm_const(o.basis, v.f.lo)); if (!v.sym) symConst(v); ob[(int64_t)(c.first - s.slo + d.slo)] = { v, c.second.second }; }
}
AV call(Frame *caller, const CallInst *ci, const Function *F, const std::vector<AV> &args, MemP &mem, BRInfo *bri) {
    if (F->isDeclaration()) { if (ci) event("external-call:" + F->getName().str(), ci); return F->getReturnType()->isVoidTy() ? AV() : topOf(F->getReturnType()); }
    if (o.opaque && o.opaque->count(F->getName().str())) {
        AV r = topOf(F->getReturnType()); if (o.sym) { bool odd = o.oddFns && args.size() == 1 && r.k == AV::Flt && o.oddFns->count(F->getName().str()); bool cps = o.oddFns && args.size() == 2 && r.k == AV::Flt && args[0].k == AV::Flt && args[1].k == AV::Flt && o.oddFns->count(F->getName().str()); /* copysign: magnitude of the first, sign of the second */ if (cps) odd = true; std::string k = "call " + F->getName().str() + "("; bool ok = true; for (auto &a : args) { if (!a.sym) { ok = false; break; } k += ss(a.sym, odd ? false : a.sneg); } if (ok) { r.sym = S(k); r.sneg = odd && args[cps ? 1 : 0].sneg; } } callsSeen++; if (o.opqDepth) { auto d = o.opqDepth->find(F->getName().str()); if (d != o.opqDepth->end() && depth + d->second > maxDepthSeen) maxDepthSeen = depth + d->second; } return r; }
    for (auto &a : args) if (a.isbot() && a.k != AV::Ptr && a.k != AV::Agg) { AV r = topOf(F->getReturnType()); if (r.k == AV::Flt) { r.f = FV(); } return r; }
    if (o.contracts && o.basis) { auto it = o.contracts->find(F->getName().str()); AV r; if (it != o.contracts->end()) for (auto &k : it->second) if (o.applyContract(*this, k, F, args, r)) { callsSeen++; return r; } }
    fnSeen.insert(F); callsSeen++; if (prof) prof->operator[](F->getName().str())++;
    if (++depth > o.maxDepth) { depth--; throw Resource("call depth"); }
    if (depth > maxDepthSeen) maxDepthSeen = depth;
    if (ci) callStack.push_back(ci);
    struct Pop { Interp *t; bool c; ~Pop() { t->depth--; if (c) t->callStack.pop_back(); } } pop{ this, ci != nullptr };
    int onStack = 0; if (o.fix) for (size_t k = recs.size(); k-- > 0;) if (recs[k].f == F) { onStack++; if (onStack > 0) { bool inc = true; for (size_t j = 0; j < args.size() && inc; j++) inc = leq(args[j], recs[k].args[j]); if (inc) { recs[k].used = true; AV s = recs[k].sum; if (s.k == AV::Bot) { s = topOf(F->getReturnType()); if (s.k == AV::Flt) s.f = FV(); else if (s.k == AV::Int) { s.slo = s.ulo = 1; s.shi = s.uhi = 0; } } return s; } } }
    if (o.coarse) { // widen floating-point arguments of deep recursion, share equal contexts
        int n = 0; for (auto *f : fstack) if (f == F) n++;
        bool simple = true; for (auto &x : args) if (x.k != AV::Flt && x.k != AV::Int) simple = false;
        if (n >= 3 && simple) {
            std::vector<AV> w = args; std::string key = F->getName().str();
            for (auto &x : w) { if (x.k == AV::Flt) { x.f = fv_top(); x.tm = nullptr; x.sym = 0; } else { x.sym = 0; char b[200]; snprintf(b, 200, "|%lld:%lld:%lld:%lld", (long long)x.slo, (long long)x.shi, (long long)x.ulo, (long long)x.uhi); key += b; } }
            auto it = memo.find(key); if (it != memo.end()) { if (depth + it->second.second > maxDepthSeen) maxDepthSeen = depth + it->second.second; return it->second.first; }
            int sv = maxDepthSeen; maxDepthSeen = depth; fstack.push_back(F); AV r = runFn(caller, F, w, mem, nullptr); fstack.pop_back(); memo[key] = { r, maxDepthSeen - depth }; if (sv > maxDepthSeen) maxDepthSeen = sv; return r; }
        fstack.push_back(F); AV r = runFn(caller, F, args, mem, bri); fstack.pop_back(); return r; }
    if (!o.fix && !o.sym && !o.lin && !o.basis && mi->fi.at(F).rec) { // equal contexts share their result
        bool simple = true; std::string key((const char *)&F, sizeof F); auto put = [&](const void *p, size_t n) { key.append((const char *)p, n); };
        for (auto &x : args) { if (x.k == AV::Flt) { char b = x.f.nan | x.f.emp << 1 | x.f.pz << 2 | x.f.nz << 3; put(&b, 1); if (!x.f.emp) { put(&x.f.lo, 10); put(&x.f.hi, 10); } } else if (x.k == AV::Int) { put(&x.slo, sizeof x.slo); put(&x.shi, sizeof x.shi); put(&x.ulo, sizeof x.ulo); put(&x.uhi, sizeof x.uhi); } else { simple = false; break; } }
        if (simple) {
            auto it = memo.find(key); if (it != memo.end()) { if (depth + it->second.second > maxDepthSeen) maxDepthSeen = depth + it->second.second; return it->second.first; }
            int sv = maxDepthSeen; maxDepthSeen = depth; AV r; try { r = runFn(caller, F, args, mem, bri); } catch (...) { if (sv > maxDepthSeen) maxDepthSeen = sv; throw; }
            memo[key] = { r, maxDepthSeen - depth }; if (sv > maxDepthSeen) maxDepthSeen = sv; return r; } }
    if (!o.fix && o.noise && o.basis) { // an iteration written as recursion: rename the error of the iterated values on each round
        bool rec = false; for (auto *f : fstack) if (f == F) { rec = true; break; }
        bool re = rec && cycleHead(F) == F; fstack.push_back(F); AV r;
        try { if (re) { std::vector<AV> w = args; renameNoise(w); foldMem(mem); r = runFn(caller, F, w, mem, bri); } else r = runFn(caller, F, args, mem, bri); } catch (...) { fstack.pop_back(); throw; }
        fstack.pop_back(); if (re) foldAV(r); return r; }
    if (!o.fix) return runFn(caller, F, args, mem, bri);
    std::vector<AV> wargs = args; if (onStack > 70) { for (auto &a : wargs) { if (a.k == AV::Flt) { FV t = fv_top(); t.nan = a.f.nan; a.f = t; } else if (a.k == AV::Int) { int w = a.w; a = av_itop(w); } } }
    recs.push_back({ F, wargs, AV(), false }); AV r;
    for (int it = 0;; it++) { recs.back().used = false; AV n = runFn(caller, F, wargs, mem, bri); Rec &me = recs.back(); r = me.sum.k == AV::Bot ? n : join(me.sum, n); bool stable = me.sum.k != AV::Bot && leq(n, me.sum); if (!me.used || stable) break; if (it > 3) { if (r.k == AV::Flt) { R l = r.f.lo, h = r.f.hi; if (l < me.sum.f.lo) l = -INF; if (h > me.sum.f.hi) h = INF; bool nn = r.f.nan; r.f = fv_range(l, h); r.f.nan = nn; } else if (r.k == AV::Int) r = av_itop(r.w); } me.sum = r; if (it > 8) { r = topOf(F->getReturnType()); break; } }
    recs.pop_back(); return r;
}
// the function at which rounds of the innermost recursion are taken to begin: of the functions that occur more than once
// on the stack (or are about to), the one that occurred first (recShift picks a later one)
const Function *cycleHead(const Function *F) const {
    size_t last = fstack.size(); while (last > 0 && fstack[last - 1] != F) last--; std::set<const Function *> cyc(fstack.begin() + (last - 1), fstack.end()); // the functions of this round
    int k = 0; std::set<const Function *> seen; for (auto *f : fstack) if (cyc.count(f) && seen.insert(f).second && k++ == o.recShift) return f; return nullptr; }
bool noisy(const TM &t) const { int nv = o.basis->nv; for (int i = 1; i < t.top; i++) if (t.c[i] != 0) for (int v = nv - o.noise; v < nv; v++) if (o.basis->ex[i][v]) return true; return false; }
void foldAV(AV &a) const { if (a.k == AV::Flt && a.tm && noisy(*a.tm)) { TM t = *a.tm; int nv = o.basis->nv; R s = 0; for (int i = 1; i < t.top; i++) { bool n = false; for (int v = nv - o.noise; v < nv; v++) if (o.basis->ex[i][v]) n = true; if (n) { s += fabsl(t.c[i]); t.c[i] = 0; } } t.rem = rup(t.rem + rup(s)); tm_trim(t); a.tm = std::make_shared<TM>(t); } }
void foldMem(MemP &m) const { if (!m) return; bool any = false; for (auto &ob : *m) for (auto &c : ob.second) if (c.second.first.k == AV::Flt && c.second.first.tm && noisy(*c.second.first.tm)) any = true; if (any) { m = std::make_shared<Mem>(*m); for (auto &ob : *m) for (auto &c : ob.second) foldAV(c.second.first); } }
void renameNoise(std::vector<AV> &w) const {
    int nv = o.basis->nv, k = nv - o.noise; for (auto &a : w) foldAV(a);
    for (auto &a : w) if (k < nv && a.k == AV::Flt && a.tm && a.tm->rem > 0) { TM t = *a.tm; TM e = tm_var(o.basis, k++, -t.rem, t.rem); t.rem = 0; t = tm_add(t, e); a.tm = std::make_shared<TM>(t); } }
AV runFn(Frame *, const Function *F, const std::vector<AV> &args, MemP &mem, BRInfo *bri) {
    Frame fr; fr.F = F; fr.fi = &mi->fi.at(F); fr.base.assign(fr.fi->n, AV());
    { int i = 0; for (auto &a : F->args()) fr.base[fr.fi->id.at(&a)] = args.at(i++); }
    Path p0; p0.mem = mem; p0.live = true; fr.pend[0].push_back(p0);
    while (!fr.pend.empty()) {
        auto it = fr.pend.begin(); int pr = it->first; std::vector<Path> parts = std::move(it->second); fr.pend.erase(it); const BasicBlock *B = fr.fi->order[pr];
        if (fr.fi->header[pr]) { int &c = fr.hdrCount[pr]; c++;
            if (c > 600 || (o.fix && c > 60)) { // switch to accumulate-and-widen
                for (size_t k = 1; k < parts.size(); k++) joinPath(parts[0], parts[k], 0); parts.resize(1); Path &n = parts[0];
                auto ac = fr.hdrAcc.find(pr); if (ac == fr.hdrAcc.end()) fr.hdrAcc[pr] = n; else { bool inc = n.phis.size() == ac->second.phis.size(); for (size_t k = 0; k < n.phis.size() && inc; k++) inc = leq(n.phis[k], ac->second.phis[k]); if (inc && (!n.mem || n.mem == ac->second.mem)) continue; Path old = ac->second; joinPath(n, old, 0); if (c > 640 || (o.fix && c > 80)) for (size_t k = 0; k < n.phis.size(); k++) if (!leq(n.phis[k], old.phis[k])) widen(n.phis[k], old.phis[k]); ac->second = n; }
                if (c > 4000) throw Resource("loop"); } }
        if (o.noise && o.basis && !o.fix && fr.fi->header[pr] && fr.hdrCount[pr] > 1) { for (auto &a : fr.base) foldAV(a); fr.renamed = true;
            for (auto &p : parts) { for (auto &q : p.ov) foldAV(q.second); foldMem(p.mem); renameNoise(p.phis); }
            for (auto &q : fr.pend) for (auto &p : q.second) { for (auto &x : p.ov) foldAV(x.second); for (auto &x : p.phis) foldAV(x); } }
        bool multi = parts.size() > 1; bool first = true;
        if (multi) for (auto &I : *B) { if (!I.getType()->isVoidTy()) fr.base[fr.fi->id.at(&I)] = AV(); fr.br.erase(&I); }
        for (auto &p : parts) { fr.cur = p; execBlock(fr, B, multi); (void)first; }
    }
    if (!fr.hasRet) { AV r; if (F->getReturnType()->isVoidTy()) return r; r = topOf(F->getReturnType()); if (r.k == AV::Flt) r.f = FV(); else if (r.k == AV::Int) { r.slo = r.ulo = 1; r.shi = r.uhi = 0; } return r; }
    if (bri) *bri = fr.rb; if (fr.retMem) mem = fr.retMem; if (fr.renamed) foldAV(fr.ret); return fr.ret;
}
void widen(AV &a, const AV &old) {
    if (a.k == AV::Flt) { if (a.f.lo < old.f.lo) a.f.lo = -INF; if (a.f.hi > old.f.hi) a.f.hi = INF; if (a.f.lo <= 0 && a.f.hi >= 0) a.f.pz = a.f.nz = true; a.tm = nullptr; a.sym = 0; }
    else if (a.k == AV::Int) { int w = a.w; if (a.slo < old.slo) a.slo = imin_s(w); if (a.shi > old.shi) a.shi = imax_s(w); if (a.ulo < old.ulo) a.ulo = 0; if (a.uhi > old.uhi) a.uhi = imax_u(w); a.sym = 0; }
}
void execBlock(Frame &fr, const BasicBlock *B, bool multi) {
    blocksSeen++;
    { int k = 0; std::vector<AV> ph = fr.cur.phis; for (auto &p : B->phis()) setv(fr, &p, ph.at(k++), multi); }
    execFrom(fr, B, B->begin(), multi, 0);
}
void execFrom(Frame &fr, const BasicBlock *B, BasicBlock::const_iterator from, bool multi, int forks) {
    for (auto iter = from; iter != B->end(); ++iter) { auto &I = *iter;
        if (isa<PHINode>(I)) continue;
        if (++steps > o.maxSteps) throw Resource("step budget");
        if (o.basis && forks < 2 && I.getOpcode() == Instruction::FPToSI && !isa<Constant>(I.getOperand(0))) { // trace partitioning on the integer part
            AV a = val(fr, I.getOperand(0)); R tl = a.f.emp ? 0 : truncl(a.f.lo), th = a.f.emp ? 0 : truncl(a.f.hi);
            if (!a.f.nan && !a.f.emp && std::isfinite(tl) && std::isfinite(th) && th - tl == 1 && fabsl(tl) < 0x1p40L && fabsl(th) < 0x1p40L) {
                R cut = a.f.lo >= 0 ? th : a.f.hi <= 0 ? ft_next(tl, a.ft, true) : (th == 1 ? 1 : ft_next((R)-1, a.ft, true)); // first float of the upper part
                if (cut > a.f.lo && cut <= a.f.hi) { hint(a, cut, nullptr);
                    if (!multi) for (auto j = iter; j != B->end(); ++j) { if (!j->getType()->isVoidTy()) fr.base[fr.fi->id.at(&*j)] = AV(); fr.br.erase(&*j); }
                    Path sv = fr.cur;
                    for (int half = 0; half < 2; half++) { fr.cur = sv; AV x = a; if (half) x.f.lo = cut; else x.f.hi = ft_next(cut, a.ft, false); x.f.norm(); x.sym = 0; if (x.f.bot() || !refTo(fr, I.getOperand(0), x)) continue; execFrom(fr, B, iter, true, forks + 1); }
                    return; } } }
        if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
            AV a = val(fr, bo->getOperand(0)), b = val(fr, bo->getOperand(1)); if (I.getType()->isVectorTy()) throw Unsupported("vector");
            switch (bo->getOpcode()) { case Instruction::FAdd: { AV r = fbin('+', a, b); if (o.fpev) fpEvents('+', a, b, r, &I); setv(fr, &I, r, multi); break; } case Instruction::FSub: { AV r = fbin('-', a, b); if (o.fpev) fpEvents('-', a, b, r, &I); setv(fr, &I, r, multi); break; } case Instruction::FMul: { AV r = fbin('*', a, b); if (o.fpev) fpEvents('*', a, b, r, &I); setv(fr, &I, r, multi); break; } case Instruction::FDiv: { AV r = fbin('/', a, b); if (o.fpev) fpEvents('/', a, b, r, &I); setv(fr, &I, r, multi); break; } case Instruction::FRem: { AV r = av_flt(a.ft, fv_top()); setv(fr, &I, r, multi); break; } default: setv(fr, &I, ibin(bo, a, b), multi); }
        } else if (I.getOpcode() == Instruction::FNeg) setv(fr, &I, fneg(val(fr, I.getOperand(0))), multi);
        else if (auto *c = dyn_cast<FCmpInst>(&I)) setv(fr, &I, fcmp(c->getPredicate(), val(fr, c->getOperand(0)), val(fr, c->getOperand(1)), c->getOperand(0) == c->getOperand(1)), multi);
        else if (auto *c = dyn_cast<ICmpInst>(&I)) setv(fr, &I, icmp(c->getPredicate(), val(fr, c->getOperand(0)), val(fr, c->getOperand(1))), multi);
        else if (auto *c = dyn_cast<CastInst>(&I)) setv(fr, &I, castOp(fr, c), multi);
        else if (auto *s = dyn_cast<SelectInst>(&I)) {
            AV c = val(fr, s->getCondition()), r; if (isingle(c)) r = val(fr, c.ulo ? s->getTrueValue() : s->getFalseValue());
            else { Path sv = fr.cur; AV a, b; bool fa = refine(fr, s->getCondition(), true); if (fa) a = val(fr, s->getTrueValue()); fr.cur = sv; bool fb = refine(fr, s->getCondition(), false); if (fb) b = val(fr, s->getFalseValue()); fr.cur = sv; if (fa && fb) r = o.sym ? joinS(a, b, pcAnd(0, c, true), pcAnd(0, c, false)) : join(a, b); else if (fa) r = a; else if (fb) r = b; else return; }
            r.cond = nullptr; setv(fr, &I, r, multi);
        } else if (isa<FreezeInst>(I)) setv(fr, &I, val(fr, I.getOperand(0)), multi);
        else if (auto *a = dyn_cast<AllocaInst>(&I)) { AV p; p.k = AV::Ptr; p.obj = nextObj++; p.slo = p.shi = 0; auto sz = a->getAllocationSize(mi->m->getDataLayout()); if (sz) objSize[p.obj] = sz->getFixedValue(); setv(fr, &I, p, multi); }
        else if (auto *l = dyn_cast<LoadInst>(&I)) { if (l->isVolatile() || l->isAtomic()) event("volatile-access", &I); setv(fr, &I, readMem(fr, val(fr, l->getPointerOperand()), I.getType(), &I), multi); }
        else if (auto *s = dyn_cast<StoreInst>(&I)) { if (s->isVolatile() || s->isAtomic()) event("volatile-access", &I); writeMem(fr, val(fr, s->getPointerOperand()), val(fr, s->getValueOperand()), s->getValueOperand()->getType(), &I); }
        else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            AV p = val(fr, g->getPointerOperand()); if (p.k == AV::Ptr && p.obj != 0) { const DataLayout &dl = mi->m->getDataLayout(); I128 lo = 0, hi = 0; for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) { if (StructType *stt = gt.getStructTypeOrNull()) { unsigned f = cast<ConstantInt>(gt.getOperand())->getZExtValue(); I128 q = dl.getStructLayout(stt)->getElementOffset(f); lo += q; hi += q; } else { AV ix = val(fr, gt.getOperand()); I128 sz = dl.getTypeAllocSize(gt.getIndexedType()); lo += ix.slo * sz; hi += ix.shi * sz; } } p.slo += lo; p.shi += hi; if (o.sym) { p.sym = p.sym || p.slo != p.shi ? p.sym : 0; if (lo != hi || p.sym) { std::string key = "gep" + std::to_string(p.sym) + "@" + std::to_string((long long)(p.slo - lo)); bool ok = true; for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) if (!gt.getStructTypeOrNull()) { AV ix = val(fr, gt.getOperand()); symConst(ix); if (!ix.sym) ok = false; key += "," + std::to_string((long long)dl.getTypeAllocSize(gt.getIndexedType())) + "*" + ss(ix.sym, ix.sneg); } else key += "," + std::to_string(cast<ConstantInt>(gt.getOperand())->getZExtValue()); p.sym = ok ? S(key) : 0; } } } setv(fr, &I, p, multi);
        } else if (auto *ci = dyn_cast<CallInst>(&I)) { if (!doCall(fr, ci, multi)) return; }
        else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { AV a = val(fr, ev->getAggregateOperand()); for (unsigned ix : ev->indices()) { if (a.k != AV::Agg) throw Unsupported("extractvalue"); AV t = (*a.agg)[ix]; a = t; } setv(fr, &I, a, multi); }
        else if (auto *iv = dyn_cast<InsertValueInst>(&I)) { AV a = val(fr, iv->getAggregateOperand()); if (a.k != AV::Agg || iv->getNumIndices() != 1) throw Unsupported("insertvalue"); a.agg = std::make_shared<std::vector<AV>>(*a.agg); (*a.agg)[iv->getIndices()[0]] = val(fr, iv->getInsertedValueOperand()); setv(fr, &I, a, multi); }
        else if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isUnconditional()) { pushEdge(fr, B, br->getSuccessor(0), fr.cur); return; }
            AV c = val(fr, br->getCondition()); Path sv = fr.cur; bool sg = isingle(c);
            for (int pol = 1; pol >= 0; pol--) { if (c.isbot()) break; if (sg && (c.ulo == 1) != (pol == 1)) continue; fr.cur = sv; bool ok = true; ok = refine(fr, br->getCondition(), pol == 1); if (sg) ok = true; if (!ok) continue; if (!sg) fr.cur.pc = pcAnd(sv.pc, c, pol == 1); Path p = fr.cur; pushEdge(fr, B, br->getSuccessor(pol ? 0 : 1), p); }
            return;
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            AV c = val(fr, sw->getCondition()); Path sv = fr.cur; bool def = true; if (c.isbot()) return;
            for (auto &cs : sw->cases()) { AV k = constVal(cs.getCaseValue()); if (k.ulo < c.ulo || k.ulo > c.uhi || k.slo < c.slo || k.slo > c.shi) continue; if (isingle(c)) def = false; fr.cur = sv; AV x = c; x.slo = x.shi = k.slo; x.ulo = x.uhi = k.ulo; x.lin = Lin(); x.sym = 0; symConst(x); refTo(fr, sw->getCondition(), x); if (!isingle(c)) { AV cc; cc.k = AV::Int; cc.sym = (o.sym && c.sym) ? S("sw" + ss(c.sym, c.sneg) + "=" + std::to_string((long long)k.slo)) : 0; fr.cur.pc = pcAnd(sv.pc, cc, true); } Path p = fr.cur; pushEdge(fr, B, cs.getCaseSuccessor(), p); }
            // remaining values: trim case constants from the ends of the interval
            if (def) { AV x = c; for (bool ch = true; ch;) { ch = false; for (auto &cs : sw->cases()) { AV k = constVal(cs.getCaseValue()); if (x.isbot()) break; if (k.slo == x.slo || k.slo == x.shi || k.ulo == x.ulo || k.ulo == x.uhi) { AV y = x; irefine(y, k, CmpInst::ICMP_NE); if (!leq(x, y)) { x = y; ch = true; } } } } if (!x.isbot()) { fr.cur = sv; refTo(fr, sw->getCondition(), x); if (o.sym) { AV cc; cc.k = AV::Int; cc.sym = c.sym ? S("swdef" + ss(c.sym, c.sneg) + "#" + std::to_string(sw->getNumCases())) : 0; fr.cur.pc = pcAnd(sv.pc, cc, true); } Path p = fr.cur; pushEdge(fr, B, sw->getDefaultDest(), p); } }
            return;
        } else if (auto *rt = dyn_cast<ReturnInst>(&I)) {
            if (!fr.hasRet) fr.retMem = fr.cur.mem; else { Path a, b; a.mem = fr.retMem; b.mem = fr.cur.mem; joinMem(a, b); fr.retMem = a.mem; }
            if (rt->getReturnValue()) {
                AV v = val(fr, rt->getReturnValue()); bool isb = v.k == AV::Int && v.w == 1;
                if (isb) { Path sv = fr.cur; for (int pol = 0; pol < 2; pol++) { fr.cur = sv; if (isingle(v) && (v.ulo == 1) != (pol == 1)) continue; if (v.isbot()) continue; if (!refine(fr, rt->getReturnValue(), pol == 1)) continue; std::vector<AV> as; for (auto &a : fr.F->args()) as.push_back(val(fr, &a)); if (!fr.rb.feas[pol]) { fr.rb.feas[pol] = true; fr.rb.args[pol] = as; } else for (size_t k = 0; k < as.size(); k++) fr.rb.args[pol][k] = join(fr.rb.args[pol][k], as[k]); } fr.cur = sv; v.cond = nullptr; }
                if (!fr.hasRet) { fr.ret = v; fr.retPc = fr.cur.pc; } else { fr.ret = joinS(fr.ret, v, fr.retPc, fr.cur.pc); fr.retPc = mergePc(fr.retPc, fr.cur.pc); }
            }
            fr.hasRet = true; return;
        } else if (isa<UnreachableInst>(I)) { event("unreachable", &I); return; }
        else throw Unsupported(std::string("instruction ") + I.getOpcodeName());
    }
}
AV castOp(Frame &fr, const CastInst *c) {
    AV a = val(fr, c->getOperand(0)); Type *t = c->getType(); if (t->isVectorTy()) throw Unsupported("vector");
    switch (c->getOpcode()) {
    case Instruction::FPExt: case Instruction::FPTrunc: { AV r = fconv(a, ftOf(t)); if (o.fpev && r.f.hasinf() && !a.f.hasinf()) event("fp-overflow", c); return r; }
    case Instruction::SIToFP: return toFloat(a, ftOf(t), true, c); case Instruction::UIToFP: return toFloat(a, ftOf(t), false, c);
    case Instruction::FPToSI: return toInt(a, t->getIntegerBitWidth(), true, c); case Instruction::FPToUI: return toInt(a, t->getIntegerBitWidth(), false, c);
    case Instruction::ZExt: { if (a.isbot()) { AV r = av_itop(t->getIntegerBitWidth()); r.slo = r.ulo = 1; r.shi = r.uhi = 0; return r; } AV r = av_int(t->getIntegerBitWidth(), a.ulo, a.uhi, false); if (o.sym) { symConst(r); if (!r.sym && a.sym) { r.sym = S("zext" + std::to_string(t->getIntegerBitWidth()) + ss(a.sym, a.sneg)); st->ext[r.sym] = {a.sym, (int)a.sneg, (int)a.w, 0}; } } if (a.lin.ok && a.slo >= 0) r.lin = a.lin; return r; }
    case Instruction::SExt: { if (a.isbot()) { AV r = av_itop(t->getIntegerBitWidth()); r.slo = r.ulo = 1; r.shi = r.uhi = 0; return r; } AV r = av_int(t->getIntegerBitWidth(), a.slo, a.shi, true); if (o.sym) { symConst(r); if (!r.sym && a.sym) { r.sym = S("sext" + std::to_string(t->getIntegerBitWidth()) + ss(a.sym, a.sneg)); st->ext[r.sym] = {a.sym, (int)a.sneg, (int)a.w, 1}; } } r.lin = a.lin; return r; }
    case Instruction::Trunc: { int w = t->getIntegerBitWidth(); if (a.isbot()) { AV r = av_itop(w); r.slo = r.ulo = 1; r.shi = r.uhi = 0; return r; } AV r = iwrap(w, a.slo, a.shi), r2 = iwrap(w, a.ulo, a.uhi); r.slo = std::max(r.slo, r2.slo); r.shi = std::min(r.shi, r2.shi); r.ulo = std::max(r.ulo, r2.ulo); r.uhi = std::min(r.uhi, r2.uhi); inorm(r); if (o.sym) { symConst(r); if (!r.sym && a.sym) { auto e = st->ext.find(a.sym); if (e != st->ext.end() && e->second[2] == w) { r.sym = e->second[0]; r.sneg = (bool)e->second[1] != (bool)a.sneg; } else r.sym = S("tr" + std::to_string(w) + ss(a.sym, a.sneg)); } } r.cond = a.cond;
        if (a.src && (int)a.w != w) { }
        return r; }
    case Instruction::BitCast: { if (a.k == AV::Flt && t->isIntegerTy()) { AV r = av_itop(t->getIntegerBitWidth()); r.src = std::make_shared<AV>(a); if (!a.f.nan && !a.f.emp) { if (!a.f.cneg()) { r.slo = 0; inorm(r); } else if (!a.f.cpos()) { r.shi = -1; inorm(r); } } if (o.sym && a.sym) r.sym = S("bits" + ss(a.sym, a.sneg)); return r; } if (a.k == AV::Int && t->isFloatingPointTy()) { return av_flt(ftOf(t), fv_top()); } if (a.k == AV::Ptr) return a; return topOf(t); }
    case Instruction::AddrSpaceCast: return a;
    default: return topOf(t);
    }
}
bool doCall(Frame &fr, const CallInst *ci, bool multi) {
    const Function *F = ci->getCalledFunction(); if (!F) { if (ci->isInlineAsm()) event("inline-asm", ci); else event("indirect-call", ci); if (!ci->getType()->isVoidTy()) setv(fr, ci, topOf(ci->getType()), multi); return true; }
    if (F->isIntrinsic()) {
        auto A = [&](int k) { return val(fr, ci->getArgOperand(k)); }; AV r;
        switch (F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: return true;
        case Intrinsic::fabs: r = fabsAV(A(0)); break;
        case Intrinsic::floor: r = roundInt(A(0), 0); break; case Intrinsic::ceil: r = roundInt(A(0), 1); break; case Intrinsic::trunc: r = roundInt(A(0), 2); break;
        case Intrinsic::copysign: { AV a = fabsAV(A(0)), b = A(1); bool n = b.f.cneg() || b.f.nan, p = b.f.cpos() || b.f.nan; if (n && p) { AV x = a, y = fneg(a); r = join(x, y); r.sym = 0; if (o.sym && a.sym && b.sym) r.sym = S("cps" + ss(a.sym, 0) + ss(b.sym, b.sneg)); } else r = n ? fneg(a) : a; if (a.f.nan) { r.f.nan = true; } break; }
        case Intrinsic::sqrt: { AV a = A(0); r = av_flt(a.ft, FV()); r.f.nan = a.f.nan || (!a.f.emp && a.f.lo < 0); if (!a.f.emp && a.f.hi >= 0) { FV q = fv_range(ft_round(sqrtl(std::max(a.f.lo, (R)0)), a.ft), ft_round(sqrtl(a.f.hi), a.ft)); q.lo = q.lo > 0 ? ft_next(q.lo, a.ft, false) : 0; q.hi = ft_next(q.hi, a.ft, true); q.pz = a.f.pz; q.nz = a.f.nz; q.nan = r.f.nan; q.norm(); r.f = q; } break; }
        case Intrinsic::fmuladd: { AV m = fbin('*', A(0), A(1)); r = fbin('+', m, A(2)); r.sym = 0; break; }
        case Intrinsic::fma: { AV a = A(0); r = av_flt(a.ft, fv_top()); break; }
        case Intrinsic::minnum: case Intrinsic::maxnum: { AV a = A(0), b = A(1); bool mn = F->getIntrinsicID() == Intrinsic::minnum; r = av_flt(a.ft, fv_join(a.f, b.f)); r.f.nan = a.f.nan && b.f.nan; if (!a.f.nan && !b.f.nan && !a.f.emp && !b.f.emp) { if (mn) { r.f.hi = std::min(a.f.hi, b.f.hi); r.f.lo = std::min(a.f.lo, b.f.lo); } else { r.f.hi = std::max(a.f.hi, b.f.hi); r.f.lo = std::max(a.f.lo, b.f.lo); } r.f.norm(); } break; }
        case Intrinsic::is_fpclass: { AV a = A(0); unsigned m = cast<ConstantInt>(ci->getArgOperand(1))->getZExtValue(); FV t = fpclassSet(a.f, a.ft, m), f = fpclassSet(a.f, a.ft, ~m & 0x3ff); r = av_bool(!t.bot(), !f.bot()); break; }
        case Intrinsic::abs: { AV a = A(0); if (a.slo == imin_s(a.w) && cast<ConstantInt>(ci->getArgOperand(1))->isOne()) event("signed-overflow", ci); I128 lo = a.slo > 0 ? a.slo : a.shi < 0 ? -a.shi : 0, hi = std::max(a.shi, -a.slo); r = av_int(a.w, lo, std::min(hi, imax_s(a.w)), true); break; }
        case Intrinsic::smax: case Intrinsic::smin: { AV a = A(0), b = A(1); bool mx = F->getIntrinsicID() == Intrinsic::smax; r = av_int(a.w, mx ? std::max(a.slo, b.slo) : std::min(a.slo, b.slo), mx ? std::max(a.shi, b.shi) : std::min(a.shi, b.shi), true); break; }
        case Intrinsic::umax: case Intrinsic::umin: { AV a = A(0), b = A(1); bool mx = F->getIntrinsicID() == Intrinsic::umax; r = av_int(a.w, mx ? std::max(a.ulo, b.ulo) : std::min(a.ulo, b.ulo), mx ? std::max(a.uhi, b.uhi) : std::min(a.uhi, b.uhi), false); break; }
        case Intrinsic::expect: r = A(0); break;
        case Intrinsic::memcpy: case Intrinsic::memmove: copyMem(fr, A(0), A(1), A(2), ci); return true;
        case Intrinsic::memset: { AV d = A(0), v = A(1), n = A(2); if (d.k == AV::Ptr && d.obj >= (1 << 20)) { fr.cur.mem = fr.cur.mem ? std::make_shared<Mem>(*fr.cur.mem) : std::make_shared<Mem>(); (*fr.cur.mem)[d.obj].clear(); } else event("unknown-memory", ci); return true; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: event("trap", ci); return false;
        default: event("intrinsic:" + F->getName().str(), ci); if (ci->getType()->isVoidTy()) return true; r = topOf(ci->getType());
        }
        setv(fr, ci, r, multi); return true;
    }
    std::vector<AV> args; for (auto &u : ci->args()) args.push_back(val(fr, u)); for (auto &a : args) a.cond = nullptr;
    if (F->isVarArg()) throw Unsupported("vararg");
    BRInfo bri; bool isb = ci->getType()->isIntegerTy(1); long st0 = steps; AV r = call(&fr, ci, F, args, fr.cur.mem, isb ? &bri : nullptr);
    if (isb && (bri.feas[0] || bri.feas[1])) {
        auto it = fr.br.find(ci);
        if (multi && it != fr.br.end()) { for (int q = 0; q < 2; q++) if (bri.feas[q]) { if (!it->second.feas[q]) { it->second.feas[q] = true; it->second.args[q] = bri.args[q]; } else for (size_t k = 0; k < bri.args[q].size(); k++) it->second.args[q][k] = join(it->second.args[q][k], bri.args[q][k]); } }
        else fr.br[ci] = bri;
    } else if (isb) fr.br.erase(ci);
    if (F->arg_size() == 1 && r.k == AV::Flt) { long &cc = callCost[F]; cc = std::max(cc, steps - st0); }
    if (!ci->getType()->isVoidTy()) setv(fr, ci, r, multi);
    return true;
}
