// gva - static value analysis of gcem.  Usage: gva jobs.json out.json [threads]
#include "interp.hpp"
#include "ref.hpp"
#include "llvm/Support/JSON.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <pthread.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <deque>
#include <atomic>
#include <condition_variable>
typedef std::chrono::steady_clock Clk;
static double secs(Clk::time_point a) { return std::chrono::duration<double>(Clk::now() - a).count(); }

struct Arg { enum { F, I, NaN } k = F; FT t = F64; int w = 32; bool sgn = true; R lo = 0, hi = 0; bool pz = true, nz = true; I128 il = 0, ih = 0; };
struct Cell { std::vector<Arg> a; int depth = 0; // lin extras
    int cls = -1; };
struct Pred { std::string k; bool nan = false; std::vector<std::pair<R, R>> ranges; std::string ref; R tol = 0; bool rel = false; R atol = 0; std::string mode; int maxDepth = 0; std::set<std::string> kinds; int zero = -1; std::vector<std::string> ig; R refscale = 1; R iv0 = 0, iv1 = 0; };
struct Job {
    std::string id, module, fn, module2, fn2; std::vector<std::vector<Arg>> doms; Pred p; int D = 0, noise = 0, rshift = 0; long maxCells = 20000; double maxSec = 60; long maxSteps = 3000000; bool fix = false; std::string argmap; std::string opaque; int rel = 0; std::set<std::string> oddf; std::map<std::string, int> opqDepth; std::map<std::string, std::vector<Contract>> contracts; int maxDepth = 20000; std::vector<int> varOf, argOf; // Taylor-model variable of each argument (points need none)
    // results
    std::string status = "proved"; long cells = 0, leaves = 0, steps = 0; int depthSeen = 0; std::set<std::string> fns; std::string witness, detail; std::map<std::string, std::string> events; double t = 0, cpu = 0; bool done = false; std::deque<Cell> q; int active = 0; std::mutex mu; Clk::time_point t0; bool started = false; std::vector<std::string> samples; R worst = 0; std::set<std::string> opq; R pointCells = 0; std::string unresolved; long nunres = 0;
};
static R parseR(const std::string &s) { if (s == "nan") return NAN; if (s == "inf") return INF; if (s == "-inf") return -INF; return strtold(s.c_str(), nullptr); }
static R jnum(const json::Value &v) { if (auto s = v.getAsString()) return parseR(s->str()); if (auto d = v.getAsNumber()) return *d; return NAN; }
static std::string hexR(R v) { char b[80]; snprintf(b, 80, "%.17Lg", v); return b; }
static std::string fvs(const FV &f) { std::string s; if (!f.emp) { s = "[" + hexR(f.lo) + ", " + hexR(f.hi) + "]"; } if (f.nan) s += s.empty() ? "NaN" : " or NaN"; return s.empty() ? "unreachable" : s; }
static std::string cellStr(const Cell &c) {
    std::string s; for (auto &a : c.a) { if (!s.empty()) s += ", "; if (a.k == Arg::NaN) s += "NaN"; else if (a.k == Arg::F) s += a.lo == a.hi ? (a.lo == 0 && a.nz && !a.pz ? "-0" : hexR(a.lo)) : "[" + hexR(a.lo) + ", " + hexR(a.hi) + "]"; else s += a.il == a.ih ? std::to_string((long long)a.il) : "[" + std::to_string((long long)a.il) + ", " + std::to_string((long long)a.ih) + "]"; }
    if (c.cls >= 0) { static const char *n[] = { "frac=0", "0<frac<.5", "frac=.5", ".5<frac<1" }; s += std::string(" {") + n[c.cls] + "}"; } return s;
}
static AV argAV(const Arg &a, int idx, const Basis *b, SymTab *st, bool neg, int var = -1) {
    AV v;
    if (a.k == Arg::I) { v = av_int(a.w, a.il, a.ih, a.sgn); }
    else if (a.k == Arg::NaN) { v = av_flt(a.t, fv_const(NAN)); }
    else { FV f = fv_range(a.lo, a.hi); if (f.lo <= 0 && f.hi >= 0) { f.pz = a.pz; f.nz = a.nz; } v = av_flt(a.t, f); if (b && std::isfinite(a.lo) && std::isfinite(a.hi)) v.tm = std::make_shared<TM>(var < 0 || a.lo == a.hi ? tm_const(b, a.lo) : tm_var(b, var, a.lo, a.hi)); }
    if (st) { v.sym = st->get("arg" + std::to_string(idx)); v.sneg = false; }
    if (neg && v.k == AV::Flt) { v.f = fv_neg(v.f); v.sneg = !v.sneg; if (v.tm) v.tm = std::make_shared<TM>(tm_neg(*v.tm)); }
    return v;
}
static bool isPoint(const Cell &c) { for (auto &a : c.a) { if (a.k == Arg::F && (a.lo != a.hi || (a.lo == 0 && a.pz && a.nz))) return false; if (a.k == Arg::I && a.il != a.ih) return false; } return true; }
static double argWidth(const Arg &a, bool acc) {
    if (a.k == Arg::NaN) return 0; if (a.k == Arg::I) return a.ih == a.il ? 0 : log2((double)(a.ih - a.il) + 1);
    if (a.lo == a.hi) return (a.lo == 0 && a.pz && a.nz) ? 1e-30 : 0; I128 d = ft_ord(a.hi, a.t) - ft_ord(a.lo, a.t); double w = (double)((R)d * ft_u(a.t) * 2);
    if (acc) { double r = (double)(a.hi - a.lo) * 4; if (r < w) w = r; } return w;
}
struct Hint; static bool hintSplit(const Cell &c, int v, R u, R b, std::vector<Cell> &r) {
    if (v < 0 || v >= (int)c.a.size() || c.a[v].k != Arg::F) return false; const Arg &a = c.a[v]; if (!std::isfinite(a.lo) || !std::isfinite(a.hi) || (a.lo < 0 && a.hi > 0) || a.lo == 0 || a.hi == 0) return false;
    I128 ol = ft_ord(a.lo, a.t), oh = ft_ord(a.hi, a.t); if (oh - ol < 32) return false; R mid = a.lo / 2 + a.hi / 2, rad = a.hi / 2 - a.lo / 2; R x = ft_round(mid + u * rad, a.t); if (!(x > a.lo && x < a.hi)) return false;
    R bw = rad * b; I128 ox = ft_ord(x, a.t); R xl = ft_round(x - bw, a.t), xh = ft_round(x + bw, a.t); I128 p = (xl <= a.lo ? ol : ft_ord(xl, a.t)), q = (xh >= a.hi ? oh : ft_ord(xh, a.t)); if (p > ox - 3) p = ox - 3; if (q < ox + 3) q = ox + 3; if (p < ol) p = ol; if (q > oh) q = oh;
    if (q - p > (oh - ol) / 2) return false; auto mk = [&](I128 s, I128 e) { Cell z = c; z.depth++; z.a[v].lo = ft_unord(s, a.t); z.a[v].hi = ft_unord(e, a.t); r.push_back(z); };
    if (p > ol) mk(ol, p - 1); mk(p, q); if (q < oh) mk(q + 1, oh); return r.size() > 1;
}
static std::vector<Cell> split(const Cell &c, bool acc, bool snap = true) {
    int best = -1; double bw = 0; for (size_t i = 0; i < c.a.size(); i++) { double w = argWidth(c.a[i], acc); if (w > bw) { bw = w; best = i; } }
    std::vector<Cell> r; if (best < 0) return r; Cell x = c, y = c; x.depth++; y.depth++; Arg &a = x.a[best], &b = y.a[best];
    if (a.k == Arg::I) { I128 m = a.il + (a.ih - a.il) / 2; a.ih = m; b.il = m + 1; r = { x, y }; return r; }
    if (a.lo == 0 && a.hi == 0) { a.nz = false; b.pz = false; return { x, y }; }
    R lo = a.lo, hi = a.hi, m; bool ar = lo > 0 ? hi <= 4 * lo : hi < 0 ? lo >= 4 * hi : false; if (!std::isfinite(lo) || !std::isfinite(hi)) ar = false;
    if (lo < 0 && hi > 0) { a.hi = -ft_denorm(a.t); Cell z = c; z.depth++; z.a[best].lo = z.a[best].hi = 0; b.lo = ft_denorm(a.t); r = { x, y }; if (c.a[best].pz || c.a[best].nz) r.push_back(z); return r; }
    if (lo == 0 || hi == 0) { if (lo == 0) { a.hi = 0; b.lo = ft_denorm(a.t); } else { a.hi = -ft_denorm(a.t); b.lo = 0; b.hi = 0; } if (lo == 0 && !(a.pz || a.nz)) return { y }; if (hi == 0 && !(b.pz || b.nz)) return { x }; return { x, y }; }
    if (lo == -INF) { a.hi = -INF; b.lo = -ft_max(a.t); return { x, y }; } if (hi == INF) { b.lo = INF; a.hi = ft_max(a.t); return { x, y }; }
    { I128 ol = ft_ord(lo, a.t), oh = ft_ord(hi, a.t), w = oh - ol;
        if (snap && w > 4096) { // prefer a short decimal near the middle: branch thresholds of numerical code tend to be such numbers
            bool ng = hi < 0; R L = ng ? -hi : lo, H = ng ? -lo : hi, m0, wl, wh; bool am = H <= 4 * L;
            if (am) { m0 = L / 2 + H / 2; wl = m0 - (H - L) / 8; wh = m0 + (H - L) / 8; } else { I128 l = ft_ord(L, a.t), h = ft_ord(H, a.t); m0 = ft_unord(l + (h - l) / 2, a.t); wl = ft_unord(l + (h - l) * 3 / 8, a.t); wh = ft_unord(l + (h - l) * 5 / 8, a.t); }
            R pick = 0; for (int k = 1; k <= 5 && pick == 0; k++) { int e = (int)floorl(log10l(wh)) + 1 - k; R sc = powl(10, e < 0 ? -e : e); R q = e < 0 ? m0 * sc : m0 / sc; if (!std::isfinite(q) || !std::isfinite(sc)) break; R c = rintl(q); R cand = e < 0 ? c / sc : c * sc; if (k == 1 && !(cand >= wl && cand <= wh)) { R p10 = powl(10, floorl(log10l(wh))); if (p10 >= wl && p10 <= wh) cand = p10; } if (cand >= wl && cand <= wh && std::isfinite(cand)) pick = ft_round(cand, a.t); }
            if (pick > L && pick < H) {
                R mm = ng ? -pick : pick; I128 om = ft_ord(mm, a.t); int ex; R fr = frexpl(pick, &ex); bool simple = ldexpl(fr, 12) == rintl(ldexpl(fr, 12)); I128 B = simple ? 0 : 64;
                if (om - B - 1 > ol && om + B + 1 < oh) {
                    auto mk = [&](I128 p, I128 q) { Cell z = c; z.depth++; z.a[best].lo = ft_unord(p, a.t); z.a[best].hi = ft_unord(q, a.t); r.push_back(z); };
                    mk(ol, om - B - 1); if (B) { mk(om - B, om - 1); mk(om, om); mk(om + 1, om + B); } else mk(om, om); mk(om + B + 1, oh); return r; } } } }
    if (ar) { m = ft_round(lo / 2 + hi / 2, a.t); if (m <= lo) m = lo; if (m >= hi) m = ft_next(hi, a.t, false); } else { I128 l = ft_ord(lo, a.t), h = ft_ord(hi, a.t); m = ft_unord(l + (h - l) / 2, a.t); }
    a.hi = m; b.lo = ft_next(m, a.t, true); if (a.hi == 0) a.hi = 0; return { x, y };
}
static bool applyContract(Interp &in, const Contract &k, const Function *F, const std::vector<AV> &args, AV &r) {
    if (args.size() != k.lo.size()) return false; std::vector<TM> ra;
    for (size_t i = 0; i < args.size(); i++) { const AV &a = args[i]; if (a.k != AV::Flt || a.f.nan || a.f.emp || !(a.f.lo >= k.lo[i] && a.f.hi <= k.hi[i])) return false; TMP t = in.getTM(a); if (!t) return false; ra.push_back(*t); }
    TM f = tm_const(in.o.basis, 0); try { f = refTable().at(k.ref)(ra); } catch (RefFail &) { return false; } if (!tm_ok(f)) return false;
    R lo, hi; tm_bounds(f, lo, hi); R m = std::max(fabsl(lo), fabsl(hi)); R e = rup(k.rel ? k.tol * m + k.atol : k.tol * (1 + m)); FT ft = ftOf(F->getReturnType());
    f.rem = rup(f.rem + e); if (!tm_ok(f)) return false; FV v = in.tmRange(f, ft); if (v.hasinf()) return false; r = av_flt(ft, v); r.tm = std::make_shared<TM>(f); return true;
}
static std::map<std::string, std::unique_ptr<ModInfo>> mods;
static std::map<std::pair<int, int>, std::unique_ptr<Basis>> bases;
enum ST { PROVED, REFUTED, UNKNOWN };
static void reach(const Function *F, std::set<std::string> &s) { if (!s.insert(F->getName().str()).second) return; for (auto &b : *F) for (auto &i : b) if (auto *c = dyn_cast<CallInst>(&i)) if (auto *g = c->getCalledFunction()) if (!g->isDeclaration()) reach(g, s); }
struct Hint { int v = -1; R u = 0, b = 0; long amb = -1; }; static thread_local Hint *hintOut = nullptr;
struct RunOut { int hv = -1; R hu = 0, hb = 0; AV r; std::vector<Event> ev; int depth = 0; long steps = 0; bool resource = false; };
static const Function *findFn(const std::string &m, const std::string &f) { auto it = mods.find(m); if (it == mods.end()) throw Unsupported("module " + m); auto *F = it->second->m->getFunction(f); if (!F || F->isDeclaration()) throw Unsupported("anchor function " + f + " not found in " + m); return F; }
static RunOut runCell(Job &j, const std::string &mod, const std::string &fn, std::vector<AV> args, Opts o, SymTab *st) {
    Interp in(mods.at(mod).get(), o); in.st = st; static bool pf = getenv("GVA_PROF"); std::map<std::string,long> prf; if (pf) in.prof = &prf; const Function *F = findFn(mod, fn); RunOut ro; MemP mem; BRInfo b;
    if (F->arg_size() != args.size()) throw Unsupported("arity of " + fn);
    try { ro.r = in.call(nullptr, nullptr, F, args, mem, nullptr); } catch (Resource &e) { ro.resource = true; }
    if (pf) { std::vector<std::pair<long,std::string>> v; for (auto &k : prf) v.push_back({ -k.second, k.first }); std::sort(v.begin(), v.end()); std::cerr << "PROF " << fn << " steps " << in.steps << " res " << ro.resource << "\n"; for (size_t k = 0; k < v.size() && k < 12; k++) std::cerr << "   " << -v[k].first << " " << v[k].second << "\n"; }
    ro.hv = in.hintVar; ro.hu = in.hintU; ro.hb = in.hintBand; if (hintOut) { hintOut->v = ro.hv < 0 || ro.hv >= (int)j.argOf.size() ? -1 : j.argOf[ro.hv]; hintOut->u = ro.hu; hintOut->b = ro.hb; hintOut->amb = in.amb; }
    ro.ev = in.events; ro.depth = in.maxDepthSeen - 1; ro.steps = in.steps;
    { std::lock_guard<std::mutex> g(j.mu); for (auto *f : in.fnSeen) j.fns.insert(f->getName().str()); j.steps += in.steps; if (j.p.k != "depth" && ro.depth > j.depthSeen) j.depthSeen = ro.depth; }
    return ro;
}
static bool inSet(const FV &f, const Pred &p) { if (f.nan && !p.nan) return false; if (f.emp) return true; for (auto &r : p.ranges) { if (f.lo >= r.first && f.hi <= r.second) { if (p.zero == 1 && f.nz) return false; if (p.zero == 0 && f.pz) return false; return true; } } return false; }
static bool disjSet(const FV &f, const Pred &p) { if (f.nan && p.nan) return false; if (f.emp) return true; for (auto &r : p.ranges) if (!(f.hi < r.first || f.lo > r.second)) { if (f.lo == 0 && f.hi == 0 && ((p.zero == 1 && !f.pz) || (p.zero == 0 && !f.nz))) continue; return false; } return true; }
static void noteDepth(Job &j, int d) { std::lock_guard<std::mutex> g(j.mu); if (d > j.depthSeen) j.depthSeen = d; }
static std::string pureReach(const Function *F, std::set<const Function *> &seen, long &insts) { // first impure construct reachable from F, or ""
    if (!seen.insert(F).second) return ""; auto at = [&](const Instruction &i) { return " at " + Interp::locOf(&i) + " in " + F->getName().str(); };
    for (auto &b : *F) for (auto &i : b) { insts++;
        if (auto *c = dyn_cast<CallBase>(&i)) { if (isa<InvokeInst>(&i)) return "exception-handling call" + at(i); if (c->isInlineAsm()) return "inline assembly" + at(i); auto *g = c->getCalledFunction(); if (!g) return "indirect call" + at(i);
            if (g->isIntrinsic()) { switch (g->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::copysign: case Intrinsic::sqrt: case Intrinsic::fma: case Intrinsic::fmuladd: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::is_fpclass: case Intrinsic::abs: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::expect: case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: break; default: return "intrinsic " + g->getName().str() + at(i); } continue; }
            if (g->isDeclaration()) return "call of the external function " + g->getName().str() + at(i); std::string r = pureReach(g, seen, insts); if (!r.empty()) return r; continue; }
        auto base = [](const Value *p) { for (int k = 0; k < 100; k++) { if (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand(); else if (auto *c = dyn_cast<CastInst>(p)) p = c->getOperand(0); else break; } return p; };
        if (auto *l = dyn_cast<LoadInst>(&i)) { if (l->isVolatile() || l->isAtomic()) return "volatile or atomic access" + at(i); if (auto *g = dyn_cast<GlobalVariable>(base(l->getPointerOperand()))) if (!g->isConstant()) return "read of the mutable global " + g->getName().str() + at(i); }
        else if (auto *st = dyn_cast<StoreInst>(&i)) { if (st->isVolatile() || st->isAtomic()) return "volatile or atomic access" + at(i); auto *g = base(st->getPointerOperand()); if (isa<GlobalVariable>(g) || isa<LoadInst>(g)) return "write outside the local frame" + at(i); }
        else if (isa<FenceInst>(&i) || isa<AtomicRMWInst>(&i) || isa<AtomicCmpXchgInst>(&i) || isa<ResumeInst>(&i) || isa<LandingPadInst>(&i) || isa<VAArgInst>(&i) || isa<PtrToIntInst>(&i) || isa<IntToPtrInst>(&i) || isa<CallBrInst>(&i) || isa<IndirectBrInst>(&i)) return std::string("instruction ") + i.getOpcodeName() + at(i);
    }
    return "";
}
static thread_local int gTrel = 0; // order of the two arguments assumed by an accuracy evaluation
static ST evalCell1(Job &j, const Cell &c, std::string &detail, R &worst, bool noAssume) {
    Pred &p = j.p; bool point = isPoint(c); Opts o; o.maxSteps = (point || c.depth > 10) && p.k != "acc" ? j.maxSteps * 20 : j.maxSteps; o.fix = j.fix; o.maxDepth = j.maxDepth; int nv = (int)std::max<size_t>(1, j.argOf.size()) + j.noise; o.noise = j.noise; o.recShift = j.rshift;
    if (p.k == "pure") { std::set<const Function *> seen; long n = 0; const Function *F = findFn(j.module, j.fn); std::string r = pureReach(F, seen, n); { std::lock_guard<std::mutex> g(j.mu); for (auto *f : seen) j.fns.insert(f->getName().str()); j.steps += n; } if (r.empty()) return PROVED; detail = r; return REFUTED; }
    if (p.k == "symeq") {
        SymTab st; o.sym = true; o.fix = false; if (!j.opaque.empty()) o.opaque = &j.opq; if (!j.oddf.empty()) o.oddFns = &j.oddf; o.rel = j.rel == 2 ? 0 : j.rel; std::vector<AV> a, b; for (size_t i = 0; i < c.a.size(); i++) a.push_back(argAV(c.a[i], i, nullptr, &st, false));
        bool sgn = false; if (j.rel == 2 && a.size() == 2) { a[1].sym = a[0].sym; } // equal arguments
        if (j.argmap == "neg") { for (size_t i = 0; i < c.a.size(); i++) b.push_back(argAV(c.a[i], i, nullptr, &st, true)); sgn = p.mode == "odd"; }
        else if (j.argmap == "neg0") { for (size_t i = 0; i < c.a.size(); i++) b.push_back(argAV(c.a[i], i, nullptr, &st, i == 0)); sgn = p.mode == "odd"; }
        else if (j.argmap == "neg1") { for (size_t i = 0; i < c.a.size(); i++) b.push_back(argAV(c.a[i], i, nullptr, &st, i == 1)); sgn = p.mode == "odd"; }
        else if (j.argmap == "swap") { b = a; std::swap(b[0], b[1]); }
        else b = a;
        if (j.rel == 2 && b.size() == 2) b[0].sym = b[1].sym = a[0].sym;
        RunOut r1 = runCell(j, j.module, j.fn, a, o, &st), r2 = runCell(j, j.module2.empty() ? j.module : j.module2, j.fn2.empty() ? j.fn : j.fn2, b, o, &st);
        if (r1.resource || r2.resource) { detail = "budget"; return UNKNOWN; }
        AV x = r1.r, y = r2.r; if (x.k != y.k) throw Unsupported("result kinds");
        if (x.k == AV::Flt && sgn) { y.f = fv_neg(y.f); y.sneg = !y.sneg; }
        if (x.k == AV::Flt && x.ft != y.ft) { detail = "result types differ"; return REFUTED; }
        if (x.sym && x.sym == y.sym && x.sneg == y.sneg) return PROVED;
        if (x.k == AV::Flt) { if (x.f.bot() || y.f.bot()) { detail = "unreachable"; return point ? REFUTED : UNKNOWN; } if (x.f.isnan() && y.f.isnan()) return PROVED; if (!x.f.nan && !y.f.nan && x.f.lo == x.f.hi && y.f.lo == y.f.hi && x.f.lo == y.f.lo) return PROVED;
            detail = "values " + fvs(x.f) + " vs " + fvs(y.f); FV m = fv_meet(x.f, y.f); bool z = !x.f.emp && !y.f.emp && x.f.lo <= 0 && x.f.hi >= 0 && y.f.lo <= 0 && y.f.hi >= 0; if (m.bot() && !z) return REFUTED; }
        else if (x.k == AV::Int) { if (isingle(x) && isingle(y) && x.ulo == y.ulo) return PROVED; detail = "integers differ"; if (x.slo > y.shi || y.slo > x.shi) return REFUTED; }
        return UNKNOWN;
    }
    if (p.k == "lin") {
        o.lin = true; o.fclass = c.cls; const Arg &a = c.a[0]; FT t = a.t; AV x = av_flt(t, fv_range(a.lo, a.hi)); if (a.lo <= 0 && a.hi >= 0) { x.f.pz = a.pz; x.f.nz = a.nz; } R m = std::max(fabsl(a.lo), fabsl(a.hi)), mn = std::min(fabsl(a.lo), fabsl(a.hi)); int e = 0; bool big = false;
        if (mn >= 1) { frexpl(mn, &e); o.linGrid = ldexpl(1, e - ft_p(t)); o.linMax = ldexpl(1, e); if (o.linGrid > 1) big = true; } else { o.linGrid = 0; o.linMax = 0; } (void)m; (void)big;
        x.lin.ok = true; x.lin.an = 1; x.lin.af = 1; x.lin = o.fclass == 0 ? Lin{ true, 1, 0, 0 } : o.fclass == 2 ? Lin{ true, 1, 0, 0.5L } : Lin{ true, 1, 1, 0 };
        R add = 0; bool neg = a.hi <= 0 && a.lo < 0; bool fr = c.cls != 0;
        if (p.mode == "ceil") add = fr; else if (p.mode == "trunc") add = neg && fr; else if (p.mode == "round") add = neg ? (c.cls == 3) : (c.cls >= 2); else add = 0;
        RunOut ro = runCell(j, j.module, j.fn, { x }, o, nullptr); if (ro.resource) { detail = "budget"; return UNKNOWN; }
        const AV &r = ro.r; if (r.lin.ok && r.lin.an == 1 && r.lin.af == 0 && r.lin.c == add && !r.f.nan) return PROVED;
        R nl = floorl(a.lo), nh = floorl(a.hi); if (fr && a.hi == nh && a.hi != a.lo) nh -= 1; // n = floor(x)
        if (c.cls == 0) { nl = ceill(a.lo); nh = floorl(a.hi); }
        if (nl > nh) return PROVED; // no such float in the cell
        detail = "result " + fvs(r.f) + " expected n" + (add ? "+1" : "") + " with n in [" + hexR(nl) + "," + hexR(nh) + "]";
        if (nl == nh && !r.f.nan && !r.f.emp && r.f.lo == r.f.hi && r.f.lo == nl + add) return PROVED;
        if (r.f.emp || (!r.f.nan && (r.f.hi < nl + add || r.f.lo > nh + add))) return REFUTED;
        if (r.lin.ok && r.lin.an == 1 && r.lin.af == 0 && r.lin.c != add && !r.f.nan) return REFUTED;
        return UNKNOWN;
    }
    bool acc = p.k == "acc"; if (acc || j.D > 0) { o.basis = bases.at({ nv, j.D }).get(); }
    static const Basis lin2(2, 1); bool own = gTrel && !o.basis; if (own) o.basis = &lin2; // the assumed order is decided on linear forms
    std::vector<AV> args; for (size_t i = 0; i < c.a.size(); i++) args.push_back(argAV(c.a[i], i, o.basis, nullptr, false, own ? (int)i : j.varOf.empty() ? -1 : j.varOf[i]));
    if (gTrel) { bool n0 = c.a[0].hi < 0, n1 = c.a[1].hi < 0; if (gTrel == 2) { AV x = args[0]; if (n0 != n1) { Interp tmp(mods.at(j.module).get(), o); x = tmp.fneg(x); } args[1] = x; } else { o.trel = gTrel; auto mag = [](const TMP &t, bool n) { return n ? std::make_shared<TM>(tm_neg(*t)) : t; }; o.trArg[0] = mag(args[0].tm, n0); o.trArg[1] = mag(args[1].tm, n1); } }
    if (!j.contracts.empty()) { o.contracts = &j.contracts; o.applyContract = applyContract; }
    if (j.opaque == "assume" && !noAssume) { o.opaque = &j.opq; o.opqDepth = &j.opqDepth; }
    for (auto &k : p.kinds) if (k.compare(0, 2, "fp") == 0) o.fpev = true;
    RunOut ro = runCell(j, j.module, j.fn, args, o, nullptr); bool wid = o.fix;
    if (ro.resource && !o.fix && !point && (p.k == "noevent" || p.k == "set")) { o.fix = wid = true; ro = runCell(j, j.module, j.fn, args, o, nullptr); }
    if (ro.resource && !point && p.k == "depth") { o.coarse = true; ro = runCell(j, j.module, j.fn, args, o, nullptr); if (ro.resource || ro.depth > p.maxDepth) { detail = "nested calls deeper than the analysis cap (depth seen " + std::to_string(ro.depth) + ")"; return UNKNOWN; } noteDepth(j, ro.depth); return PROVED; }
    if (p.k == "noevent") {
        if (ro.resource) { detail = "analysis budget exceeded"; return UNKNOWN; }
        bool any = false; for (auto &e : ro.ev) { bool rel = false; for (auto &k : p.kinds) if (e.kind.compare(0, k.size(), k) == 0) rel = true; bool ig = false; for (auto &s : p.ig) if ((e.kind + "@" + e.loc + e.chain).find(s) != std::string::npos) ig = true; if (rel && !ig) { any = true; detail = e.kind + " at " + e.loc + " in " + e.fn + e.chain; } }
        return any ? (point && !wid ? REFUTED : UNKNOWN) : PROVED;
    }
    if (p.k == "iref") { // integer functions at single points, against the definition
        if (!point) { detail = "not a point"; return UNKNOWN; } if (ro.resource) { detail = "budget"; return UNKNOWN; } I128 x = c.a[0].k == Arg::I ? c.a[0].il : (I128)c.a[0].lo, y = c.a.size() > 1 ? (c.a[1].k == Arg::I ? c.a[1].il : (I128)c.a[1].lo) : 0, v = 0;
        if (p.ref == "gcd" || p.ref == "lcm") { I128 a = x < 0 ? -x : x, b = y < 0 ? -y : y, u = a, w = b; while (w) { I128 t = u % w; u = w; w = t; } v = p.ref == "gcd" ? u : (u ? a / u * b : 0); }
        else if (p.ref == "binom") { if (y > x) v = 0; else { v = 1; for (I128 k = 1; k <= y; k++) v = v * (x - y + k) / k; } }
        else if (p.ref == "fact") { v = 1; for (I128 k = 2; k <= x; k++) v *= k; } else throw Unsupported("iref");
        bool ok = ro.r.k == AV::Int ? (isingle(ro.r) && (c.a[0].sgn ? ro.r.slo : ro.r.ulo) == v) : (ro.r.f.single() && ro.r.f.lo == (R)v); if (ok) return PROVED; detail = "result " + (ro.r.k == AV::Int ? "[" + std::to_string((long long)ro.r.slo) + "," + std::to_string((long long)ro.r.shi) + "]" : fvs(ro.r.f)) + " expected " + std::to_string((long long)v); bool sg = ro.r.k == AV::Int ? isingle(ro.r) : ro.r.f.single(); return sg ? REFUTED : UNKNOWN; }
    if (p.k == "depth") { if (ro.resource) { detail = "evaluation depth/steps exceed the analysis cap (depth seen " + std::to_string(ro.depth) + ")"; return point ? REFUTED : UNKNOWN; } if (ro.depth <= p.maxDepth) { noteDepth(j, ro.depth); return PROVED; } detail = "nested call depth " + std::to_string(ro.depth) + " > " + std::to_string(p.maxDepth); return point ? REFUTED : UNKNOWN; }
    if (ro.resource) { detail = "budget"; return UNKNOWN; }
    const AV &r = ro.r;
    if (p.k == "set") {
        if (r.k == AV::Int) { R l = (R)(p.mode == "u" ? r.ulo : r.slo), h = (R)(p.mode == "u" ? r.uhi : r.shi); FV f = fv_range(l, h); if (r.isbot()) { detail = "unreachable"; return REFUTED; } Pred q = p; q.zero = -1; if (inSet(f, q)) return PROVED; detail = "result " + fvs(f); return disjSet(f, q) ? REFUTED : UNKNOWN; }
        if (r.k != AV::Flt) throw Unsupported("result kind"); if (r.f.bot()) { detail = "no result"; return UNKNOWN; } if (inSet(r.f, p)) return PROVED; detail = "result " + fvs(r.f); return disjSet(r.f, p) ? REFUTED : UNKNOWN;
    }
    if (acc) {
        TM f = tm_const(o.basis, 0); bool haveRef = true;
        try { std::vector<TM> ra; for (size_t i = 0; i < args.size(); i++) { if (args[i].tm) ra.push_back(*args[i].tm); else if (args[i].k == AV::Int && args[i].slo == args[i].shi) ra.push_back(tm_const(o.basis, (R)(c.a[i].sgn ? args[i].slo : args[i].ulo))); else throw RefFail("arg"); } f = refTable().at(p.ref)(ra); if (!tm_ok(f)) haveRef = false; } catch (RefFail &) { haveRef = false; }
        if (!haveRef) { detail = "reference not enclosable on this cell; result " + fvs(r.f); return UNKNOWN; }
        R fl, fh; tm_bounds(f, fl, fh); R fmin = (fl <= 0 && fh >= 0) ? 0 : std::min(fabsl(fl), fabsl(fh)), fmax = std::max(fabsl(fl), fabsl(fh)); R tolMin = p.rel ? p.tol * fmin + p.atol : p.tol * (1 + fmin), tolMax = p.rel ? p.tol * fmax + p.atol : p.tol * (1 + fmax);
        FV g = r.f; TMP gt; { Interp tmp(mods.at(j.module).get(), o); gt = tmp.getTM(r); }
        if (gt && !g.nan) { TM d = tm_add(*gt, f, -1); R m = tm_maxabs(d), lo, hi; tm_bounds(d, lo, hi); m = std::min(m, std::max(fabsl(lo), fabsl(hi))); worst = m / (p.rel ? std::max(fmin, p.atol / p.tol) : (1 + fmin)); if (m <= tolMin) return PROVED; detail = "error in [" + hexR(lo) + ", " + hexR(hi) + "] allowed " + hexR(tolMin) + " (result " + fvs(g) + ", exact [" + hexR(fl) + ", " + hexR(fh) + "])"; if (lo > tolMax || hi < -tolMax) return REFUTED; }
        else detail = "result " + fvs(g) + ", exact [" + hexR(fl) + ", " + hexR(fh) + "]";
        if (g.bot()) return UNKNOWN; if (g.emp && g.nan) return REFUTED; if (!g.nan && (g.lo > fh + tolMax || g.hi < fl - tolMax)) return REFUTED;
        return UNKNOWN;
    }
    if (p.k == "inv") { // the exact forward function at the result gives back the last argument
        TMP gt; { Interp tmp(mods.at(j.module).get(), o); gt = tmp.getTM(r); if (gt && o.noise) { std::vector<AV> w{ r }; w[0].tm = gt; tmp.renameNoise(w); gt = w[0].tm; } } detail = "result " + fvs(r.f);
        if (!gt || r.f.nan || r.f.emp) return r.f.emp && r.f.nan ? REFUTED : UNKNOWN;
        try { std::vector<TM> ra; for (size_t i = 0; i + 1 < args.size(); i++) { if (!args[i].tm) return UNKNOWN; ra.push_back(*args[i].tm); } ra.push_back(*gt); TM f = refTable().at(p.ref)(ra); if (!tm_ok(f) || !args.back().tm) return UNKNOWN;
            TM d = tm_add(f, *args.back().tm, -1); R lo, hi; tm_bounds(d, lo, hi); R m = std::max(fabsl(lo), fabsl(hi)); worst = m; if (m <= p.tol) return PROVED; detail += ", forward value minus argument in [" + hexR(lo) + ", " + hexR(hi) + "]"; return lo > p.tol || hi < -p.tol ? REFUTED : UNKNOWN; }
        catch (RefFail &e) { detail += std::string(", reference not enclosable: ") + e.what(); return UNKNOWN; }
    }
    throw Unsupported("predicate " + p.k);
}
static ST evalCell(Job &j, const Cell &c, std::string &detail, R &worst) {
    bool as = j.opaque == "assume"; ST s = evalCell1(j, c, detail, worst, false);
    auto near = [&] { R a = std::min(fabsl(c.a[0].lo), fabsl(c.a[1].lo)), b = std::max(fabsl(c.a[0].lo), fabsl(c.a[1].lo)); for (auto &x : c.a) a = std::min(a, fabsl(x.hi)), b = std::max(b, fabsl(x.hi)); return a > 0 && b <= 1e6L * a; };
    if (s == UNKNOWN && c.a.size() == 2 && (j.p.k == "acc" || ((j.p.k == "set" || j.p.k == "noevent") && c.a[0].k == Arg::F && c.a[1].k == Arg::F && near())) && c.a[0].k == Arg::F && c.a[1].k == Arg::F && c.a[0].t == c.a[1].t && (c.a[0].lo > 0 || c.a[0].hi < 0) && (c.a[1].lo > 0 || c.a[1].hi < 0) && (c.a[0].lo < c.a[0].hi || c.a[1].lo < c.a[1].hi) && std::min(fabsl(c.a[0].lo), fabsl(c.a[0].hi)) <= std::max(fabsl(c.a[1].lo), fabsl(c.a[1].hi)) && std::min(fabsl(c.a[1].lo), fabsl(c.a[1].hi)) <= std::max(fabsl(c.a[0].lo), fabsl(c.a[0].hi))) { // either order, or equal
        bool ok = true; R w = 0; for (int rel : { -1, 1, 2 }) { std::string d; R ww = 0; gTrel = rel; ST t; try { t = evalCell1(j, c, d, ww, false); } catch (...) { gTrel = 0; throw; } gTrel = 0; if (t != PROVED) { ok = false; break; } w = std::max(w, ww); } if (ok) { worst = w; return PROVED; } }
    if (as && s != PROVED) { if (isPoint(c)) return evalCell1(j, c, detail, worst, true); return UNKNOWN; } // values of assumed callees are unconstrained: no refutation from them
    return s;
}
static std::string bodyText(const Function *F, ModuleSlotTracker &mst) {
    std::string t; raw_string_ostream os(t); mst.incorporateFunction(*F); F->getFunctionType()->print(os); os << "\n";
    for (auto &b : *F) { os << "B" << &b - &*F->begin() << "\n"; for (auto &i : b) { if (isa<DbgInfoIntrinsic>(&i)) continue; i.print(os, mst); os << "\n"; for (auto &op : i.operands()) if (auto *g = dyn_cast<GlobalVariable>(op.get())) if (g->hasInitializer()) { g->getInitializer()->print(os); os << "\n"; } } }
    os.flush(); std::string r; for (size_t p = 0; p < t.size();) { // strip metadata and attribute-group references
        if (t[p] == '!' && p + 1 < t.size() && (isalnum(t[p + 1]))) { p++; while (p < t.size() && (isalnum(t[p]) || t[p] == '.' || t[p] == '_')) p++; continue; }
        if (t[p] == '#' && p + 1 < t.size() && isdigit(t[p + 1])) { p++; while (p < t.size() && isdigit(t[p])) p++; continue; }
        if (t[p] == 'B' && (p == 0 || t[p - 1] == '\n')) { while (p < t.size() && t[p] != '\n') p++; r += 'B'; continue; }
        r += t[p++]; }
    std::string q; std::istringstream is(r); std::string l; while (std::getline(is, l)) { while (!l.empty() && (l.back() == ' ' || l.back() == ',')) l.pop_back(); q += l + "\n"; } return q;
}
static std::map<std::string, std::set<std::string>> sameCache;
static const std::set<std::string> &sameSet(const Module *A, const Module *B, const std::set<std::string> &eq) {
    std::string key; for (auto &s : eq) key += s + ";"; key += A->getModuleIdentifier() + B->getModuleIdentifier(); auto it = sameCache.find(key); if (it != sameCache.end()) return it->second;
    static std::map<const Module *, std::map<std::string, std::string>> txt; for (auto *M : { A, B }) if (!txt.count(M)) { auto &t = txt[M]; ModuleSlotTracker mst(M); for (auto &f : *M) if (!f.isDeclaration()) t[f.getName().str()] = bodyText(&f, mst); }
    std::set<std::string> S; for (auto &kv : txt[A]) { auto o = txt[B].find(kv.first); if (eq.count(kv.first) || (o != txt[B].end() && o->second == kv.second)) S.insert(kv.first); }
    for (bool ch = true; ch;) { ch = false; for (auto i = S.begin(); i != S.end();) { bool ok = true; if (!eq.count(*i)) { auto *F = A->getFunction(*i); for (auto &b : *F) for (auto &x : b) if (auto *c = dyn_cast<CallInst>(&x)) if (auto *g = c->getCalledFunction()) if (!g->isDeclaration() && !S.count(g->getName().str())) ok = false; } if (!ok) { i = S.erase(i); ch = true; } else ++i; } }
    return sameCache[key] = S;
}
static std::vector<std::unique_ptr<Job>> jobs; static std::mutex gmu; static std::condition_variable gcv; static std::atomic<int> remaining;
static std::set<std::string> expected; static double failGrace = 30, wallMax = 800; static Clk::time_point tStart = Clk::now(), tFail; static std::atomic<bool> failed{ false };
static void finish(Job &j, const std::string &st);
static bool nextWork(Job *&jo, Cell &c) {
    std::unique_lock<std::mutex> g(gmu);
    for (;;) {
        if (remaining == 0) return false;
        if (secs(tStart) > wallMax || (failed && secs(tFail) > failGrace)) { for (auto &jp : jobs) { std::lock_guard<std::mutex> l(jp->mu); if (!jp->done) finish(*jp, "skipped"); } return false; }
        for (auto &jp : jobs) { Job &j = *jp; std::lock_guard<std::mutex> l(j.mu); if (j.done || j.q.empty()) continue; if (!j.started) { j.started = true; j.t0 = Clk::now(); } c = j.q.back(); j.q.pop_back(); j.active++; jo = &j; return true; }
        gcv.wait_for(g, std::chrono::milliseconds(20));
    }
}
static void finish(Job &j, const std::string &st) { // j.mu held
    if (j.done) return; j.done = true; if (!st.empty()) j.status = st; j.t = j.cpu; remaining--; j.q.clear(); if ((j.status == "refuted" || j.status == "unproved") && !expected.count(j.id) && !failed) { tFail = Clk::now(); failed = true; }
}
static double threadCpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static void *worker(void *) {
    Job *j; Cell c;
    while (nextWork(j, c)) {
        std::string detail; R worst = 0; ST s = UNKNOWN; std::string err;
        Hint hh; hintOut = &hh; double t1 = threadCpu(); try { s = evalCell(*j, c, detail, worst); } catch (Unsupported &e) { err = e.what(); } catch (std::exception &e) { err = std::string("internal: ") + e.what(); }
        { std::lock_guard<std::mutex> l(j->mu); static bool tr = getenv("GVA_TRACE"); if (tr) std::cerr << (s == PROVED ? "P " : s == REFUTED ? "R " : "U ") << cellStr(c) << " hint " << hh.v << " " << (double)hh.u << " " << (double)hh.b << " " << (s == PROVED ? "" : detail) << "\n"; j->active--; j->cells++; j->cpu += threadCpu() - t1;
            if (!j->done) {
                if (!err.empty()) { j->detail = err; finish(*j, "error"); }
                else if (s == PROVED) { j->leaves++; if (worst > j->worst) j->worst = worst; if (j->samples.size() < 3) j->samples.push_back(cellStr(c)); }
                else if (s == REFUTED) { j->witness = cellStr(c); j->detail = detail; finish(*j, "refuted"); }
                else {
                    std::vector<Cell> ch; if (!hintSplit(c, hh.v, hh.u, hh.b, ch)) { ch = split(c, j->p.k == "acc", hh.amb != 0); } if (ch.empty()) { j->nunres++; j->unresolved = cellStr(c); j->witness = cellStr(c); j->detail = detail; finish(*j, "unproved"); }
                    else { j->witness = cellStr(c); j->detail = detail; for (auto it = ch.rbegin(); it != ch.rend(); ++it) j->q.push_back(*it); }
                    if (!j->done && (j->cells > j->maxCells || j->cpu > j->maxSec)) finish(*j, "unproved");
                }
                if (!j->done && j->q.empty() && j->active == 0) { j->witness = j->detail = ""; finish(*j, ""); }
            } }
        gcv.notify_all();
    }
    return nullptr;
}
static FT ftS(const std::string &s) { return s == "f32" ? F32 : s == "f80" ? F80 : F64; }
static Arg parseArg(const json::Object &o) {
    Arg a; std::string t = o.getString("t")->str();
    if (t[0] == 'f') { a.t = ftS(t); if (auto v = o.get("v")) { R x = jnum(*v); if (std::isnan(x)) { a.k = Arg::NaN; return a; } a.lo = a.hi = ft_round(x, a.t); if (x == 0) { bool n = std::signbit(x); a.pz = !n; a.nz = n; a.lo = a.hi = 0; } if (o.getBoolean("anyzero").value_or(false)) a.pz = a.nz = true; return a; }
        R l = jnum(*o.get("lo")), h = jnum(*o.get("hi")); a.lo = ft_round(l, a.t); if (a.lo < l) a.lo = ft_next(a.lo, a.t, true); a.hi = ft_round(h, a.t); if (a.hi > h) a.hi = ft_next(a.hi, a.t, false);
        if (o.getBoolean("openlo").value_or(false) && a.lo == l) a.lo = ft_next(a.lo, a.t, true); if (o.getBoolean("openhi").value_or(false) && a.hi == h) a.hi = ft_next(a.hi, a.t, false); if (a.lo == 0) a.lo = 0; if (a.hi == 0) a.hi = 0; return a; }
    a.k = Arg::I; a.sgn = t[0] == 'i'; a.w = atoi(t.c_str() + 1); auto gi = [&](const char *k) -> I128 { auto *v = o.get(k); if (auto s = v->getAsString()) { std::string q = s->str(); bool n = q[0] == '-'; I128 r = 0; for (char ch : q) if (isdigit(ch)) r = r * 10 + (ch - '0'); return n ? -r : r; } return (I128)*v->getAsInteger(); };
    if (o.get("v")) a.il = a.ih = gi("v"); else { a.il = gi("lo"); a.ih = gi("hi"); } return a;
}
static void linCells(Job &j, FT t, R maxAbs) { // cells tiling every finite float by sign, binade and fractional class
    int emax = t == F32 ? 128 : t == F64 ? 1024 : 16384; int p = ft_p(t);
    for (int sg = 0; sg < 2; sg++) {
        auto add = [&](R lo, R hi, int cls) { Cell c; Arg a; a.t = t; a.lo = sg ? -hi : lo; a.hi = sg ? -lo : hi; if (fabsl(a.lo) > maxAbs) {} c.a = { a }; c.cls = cls; j.q.push_back(c); };
        R d = ft_denorm(t); // |x| < 1 : for negatives x = n + f with n = -1, f = 1-|x|
        if (!sg) { add(d, ft_next(0.5L, t, false), 1); add(0.5L, 0.5L, 2); add(ft_next(0.5L, t, true), ft_next(1, t, false), 3); }
        else { add(d, ft_next(0.5L, t, false), 3); add(0.5L, 0.5L, 2); add(ft_next(0.5L, t, true), ft_next(1, t, false), 1); }
        int fracMax = p - 1; // |x| >= 2^(p-1): integers only
        for (int k = 0; k < fracMax; k++) { R lo = ldexpl(1, k), hi = ft_next(ldexpl(1, k + 1), t, false); if (k == fracMax - 1) { add(lo, hi, 0); add(lo, hi, 2); } else for (int cls = 0; cls < 4; cls++) add(lo, hi, cls); }
        for (int k = fracMax; k < emax;) { int step = k > p + 4 ? emax - k : 1; R lo = ldexpl(1, k), hi = k + step >= emax ? ft_max(t) : ft_next(ldexpl(1, k + step), t, false); add(lo, hi, 0); k += step; }
    }
    Cell z; Arg a; a.t = t; a.lo = a.hi = 0; z.a = { a }; z.cls = 0; j.q.push_back(z);
}
int main(int argc, char **argv) {
    if (argc < 3) { std::cerr << "usage: gva jobs.json out.json [threads]\n"; return 2; }
    std::ifstream f(argv[1]); std::stringstream ss; ss << f.rdbuf(); auto v = json::parse(ss.str()); if (!v) { std::cerr << "bad json\n"; return 2; }
    auto *top = v->getAsObject();
    try { for (auto &kv : *top->getObject("modules")) mods[kv.first.str()] = loadModule(kv.second.getAsString()->str()); } catch (Unsupported &e) { std::cerr << e.what() << "\n"; return 2; }
    if (auto *e = top->getArray("expected")) for (auto &v : *e) expected.insert(v.getAsString()->str()); failGrace = top->getNumber("grace").value_or(1e9); wallMax = top->getNumber("wall").value_or(800);
    for (auto &jv : *top->getArray("jobs")) {
        auto &o = *jv.getAsObject(); auto j = std::make_unique<Job>(); j->id = o.getString("id")->str(); j->module = o.getString("module")->str(); j->fn = o.getString("fn")->str(); if (auto s = o.getString("module2")) j->module2 = s->str(); if (auto s = o.getString("fn2")) j->fn2 = s->str(); if (auto s = o.getString("argmap")) j->argmap = s->str(); if (auto s = o.getString("opaque")) j->opaque = s->str(); if (auto s = o.getString("rel")) j->rel = *s == "lt" ? -1 : *s == "gt" ? 1 : 2;
        j->D = (int)o.getInteger("D").value_or(0); j->noise = (int)o.getInteger("noise").value_or(0); j->rshift = (int)o.getInteger("rshift").value_or(0); j->maxCells = o.getInteger("cells").value_or(20000); j->maxSec = o.getNumber("sec").value_or(60); j->maxSteps = o.getInteger("steps").value_or(3000000); j->fix = o.getBoolean("fix").value_or(false); j->maxDepth = (int)o.getInteger("maxdepth").value_or(20000);
        auto &po = *o.getObject("pred"); Pred &p = j->p; p.k = po.getString("k")->str(); p.nan = po.getBoolean("nan").value_or(false); if (auto *a = po.getArray("ranges")) for (auto &r : *a) { auto &ra = *r.getAsArray(); p.ranges.push_back({ jnum(ra[0]), jnum(ra[1]) }); } if (auto s = po.getString("ref")) p.ref = s->str(); if (auto *t = po.get("tol")) p.tol = jnum(*t); if (auto *t = po.get("atol")) p.atol = jnum(*t); p.rel = po.getBoolean("rel").value_or(false); if (auto s = po.getString("mode")) p.mode = s->str(); p.maxDepth = (int)po.getInteger("max").value_or(0); p.zero = (int)po.getInteger("zero").value_or(-1); if (auto *a = po.getArray("kinds")) for (auto &k : *a) p.kinds.insert(k.getAsString()->str()); if (auto *a = po.getArray("ignore")) for (auto &k : *a) p.ig.push_back(k.getAsString()->str());
        if (p.k == "acc" && !refTable().count(p.ref)) { std::cerr << "unknown ref " << p.ref << "\n"; return 2; }
        if (p.k == "lin") linCells(*j, ftS(o.getString("t")->str()), INF);
        if (auto *da = o.getArray("domains")) for (auto &d : *da) { Cell c; for (auto &av : *d.getAsArray()) c.a.push_back(parseArg(*av.getAsObject())); bool ok = true; for (auto &x : c.a) if (x.k == Arg::F && x.lo > x.hi) ok = false; if (ok) j->q.push_back(c); }
        if (j->D > 0) { size_t na = j->q.empty() ? 1 : j->q.front().a.size(); j->varOf.assign(na, -1); for (size_t i = 0; i < na; i++) { bool var = false; for (auto &c : j->q) if (c.a.size() == na && c.a[i].k == Arg::F && c.a[i].lo != c.a[i].hi) var = true; if (var) { j->varOf[i] = (int)j->argOf.size(); j->argOf.push_back((int)i); } } int nv = std::max<size_t>(1, j->argOf.size()) + j->noise; auto &b = bases[{ nv, j->D }]; if (!b) { b = std::make_unique<Basis>(nv, j->D); if (b->n > TMMAX) { std::cerr << "basis too large\n"; return 2; } } }
        if (j->opaque == "common") { try { std::set<std::string> a, b; reach(findFn(j->module, j->fn), a); reach(findFn(j->module2.empty() ? j->module : j->module2, j->fn2.empty() ? j->fn : j->fn2), b); for (auto &s : a) if (b.count(s) && s != j->fn && s != j->fn2) j->opq.insert(s); } catch (Unsupported &e) { j->status = "error"; j->detail = e.what(); j->done = true; } }
        if (j->opaque == "same" && !j->done) { try { // functions with identical bodies in both modules (transitively), or assumed equal by another obligation
            const Module *A = mods.at(j->module)->m.get(), *B = mods.at(j->module2)->m.get(); std::set<std::string> eq; if (auto *as = o.getArray("equal")) for (auto &v : *as) { auto *w = A->getFunction(v.getAsString()->str()); if (!w || v.getAsString()->str() == j->fn) continue; const Function *r = nullptr; int n = 0; for (auto &bb : *w) for (auto &i : bb) if (auto *c = dyn_cast<CallInst>(&i)) if (auto *g = c->getCalledFunction()) if (!g->isDeclaration()) { r = g; n++; } if (n == 1) eq.insert(r->getName().str()); }
            for (auto &s : sameSet(A, B, eq)) if (s != j->fn) j->opq.insert(s); } catch (Unsupported &e) { j->status = "error"; j->detail = e.what(); j->done = true; } }
        auto calleeOf = [&](const std::string &w) -> const Function * { auto it = mods.find(j->module); if (it == mods.end()) return nullptr; auto *F = it->second->m->getFunction(w); if (!F) return nullptr; const Function *r = nullptr; for (auto &bb : *F) for (auto &i : bb) if (auto *c = dyn_cast<CallInst>(&i)) if (auto *g = c->getCalledFunction()) if (!g->isDeclaration()) { if (r && r != g) return nullptr; r = g; } return r; };
        if (auto *as = o.getObject("assume")) { const Function *own = calleeOf(j->fn); for (auto &kv : *as) { auto *g = calleeOf(kv.first.str()); if (g && g != own) { j->opq.insert(g->getName().str()); j->opqDepth[g->getName().str()] = (int)kv.second.getAsInteger().value_or(0); } } if (!j->opq.empty()) j->opaque = "assume"; }
        if (auto *as = o.getArray("odd")) { const Function *own = calleeOf(j->fn); for (auto &v : *as) { auto *g = calleeOf(v.getAsString()->str()); if (g && g != own) { j->opq.insert(g->getName().str()); j->oddf.insert(g->getName().str()); j->opaque = "assume"; } } }
        if (auto *ca = o.getArray("contracts")) { const Function *own = calleeOf(j->fn); for (auto &cv : *ca) { auto &co = *cv.getAsObject(); const Function *g = calleeOf(co.getString("fn")->str()); if (!g || g == own) continue; Contract k; k.ref = co.getString("ref")->str(); if (!refTable().count(k.ref)) { std::cerr << "unknown ref\n"; return 2; } for (auto &x : *co.getArray("lo")) k.lo.push_back(jnum(x)); for (auto &x : *co.getArray("hi")) k.hi.push_back(jnum(x)); k.tol = jnum(*co.get("tol")); if (auto *t = co.get("atol")) k.atol = jnum(*t); k.rel = co.getBoolean("rel").value_or(false);
            for (int guard = 0; g && guard < 8; guard++) { j->contracts[g->getName().str()].push_back(k); // follow plain forwarding: { return h(same arguments); }
                const Function *h = nullptr; int calls = 0; bool plain = g->size() == 1; for (auto &bb : *g) for (auto &i : bb) { if (isa<DbgInfoIntrinsic>(&i)) continue; if (auto *c = dyn_cast<CallInst>(&i)) { calls++; h = c->getCalledFunction(); if (!h || h->isDeclaration() || c->arg_size() != g->arg_size() || h == own) plain = false; else for (unsigned q = 0; q < c->arg_size(); q++) if (c->getArgOperand(q) != g->getArg(q)) plain = false; } else if (!isa<ReturnInst>(&i)) plain = false; }
                if (!plain || calls != 1) break; g = h; } } }
        if (j->q.empty() && !j->done) { j->status = "error"; j->detail = "empty domain"; j->done = true; }
        jobs.push_back(std::move(j));
    }
    int n = 0; for (auto &j : jobs) if (!j->done) n++; remaining = n; int T = argc > 3 ? atoi(argv[3]) : 8; std::vector<pthread_t> th(T); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30);
    for (auto &t : th) if (pthread_create(&t, &at, worker, nullptr)) { std::cerr << "thread\n"; return 2; } for (auto &t : th) pthread_join(t, nullptr);
    json::Array out; for (auto &jp : jobs) { Job &j = *jp; json::Object r; r["id"] = j.id; r["status"] = j.status; r["cells"] = (int64_t)j.cells; r["leaves"] = (int64_t)j.leaves; r["steps"] = (int64_t)j.steps; r["depth"] = j.depthSeen; r["functions"] = (int64_t)j.fns.size(); json::Array fa; for (auto &s : j.fns) fa.push_back(s); r["fns"] = std::move(fa); if (!j.witness.empty()) r["witness"] = j.witness; if (!j.detail.empty()) r["detail"] = j.detail; r["sec"] = j.t; r["worst"] = (double)j.worst; json::Array sa; for (auto &s : j.samples) sa.push_back(s); r["samples"] = std::move(sa); out.push_back(std::move(r)); }
    std::error_code ec; raw_fd_ostream os(argv[2], ec); os << formatv("{0:2}", json::Value(std::move(out))) << "\n"; return 0;
}
