// Abstract interpreter over LLVM IR (SSA form after sroa/loop-simplify/lcssa).
// Nothing is executed: every IR value is mapped to an abstract value (dom.hpp) that over-approximates
// all values it can take for all arguments inside the analysed cell.
#pragma once
#include "dom.hpp"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include <functional>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <set>
#include <mutex>
#include <stdexcept>
using namespace llvm;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct Resource : std::runtime_error { using std::runtime_error::runtime_error; };

struct FuncInfo {
    std::unordered_map<const Value *, int> id; int n = 0;
    std::unordered_map<const BasicBlock *, int> prio; std::vector<const BasicBlock *> order;
    std::vector<char> header; std::vector<const void *> loop;     // by prio
    bool rec = false; // on a call-graph cycle
};
struct GObj { bool constant = false; uint64_t size = 0; std::map<int64_t, std::pair<AV, int>> cells; std::string name; };
struct ModInfo {
    std::unique_ptr<LLVMContext> ctx; std::unique_ptr<Module> m; std::string path;
    std::unordered_map<const Function *, FuncInfo> fi; std::unordered_map<const GlobalVariable *, int> gid; std::vector<GObj> gobj;
};
inline FT ftOf(Type *t) { if (t->isFloatTy()) return F32; if (t->isDoubleTy()) return F64; if (t->isX86_FP80Ty()) return F80; throw Unsupported("float type"); }
inline R apf(const APFloat &f) {
    if (f.isNaN()) return NAN; if (f.isInfinity()) return f.isNegative() ? -INF : INF;
    APFloat g = f; bool li; g.convert(APFloat::x87DoubleExtended(), APFloat::rmNearestTiesToEven, &li);
    APInt b = g.bitcastToAPInt(); uint64_t m = b.getRawData()[0]; uint16_t e = (uint16_t)b.getRawData()[1]; R v = 0; memcpy(&v, &m, 8); memcpy((char *)&v + 8, &e, 2); return v;
}
inline void flattenConst(const Constant *c, int64_t off, const DataLayout &dl, GObj &o) {
    Type *t = c->getType();
    if (auto *cf = dyn_cast<ConstantFP>(c)) { o.cells[off] = { av_flt(ftOf(t), fv_const(apf(cf->getValueAPF()))), (int)dl.getTypeStoreSize(t) }; return; }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return; int w = ci->getBitWidth(); o.cells[off] = { av_int(w, (I128)ci->getZExtValue(), (I128)ci->getZExtValue(), false), (int)dl.getTypeStoreSize(t) }; return; }
    if (auto *a = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = dl.getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) flattenConst(a->getElementAsConstant(i), off + i * es, dl, o); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = dl.getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) flattenConst(e, off + i * es, dl, o); return; }
    if (auto *s = dyn_cast<StructType>(t)) { auto *sl = dl.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) flattenConst(e, off + sl->getElementOffset(i), dl, o); return; }
}
inline std::unique_ptr<ModInfo> loadModule(const std::string &path) {
    auto mi = std::make_unique<ModInfo>(); mi->path = path; mi->ctx = std::make_unique<LLVMContext>(); SMDiagnostic d;
    mi->m = parseIRFile(path, d, *mi->ctx); if (!mi->m) throw Unsupported("cannot parse " + path + ": " + d.getMessage().str());
    const DataLayout &dl = mi->m->getDataLayout();
    for (auto &g : mi->m->globals()) {
        GObj o; o.name = g.getName().str(); o.constant = g.isConstant() && g.hasInitializer(); o.size = dl.getTypeAllocSize(g.getValueType());
        if (o.constant) flattenConst(g.getInitializer(), 0, dl, o);
        mi->gid[&g] = (int)mi->gobj.size() + 1; mi->gobj.push_back(std::move(o));
    }
    for (auto &f : *mi->m) {
        if (f.isDeclaration()) continue;
        FuncInfo fi; DominatorTree dt(f); LoopInfo li(dt);
        for (auto &a : f.args()) fi.id[&a] = fi.n++;
        for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) fi.id[&i] = fi.n++;
        std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> post;
        std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) {
            seen.insert(b); std::vector<std::pair<int, const BasicBlock *>> s;
            for (auto *x : successors(b)) { s.push_back({ (int)li.getLoopDepth(x), x }); }
            std::stable_sort(s.begin(), s.end(), [](auto &p, auto &q) { return p.first < q.first; });
            for (auto &p : s) if (!seen.count(p.second)) dfs(p.second);
            post.push_back(b);
        };
        dfs(&f.getEntryBlock());
        std::reverse(post.begin(), post.end()); fi.order = post; fi.header.assign(post.size(), 0); fi.loop.assign(post.size(), nullptr);
        for (size_t i = 0; i < post.size(); i++) { fi.prio[post[i]] = (int)i; fi.header[i] = li.isLoopHeader(post[i]); if (auto *L = li.getLoopFor(post[i])) fi.loop[i] = L->getHeader(); }
        mi->fi[&f] = std::move(fi);
    }
    std::unordered_map<const Function *, std::set<const Function *>> cg; for (auto &f : *mi->m) for (auto &b : f) for (auto &i : b) if (auto *c = dyn_cast<CallInst>(&i)) if (auto *g = c->getCalledFunction()) if (!g->isDeclaration()) cg[&f].insert(g);
    for (auto &kv : mi->fi) { std::set<const Function *> seen; std::vector<const Function *> w{ kv.first }; while (!w.empty() && !kv.second.rec) { auto *f = w.back(); w.pop_back(); for (auto *g : cg[f]) { if (g == kv.first) { kv.second.rec = true; break; } if (seen.insert(g).second) w.push_back(g); } } }
    return mi;
}

struct Contract; struct Interp;
struct SymTab {
    std::unordered_map<std::string, int> m; std::vector<std::string> names{ "" };
    std::map<int, std::array<int,4>> ext;
    int get(const std::string &k) { auto it = m.find(k); if (it != m.end()) return it->second; int id = (int)names.size(); names.push_back(k); m.emplace(k, id); return id; }
};
struct Opts {
    int trel = 0; TMP trArg[2]; /* assumed order of two Taylor-model arguments: -1 less, 1 greater */ int noise = 0, recShift = 0; /* noise: trailing basis variables that name the accumulated error of an iterated value */ const Basis *basis = nullptr; bool sym = false, lin = false; long maxSteps = 3000000; int maxDepth = 20000;
    const std::set<std::string> *opaque = nullptr; const std::set<std::string> *oddFns = nullptr; int rel = 0; /* assumed order of argument 0 against argument 1 */ const std::map<std::string, int> *opqDepth = nullptr; const std::map<std::string, std::vector<Contract>> *contracts = nullptr; bool (*applyContract)(Interp &, const Contract &, const Function *, const std::vector<AV> &, AV &) = nullptr; bool fix = false, coarse = false, fpev = false; R linMax = 0, linGrid = 0; R nlo = 0, nhi = 0; int fclass = 0; // 0:{0} 1:(0,.5) 2:{.5} 3:(.5,1)
};
struct Contract { std::string ref; std::vector<R> lo, hi; R tol = 0, atol = 0; bool rel = false; }; // result = ref(args) within tol, for arguments inside the box; an obligation of its own
struct Event { std::string kind, loc, fn, chain; };
typedef std::map<int, std::map<int64_t, std::pair<AV, int>>> Mem;   // obj -> off -> value
typedef std::shared_ptr<Mem> MemP;

struct BRInfo { bool feas[2] = { false, false }; std::vector<AV> args[2]; };
struct Path { std::vector<std::pair<int, AV>> ov; std::vector<AV> phis; MemP mem; int pc = 0; bool live = false; };

struct Interp {
    const ModInfo *mi; Opts o; SymTab *st = nullptr; std::vector<Event> events; std::set<std::string> evseen;
    long amb = 0; int hintVar = -1; R hintU = 0, hintBand = 0; std::map<std::string,long> *prof = nullptr; std::vector<const Function *> fstack; std::map<std::string, std::pair<AV, int>> memo; long steps = 0; int depth = 0, maxDepthSeen = 0; int nextObj = 1 << 20; std::map<int, uint64_t> objSize; std::set<const Function *> fnSeen; long callsSeen = 0; long blocksSeen = 0;
    std::vector<const Instruction *> callStack;
    struct Rec { const Function *f; std::vector<AV> args; AV sum; bool used = false; };
    std::vector<Rec> recs;
    Interp(const ModInfo *m, const Opts &oo) : mi(m), o(oo) {}

    // ---- helpers
    static std::string locOf(const Instruction *i) {
        if (auto &d = i->getDebugLoc()) { std::string f = d->getFilename().str(); auto p = f.find("include/"); if (p != std::string::npos) f = f.substr(p); return f + ":" + std::to_string(d.getLine()); }
        return std::string("<") + i->getFunction()->getName().str() + ">";
    }
    void event(const std::string &kind, const Instruction *i) {
        std::string l = locOf(i), key = kind + "@" + l; if (!evseen.insert(key).second) return;
        std::string ch; int n = 0; for (auto it = callStack.rbegin(); it != callStack.rend() && n < 6; ++it, ++n) { ch += " <- " + locOf(*it); }
        events.push_back({ kind, l, i->getFunction()->getName().str(), ch });
    }
    FV tmRange(const TM &t, FT ft) const {
        R lo, hi; tm_bounds(t, lo, hi); R L = ft_round(lo, ft), H = ft_round(hi, ft); if (L > lo) L = ft_next(L, ft, false); if (H < hi) H = ft_next(H, ft, true); return fv_range(L, H);
    }
    // invariant: tm != null  =>  the value is finite and lies in the Taylor model
    void hint(const AV &a, R thr, const AV *b) { // where, in argument space, an undecided comparison changes its outcome
        if (hintVar >= 0 || !o.basis || a.k != AV::Flt || !a.tm) return; TM d = *a.tm; if (b) { TMP t = getTM(*b); if (!t) return; d = tm_add(d, *t, -1); } else d.c[0] -= thr;
        const Basis *B = o.basis; int bv = -1; for (int v = 0; v < B->nv - o.noise && 1 + v < d.top; v++) if (bv < 0 || fabsl(d.c[1 + v]) > fabsl(d.c[1 + bv])) bv = v;
        if (bv < 0) return; R c1 = fabsl(d.c[1 + bv]), other = 0; for (int v = 0; v < B->nv && 1 + v < d.top; v++) if (v != bv) other += fabsl(d.c[1 + v]);
        R hi = 0; for (int k = 1 + B->nv; k < d.top; k++) hi += fabsl(d.c[k]); if (!(c1 > 0) || d.rem > 0.05L * c1 || other > 0.05L * c1 || hi > 0.3L * c1) return;
        R u = -d.c[0] / d.c[1 + bv]; if (!(fabsl(u) < 1)) return; hintVar = bv; hintU = u; hintBand = (d.rem + other + hi * 1.5L) / c1; }
    TMP getTM(const AV &a) const {
        if (!o.basis) return nullptr; if (a.tm) return a.tm;
        if (a.k == AV::Flt) { if (a.f.nan || a.f.emp || a.f.hasinf()) return nullptr; R m = a.f.lo / 2 + a.f.hi / 2; R r = std::max(a.f.hi - m, m - a.f.lo); return std::make_shared<TM>(tm_const(o.basis, m, a.f.lo == a.f.hi ? 0 : rup(r))); }
        if (a.k == AV::Int) { if (a.w > 64) return nullptr; R l = (R)a.slo, h = (R)a.shi; if (a.slo == a.shi) return std::make_shared<TM>(tm_const(o.basis, l)); }
        return nullptr;
    }
    void setTM(AV &a, TM t, R roundRel, R roundAbs) const {
        if (a.f.single()) { if (std::isfinite(a.f.lo)) a.tm = std::make_shared<TM>(tm_const(o.basis, a.f.lo)); return; }
        t.rem = rup(t.rem + tm_maxabs(t) * roundRel + roundAbs);
        if (!tm_ok(t)) return;
        R mx = tm_maxabs(t); if (!(mx < ft_max(a.ft))) { R lo, hi; tm_bounds(t, lo, hi); if (!(hi < ft_max(a.ft) && lo > -ft_max(a.ft))) return; }
        if (a.f.nan || a.f.hasinf()) { /* operands are finite and the exact result is in range: no NaN, no overflow */ }
        FV r = tmRange(t, a.ft); FV v = a.f; v.nan = false; FV m;
        if (v.emp) return;
        m.emp = false; m.lo = std::max(v.lo, r.lo); m.hi = std::min(v.hi, r.hi); m.pz = v.pz; m.nz = v.nz; m.norm();
        if (m.emp) { m = r; }
        a.f = m; if (a.f.lo == -INF) a.f.lo = -ft_max(a.ft); if (a.f.hi == INF) a.f.hi = ft_max(a.ft);
        a.tm = std::make_shared<TM>(t);
    }
    // ---- symbols
    int S(const std::string &k) { return st->get(k); }
    static std::string num(R v) { char b[64]; snprintf(b, 64, "%La", v); return b; }
    void symConst(AV &a) { if (!o.sym) return; if (a.k == AV::Flt && a.f.single()) { R v = a.f.lo; bool neg = v < 0 || (v == 0 && a.f.nz); a.sym = S("c" + num(fabsl(v))); a.sneg = neg; } else if (a.k == AV::Flt && a.f.isnan()) { a.sym = S("cNaN"); a.sneg = false; } else if (isingle(a)) { a.sym = S("i" + std::to_string((long long)a.slo)); a.sneg = false; } }
    // the argument a value is an order-preserving image of: 1 = arg0, 2 = arg1, negative when the image is negated, 0 otherwise
    int argOf(int sym, bool neg, bool flt) {
        for (int k = 0; k < 8 && sym; k++) { const std::string &n = st->names[sym]; if (n == "arg0" || n == "arg1") return (n == "arg0" ? 1 : 2) * (flt && neg ? -1 : 1);
            size_t p = std::string::npos; if (n.compare(0, 4, "sext") == 0 || n.compare(0, 4, "zext") == 0 || n.compare(0, 3, "i2f") == 0) p = n.find_first_of("+-"); if (p == std::string::npos || n[p] == '-') return 0; if (n.compare(0, 3, "i2f") == 0 && n[3] != '2' && false) return 0; sym = atoi(n.c_str() + p + 1); } return 0; }
    void relFacts(const AV &a, const AV &b, bool &lt, bool &eq, bool &gt) {
        if (!o.rel || !o.sym || !a.sym || !b.sym) return; bool f = a.k == AV::Flt; int x = argOf(a.sym, a.sneg, f), y = argOf(b.sym, b.sneg, f); if (!x || !y || abs(x) == abs(y) || (x < 0) != (y < 0)) return; int r = o.rel; if (abs(x) == 2) r = -r; if (x < 0) r = -r; if (r < 0) { gt = eq = false; } else { lt = eq = false; } }
    bool isZeroSym(int s) { return st->names[s] == "c0x0p+0"; }
    std::string ss(int s, bool n) { return std::string(n ? "-" : "+") + std::to_string(s); }
    void symBin(AV &r, char op, const AV &a, const AV &b, FT t) {
        if (!o.sym) return; symConst(r); if (r.sym) return; if (!a.sym || !b.sym) return;
        std::string ty = std::to_string((int)t);
        if (op == '+' || op == '-') {
            int x = a.sym, y = b.sym; bool nx = a.sneg, ny = b.sneg != (op == '-');
            if (x > y || (x == y && nx && !ny)) { std::swap(x, y); std::swap(nx, ny); }
            bool out = nx; if (isZeroSym(x)) { r.sym = y; r.sneg = ny; return; } if (isZeroSym(y)) { r.sym = x; r.sneg = nx; return; }
            r.sym = S("add" + ty + ss(x, false) + ss(y, ny != nx)); r.sneg = out; return;
        }
        if (op == '*') { int x = a.sym, y = b.sym; if (x > y) std::swap(x, y); r.sneg = a.sneg != b.sneg; if (st->names[x] == "c0x8p-3") { r.sym = y; return; } if (st->names[y] == "c0x8p-3") { r.sym = x; return; } r.sym = S("mul" + ty + ss(x, 0) + ss(y, 0)); return; }
        if (op == '/') { r.sneg = a.sneg != b.sneg; if (st->names[b.sym] == "c0x8p-3") { r.sym = a.sym; return; } r.sym = S("div" + ty + ss(a.sym, 0) + ss(b.sym, 0)); return; }
    }
    // ---- linear forms
    void linFrac(int cls, R &lo, R &hi, bool &open) const { open = cls == 1 || cls == 3; lo = cls == 0 ? 0 : cls == 1 ? 0 : 0.5L; hi = cls == 0 ? 0 : cls == 1 ? 0.5L : cls == 2 ? 0.5L : 1; }
    Lin linNorm(Lin l) const { if (o.fclass == 0) l.af = 0; if (o.fclass == 2) { l.c += 0.5L * l.af; l.af = 0; } return l; }
    Lin linOf(const AV &a) const {
        if (!o.lin) return Lin(); if (a.lin.ok) return a.lin;
        if (a.k == AV::Flt && a.f.single() && std::isfinite(a.f.lo)) { Lin l; l.ok = true; l.c = a.f.lo; return l; }
        if (a.k == AV::Int && isingle(a)) { Lin l; l.ok = true; l.c = (R)a.slo; return l; } return Lin();
    }
    bool onGrid(R c) const { if (o.linGrid == 0) return c == 0; R q = c / o.linGrid; return q == rintl(q); }
    Lin linAdd(const AV &a, const AV &b, R s, const FV &res) const {
        Lin x = linOf(a), y = linOf(b), r; if (!x.ok || !y.ok) return r;
        if (res.emp || res.nan || !(fabsl(res.lo) <= o.linMax && fabsl(res.hi) <= o.linMax)) return r;
        r.an = x.an + (int)s * y.an; r.af = x.af + (int)s * y.af; r.c = x.c + s * y.c; r = linNorm(r); if (!onGrid(r.c)) return Lin(); r.ok = true; return r;
    }
    // sign possibilities of x - y; false when unknown
    bool linCmp(const AV &a, const AV &b, bool &lt, bool &eq, bool &gt) const {
        Lin x = linOf(a), y = linOf(b); if (!x.ok || !y.ok) return false; if (!a.lin.ok && !b.lin.ok) return false;
        int dn = x.an - y.an, df = x.af - y.af; R dc = x.c - y.c; if (dn) return false;
        R fl, fh; bool op; linFrac(o.fclass, fl, fh, op); R lo = dc + std::min(df * fl, df * fh), hi = dc + std::max(df * fl, df * fh);
        if (df == 0) { lt = dc < 0; eq = dc == 0; gt = dc > 0; return true; }
        lt = lo < 0; gt = hi > 0; eq = op ? (lo < 0 && hi > 0) : (lo <= 0 && hi >= 0); return true;
    }
    bool linFloor(const Lin &l, Lin &fl, bool &integral) const {
        if (!l.ok) return false; R ci = floorl(l.c);
        if (l.af == 0) { fl = l; fl.c = ci; integral = ci == l.c; return true; }
        if ((l.af == 1 || l.af == -1) && ci == l.c) { fl = l; fl.af = 0; if (l.af == -1) fl.c -= 1; integral = false; return true; }
        return false;
    }
    // ---- constants / operands
    AV topOf(Type *t) const {
        if (t->isFloatingPointTy()) return av_flt(ftOf(t), fv_top());
        if (t->isIntegerTy()) { int w = t->getIntegerBitWidth(); if (w > 100) throw Unsupported("wide int"); return av_itop(w); }
        if (t->isPointerTy()) { AV a; a.k = AV::Ptr; a.obj = 0; return a; }
        if (t->isStructTy() || t->isArrayTy()) { AV a; a.k = AV::Agg; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); a.agg = std::make_shared<std::vector<AV>>(); for (unsigned i = 0; i < n; i++) a.agg->push_back(topOf(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())); return a; }
        throw Unsupported("type");
    }
    AV constVal(const Constant *c) {
        Type *t = c->getType();
        if (auto *f = dyn_cast<ConstantFP>(c)) { AV a = av_flt(ftOf(t), fv_const(apf(f->getValueAPF()))); if (o.basis && std::isfinite(a.f.lo) && !a.f.nan) a.tm = std::make_shared<TM>(tm_const(o.basis, a.f.lo)); symConst(a); return a; }
        if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64 && !i->isZero()) { return av_itop(i->getBitWidth()); } I128 v = i->isZero() ? 0 : (I128)i->getZExtValue(); AV a = av_int(i->getBitWidth(), v, v, false); symConst(a); return a; }
        if (isa<UndefValue>(c)) return topOf(t);
        if (isa<ConstantPointerNull>(c)) { AV a; a.k = AV::Ptr; a.obj = -1; a.slo = a.shi = 0; return a; }
        if (auto *g = dyn_cast<GlobalVariable>(c)) { AV a; a.k = AV::Ptr; a.obj = mi->gid.at(g); a.slo = a.shi = 0; return a; }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            if (auto *gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); AV b = constVal(cast<Constant>(gep->getPointerOperand())); if (gep->accumulateConstantOffset(mi->m->getDataLayout(), off)) { b.slo += off.getSExtValue(); b.shi = b.slo; return b; } }
            return topOf(t);
        }
        if (t->isStructTy() || t->isArrayTy()) { AV a; a.k = AV::Agg; a.agg = std::make_shared<std::vector<AV>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) a.agg->push_back(constVal(c->getAggregateElement(i))); return a; }
        return topOf(t);
    }
    static bool sameSym(const AV &a, const AV &b) { return a.sym && a.sym == b.sym && a.sneg == b.sneg; }
    AV join(const AV &a, const AV &b) {
        if (a.k == AV::Bot) return b; if (b.k == AV::Bot) return a;
        if (a.k != b.k) throw Unsupported("join kinds");
        AV r = a; r.sym = 0; r.sneg = false; if (sameSym(a, b)) { r.sym = a.sym; r.sneg = a.sneg; }
        if (a.k == AV::Flt) { r.f = fv_join(a.f, b.f); r.tm = nullptr; if (a.tm && b.tm) r.tm = a.tm == b.tm ? a.tm : std::make_shared<TM>(tm_join(*a.tm, *b.tm)); if (a.f.bot()) r.tm = b.tm; else if (b.f.bot()) r.tm = a.tm;
            if (!(a.lin.ok && b.lin.ok && a.lin.an == b.lin.an && a.lin.af == b.lin.af && a.lin.c == b.lin.c)) r.lin = Lin(); return r; }
        if (a.k == AV::Int) { if (a.isbot()) return b; if (b.isbot()) return a; r.slo = std::min(a.slo, b.slo); r.shi = std::max(a.shi, b.shi); r.ulo = std::min(a.ulo, b.ulo); r.uhi = std::max(a.uhi, b.uhi); if (a.src != b.src) r.src = nullptr; if (!(a.lin.ok && b.lin.ok && a.lin.an == b.lin.an && a.lin.af == b.lin.af && a.lin.c == b.lin.c)) r.lin = Lin(); r.cond = a.cond == b.cond ? a.cond : nullptr; return r; }
        if (a.k == AV::Ptr) { if (a.obj != b.obj) { r.obj = 0; return r; } r.slo = std::min(a.slo, b.slo); r.shi = std::max(a.shi, b.shi); return r; }
        if (a.k == AV::Agg) { if (a.agg == b.agg) return a; r.agg = std::make_shared<std::vector<AV>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(join((*a.agg)[i], (*b.agg)[i])); return r; }
        return r;
    }
    static bool leq(const AV &a, const AV &b) {
        if (a.k == AV::Bot || a.isbot()) return true; if (b.k != a.k) return false;
        if (a.k == AV::Flt) return fv_leq(a.f, b.f); if (a.k == AV::Int) return a.slo >= b.slo && a.shi <= b.shi && a.ulo >= b.ulo && a.uhi <= b.uhi;
        if (a.k == AV::Ptr) return b.obj == 0 || (a.obj == b.obj && a.slo >= b.slo && a.shi <= b.shi);
        if (a.k == AV::Agg) { for (size_t i = 0; i < a.agg->size(); i++) if (!leq((*a.agg)[i], (*b.agg)[i])) return false; return true; } return false;
    }
#include "ops.inc"
#include "exec.inc"
};
