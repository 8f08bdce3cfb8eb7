"""Shared driver code: builds IR of the library from /repo's working tree, runs the analyser, writes evidence."""
import os, sys, json, subprocess, hashlib, time, tempfile, shutil, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GCEM_REPO', '/repo')
INC = os.path.join(REPO, 'include')
BUILD = os.path.join(VERIF, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THREADS = os.environ.get('GVA_THREADS', '8')

class Broken(Exception):
    """the analysis could not be carried out (missing tool, vanished anchor, unsupported construct)"""

F1 = ['abs','acos','acosh','asin','asinh','atan','atanh','ceil','cos','cosh','erf','erf_inv','exp','expm1',
      'floor','inv_sqrt','lgamma','log','log10','log1p','log2','round','sin','sinh','sqrt','tan','tanh','tgamma','trunc']
F2 = ['atan2','beta','copysign','fmod','hypot','incomplete_gamma','incomplete_gamma_inv','lbeta','log_binomial_coef','max','min','pow']
F3 = ['incomplete_beta','incomplete_beta_inv']
FT = {'f':'float','d':'double','l':'long double'}
IPAIRS = [tuple(x) for x in 'iu ui ix xi xu su ui ys iy hi kn mi tc nx'.split()]
IPAIRS = sorted(set(IPAIRS))
PPAIRS = [tuple(x) for x in 'si ci hi ti ki ix ux ui iu sx cu hx tu ky xi nx my mi uy sc hs ic us yc nk'.split()]
FPAIRS = [('i','f','f'),('f','i','f'),('u','f','f'),('x','f','f'),('h','f','f'),('f','y','f'),('l','i','l'),('u','l','l'),('f','l','l'),('l','d','l'),('d','l','l'),('d','f','d')]
IT = {'i':'int','u':'unsigned int','x':'long long','y':'unsigned long long','s':'short','c':'signed char','h':'unsigned char','t':'unsigned short','n':'long','m':'unsigned long','k':'char'}

def wrappers():
    o = ['#include <gcem.hpp>', '#define W extern "C"']
    for p,t in FT.items():
        for f in F1: o.append(f'W {t} {p}_{f}({t} x){{ return gcem::{f}(x); }}')
        for f in F2: o.append(f'W {t} {p}_{f}({t} x, {t} y){{ return gcem::{f}(x,y); }}')
        for f in F3: o.append(f'W {t} {p}_{f}({t} x, {t} y, {t} z){{ return gcem::{f}(x,y,z); }}')
        o.append(f'W int {p}_sgn({t} x){{ return gcem::sgn(x); }}')
        o.append(f'W bool {p}_signbit({t} x){{ return gcem::signbit(x); }}')
        o.append(f'W {t} {p}_factorial({t} x){{ return gcem::factorial(x); }}')
        o.append(f'W {t} {p}_binomial_coef({t} n,{t} k){{ return gcem::binomial_coef(n,k); }}')
        o.append(f'W {t} {p}_gcd({t} a,{t} b){{ return gcem::gcd(a,b); }}')
        o.append(f'W {t} {p}_lcm({t} a,{t} b){{ return gcem::lcm(a,b); }}')
        o.append(f'W {t} {p}_lmgamma({t} a,int p){{ return gcem::lmgamma(a,p); }}')
        for q in IT:
            o.append(f'W {t} {p}_pow_{q}({t} x, {IT[q]} n){{ return gcem::pow(x,n); }}')
            for k in (1,2,3): o.append(f'W {t} {p}_mul{k}_{q}({t} x, {IT[q]} n){{ return {"*".join(["x"]*k)}; }}')
    G1 = [f for f in F1 if f not in ('abs',)]
    for p,t in IT.items():
        for f in G1:
            o.append(f'W double {p}_{f}({t} x){{ return gcem::{f}(x); }}')
            o.append(f'W double {p}_{f}_as_double({t} x){{ return gcem::{f}(static_cast<double>(x)); }}')
        for f in F2:
            if f in ('max','min','pow','copysign'): continue
            o.append(f'W double {p}_{f}({t} x, {t} y){{ return gcem::{f}(x,y); }}')
            o.append(f'W double {p}_{f}_as_double({t} x, {t} y){{ return gcem::{f}(static_cast<double>(x),static_cast<double>(y)); }}')
            o.append(f'W double {p}d_{f}({t} x, double y){{ return gcem::{f}(x,y); }}')
            o.append(f'W double {p}d_{f}_as_double({t} x, double y){{ return gcem::{f}(static_cast<double>(x),y); }}')
            o.append(f'W double d{p}_{f}(double x, {t} y){{ return gcem::{f}(x,y); }}')
            o.append(f'W double d{p}_{f}_as_double(double x, {t} y){{ return gcem::{f}(x,static_cast<double>(y)); }}')
        for f in F3:
            o.append(f'W double {p}_{f}({t} x, {t} y, {t} z){{ return gcem::{f}(x,y,z); }}')
            o.append(f'W double {p}_{f}_as_double({t} x, {t} y, {t} z){{ return gcem::{f}(static_cast<double>(x),static_cast<double>(y),static_cast<double>(z)); }}')
        o.append(f'W double {p}_pow_d({t} x, double y){{ return gcem::pow(x,y); }}')
        o.append(f'W double {p}_pow_d_as_double({t} x, double y){{ return gcem::pow(static_cast<double>(x),y); }}')
        o.append(f'W double {p}_lmgamma({t} x, int n){{ return gcem::lmgamma(x,n); }}'); o.append(f'W double {p}_lmgamma_as_double({t} x, int n){{ return gcem::lmgamma(static_cast<double>(x),n); }}')
        o.append(f'W {t} {p}_abs({t} x){{ return gcem::abs(x); }}')
        o.append(f'W int {p}_sgn({t} x){{ return gcem::sgn(x); }}')
        for f in ['max','min'] + (['gcd','lcm','binomial_coef','pow']):
            o.append(f'W {t} {p}_{f}({t} x, {t} y){{ return gcem::{f}(x,y); }}')
        o.append(f'W {t} {p}_factorial({t} x){{ return gcem::factorial(x); }}')
    # two different integer types, an integer with a float, and long double with anything
    for a, b in IPAIRS:
        A, Bt = IT[a], IT[b]
        for f in F2:
            if f in ('max','min','pow','copysign'): continue
            o.append(f'W double {a}{b}_{f}({A} x, {Bt} y){{ return gcem::{f}(x,y); }}')
            o.append(f'W double {a}{b}_{f}_as_double({A} x, {Bt} y){{ return gcem::{f}(static_cast<double>(x),static_cast<double>(y)); }}')
    for A, B, C in (('int','unsigned int','double'),('unsigned int','int','double'),('double','int','unsigned int'),('int','double','float'),('float','double','long long'),('int','float','double')):
        k = {'int':'i','unsigned int':'u','double':'d','float':'f','long long':'x'}; k = k[A] + k[B] + k[C]
        for f in F3:
            o.append(f'W double {k}_{f}({A} x, {B} y, {C} z){{ return gcem::{f}(x,y,z); }}')
            o.append(f'W double {k}_{f}_as_double({A} x, {B} y, {C} z){{ return gcem::{f}(static_cast<double>(x),static_cast<double>(y),static_cast<double>(z)); }}')
    for a, b, w in FPAIRS:
        A, Bt, Wt = ({**IT, **FT})[a], ({**IT, **FT})[b], FT[w]
        for f in F2:
            if f == 'copysign' or (f == 'pow' and b in IT) or (f in ('max','min') and (a in IT or b in IT)): continue
            o.append(f'W {Wt} {a}{b}_{f}({A} x, {Bt} y){{ return gcem::{f}(x,y); }}')
            o.append(f'W {Wt} {a}{b}_{f}_as_common({A} x, {Bt} y){{ return gcem::{f}(static_cast<{Wt}>(x),static_cast<{Wt}>(y)); }}')
    # what min, max and abs may return
    for p,t in list(FT.items()) + list(IT.items()):
        o.append(f'W {t} {p}_arg0({t} x,{t} y){{ return x; }}'); o.append(f'W {t} {p}_arg1({t} x,{t} y){{ return y; }}'); o.append(f'W {t} {p}_id({t} x){{ return x; }}'); o.append(f'W {t} {p}_neg({t} x){{ return -x; }}')
        if p in FT: o.append(f'W {t} {p}_nid({t} x,{t} y){{ return -x; }}')
    # products the integer power has to equal
    for p in 'iuxynm':
        for n in range(0, 21):
            o.append(f'W {IT[p]} {p}_ipow{n}({IT[p]} x){{ return gcem::pow(x,{n}); }}')
            o.append(f'W {IT[p]} {p}_prod{n}({IT[p]} x){{ return {"*".join(["x"]*n) or "1"}; }}')
    # integer powers with an exponent of another type: the common type counts
    for a, b in PPAIRS:
        C = f'std::common_type<{IT[a]},{IT[b]}>::type'
        for n in range(7):
            o.append(f'W {C} {a}{b}_ipow{n}({IT[a]} x){{ return gcem::pow(x,static_cast<{IT[b]}>({n})); }}')
            o.append(f'W {C} {a}{b}_prod{n}({IT[a]} x){{ return {"*".join([f"static_cast<{C}>(x)"]*n) or "1"}; }}')
    for a, b in IPAIRS + [x[:2] for x in FPAIRS if x[0] in IT or x[1] in IT]:
        A, Bt = ({**IT, **FT})[a], ({**IT, **FT})[b]; C = f'std::common_type<{A},{Bt}>::type'
        for f in ('max','min'):
            o.append(f'W {C} {a}{b}_{f}({A} x,{Bt} y){{ return gcem::{f}(x,y); }}'); o.append(f'W {C} {a}{b}_{f}_as_common({A} x,{Bt} y){{ return gcem::{f}(static_cast<{C}>(x),static_cast<{C}>(y)); }}')
    # float-with-double and float-with-long-double promotion for the binary functions
    for f in F2:
        o.append(f'W double fd_{f}(float x,double y){{ return gcem::{f}(x,y); }}')
        o.append(f'W double fd_{f}_as_double(float x,double y){{ return gcem::{f}(static_cast<double>(x),y); }}')
    return '\n'.join(o) + '\n'

def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(INC):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f); h.update(os.path.relpath(p, INC).encode()); h.update(open(p,'rb').read())
    return h.hexdigest()

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build_engine():
    r = sh(['bash', os.path.join(VERIF, 'engine', 'build.sh')])
    if r.returncode: raise Broken('cannot build the analyser:\n' + r.stdout[-2000:])

def ir(std, src=None, tag='lib', extra=()):
    """IR of the whole public API for one language standard, from /repo's current tree"""
    src = src if src is not None else wrappers()
    os.makedirs(BUILD, exist_ok=True)
    key = hashlib.sha256((tree_hash() + src + std + ' '.join(extra) + 'v3' + INC).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, f'{tag}-{std}-{key}.ll')
    if os.path.exists(out): return out
    d = tempfile.mkdtemp(prefix='gva', dir=BUILD)
    try:
        cpp = os.path.join(d, 'w.cpp'); open(cpp,'w').write(src); raw = os.path.join(d,'raw.ll'); opt = os.path.join(d,'opt.ll')
        r = sh(['clang++-18' if shutil.which('clang++-18') else 'clang++', f'-std={std}','-O1','-Xclang','-disable-llvm-passes','-ffp-contract=off','-g1','-w','-Wno-invalid-constexpr','-Wno-c++11-narrowing','-S','-emit-llvm',*extra,'-I'+INC,cpp,'-o',raw])
        if r.returncode: raise Broken(f'the library does not compile with clang -std={std}:\n' + r.stdout[-3000:])
        r = sh(['opt-18' if shutil.which('opt-18') else 'opt','-S','-passes=sroa,loop-simplify,lcssa',raw,'-o',opt])
        if r.returncode: raise Broken('opt failed: ' + r.stdout[-1000:])
        os.rename(opt, out)
        for f in os.listdir(BUILD):   # keep the cache small
            if f.startswith(f'{tag}-{std}-') and f != os.path.basename(out):
                try:
                    if time.time() - os.path.getmtime(os.path.join(BUILD,f)) > 3600: os.remove(os.path.join(BUILD,f))
                except OSError: pass
    finally: shutil.rmtree(d, ignore_errors=True)
    return out

def modules(stds=('c++11','c++17')):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        r = list(ex.map(ir, stds))
    return {s: p for s, p in zip(stds, r)}

def run_jobs(mods, jobs, timeout=850, expected=(), grace=None):
    build_engine()
    d = tempfile.mkdtemp(prefix='run', dir=BUILD)
    try:
        ji, jo = os.path.join(d,'jobs.json'), os.path.join(d,'out.json')
        json.dump({'modules': mods, 'jobs': jobs, 'expected': list(expected), 'wall': timeout - 40, **({'grace': grace} if grace is not None else {})}, open(ji,'w'))
        r = sh([os.path.join(BUILD,'gva'), ji, jo, THREADS], timeout=timeout)
        if r.returncode or not os.path.exists(jo): raise Broken(f'analyser exited {r.returncode}: {r.stdout[-2000:]}')
        return {x['id']: x for x in json.load(open(jo))}
    except subprocess.TimeoutExpired: raise Broken('analyser timed out')
    finally: shutil.rmtree(d, ignore_errors=True)

# ---- domain helpers
MAXV = {'f32':'0x1.fffffep127','f64':'0x1.fffffffffffffp1023','f80':'0x1.fffffffffffffffep16383'}
MINV = {'f32':'0x1p-126','f64':'0x1p-1022','f80':'0x1p-16382'}
TY = {'f':'f32','d':'f64','l':'f80','i':'i32','u':'u32','x':'i64','y':'u64','s':'i16','c':'i8','h':'u8','t':'u16','n':'i64','m':'u64','k':'i8'}
def rng(t, lo, hi, openlo=False, openhi=False):
    d = {'t':t,'lo':str(lo),'hi':str(hi)}
    if openlo: d['openlo'] = True
    if openhi: d['openhi'] = True
    return d
def pt(t, v): return {'t':t,'v':str(v)}
def full(t):
    if t[0] == 'f': return rng(t, '-'+MAXV[t], MAXV[t])
    w = int(t[1:]); return rng(t, -(1<<(w-1)) if t[0]=='i' else 0, (1<<(w-1))-1 if t[0]=='i' else (1<<w)-1)

# ---- known findings
def known():
    p = os.path.join(VERIF, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l: r.append(json.loads(l))
    return r

class Check:
    def __init__(self, pid, level='proof'):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.viol, self.findings, self.samples, self.assume = [], [], [], []
        self.obl = self.dis = 0; self.extra = {}; self.functions = set()
        self.known = {k['obligation']: k for k in known() if k.get('property') == pid and k.get('status') == 'open'}
        self.mods = None; self.skipped = []; self.deadline = self.t0 + (840 if TIER != 'thorough' else 36000)
    def bump(self, k, n=1): self.extra[k] = self.extra.get(k, 0) + n
    def fail(self, oid, what, replay):
        """an obligation that does not hold: a listed finding is reported as such, anything else is a violation"""
        k = self.known.get(oid)
        if k: self.findings.append(k['what'])
        else: self.viol.append((f'[{oid}] {what}', replay))
    def ok(self, oid, sample=None):
        self.dis += 1
        if sample is not None and len(self.samples) < 12: self.samples.append({'obligation': oid, **sample})
    def run(self, jobs, timeout=36000):
        """run analyser obligations; every one has to be proved"""
        if not jobs: raise Broken('no obligations')
        if len({j['id'] for j in jobs}) != len(jobs): raise Broken('duplicate obligation ids')
        if self.mods is None: self.mods = modules()
        left = self.deadline - time.time()
        if left < 45: raise Broken('out of time')
        res = run_jobs(self.mods, jobs, min(timeout, left), expected=[j['id'] for j in jobs if j['id'] in self.known], grace=30)
        step = max(1, len(jobs)//12)
        if os.environ.get('GVA_SLOW'):
            for r in sorted(res.values(), key=lambda r: -r['sec'])[:int(os.environ['GVA_SLOW'])]: print('   slow', r['id'], '%.1f'%r['sec'], r['status'], r['cells'], 'worst %.2g'%r['worst'])
        if os.environ.get('GVA_BUDGET'):
            for j in jobs:
                r = res.get(j['id']); u = max(r['cells']/j.get('cells',20000), r['sec']/j.get('sec',60)) if r else 0
                if u > float(os.environ['GVA_BUDGET']): print('   budget', j['id'], r['status'], '%d/%d cells %.1f/%.0f s' % (r['cells'], j.get('cells',20000), r['sec'], j.get('sec',60)))
        for n, j in enumerate(jobs):
            r = res.get(j['id'])
            if r is None: raise Broken('no answer for ' + j['id'])
            self.obl += 1; self.bump('cells', r['cells']); self.bump('leaf_cells', r['leaves']); self.bump('ir_instructions_interpreted', r['steps'])
            self.functions.update(r.get('fns', []))
            if r['status'] == 'proved': self.ok(j['id'], {'cells': r['cells'], 'example_cell': (r.get('samples') or [''])[0], 'call_depth': r['depth'], 'cpu_s': round(r['sec'],2)} if n % step == 0 else None)
            elif r['status'] == 'skipped': self.skipped.append(j['id'])
            elif r['status'] == 'error': raise Broken(f"{j['id']}: {r.get('detail')}")
            else:
                what = f"{j['fn']} ({j['module']}) {r['status']}: {j.get('what') or j['pred']['k']} fails for argument(s) {r.get('witness')}: {r.get('detail')}"
                self.fail(j['id'], what, {'obligation': j['id'], 'job': j, 'result': {k: r.get(k) for k in ('status','witness','detail','cells','steps')}})
        return res
    def lemmas(self, jobs, timeout=850):
        """supporting lemmas: proved ones count as discharged obligations, unproved ones have a fallback and do not matter"""
        if not jobs: return {}
        if self.mods is None: self.mods = modules()
        res = run_jobs(self.mods, jobs, timeout); out = {}
        for j in jobs:
            r = res.get(j['id'])
            if r is None: raise Broken('no answer for ' + j['id'])
            out[j['id']] = r['status'] == 'proved'
            if out[j['id']]: self.obl += 1; self.dis += 1; self.bump('lemmas'); self.bump('cells', r['cells']); self.functions.update(r.get('fns', []))
            else: self.bump('lemmas_not_needed')
            if os.environ.get('GVA_SLOW') and (r['sec'] > 2 or not out[j['id']]): print('   lemma', j['id'], r['status'], '%.1f'%r['sec'], r.get('witness','')[:80], r.get('detail','')[:80])
        return out
    def finish(self, rule):
        if self.obl == 0: raise Broken('no obligations were generated')
        if self.skipped and not self.viol: raise Broken(f'out of time with {len(self.skipped)} obligations undecided, first {self.skipped[0]}')
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick','thorough') else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': {'explanation': rule, 'obligations': self.obl, 'discharged': self.dis, 'checker_cmd': f'python3 /verif/check.py {self.pid}',
                           'trusted_base': ['clang 18 front end (AST to LLVM IR), opt sroa/loop-simplify/lcssa', 'the abstract domains and transfer functions in /verif/engine', 'x87 long double arithmetic of this host (directed rounding by ulp inflation), libquadmath for reference constants'],
                           'samples': self.samples[:12], **self.extra},
              'assumptions': self.assume, 'wall_s': round(time.time()-self.t0,2), 'violations': len(self.viol)}
        if self.functions: ev['coverage']['functions_analysed'] = len(self.functions); ev['coverage']['function_names'] = sorted(self.functions)[:600]
        os.makedirs(os.path.join(VERIF,'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF,'evidence',self.pid+'.json'),'w'), indent=1)
        for f in self.findings: print(f'KNOWN-FINDING: property={self.pid} {f}')
        if self.viol:
            rp = os.path.join(VERIF,'evidence',f'{self.pid}.violations.json')
            json.dump([{'what':w,'replay':r} for w,r in self.viol], open(rp,'w'), indent=1, default=str)
            for w,_ in self.viol[:25]: print('  ' + w)
            if len(self.viol) > 25: print(f'  ... and {len(self.viol)-25} more')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        print(f'{self.pid}: {self.dis}/{self.obl} obligations discharged in {time.time()-self.t0:.1f}s')
        return 0
