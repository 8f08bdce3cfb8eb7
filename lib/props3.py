"""Constant-expression, interface and header properties."""
from props2 import *

FPE = ['fp-invalid','fp-overflow','fp-division-by-zero']
def cx_boxes(p):
    """where each function of one argument has to be a constant expression"""
    T = TY[p]; M = MAXV[T]; mn = MINV[T]; A = ('-'+M,M); P = ('0',M); N = (mn,M); e = {'f':87,'d':708,'l':11300}[p]; q = '0.9999' if p == 'f' else '0.999999'
    return {'abs':A,'atan':A,'ceil':A,'floor':A,'trunc':A,'round':A,'sqrt':P,'inv_sqrt':N,'exp':('-'+M,e),'expm1':('-'+M,e),'log':N,'log2':N,'log10':N,'log1p':('-'+q,M),'erf':A,'tanh':A,
        'sinh':(-e+1,e-1),'cosh':(-e+1,e-1),'asinh':A,'acosh':(1,M),'atanh':('-'+q,q),'asin':('-'+q,q),'acos':('-'+q,q),'sin':(-100,100),'cos':(-100,100),'tan':(-100,100),'lgamma':(mn,'1e30'),'tgamma':('0.01',30)}
@prop('C06', 'Abstract interpretation (intervals and low-order Taylor models, callees in their own obligations replaced by accuracy contracts) of each function over its stated domain: no arithmetic operation on any path may be one that a compiler rejects in a constant expression - an invalid operation yielding NaN, an overflow of finite operands, a division by zero, an out-of-range conversion, signed overflow or another undefined operation.')
def c06(c):
    J = []; n = 0; P = dict(k='noevent', kinds=UB + FPE); c.assume.append('callees replaced by their accuracy contract satisfy it (decided by C08, C09, C11, C22 and C23)'); c.assume.append('erf_inv takes the same steps for p and -p (it is odd, C13)')
    K = dict(D=3, cells=300000, sec=900, steps=100000, what='every operation is admissible in a constant expression')
    USE = {'expm1':'exp','sinh':'exp','cosh':'exp','log2':'log','log10':'log','log1p':'log','asinh':'log sqrt','acosh':'log sqrt','atanh':'log'}
    HEAVY = lambda m, p, f: not c.thorough and m == STDS[0] and p == 'l' and f in ('erf','tgamma')      # same bits as under C++17 (C14)
    for m in STDS:
        for p in 'fdl':
            T = TY[p]; B = base_contracts(p)
            for f, b in cx_boxes(p).items():
                if p == 'l' and f in ('exp','log','expm1','sinh','cosh','sqrt','inv_sqrt','lgamma','log2','log10','log1p','asinh','acosh'): continue
                if HEAVY(m, p, f): continue
                J.append(job(f'cx:{p}_{f}', m, f'{p}_{f}', [[rng(T,*b)]], P, **K, **({'contracts':[accuracy.contract(B[g]) for g in USE[f].split()]} if f in USE and p != 'l' else {})))
            b = ('1e-18','1e18') if p == 'f' else ('1e-150','1e150'); r = [rng(T,*b), rng(T,'-'+b[1],'-'+b[0]), pt(T,'0'), pt(T,'-0')]; J.append(job(f'cx:{p}_atan2', m, f'{p}_atan2', [[x,y] for x in r for y in r], P, **K))
            for f in ('max','min','copysign'): J.append(job(f'cx:{p}_{f}', m, f'{p}_{f}', [[full(T)]*2], P, **K))
            J.append(job(f'cx:{p}_fmod', m, f'{p}_fmod', [[rng(T,-1000000,1000000), x] for x in (rng(T,'0.1',1000000), rng(T,-1000000,'-0.1'))], P, **K))
    for e in (e08, e09, e10, e11, e22, e23):
        for a in e(c):
            if len(a.doms[0]) == 1 and a.f not in ('tgamma','erf_inv') and not (a.p == 'l' and a.f in ('exp','expm1','sinh','cosh','sqrt','inv_sqrt','log','log2','log10','log1p','asinh','acosh','lgamma')): continue
            if a.f == 'atan2' or a.fn == 'l_erf_inv': continue
            n += 1
            for m in STDS:
                if (a.p == 'l' or a.inv) and m == STDS[0] and not c.thorough: continue
                J.append(job(f'cx{n}:{a.fn}', m, a.fn, a.boxes() + (a.negboxes() if a.sym and not a.inv else []), P, **(dict(K, D=a.D, steps=a.steps, noise=2) if a.inv else K), contracts=[accuracy.contract(u) for u in a.use]))
    J.reverse(); c.run(filt(c, J))          # the long ones first

# ---------------------------------------------------------------- interface and headers
import concurrent.futures as cf
ARITH = {'f':'float','d':'double','l':'long double',**IT}
COMPILERS = [(cc, s) for cc in ('g++','clang++') for s in ('c++11','c++14','c++17','c++20')]
R_RET = [f for f in F1 if f != 'abs']                                               # promoted: integers to double
R2_RET = ['atan2','beta','fmod','hypot','incomplete_gamma','incomplete_gamma_inv','lbeta','log_binomial_coef']
R2_COM = ['max','min','pow','gcd','lcm','binomial_coef']                             # the common type itself
def compile_all(c, srcs, jobs):
    """jobs: (tag, compiler, std, source key, extra flags) -> compiler output, all run in parallel, nothing is executed"""
    d = tempfile.mkdtemp(prefix='wit', dir=BUILD) if os.path.isdir(BUILD) else (os.makedirs(BUILD), tempfile.mkdtemp(prefix='wit', dir=BUILD))[1]
    try:
        for k, s in srcs.items(): open(os.path.join(d, k + '.cpp'), 'w').write(s)
        def one(j):
            tag, cc, std, key, fl = j
            r = subprocess.run([cc, f'-std={std}', '-I'+INC, *fl, os.path.join(d, key + '.cpp')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
            return j, r.returncode, r.stdout, r.stderr
        with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, jobs))
    finally: shutil.rmtree(d, ignore_errors=True)
def first_error(s): return next((l.strip() for l in s.splitlines() if ' error' in l or 'error:' in l), s.strip()[:200])[:300]

def type_witness():
    o = ['#include <gcem.hpp>','#include <type_traits>','template<class T> struct R { typedef typename std::conditional<std::is_integral<T>::value,double,T>::type t; };',
         'template<class E, class A> struct same_ : std::is_same<E,A> {};','#define V(t) std::declval<t>()','#include <utility>']; ids = []
    def w(name, call, exp):
        n = len(ids); ids.append(name)
        o.append(f'static_assert(std::is_same<decltype({call}), {exp}>::value, "W{n}W result type"); static_assert(noexcept({call}), "W{n}W noexcept");')
    for p, t in ARITH.items():
        for f in R_RET: w(f'{f}({t})', f'gcem::{f}(V({t}))', f'R<{t}>::t')
        w(f'abs({t})', f'gcem::abs(V({t}))', t); w(f'factorial({t})', f'gcem::factorial(V({t}))', t); w(f'sgn({t})', f'gcem::sgn(V({t}))', 'int')
        if p in 'fdl': w(f'signbit({t})', f'gcem::signbit(V({t}))', 'bool')
        for q, u in ARITH.items():
            cm = f'std::common_type<{t},{u}>::type'; a = f'(V({t}),V({u}))'
            for f in R2_RET: w(f'{f}({t},{u})', f'gcem::{f}{a}', f'R<{cm}>::t')
            for f in R2_COM: w(f'{f}({t},{u})', f'gcem::{f}{a}', cm)
            w(f'lmgamma({t},{u})', f'gcem::lmgamma{a}', f'R<{t}>::t')
            if p in 'fdl' and q in 'fdl': w(f'copysign({t},{u})', f'gcem::copysign{a}', t)
            for v in ('int','double','float'):
                c3 = f'std::common_type<{t},{u},{v}>::type'; b = f'(V({t}),V({u}),V({v}))'
                w(f'incomplete_beta({t},{u},{v})', f'gcem::incomplete_beta{b}', f'R<{c3}>::t')
                w(f'incomplete_beta_inv({t},{u},{v})', f'gcem::incomplete_beta_inv{b}', f'R<{c3}>::t')
    return '\n'.join(o) + '\n', ids

def inst_witness():
    """every function body instantiated for every combination of argument types; line number -> name"""
    o = ['#include <gcem.hpp>']; ids = []
    def w(name, body): ids.append(name); o.append(body)
    for f in F1 + ['sgn','signbit','factorial']:
        for t in ARITH.values(): w(f'{f}({t})', f'auto I{len(ids)}I({t} a) -> decltype(gcem::{f}(a)) {{ return gcem::{f}(a); }}')
    for f in R2_RET + R2_COM + ['copysign','lmgamma']:
        for t in ARITH.values():
            for u in ARITH.values(): w(f'{f}({t},{u})', f'auto I{len(ids)}I({t} a, {u} b) -> decltype(gcem::{f}(a,b)) {{ return gcem::{f}(a,b); }}')
    for f in F3:
        for t in ARITH.values():
            for u in ARITH.values():
                for v in ('int','short','double','float'): w(f'{f}({t},{u},{v})', f'auto I{len(ids)}I({t} a, {u} b, {v} x) -> decltype(gcem::{f}(a,b,x)) {{ return gcem::{f}(a,b,x); }}')
    return '\n'.join(o) + '\n', ids

CXV = {'acos':['0.3','-0.7'],'acosh':['1.5','200.0'],'asin':['0.3','-0.7'],'atanh':['0.3','-0.7'],'erf_inv':['0.3','-0.95'],'inv_sqrt':['0.5','40.0'],'lgamma':['0.3','12.5'],'log':['0.3','40.0'],'log10':['0.3','40.0'],'log1p':['0.00001','3.0'],'log2':['0.3','40.0'],'sqrt':['0.3','40.0'],'tgamma':['0.3','-1.5','6.5']}
def use_witness():
    """each function in a constant expression, at one argument per main branch"""
    o = ['#include <gcem.hpp>']; ids = []
    def w(name, T, call): o.append(f'constexpr {T} w{len(ids)}w = {call};'); ids.append(name)
    for T, s in (('float','f'),('double',''),('long double','L')):
        for f in F1:
            for v in CXV.get(f, ['0.3','-2.5','7.25','0.0']): w(f'{f}({v}{s})', T, f'gcem::{f}({v}{s})')
        for f, a in (('atan2','0.5 -2.0'),('atan2','0.0 -1.0'),('atan2','-0.0 1.0'),('beta','2.5 1.5'),('copysign','1.5 -2.0'),('fmod','7.5 2.0'),('hypot','3.0 4.0'),('incomplete_gamma','2.0 1.5'),('incomplete_gamma_inv','2.0 0.4'),('lbeta','2.5 1.5'),('log_binomial_coef','10.0 3.0'),('max','1.0 2.0'),('min','1.0 2.0'),('pow','2.5 1.5'),('incomplete_beta','2.0 3.0 0.4'),('incomplete_beta_inv','2.0 3.0 0.4')):
            w(f'{f}({a})', T, f'gcem::{f}({",".join(x + s for x in a.split())})')
        if T != 'float': w('incomplete_gamma(20,18)', T, f'gcem::incomplete_gamma(20.0{s},18.0{s})'); w('incomplete_gamma_inv(20,0.3)', T, f'gcem::incomplete_gamma_inv(20.0{s},0.3{s})')
        w('signbit', 'bool', f'gcem::signbit(-1.0{s})'); w('sgn', 'int', f'gcem::sgn(-1.0{s})'); w('lmgamma', T, f'gcem::lmgamma(4.5{s},3)'); w('pow(x,3)', T, f'gcem::pow(2.5{s},3)'); w('pow(x,-3)', T, f'gcem::pow(2.5{s},-3)')
    for f, a in (('gcd','12,18'),('lcm','4,6'),('binomial_coef','10,4'),('pow','3,4'),('max','1,2'),('min','1,2')): w(f'{f}(int)', 'int', f'gcem::{f}({a})')
    w('factorial(5)', 'int', 'gcem::factorial(5)'); w('abs(-3)', 'int', 'gcem::abs(-3)'); w('exp(2)', 'double', 'gcem::exp(2)'); w('log(7u)', 'double', 'gcem::log(7u)')
    return '\n'.join(o) + '\n', ids

def ast(std, src, flags=()):
    d = tempfile.mkdtemp(prefix='ast', dir=BUILD)
    try:
        f = os.path.join(d,'a.cpp'); open(f,'w').write(src)
        r = subprocess.run(['clang++', f'-std={std}', '-I'+INC, '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', *flags, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise Broken('clang cannot parse the library: ' + first_error(r.stderr))
        return json.loads(r.stdout)
    finally: shutil.rmtree(d, ignore_errors=True)
def walk(n):
    st = [n]
    while st:
        x = st.pop(); yield x
        st.extend(y for y in x.get('inner', ()) if y)
class Ast:
    """declarations by id, and what each function body refers to"""
    def __init__(self, std, src):
        self.root = ast(std, src); self.decl = {}; self.parent = {}
        st = [(self.root, '')]
        while st:
            x, ns = st.pop(); k = x.get('kind','')
            if k.endswith('Decl') and 'id' in x:
                if x['id'] not in self.decl or len(self.decl[x['id']][0]) < len(x): self.decl[x['id']] = (x, ns)
                if 'previousDecl' in x: self.parent[x['id']] = x['previousDecl']
            n2 = ns + '::' + x.get('name','') if k in ('NamespaceDecl','CXXRecordDecl','ClassTemplateSpecializationDecl') else ns
            st.extend((y, n2) for y in x.get('inner', ()) if y)
    def funcs(self): return [(x, ns) for x, ns in self.decl.values() if x['kind'] in ('FunctionDecl','CXXMethodDecl')]
    @staticmethod
    def body(x): return next((y for y in x.get('inner', ()) if y.get('kind') == 'CompoundStmt'), None)

NONDET = re.compile(r'is_constant_evaluated|__builtin_constant_p')
@prop('C16', 'Compile-time witnesses for g++ and clang++ under C++11, 14, 17 and 20 (nothing is executed): a static_assert on the result type and on noexcept for every function and every combination of argument types, and a constexpr variable per function and main branch. Over the type-checked syntax tree of both C++11 and C++17: every function reachable from a public one is declared constexpr, calls only constexpr functions and constant-foldable builtins, reads only parameters, locals and constants, and does not ask whether it is being evaluated at compile time.')
def c16(c):
    tw, tid = type_witness(); uw, uid = use_witness(); iw, iid = inst_witness(); bi = {}
    J = [('types',cc,s,'types',['-fsyntax-only','-w']) for cc, s in COMPILERS] + [('use',cc,s,'use',['-fsyntax-only','-w']) for cc, s in COMPILERS] + [('inst',cc,s,'inst',['-fsyntax-only','-w','-ferror-limit=0' if cc == 'clang++' else '-fmax-errors=0']) for cc, s in COMPILERS]
    for cc, s in COMPILERS: J[[j[0] == 'types' and j[1:3] == (cc, s) for j in J].index(True)][4].extend(['-ferror-limit=0'] if cc == 'clang++' else ['-fmax-errors=0']); J[[j[0] == 'use' and j[1:3] == (cc, s) for j in J].index(True)][4].extend(['-ferror-limit=0'] if cc == 'clang++' else ['-fmax-errors=0'])
    for j, rc, out, err in compile_all(c, {'types':tw,'use':uw,'inst':iw}, J):
        tag, cc, s = j[:3]; ids = {'types':tid,'use':uid,'inst':iid}[tag]; bad = {}
        for l in err.splitlines():
            m = re.search(r'W(\d+)W', l) if tag == 'types' else None
            if m and 'error' in l: bad.setdefault(int(m.group(1)), l.strip())
        if tag == 'inst' and rc:
            for l in err.splitlines():
                m = re.match(r'\S*inst\.cpp:(\d+):', l)
                if m: bad.setdefault(int(m.group(1)) - 2, first_error(err) + ' / ' + l.strip())
        if tag == 'use':
            for l in err.splitlines():
                m = re.match(r'\S*use\.cpp:(\d+):', l)
                if m and 'error' in l: bad.setdefault(int(m.group(1)) - 2, l.strip())
            cur = None
            if rc and not bad:   # g++ may put the error in the header and name the variable only in the include chain
                for l in err.splitlines():
                    m = re.match(r'\S*use\.cpp:(\d+):', l)
                    if m: bad.setdefault(int(m.group(1)) - 2, l.strip())
        if rc and not bad: bad = {-1: first_error(err)}
        c.bump('witnesses', len(ids)); c.obl += len(ids); c.dis += len(ids) - len(bad)
        for n, l in list(bad.items())[:40]:
            nm = ids[n] if 0 <= n < len(ids) else 'translation unit'
            c.fail(f'{tag}:{nm}@{cc}:{s}', f'{nm} with {cc} -std={s}: { {"types":"result type or noexcept","use":"not usable in a constant expression","inst":"does not compile"}[tag]}: {l[:220]}', {'compiler':cc,'std':s,'message':l})
    src = '\n'.join(l for l in wrappers().split('\n') if l.startswith('#') or any(f' {p}_' in l for p in 'fdli'))
    os.makedirs(BUILD, exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex: trees = dict(zip(STDS, ex.map(lambda s: Ast(s, src), STDS)))
    for s in STDS:
        A = trees[s]; defs = {}
        for x, ns in A.funcs():
            b = A.body(x)
            if b is not None: defs[x['id']] = (x, ns, b)
        byMangled = {x.get('mangledName'): i for i, (x, ns, b) in defs.items() if x.get('mangledName')}
        work = [i for i, (x, ns, b) in defs.items() if x.get('name','')[:2] in ('f_','d_','l_','i_') and ns == '']; seen = set(work); nfun = 0
        if len(work) < 100: raise Broken('entry points not found in the syntax tree')
        while work:
            i = work.pop(); x, ns, b = defs[i]; entry = ns == ''; nfun += 1; who = (ns[2:] + '::' if ns else '') + x.get('name','?'); c.functions.add(who); probs = []
            if not entry and not x.get('constexpr'): probs.append('is not declared constexpr')
            loc = {y['id'] for y in walk(x) if y.get('kind') in ('ParmVarDecl','VarDecl') and 'id' in y}
            for y in walk(b):
                k = y.get('kind')
                if entry and k != 'DeclRefExpr': continue
                if k in ('GCCAsmStmt','MSAsmStmt','CXXThrowExpr','CXXTryStmt','GotoStmt','CXXReinterpretCastExpr','CXXNewExpr','CXXDeleteExpr','VAArgExpr'): probs.append(f'contains {k}')
                if k == 'IfStmt' and y.get('isConsteval'): probs.append('contains if consteval')
                if k == 'VarDecl' and y.get('storageClass') in ('static','extern'): probs.append(f"has a static local {y.get('name')}")
                if k != 'DeclRefExpr': continue
                rd = y.get('referencedDecl', {}); rk = rd.get('kind'); nm = rd.get('name','')
                if rk in ('FunctionDecl','CXXMethodDecl'):
                    if NONDET.search(nm): probs.append(f'calls {nm}'); continue
                    t = rd['id']; full_ = A.decl.get(t, (rd, ''))[0]; mn = full_.get('mangledName'); t = t if t in defs else byMangled.get(mn, t)
                    if t in defs:
                        if t not in seen: seen.add(t); work.append(t)
                    elif nm.startswith('__builtin_'): bi.setdefault(nm, who)
                    elif not full_.get('constexpr'): probs.append(f'calls {nm}, which is not constexpr')
                elif rk == 'VarDecl' and rd['id'] not in loc:
                    v = A.decl.get(rd['id'], (rd, ''))[0]; qt = v.get('type',{}).get('qualType','')
                    if not v.get('constexpr') and not (qt.startswith('const ') and re.search(r'\b(int|bool|char|short|long|unsigned|uint_t|size_t|llint_t|ullint_t)\b', qt) and 'double' not in qt and 'float' not in qt): probs.append(f'reads {nm}, which is not a constant')
            c.obl += 1
            if probs: c.fail(f'ast:{who}@{s}', f'{who} ({s}) {"; ".join(sorted(set(probs))[:4])}', {'function':who,'std':s,'problems':probs})
            else: c.ok(f'ast:{who}@{s}', {'rule':'constexpr closure'} if nfun % 60 == 0 else None)
        c.bump('functions_in_closure', nfun)
    c.extra['builtins_reached'] = sorted(bi)

CONST = {'GCEM_LOG_2':'0.693147180559945309417232121458176568','GCEM_LOG_10':'2.302585092994045684017991454684364208','GCEM_PI':'3.141592653589793238462643383279502884','GCEM_LOG_PI':'1.144729885849400174143427351353058712','GCEM_LOG_2PI':'1.837877066409345483560659472811235280','GCEM_LOG_SQRT_2PI':'0.918938533204672741780329736405617640','GCEM_SQRT_2':'1.414213562373095048801688724209698079','GCEM_HALF_PI':'1.570796326794896619231321691639751442','GCEM_SQRT_PI':'1.772453850905516027298167483341145183','GCEM_SQRT_HALF_PI':'1.253314137315500251207882642405522627','GCEM_E':'2.718281828459045235360287471352662498'}
OPTS = {'GCEM_ERF_MAX_ITER':('41','d_erf'),'GCEM_ERF_INV_MAX_ITER':('41','d_erf_inv'),'GCEM_EXP_MAX_ITER_SMALL':('21','d_exp'),'GCEM_LOG_MAX_ITER_SMALL':('21','d_log'),'GCEM_INCML_BETA_TOL':('1E-13','d_incomplete_beta'),'GCEM_INCML_BETA_MAX_ITER':('151','d_incomplete_beta'),'GCEM_INCML_BETA_INV_MAX_ITER':('31','d_incomplete_beta_inv'),'GCEM_INCML_GAMMA_MAX_ITER':('51','d_incomplete_gamma'),'GCEM_INCML_GAMMA_INV_MAX_ITER':('31','d_incomplete_gamma_inv'),'GCEM_SQRT_MAX_ITER':('81','d_sqrt'),'GCEM_INV_SQRT_MAX_ITER':('81','d_inv_sqrt'),'GCEM_TANH_MAX_ITER':('31','d_tanh')}
UNDEF = {'abs','min','max','round','signbit'}
def reach_text(path, root):
    """normalised bodies of the functions reachable from root in an IR file"""
    if path not in reach_text.cache:
        fs = {}; cur = None
        for l in open(path):
            if l.startswith('define '): cur = re.search(r'@([\w.$]+)\(', l).group(1); fs[cur] = [re.sub(r'#\d+|!dbg !\d+|comdat', '', l)]
            elif l.startswith('}'): cur = None
            elif cur: fs[cur].append(re.sub(r', ![\w.]+ !\d+|!\d+', '', l))
        reach_text.cache[path] = fs
    fs = reach_text.cache[path]; seen = [root]; 
    if root not in fs: raise Broken('no IR for ' + root)
    for r in seen:
        for l in fs[r]:
            for g in re.findall(r'@([\w.$]+)\(', l):
                if g in fs and g not in seen: seen.append(g)
    return {r: '\n'.join(fs[r]) for r in seen}
reach_text.cache = {}
@prop('C21', 'Syntax-tree, preprocessor and IR queries, and compile witnesses (nothing is executed): one namespace, no non-inline definitions, only GCEM_ macros defined and only the documented ones undefined, includable first, twice, after the C and C++ maths headers and in the presence of function-like macros of the same name; every option can be set before inclusion and then reaches the code of the function it governs; the mathematical constants are correct to long double precision.')
def c21(c):
    def ob(oid, good, what, rep=None):
        c.obl += 1
        if good: c.ok(oid)
        else: c.fail(oid, what, rep or {'obligation': oid})
    use = 'double f_(double x){ return gcem::exp(x) + gcem::atan2(x,x) + gcem::max(x,1.0) + gcem::min(x,2.0) + gcem::abs(x) + gcem::round(x) + gcem::signbit(x) + gcem::incomplete_gamma(x,x); }\n'
    srcs = {'first':'#include <gcem.hpp>\n' + use, 'twice':'#include <gcem.hpp>\n#include <gcem.hpp>\n' + use,
            'after':'#include <math.h>\n#include <cmath>\n#include <complex>\n#include <cstdlib>\n#include <algorithm>\n#include <limits>\n#include <gcem.hpp>\n' + use, 'before':'#include <gcem.hpp>\n#include <cmath>\n#include <complex>\n#include <algorithm>\n#include <cstdlib>\n' + use,
            'macros':'#include <limits>\n#include <type_traits>\n#include <cstddef>\n#define abs(x) ((x)<0?-(x):(x))\n#define min(a,b) ((a)<(b)?(a):(b))\n#define max(a,b) ((a)>(b)?(a):(b))\n#define round(x) ((long)(x))\n#define signbit(x) ((x)<0)\n#include <gcem.hpp>\n' + use,
            'consts':'#include <gcem.hpp>\n' + ''.join(f'static_assert(({k}) - {v}L <= 2.5e-19L*{v}L && {v}L - ({k}) <= 2.5e-19L*{v}L, "{k} K");\n' for k, v in CONST.items()),
            'other':'#include <gcem.hpp>\nint other_(int x){ return gcem::gcd(x,6) + (int) gcem::incomplete_gamma(x,2.0); }\n'}
    J = [(k,cc,s,k,['-fsyntax-only','-w']) for k in ('first','twice','after','before','macros') for cc, s in COMPILERS]
    J += [('consts',cc,s,'consts',['-fsyntax-only','-w']) for cc in ('g++','clang++') for s in STDS]
    for j, rc, out, err in compile_all(c, srcs, J):
        if j[0] == 'consts':
            for k in CONST: ob(f'const:{k}@{j[1]}:{j[2]}', rc == 0 or (f'{k} K' not in err and 'K"' in err) or (f'{k} K' not in err and re.search('GCEM_\\w+ K', err)), f'{k} is not the constant it names (to long double precision)')
        else: ob(f'inc:{j[0]}@{j[1]}:{j[2]}', rc == 0, f'gcem.hpp does not compile with {j[1]} -std={j[2]} ({ {"first":"included first","twice":"included twice","after":"after the standard maths headers","before":"before the standard maths headers","macros":"with macros abs, min, max, round, signbit defined"}[j[0]] }): {first_error(err)}')
    # ---- one definition per program, one namespace
    for s in STDS:
        root = ast(s, '#include <gcem.hpp>\n'); cur = [None]; top = []
        def files(n, collect):
            """locations are printed as differences; follow them in document order"""
            f = None
            for k, v in n.items():
                if k in ('loc','range'): 
                    g = loc(v); f = g if k == 'loc' and g else f
                elif k == 'inner':
                    for y in v:
                        if y: files(y, False) if not collect else top.append((y, files(y, False)))
            return f or cur[0]
        def loc(v):
            f = None
            if not isinstance(v, dict): return None
            for k, w in v.items():
                if k == 'file': cur[0] = w; f = w
                elif k in ('begin','end','spellingLoc','expansionLoc'): loc(w)
            return cur[0]
        sys.setrecursionlimit(100000); files(root, True)
        mine = [(y, f) for y, f in top if f and f.startswith(INC)]
        if not mine: raise Broken('no declarations of the library found')
        for y, f in mine: ob(f'ns:{y.get("name")}:{y["id"]}@{s}', y['kind'] == 'NamespaceDecl' and y.get('name') == 'gcem' or y['kind'] in ('EmptyDecl','StaticAssertDecl') or y.get('isImplicit') or (y['kind'] == 'LinkageSpecDecl' and all(z.get('isImplicit') or str(z.get('name')).startswith('__builtin') for z in y.get('inner',()))), f'{os.path.relpath(f, REPO)} declares {y.get("name") or y["kind"]} outside namespace gcem')
        nd = 0
        for y, f in mine:
            for x in ns_members(y):
                nd += 1; nm = x.get('name','?')
                if x['kind'] in ('FunctionDecl',) and Ast.body(x) is not None: ob(f'odr:{nm}:{x["id"]}@{s}', x.get('inline') or x.get('constexpr') or x.get('storageClass') == 'static', f'{nm} is a non-inline function defined in a header: two translation units do not link')
                if x['kind'] == 'VarDecl': q = x.get('type',{}).get('qualType',''); ob(f'odr:{nm}@{s}', (x.get('constexpr') or x.get('storageClass') == 'static' or x.get('inline') or q.startswith('const ')), f'{nm} is a variable with external linkage defined in a header'); ob(f'mut:{nm}@{s}', x.get('constexpr') or q.startswith('const '), f'{nm} is a mutable variable')
        if nd < 60: raise Broken('declarations of namespace gcem not found')
        # ---- macros
        r = compile_all(c, {'m':'#include <gcem.hpp>\n'}, [('m','clang++',s,'m',['-E','-dD'])])[0]
        f = None; defs = set(); und = set()
        for l in r[2].splitlines():
            m = re.match(r'# \d+ "(.*?)"', l)
            if m: f = m.group(1); continue
            if f and f.startswith(INC):
                m = re.match(r'#(define|undef) (\w+)', l)
                if m: (defs if m.group(1) == 'define' else und).add(m.group(2))
        if len(defs) < 40: raise Broken('macros of the library not found')
        for d in sorted(defs): ob(f'mac:{d}@{s}', re.match(r'GCEM_|_gcem_|_GCEM_|gcem_', d) or d in und, f'the header leaks the macro {d}')
    r = compile_all(c, {'m':'#include <limits>\n#include <type_traits>\n#include <cstddef>\n' + ''.join(f'#define {x} vp_{x}\n' for x in ('abs','min','max','round','signbit','NDEBUG','exp','log','I','E','PI','N','M','INFINITY','NAN','EPS')) + '#include <gcem.hpp>\n'}, [('m','clang++','c++17','m',['-E','-dM'])])[0]
    left = set(re.findall(r'#define (\w+) vp_\w+', r[2]))
    for x in ('NDEBUG','exp','log','I','E','PI','N','M','INFINITY','NAN','EPS'): ob(f'undef:{x}', x in left, f'the header undefines the macro {x}')
    # ---- options
    src = '\n'.join(l for l in wrappers().split('\n') if l.startswith('#') or re.search(r' d_(erf|erf_inv|exp|log|incomplete_beta|incomplete_beta_inv|incomplete_gamma|incomplete_gamma_inv|sqrt|inv_sqrt|tan|tanh)\(', l)) + '\n'
    todo = [(s, None) for s in STDS] + [(s, k) for s in STDS for k in OPTS]
    def mk(a): return ir(a[0], src, 'opt' + (a[1] or ''), (f'-D{a[1]}={OPTS[a[1]][0]}',) if a[1] else ())
    with cf.ThreadPoolExecutor(8) as ex: irs = dict(zip(todo, ex.map(mk, todo)))
    r = compile_all(c, {'m':'#include <gcem.hpp>\n'}, [(k,'clang++','c++17','m',['-E','-dM',f'-D{k}={v[0]}']) for k, v in OPTS.items()])
    for j, rc, out, err in r: ob(f'set:{j[0]}', re.search(r'#define %s %s\s*$' % (j[0], re.escape(OPTS[j[0]][0])), out, re.M), f'{j[0]} set before inclusion is overridden by the header')
    for s in STDS:
        for k, (v, fn) in OPTS.items():
            a, b = reach_text(irs[(s, None)], fn), reach_text(irs[(s, k)], fn)
            ob(f'opt:{k}@{s}', a != b, f'{k} has no effect on the code of {fn[2:]} ({s})')
    c.bump('options', len(OPTS))
def ns_members(n):
    for y in n.get('inner', ()):
        if not y: continue
        if y.get('kind') == 'NamespaceDecl': yield from ns_members(y)
        elif y.get('kind') == 'LinkageSpecDecl': yield from ns_members(y)
        else: yield y

def gauss_legendre(n):
    """nodes (ascending) and weights of the n-point rule to 45 digits: Newton's method on the Legendre polynomial"""
    import math
    from decimal import Decimal as D, getcontext
    getcontext().prec = 60; r = []
    def pd(x):
        p0, p1 = D(1), x
        for j in range(2, n+1): p0, p1 = p1, ((2*j-1)*x*p1 - (j-1)*p0)/j
        return p1, n*(x*p1 - p0)/(x*x - 1)
    for k in range(1, n+1):
        x = D(math.cos(math.pi*(k - 0.25)/(n + 0.5)))
        for _ in range(8): p, d = pd(x); x -= p/d
        p, d = pd(x); r.append((x, 2/((1 - x*x)*d*d)))
    return sorted(r)
@prop('C24', 'The quadrature tables, read from the constant initialisers in the IR as exact binary fractions, are checked by exact rational arithmetic: the rule with n nodes integrates every monomial of degree below 2n over [-1,1] to within 1e-17, nodes are distinct and inside the interval, weights are positive.')
def c24(c):
    from fractions import Fraction as Q
    inc = os.path.join(INC,'gcem_incl','quadrature')
    for n in (50, 30):
        h = os.path.join(inc, f'gauss_legendre_{n}.hpp')
        if n == 30:
            if not os.path.exists(h): continue
            src = f'namespace gcem {{\n#include "{h}"\n}}\nW(30)\n'
        else: src = '#include <gcem.hpp>\nW(50)\n'
        src = '#define W(n) extern "C" long double q_(int i){ return gcem::gauss_legendre_##n##_points[i]*gcem::gauss_legendre_##n##_weights[i]; }\n' + src
        t = open(ir('c++17', src, f'quad{n}')).read(); arr = {}
        for m in re.finditer(r'@(\S+) = .*?constant \[(\d+) x (x86_fp80|double)\] \[(.*?)\]', t): arr[m.group(1)] = (m.group(3), re.findall(r'(?:x86_fp80|double) (\S+?)(?:,|$|\])', m.group(4) + ']'))
        def val(k, s):
            if s.startswith('0xK'): b = int(s[3:], 16); sg, e, mt = b >> 79, (b >> 64) & 0x7fff, b & ((1<<64)-1); return (-1)**sg * Q(mt) * Q(2)**(e - 16383 - 63)
            if s.startswith('0x'): import struct; return Q(struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0])
            return Q(float(s))
        X = [v for k, v in arr.items() if 'points' in k]; Wt = [v for k, v in arr.items() if 'weights' in k]
        if len(X) != 1 or len(Wt) != 1: raise Broken(f'quadrature tables of {n} nodes not found')
        x = [val(X[0][0], s) for s in X[0][1]]; w = [val(Wt[0][0], s) for s in Wt[0][1]]; c.bump('table_entries', len(x) + len(w))
        def ob(oid, good, what):
            c.obl += 1
            if good: c.ok(oid, {'rule':'moment'} if oid.endswith('0') else None)
            else: c.fail(oid, what, {'table': os.path.relpath(h, REPO)})
        ob(f'len:{n}', len(x) == n and len(w) == n, f'table of {n} nodes has {len(x)} nodes and {len(w)} weights'); ob(f'dist:{n}', len(set(x)) == len(x) and all(-1 < v < 1 for v in x), 'nodes repeat or leave the interval'); ob(f'pos:{n}', all(v > 0 for v in w), 'weights are not positive')
        for i, (g, t_) in enumerate(zip(gauss_legendre(n), sorted(zip(x, w)))):
            for what, a, b in (('node', g[0], t_[0]), ('weight', g[1], t_[1])): ob(f'{what}{n}:{i}', abs(Q(a) - b) < Q(1, 10**19), f'{what} {i} of the {n}-node rule is {float(t_[0] if what == "node" else t_[1])!r}, off by {float(b - Q(a)):.2g} (gauss_legendre_{n}.hpp)')
        pw = [Q(1)]*len(x)
        for k in range(2*n):
            e = sum(a*b for a, b in zip(pw, w)) - (Q(2, k+1) if k % 2 == 0 else 0); pw = [a*b for a, b in zip(pw, x)]
            ob(f'mom{n}:{k}', abs(e) < Q(1, 10**17), f'the {n}-node rule integrates x^{k} with error {float(e):.2g} (gauss_legendre_{n}.hpp)')
