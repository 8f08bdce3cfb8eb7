"""The properties: which obligations the analyser has to discharge for each of them."""
import itertools, re, os
from core import *
CHECKS, RULE, LEVEL = {}, {}, {}
STDS = ('c++11', 'c++17')
def prop(pid, rule, level='proof'):
    def d(f): CHECKS[pid] = f; RULE[pid] = rule; LEVEL[pid] = level; return f
    return d
def doms(ts):
    """every value of every argument type, infinities and NaN included"""
    o = [[rng(t,'-inf','inf'), pt(t,'nan')] if t[0] == 'f' else [full(t)] for t in ts]
    return [list(c) for c in itertools.product(*o)]
def job(id, m, fn, domains, pred, **k):
    k.setdefault('sec', 60); k.setdefault('cells', 20000); k.setdefault('steps', 100000)
    return dict(id=f'{id}@{m}', module=m, fn=fn, domains=domains, pred=pred, **k)
def filt(c, J):
    return [j for j in J if re.search(c.filter, j['id'])] if getattr(c,'filter',None) else J

UB = ['float-to','signed-overflow','division','shift','out-of-bounds','null','unknown','unreachable','trap','indirect','inline','external','intrinsic']
ASSUMED = ['exp','log','sqrt','erf','lgamma','tgamma','log1p','expm1','beta','lbeta','sin','cos','tan','tanh','atan','asin','inv_sqrt','incomplete_gamma','incomplete_beta','erf_inv','pow','atan2','log_binomial_coef']

def api_signatures(types='fdl', ints='iuxyschtnmk'):
    """(wrapper, argument types) of every entry point whose whole argument space is in scope"""
    S = []
    for p in types:
        T = TY[p]
        for f in F1 + ['sgn','signbit']: S.append((f'{p}_{f}', [T]))
        for f in F2: S.append((f'{p}_{f}', [T,T]))
        for f in F3: S.append((f'{p}_{f}', [T,T,T]))
        for q in 'iuxyschtnmk': S.append((f'{p}_pow_{q}', [T,TY[q]]))
    for p in ints:
        T = TY[p]
        for f in F1 + ['sgn']:
            if f == 'abs': continue
            S.append((f'{p}_{f}', [T]))
        for f in F2:
            if f in ('copysign','pow'): continue
            S.append((f'{p}_{f}', [T,T]))
        for f in F3: S.append((f'{p}_{f}', [T,T,T]))
    return S

@prop('C01', 'Abstract interpretation (intervals, signed zero, NaN, integers; path-sensitive refinement; recursion unrolled, widened when too deep) of the LLVM IR of every public entry point, for all values of all arguments: no reachable float-to-integer conversion out of range, signed overflow, division by zero, bad shift, out-of-bounds or null access, unreachable, trap, external or indirect call. Calls to other public functions are replaced by an unconstrained result; those functions have obligations of their own.')
def c01(c):
    J = []
    for m in STDS:
        for fn, ts in api_signatures():
            J.append(job('ub:'+fn, m, fn, doms(ts), dict(k='noevent', kinds=UB), steps=300000 if fn[0]=='l' and 'gamma' not in fn else 100000, sec=120, what='absence of undefined behaviour', assume={f'{p}_{f}':0 for f in ASSUMED for p in 'fdl'}))
        for p in 'ixsc':
            w = int(TY[p][1:]); J.append(job(f'ub:{p}_abs', m, f'{p}_abs', [[rng(TY[p], -(1<<(w-1))+1 if p in 'ix' else -(1<<(w-1)), (1<<(w-1))-1)]], dict(k='noevent', kinds=UB), what='absence of undefined behaviour'))
        for p in IT:   # gcd never overflows or divides by zero, whatever the (negatable) arguments
            w = int(TY[p][1:]); sg = TY[p][0] == 'i'; D = [rng(TY[p], -(1<<(w-1))+1 if sg else 0, (1<<(w-sg))-1)]*2
            J.append(job(f'ub:{p}_gcd', m, f'{p}_gcd', [D], dict(k='noevent', kinds=UB), fix=True, what='absence of undefined behaviour'))
        for p in 'fdl': J.append(job(f'ub:{p}_lmgamma', m, f'{p}_lmgamma', [[rng(TY[p],'-inf','inf'), rng('i32',-5,20)],[pt(TY[p],'nan'), rng('i32',-5,20)]], dict(k='noevent', kinds=UB), steps=300000, what='absence of undefined behaviour', assume={f'{q}_{f}':0 for f in ASSUMED for q in 'fdl'}))
    c.run(filt(c, J))

BASE_DEPTH = ['exp','log','sqrt','lgamma','erf','expm1','log1p','atan','tan','beta','lbeta','pow','erf_inv','incomplete_gamma','incomplete_beta','log_binomial_coef','inv_sqrt']
COMPOSITE = [['erf_inv','hypot','incomplete_gamma','incomplete_beta','lmgamma','log_binomial_coef','lbeta','beta','pow','atan2','acos','asin','acosh','asinh','atanh','sinh','cosh','tgamma'],['incomplete_gamma_inv','incomplete_beta_inv']]
@prop('C02', 'Abstract interpretation of the IR of every public entry point over its whole argument space with the call stack tracked: the deepest chain of nested calls, recursion included, is at most 512 (the default constexpr depth of GCC and Clang) in float and double, 1024 for the incomplete gamma and beta functions and their inverses. Results proved for elementary functions are reused as depth summaries for the functions that call them.')
def c02(c):
    depth = {}; moderate = {}   # (module, wrapper) -> proved bound
    LOGLIKE = ('erf_inv','log','log2','log10','log1p','lgamma','beta','lbeta','log_binomial_coef','lmgamma','asinh','acosh','atanh','pow','sqrt','inv_sqrt');
    def go(names, assume):
        J = []
        for m in STDS:
            for p in 'fd':
                T = TY[p]
                for f in names:
                    ds = doms([T,'i32'] if f == 'lmgamma' else [T,TY[f[4:]]] if f.startswith('pow_') else [T]*(3 if f in F3 else 2 if f in F2 else 1))
                    if f == 'lmgamma': ds = [[d[0], rng('i32',-5,20)] for d in ds]
                    if f == 'tgamma': ds = [[rng(T,-150,'inf')],[pt(T,'-inf')],[pt(T,'nan')]]   # below, the recursion is as deep as |x|: known finding, next obligation
                    J.append(job(f'depth:{p}_{f}', m, f'{p}_{f}', ds, dict(k='depth',max=1024), maxdepth=1200, steps=100000, sec=120, what='bounded nested call depth',
                        assume={f'{p}_{g}': depth[(m,f'{p}_{g}')] for g in assume if (m,f'{p}_{g}') in depth}))
                    if not (assume and f in LOGLIKE) and not f.startswith(('incomplete','pow_')):   # what the default limit of the compilers allows
                        R_ = lambda: rng(T,-1e30 if p == 'f' else -1e120, 1e30 if p == 'f' else 1e120); P_ = lambda: [rng(T,1e-30,1e30)] if p == 'f' else [rng(T,1e-120,1e120)]
                        n = 2 if f in F2 else 1; dm = [[rng(T,-40,20)]] if f == 'tgamma' else [P_()*n] if f in LOGLIKE else [[R_()]*n]
                        if f == 'lmgamma': dm = [P_() + [rng('i32',-5,20)]]
                        J.append(job(f'dflt:{p}_{f}', m, f'{p}_{f}', dm, dict(k='depth',max=512), maxdepth=1200, steps=100000, sec=120, what='nested call depth at most 512',
                            assume={f'{p}_{g}': depth[(m,f'{p}_{g}')] for g in assume if (m,f'{p}_{g}') in depth and f != 'tgamma'}))
        J = filt(c, J)
        if not J: return
        res = c.run(J)
        for j in J:
            r = res[j['id']]
            if os.environ.get('SHOWDEPTH'): print(j['id'], r['depth'])
            if r['status'] == 'proved': (depth if j['id'].startswith('depth') else moderate)[(j['module'], j['fn'])] = r['depth']
            depth_max[0] = max(depth_max[0], r['depth'] if r['status'] == 'proved' else 0)
    depth_max = [0]; deep = []
    lvl0 = [f for f in F1 + F2 if f not in COMPOSITE[0] + COMPOSITE[1]] + ['sgn','signbit'] + ['pow_'+q for q in 'iuxyschtnmk']
    for m in STDS: deep.append(job('depth:d_tgamma_below_-500', m, 'd_tgamma', [[pt('f64',-600.5)]], dict(k='depth',max=512), maxdepth=2000, steps=1000000, what='nested call depth at most 512'))
    if not c.filter: c.run(deep)
    go(lvl0, []); go(COMPOSITE[0], BASE_DEPTH[:9]); go(COMPOSITE[1], BASE_DEPTH)
    c.extra['deepest_proved'] = depth_max[0]

def sset(nan=False, *ranges): return dict(k='set', nan=nan, ranges=[[str(a),str(b)] for a,b in ranges])
NANP2 = ['atan2','beta','fmod','hypot','incomplete_gamma','incomplete_gamma_inv','lbeta','log_binomial_coef','pow']
@prop('C03', 'Abstract interpretation with a NaN argument in one position and every value in the others: the result is NaN and nothing else.')
def c03(c):
    J = []
    for m in STDS:
        for p in 'fdl':
            T = TY[p]; A = lambda: [rng(T,'-inf','inf'), pt(T,'nan')]
            for f in F1: J.append(job(f'nan:{p}_{f}', m, f'{p}_{f}', [[pt(T,'nan')]], sset(True), what='NaN argument gives NaN'))
            for f in NANP2: J.append(job(f'nan:{p}_{f}', m, f'{p}_{f}', [[pt(T,'nan'), a] for a in A()] + [[a, pt(T,'nan')] for a in A()], sset(True), what='NaN argument gives NaN'))
            for f in F3: J.append(job(f'nan:{p}_{f}', m, f'{p}_{f}', [[pt(T,'nan'), a, b] for a in A() for b in A()] + [[a, pt(T,'nan'), b] for a in A() for b in A()] + [[a, b, pt(T,'nan')] for a in A() for b in A()], sset(True), what='NaN argument gives NaN'))
            for q in 'iuxyschtnmk':
                w = int(TY[q][1:]); d = [[pt(T,'nan'), rng(TY[q],1,(1<<(w-1))-1 if TY[q][0]=='i' else (1<<w)-1)]]
                if TY[q][0] == 'i': d.append([pt(T,'nan'), rng(TY[q],-(1<<(w-1)),-1)])
                J.append(job(f'nan:{p}_pow_{q}', m, f'{p}_pow_{q}', d, sset(True), what='NaN argument gives NaN'))
            J.append(job(f'nan:{p}_lmgamma', m, f'{p}_lmgamma', [[pt(T,'nan'), rng('i32',1,20)]], sset(True), what='NaN argument gives NaN'))
            J.append(job(f'nan:{p}_factorial', m, f'{p}_factorial', [[pt(T,'nan')]], sset(True), what='NaN argument gives NaN'))
    c.run(filt(c, J))

@prop('C04', 'Abstract interpretation over the whole region outside each function\'s domain (both infinities included): the result is NaN and nothing else.')
def c04(c):
    J = []
    for m in STDS:
        for p in 'fdl':
            T = TY[p]; one = lambda lo, hi, ol=False, oh=False: [rng(T,lo,hi,ol,oh)]
            gt1, lt_1 = one(1,'inf',True), one('-inf',-1,False,True)
            neg = one('-inf',0); neg[0].update(openhi=True)
            R1 = {f: [gt1, lt_1] for f in ('acos','asin','atanh','erf_inv')}
            R1.update({f: [neg] for f in ('log','log2','log10','sqrt','inv_sqrt')})
            R1.update(acosh=[one('-inf',1,False,True)], log1p=[lt_1], sin=[[pt(T,'inf')],[pt(T,'-inf')]], cos=[[pt(T,'inf')],[pt(T,'-inf')]], tan=[[pt(T,'inf')],[pt(T,'-inf')]])
            for f, d in R1.items(): J.append(job(f'dom:{p}_{f}', m, f'{p}_{f}', d, sset(True), what='NaN outside the domain'))
            A = rng(T,'-inf','inf'); N = rng(T,'-inf',0,False,True); P = rng(T,0,'inf',True)
            R2 = {'fmod': [[A, pt(T,'0')], [A, pt(T,'-0')], [pt(T,'inf'), A], [pt(T,'-inf'), A]],
                  'pow': [[rng(T,'-'+MAXV[T],-1e-30), rng(T,a,b,True,True)] for a,b in ((0.001,1),(1,2),(-1,-0.001),(2,3),(-2,-1))],
                  'incomplete_gamma': [[N, A], ], 'incomplete_gamma_inv': [[P, rng(T,1,'inf',True)]]}
            for f, d in R2.items(): J.append(job(f'dom:{p}_{f}', m, f'{p}_{f}', d, sset(True), what='NaN outside the domain'))
        for q in 'c': J.append(job(f'dom:{q}_tgamma', m, f'{q}_tgamma', [[rng(TY[q], -128, -1)]], sset(True), cells=100000, what='NaN at the poles of the gamma function'))
        for q in 'ixsc':
            w = int(TY[q][1:])
            for f in ('log','log2','log10','sqrt','inv_sqrt','acosh'): J.append(job(f'dom:{q}_{f}', m, f'{q}_{f}', [[rng(TY[q], -(1<<(w-1)), -1)]], sset(True), what='NaN outside the domain'))
            for f in ('acos','asin','atanh','erf_inv'): J.append(job(f'dom:{q}_{f}', m, f'{q}_{f}', [[rng(TY[q], -(1<<(w-1)), -2)], [rng(TY[q], 2, (1<<(w-1))-1)]], sset(True), what='NaN outside the domain'))
    c.run(filt(c, J))

PI = '3.14159265358979323846264338327950288'; PI_2 = '1.57079632679489661923132169163975144'
def approx(v, T):
    """a band of a few ulps around a constant"""
    from decimal import Decimal, getcontext
    getcontext().prec = 40; v = Decimal(v); e = Decimal({'f32':'1e-6','f64':'1e-15','f80':'1e-18'}[T])
    return (v - abs(v)*e, v + abs(v)*e)
@prop('C05', 'Abstract interpretation at the infinities, zeros, ones and other limit points of each function, alone or with a full range for the remaining argument: the result is exactly the documented limit.')
def c05(c):
    J = []
    for m in STDS:
        for p in 'fdl':
            T = TY[p]; P = lambda v: [pt(T,v)]; x2 = lambda v: [P(v), P('-'+v)]
            ph = approx(PI_2, T); np_ = (-ph[1], -ph[0]); pp = approx(PI, T); A = rng(T,'-inf','inf'); pos = rng(T,MINV[T],MAXV[T]); neg = rng(T,'-'+MAXV[T],'-'+MINV[T]); fin = rng(T,'-'+MAXV[T],MAXV[T])
            tab = [
             ('abs',[P('inf'),P('-inf')],'inf'),('abs',x2('0'),0),
             ('acos',[P(1)],0),('acos',[P(-1)],pp),('acos',[P(0)],ph),('acosh',[P(1)],0),('acosh',[P('inf')],'inf'),
             ('asin',x2('0'),0),('asin',[P(1)],ph),('asin',[P(-1)],np_),('asinh',[P('inf')],'inf'),('asinh',[P('-inf')],'-inf'),('asinh',x2('0'),0),
             ('atan',x2('0'),0),('atan',[P('inf')],ph),('atan',[P('-inf')],np_),('atanh',[P(1)],'inf'),('atanh',[P(-1)],'-inf'),('atanh',x2('0'),0),
             ('ceil',[P('inf')],'inf'),('ceil',[P('-inf')],'-inf'),('floor',[P('inf')],'inf'),('floor',[P('-inf')],'-inf'),('trunc',[P('inf')],'inf'),('trunc',[P('-inf')],'-inf'),('round',[P('inf')],'inf'),('round',[P('-inf')],'-inf'),
             ('cos',x2('0'),1),('cosh',[P('inf'),P('-inf')],'inf'),('cosh',x2('0'),1),
             ('erf',x2('0'),0),('erf',[P('inf')],1),('erf',[P('-inf')],-1),('erf_inv',[P(1)],'inf'),('erf_inv',[P(-1)],'-inf'),('erf_inv',x2('0'),0),
             ('exp',x2('0'),1),('exp',[P('inf')],'inf'),('exp',[P('-inf')],0),('expm1',x2('0'),0),('expm1',[P('inf')],'inf'),('expm1',[P('-inf')],-1),
             ('inv_sqrt',x2('0'),'inf'),('inv_sqrt',[P('inf')],0),('inv_sqrt',[P(1)],1),
             ('lgamma',[P(1),P(2)],(-1e-5 if p=='f' else -1e-13, 1e-5 if p=='f' else 1e-13)),('lgamma',[P('inf')],'inf'),('lgamma',x2('0'),'inf'),('tgamma',[P('inf')],'inf'),('tgamma',[P(1)],1),
             ('log',x2('0'),'-inf'),('log',[P(1)],0),('log',[P('inf')],'inf'),('log10',x2('0'),'-inf'),('log10',[P(1)],0),('log10',[P('inf')],'inf'),('log2',x2('0'),'-inf'),('log2',[P(1)],0),('log2',[P('inf')],'inf'),
             ('log1p',x2('0'),0),('log1p',[P(-1)],'-inf'),('log1p',[P('inf')],'inf'),
             ('sin',x2('0'),0),('tan',x2('0'),0),('sinh',x2('0'),0),('sinh',[P('inf')],'inf'),('sinh',[P('-inf')],'-inf'),('sqrt',x2('0'),0),('sqrt',[P(1)],1),('sqrt',[P('inf')],'inf'),
             ('tanh',x2('0'),0),('tanh',[P('inf')],1),('tanh',[P('-inf')],-1),
             ('hypot',[[pt(T,'inf'),A],[pt(T,'-inf'),A],[A,pt(T,'inf')],[A,pt(T,'-inf')]],'inf'),
             ('hypot',[[pt(T,0),pt(T,0)]],0),
             ('atan2',[[pos,pt(T,0)],[pos,pt(T,'-0')]],ph),('atan2',[[neg,pt(T,0)],[neg,pt(T,'-0')]],np_),('atan2',[[pt(T,0),pos]],0),('atan2',[[pt(T,0),neg]],pp),
             ('pow',[[pos,pt(T,1)]],None),
             ('incomplete_gamma',[[rng(T,1e-3,MAXV[T]),pt(T,0)]],0),('incomplete_gamma',[[rng(T,1e-3,MAXV[T]),pt(T,'inf')]],1),
             ('incomplete_gamma_inv',[[rng(T,1e-3,MAXV[T]),pt(T,0)]],0),('incomplete_gamma_inv',[[rng(T,1e-3,MAXV[T]),pt(T,1)]],'inf'),
             ('incomplete_beta',[[pos,pos,pt(T,0)]],0),
             ('incomplete_beta_inv',[[pos,pos,pt(T,0)]],0),('incomplete_beta_inv',[[pos,pos,pt(T,1)]],1),
             ('fmod',[[pt(T,0),pos],[pt(T,0),neg],[pt(T,'-0'),pos]],0),
            ]
            for n,(f,d,v) in enumerate(tab):
                if v is None: continue
                r = v if isinstance(v, tuple) else (v, v)
                J.append(job(f'lim{n}:{p}_{f}', m, f'{p}_{f}', d, sset(False, r), what=f'limit value {v}'))
            for q in 'iuxyschtnmk': J.append(job(f'lim:{p}_pow_{q}(x,0)=1', m, f'{p}_pow_{q}', [[A,pt(TY[q],0)],[pt(T,'nan'),pt(TY[q],0)]], sset(False,(1,1)), what='pow(x,0) is 1'))
    c.run(filt(c, J))

# ---------------------------------------------------------------- accuracy
import accuracy
from accuracy import Acc
def base_contracts(p):
    """accuracy of the functions that others are built from"""
    f = p == 'f'; t = '1e-5' if f else '1e-11'
    lo, hi = (-87,88) if f else (-708,709)
    B = {}
    B['exp'] = Acc(p,'exp',[(lo,hi)],t,rel=True,D=8 if f else 10)
    B['log'] = Acc(p,'log',[('1.1754944e-38','3.4e38') if f else ('2.2250738585072014e-308','1.79e308') if p == 'd' else ('1e-250','1e250')],t,D=8 if f else 10)
    B['sqrt'] = Acc(p,'sqrt',[('1e-6','1e8')],'1e-4' if f else t,rel=True,D=6 if f else 8)
    B['lgamma'] = Acc(p,'lgamma',[('0.01','1e4')],'3e-5' if f else '1e-10',D=10)
    B['atan'] = Acc(p,'atan',[(0,'1e6')],t,D=10,sym='odd')
    B['erf'] = Acc(p,'erf',[(0,6)],'5e-3' if f else '1e-11',D=10,sym='odd')
    B['exp0'] = Acc(p,'exp',[(-100000 if p == 'd' else -1000 if f else -720,-79 if f else -680)],'1e-34' if f else '1e-290',ref='zero',D=8)
    B['tan'] = Acc(p,'tan',[(0,'1.5')],t,D=10,sym='odd')
    return B
ACC_RULE = 'Abstract interpretation of the IR in the Taylor-model domain (polynomial in the arguments plus a rigorous remainder that carries every rounding error), adaptive subdivision of the argument box, comparison with a Taylor enclosure of the exact function; calls to other public functions replaced by their accuracy contract, itself an obligation of this check; the C++11 module and negative arguments by exact-equality lemmas where those are provable, directly otherwise.'
def tol_of(p, d='1e-10', f='1e-4', l=None): return f if p == 'f' else d if p == 'd' else l or d

@prop('C08', 'Accuracy of exp, expm1, log, log1p, log2, log10, sqrt, inv_sqrt, pow, hypot. ' + ACC_RULE)
def c08(c): accuracy.run(c, e08(c), job)
def e08(c):
    """the accuracy obligations"""
    E = []
    for p in 'fdl':
        B = base_contracts(p); f = p == 'f'; t = tol_of(p); R = dict(rel=True)
        E += [B['exp'], B['log'], B['sqrt']]
        if p == 'l': E.append(Acc(p,'exp',[(709,1200),(5000,5020),(11300,11320),(-11300,-11290)],t,rel=True,D=10))
        lo, hi = (-87,88) if f else (-708,709); top = '3.4e38' if f else '1.79e308' if p == 'd' else '1e250'; bot = '1.2e-38' if f else '2.3e-308' if p == 'd' else '1e-250'; L = [B['log']]; X = [B['exp']]
        E.append(Acc(p,'expm1',[('-0.2','0.2')],t,atol='1e-6' if f else '1e-14',**R)); E.append(Acc(p,'expm1',[('0.2',hi),(lo,'-0.2')],t,use=X,**R))
        E.append(Acc(p,'log1p',[('-0.9999' if f else '-0.999999', '3.4e38' if f else '1.79e308' if p == 'd' else '1e200')],t,use=L))
        E.append(Acc(p,'log2',[(bot,top)],t,use=L)); E.append(Acc(p,'log10',[(bot,top)],t,use=L))
        E.append(Acc(p,'inv_sqrt',[('1e-6','1e8')],t,D=6 if f else 8,**R))
        if not f:
            for lo,hi in (('1e-300','1e-299'),('1e-100','1e-99'),('1e-20','1e-18'),('1e9','1e12'),('1e40','1e41'),('1e200','1e201'),('1e307','1.7e308')):
                for g in ('sqrt','inv_sqrt'): E.append(Acc(p,g,[(lo,hi)],'1e-9',D=8,**R))
        else:
            for g in ('sqrt','inv_sqrt'):
                E.append(Acc(p,g,[('1.2e-38','1e-6')],'1e-4',D=6,**R)); E.append(Acc(p,g,[('1e8','3e38')],'1e-4',D=6,**R))
        if c.thorough and p == 'd':
            for g in ('sqrt','inv_sqrt'): E.append(Acc(p,g,[('2.3e-308','1e-6')],'1e-9',D=8,sec=3000,cells=4000000,**R)); E.append(Acc(p,g,[('1e8','1.7e308')],'1e-9',D=8,sec=3000,cells=4000000,**R))
        b = ('0.1',10) if f else ('0.01',100)
        ey = 5 if f else 10
        E.append(Acc(p,'pow',[[b,('0.01',ey)],[b,(-ey,'-0.01')],[b,('-0.01','0.01')]],'1e-3' if f else '1e-8',D=8,use=[B['exp'],B['log']],atol='1e-15',**R))
        h = ('0.01',100)
        E.append(Acc(p,'hypot',[[h,h]] + ([[('-100','-0.01'),h],[h,('-100','-0.01')],[('-100','-0.01'),('-100','-0.01')]]),'1e-3' if f else '1e-9',D=8,use=[B['sqrt']],**R))
        for s in (['1e-30','1e30'] if f else ['1e-150','1e150','1e300']):
            sc = lambda v: v + s[2:] if False else repr(v) + 'e' + s[2:]
            E.append(Acc(p,'hypot',[[(sc(1),sc(2)),(sc(1),sc(3))],[(sc(1),sc(2)),(sc('-3') if False else '-'+sc(3),'-'+sc(1))],[(sc(1),sc(2)),('0.01','0.02') if s[2] != '-' else ('1e3','2e3')],[('0.01','0.02') if s[2] != '-' else ('1e3','2e3'),(sc(1),sc(2))]],'1e-3' if f else '1e-9',D=6,use=[B['sqrt']],**R))
    return E

@prop('C09', 'Accuracy of sin, cos, tan, atan, asin, acos, atan2. ' + ACC_RULE)
def c09(c): accuracy.run(c, e09(c), job)
def e09(c):
    """the accuracy obligations"""
    E = []
    for p in 'fdl':
        B = base_contracts(p); f = p == 'f'; t = tol_of(p)
        E += [B['atan'], B['tan']]
        E.append(Acc(p,'sin',[(0,30 if f else 100)],t,D=10,sym='odd'))
        # far from the origin, argument reduction loses digits in proportion to the argument
        E.append(Acc(p,'sin',[(30,33),(1000,1003)] if f else [(100,103),(1000,1003),('1e5',100003),('1e6',1000003)],'1e-3' if f else '1e-9',D=10,sym='odd'))
        E.append(Acc(p,'cos',[(16,21)] if f else [(100,103),(1003,1007),(100001,100005),(999998,1000003)],'1e-3' if f else '1e-9',D=10,sym='even'))
        E.append(Acc(p,'tan',[('1.5','1.57'),('1.58',3),(4,'4.7')] + ([] if f else [(100,'100.5')]),'1e-2' if f else '1e-8',D=8,sym='odd'))
        E.append(Acc(p,'atan',[('1e6','1e38' if f else '1e300')],t,D=6,sym='odd'))
        E.append(Acc(p,'asin',[('0.99','0.999' if f else '0.9999999')],'1e-3' if f else '1e-8',D=8,sym='odd')); E.append(Acc(p,'acos',[('0.99','0.999'),('-0.999','-0.99')] if f else [('0.99','0.9999999'),('-0.9999999','-0.99')],'1e-3' if f else '1e-8',D=8))
        import math
        n = 3 if f else 10; g = 0.05 if f else 0.002; cs = []; lo = 0.0
        for k in range(n):
            pole = (2*k+1)*math.pi; cs.append((repr(lo), repr(pole-g))); lo = pole+g
        E.append(Acc(p,'cos',cs,t,D=10,sym='even'))
        E.append(Acc(p,'asin',[(0,'0.99')],t,D=10,sym='odd')); E.append(Acc(p,'acos',[('-0.99','0.99')],t,D=10))
        pos, neg = ('0.01',100), (-100,'-0.01')
        E.append(Acc(p,'atan2',[[pos,pos],[pos,neg],[neg,pos],[neg,neg]],'1e-3' if f else '1e-9',D=8,use=[B['atan']]))
    return E

@prop('C10', 'Accuracy of sinh, cosh, tanh, asinh, acosh, atanh. ' + ACC_RULE)
def c10(c): accuracy.run(c, e10(c), job)
def e10(c):
    """the accuracy obligations"""
    E = []
    for p in 'fdl':
        B = base_contracts(p); f = p == 'f'; t = tol_of(p); X = [B['exp']]; L = [] if f else [B['log'], B['sqrt']]
        b = 87 if f else 708
        E.append(Acc(p,'sinh',[(0,2)],t,D=10,rel=True,atol='1e-5' if f else '1e-13',sym='odd')); E.append(Acc(p,'sinh',[(2,b)],t,D=10,use=X,rel=True,sym='odd')); E.append(Acc(p,'cosh',[(0,b)],t,D=10,use=X,rel=True,sym='even'))
        E.append(Acc(p,'tanh',[(0,'1000')],t,D=10,sym='odd'))
        E.append(Acc(p,'asinh',[(0,'1e4')],t,D=10,use=L,sym='odd')); E.append(Acc(p,'asinh',[('1e4','3e38' if f else '1e200')],t,D=10,use=L,sym='odd'))
        E.append(Acc(p,'acosh',[('1.001','1e4')],t,D=10,use=L)); E.append(Acc(p,'acosh',[('1e4','3e38' if f else '1e200')],t,D=10,use=L))
        E.append(Acc(p,'atanh',[(0,'0.999')],t,D=10,use=L,sym='odd')); E.append(Acc(p,'atanh',[('0.999','0.9999' if f else '0.9999999')],'1e-3' if f else '1e-8',D=8,use=L,sym='odd'))
        E.append(Acc(p,'acosh',[('1.0001' if f else '1.000001','1.001')],'1e-2' if f else '1e-8',D=8,use=L))
    return E

@prop('C11', 'Accuracy of erf, lgamma, tgamma, beta, lbeta, log_binomial_coef. ' + ACC_RULE)
def c11(c): accuracy.run(c, e11(c), job)
def e11(c):
    """the accuracy obligations"""
    E = []
    for p in 'fdl':
        B = base_contracts(p); f = p == 'f'; X = B['exp']; G = B['lgamma']
        E += [B['erf'], G]
        E.append(Acc(p,'erf',[(6,26 if p == 'd' or c.thorough else 9)],'5e-3' if f else '1e-11',D=10,sym='odd'))
        E.append(Acc(p,'tgamma',[('0.1',20)],'1e-3' if f else '1e-8',rel=True,D=10,use=[] if f else [X,G]))
        E.append(Acc(p,'tgamma',[('-0.9','-0.1'),('-1.9','-1.1'),('-2.9','-2.1')],'1e-3' if f else '1e-8',rel=True,D=10,use=[] if f else [X,G]))
        E.append(Acc(p,'lgamma',[('1e4','1e30')] + ([] if f else [('1e30','1e300')]),'1e-4' if f else '1e-10',D=8))
        E.append(Acc(p,'tgamma',[(20,34)] if f else [(20,168)],'1e-3' if f else '2e-7',rel=True,D=10,use=[] if f else [X,G])); E.append(Acc(p,'tgamma',[(f'-{k}.9',f'-{k}.1') for k in range(3,11)],'1e-3' if f else '1e-8',rel=True,D=10,use=[] if f else [X,G]))
        E.append(Acc(p,'factorial',[('-0.9',19)],'1e-3' if f else '1e-8',ref='factorial',rel=True,D=10,use=[] if f else [X,G]))
        q = ('0.5',20) if p != 'l' or c.thorough else (1,8); t = '5e-3' if f else '1e-8'
        E.append(Acc(p,'beta',[[q,q]],t,D=8,use=[X,G],rel=True,atol='1e-10' if f else '1e-15')); E.append(Acc(p,'lbeta',[[q,q]],t,D=8,use=[G]))
        E.append(Acc(p,'log_binomial_coef',[[(21,60),(1,20)]],'1e-2' if f else '1e-7',ref='logbinom',D=8,use=[G]))
        for k in (1,2,3,5): E.append(Acc(p,'lmgamma',[[(3,30),('i32',k)]],'1e-3' if f else '1e-8',ref='lmgamma',D=8,use=[G]))
    return E

@prop('C22', 'Accuracy of incomplete_gamma and incomplete_beta, for a grid of shape parameters with the last argument quantified, and for a box of (shape, argument) pairs. ' + ACC_RULE)
def c22(c): accuracy.run(c, e22(c), job)
def e22(c):
    E = []; import math
    for p in 'fdl':
        B = base_contracts(p); f = p == 'f'; U = [B['exp'], B['exp0'], B['log'], B['lgamma'], B['sqrt']]; t = '1e-2' if f else '1e-6'
        if p == 'd': A = [0.5,1,2,3,5,9,9.5,11,15,25,35,45,60,80,95,150,200,350,600,900,1200] if not c.thorough else [0.25*k for k in range(1,40)] + list(range(10,60)) + list(range(60,200,5)) + list(range(200,1400,50))
        elif f: A = [0.5,1,2,5,9]
        else: A = [0.5,2,9,15,60]
        bx = []
        for a in A:
            s = math.sqrt(a); hi = a + 4*s if a >= 10 else a + (30 if p == 'd' else 3*s)
            bx.append([(a,a),(max(0.05,round(a-3.5*s,3)) if not f else max(0.1,round(a-3*s,3)), round(hi,3))])
            if p == 'd' and 10 < a < 40: bx.append([(a,a),(3*a+1,4*a)])
        for n, b in enumerate(bx): E.append(Acc(p,'incomplete_gamma',[b],t,ref='gammap',D=6 if f else 8,use=U))
        if p == 'd': E.append(Acc(p,'incomplete_gamma',[[('0.5','9.9'),('0.1','12')]],t,ref='gammap',D=6,use=U))
        if f: E.append(Acc(p,'incomplete_gamma',[[(1,9),('0.5',12)]],t,ref='gammap',D=5,use=U))
        a_, b_ = ([0.5,1,2,5,10],[0.5,1,2,5,10,30]) if p == 'd' else ([0.5,2,5],[0.5,2,10])
        if c.thorough and p == 'd': a_ = b_ = [0.5,0.75,1,1.5,2,2.5,3,4,5,7,10,15,20,30]
        for a in a_:
            for b in b_: E.append(Acc(p,'incomplete_beta',[[(a,a),(b,b),('0.02','0.98')]],t,ref='betai',D=6 if f else 8,use=U))
    return E

@prop('C23', 'Inverse functions: the exact forward function, applied to the computed inverse, gives back the probability. The fixed number of Halley rounds is interpreted one by one; the error each round starts from is a Taylor-model variable of its own, so that the analysis sees it contract. ' + ACC_RULE)
def c23(c): accuracy.run(c, e23(c), job)
def e23(c):
    E = []
    for p in 'fdl':
        B = base_contracts(p); f = p == 'f'; U = [B['exp'], B['log'], B['sqrt']]
        I = lambda fn, box, tol, ref, D, use: E.append(Acc(p, fn, [box], tol, ref=ref, D=D, use=use, inv=True, steps=400000, cells=20000, sym='odd' if fn == 'erf_inv' else None, symlemma=False))
        if f: er = Acc(p,'erf',[(0,'1.6')],'1e-4',D=10,sym='odd'); I('erf_inv', [(0,'0.95')], '1e-3', 'erf', 5, U + [er])
        else: I('erf_inv', [(0,'0.99999' if p == 'd' else '0.99')], '1e-9', 'erf', 5, U + [B['erf']])
        G, t = ({'f':[2],'d':[0.5,1,2,3,5,9],'l':[2]}[p], '2e-2' if f else '2e-5')
        for a in G:
            z = ('0.01' if a < 1 else '0.05' if a < 3 else '0.3', 45)
            if f: z = ('0.3',9)
            fw = Acc(p,'incomplete_gamma',[[(a,a),z]],'1e-3' if f else '1e-6',ref='gammap',D=6 if f else 8,use=[B['exp'],B['exp0'],B['log'],B['lgamma'],B['sqrt']])
            I('incomplete_gamma_inv', [(a,a),('0.1','0.9') if f else ('0.3','0.95') if a < 1 else ('0.05','0.95')], t, 'gammap', 4, U + [B['lgamma'], fw])
        H, t = ([(2,2)], '2e-2') if f else ([(2,2),(5,2),(2,5),(0.5,0.5),(10,5)] if p == 'd' else [(2,2)], '2e-5')
        for a, b in H:
            fw = Acc(p,'incomplete_beta',[[(a,a),(b,b),('0.02','0.98')]],'1e-3' if f else '1e-6',ref='betai',D=6 if f else 8,use=[B['exp'],B['exp0'],B['log'],B['lgamma'],B['sqrt']])
            I('incomplete_beta_inv', [(a,a),(b,b),('0.2','0.8')], t, 'betai', 4, U + [B['lgamma'], fw])
    return E
