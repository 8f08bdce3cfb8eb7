"""Range, exactness, symmetry and equivalence properties."""
import math
from props import *
DEN = {'f':'1.4e-45','d':'4.9406564584124654e-324','l':'3.6451995318824746e-4951'}

def two_step(c, J, drop=('assume','odd','opaque','equal')):
    """obligations with other functions abstracted first; the ones that need the bodies are run again without abstraction"""
    J = filt(c, J)
    L = [j for j in J if any(k in j for k in drop)]; D = [j for j in J if not any(k in j for k in drop)]
    r = c.lemmas(L)
    D += [{k: v for k, v in j.items() if k not in drop} for j in L if not r[j['id']]]
    if D: c.run(D)

@prop('C07', 'Abstract interpretation (intervals, and Taylor models for the tails of exp, sinh and cosh and for tanh) of each function over its whole domain, infinities included: every possible result lies in the range of the mathematical function widened by a few ulps, and is not NaN.')
def c07(c):
    J = []; E0 = {'f':2e-6,'d':1e-13,'l':1e-15}; h = 1.5707963267948966; INFS = ('-inf','inf')
    for m in STDS:
        for p in 'fdl':
            T = TY[p]; E = E0[p]; M = MAXV[T]; fin = [rng(T,'-inf','inf')]; unit = [[rng(T,-1,1)]]; pos = [[rng(T,0,'inf')]]
            def R(f, d, *r, D=0, n='', **k): J.append(job(f'rng{n}:{p}_{f}', m, f'{p}_{f}', d, sset(False,*r), D=D, what='result within the range of the function', **k))
            R('acos',unit,(-E,2*h+E)); R('atan',[fin],(-h-E,h+E)); R('atan',[[rng(T,'1e6','inf')]],(1.5707,1.57080),n='t'); R('atan',[[rng(T,'-inf','-1e6')]],(-1.57080,-1.5707),n='u')
            if p != 'l': R('asin',unit,(-h-E,h+E))
            for f in ('ceil','floor','round','trunc'): R(f,[fin],INFS)
            R('abs',[fin],(0,'inf')); R('sqrt',pos,(0,'inf')); R('inv_sqrt',pos,(0,'inf'))
            if p != 'l': R('hypot',[fin*2],(0,'inf'))
            R('atan2',[[rng(T,'-'+M,M)]*2],(-2*h-E,2*h+E))
            t = 2e-6 if p == 'f' else 1e-12; R('tanh',[fin],(-1-t,1+t),D=8); R('tanh',[[rng(T,20,'inf')]],(1-t,1+t),D=8,n='t'); R('tanh',[[rng(T,'-inf',-20)]],(-1-t,-1+t),D=8,n='u')
            if p == 'l': continue
            e, big, H = (80,'1e34',80) if p == 'f' else (690,'1e299',600); hb = big if p == 'f' else '1e260'
            R('exp',[[rng(T,e,'inf')]],(big,'inf'),D=8,n='t'); R('exp',[[rng(T,'-inf',-e)]],(0,'1e-34' if p == 'f' else '1e-299'),D=8,n='u')
            R('sinh',[[rng(T,H,'inf')]],(hb,'inf'),D=8,n='t'); R('sinh',[[rng(T,'-inf',-H)]],('-inf','-'+hb),D=8,n='u'); R('cosh',[[rng(T,H,'inf')]],(hb,'inf'),D=8,n='t'); R('cosh',[[rng(T,'-inf',-H)]],(hb,'inf'),D=8,n='u')
            if p == 'f':
                R('exp',[fin],(0,'inf')); R('expm1',[fin],(-1,'inf')); R('cosh',[fin],(1-E,'inf')); R('sinh',[fin],INFS); R('log',pos,INFS,D=3); R('erf',[[rng(T,6,'inf')]],(0.99,1.01),D=8,n='t'); R('erf',[[rng(T,'-inf',-6)]],(-1.01,-0.99),D=8,n='u'); R('lgamma',[[rng(T,'1e4','inf')]],('5e4','inf'),D=8,n='t')
    for j in J: j['sec'] = 200; j['cells'] = 100000
    c.run(filt(c, J))

@prop('C12', 'Abstract interpretation in an exact integer-plus-fraction domain (x = n + f, with n symbolic and f in one of the classes 0, (0,1/2), 1/2, (1/2,1)); cells tile every finite value by sign, binade and fraction class; the result has to be exactly n or n+1 as the definition of the rounding demands. Remainders by Taylor models against the exact remainder.')
def c12(c):
    J = []
    for m in STDS:
        for p in 'fdl':
            for f in ('floor','ceil','trunc','round'):
                J.append(job(f'int:{p}_{f}', m, f'{p}_{f}', [], dict(k='lin', mode=f), t=TY[p], what=f'exactly the {f} of the argument'))
                J.append(job(f'intx:{p}_{f}', m, f'{p}_{f}', [[pt(TY[p],'inf')]], sset(False,('inf','inf')), what='infinity kept')); J.append(job(f'inty:{p}_{f}', m, f'{p}_{f}', [[pt(TY[p],'-inf')]], sset(False,('-inf','-inf')), what='infinity kept'))
    c.run(filt(c, J))
    E = []
    for p in 'fdl':
        g = '0.001' if p == 'f' else '1e-6'; from decimal import Decimal as Q
        for y in ('1','3','0.75','10','1000'):
            B = []
            for k in range(0, 12 if p == 'd' else 4):
                lo, hi = Q(y)*k + (Q(g)*Q(y) if k else 0), Q(y)*(k+1) - Q(g)*Q(y)
                for sx in (1,-1):
                    for sy in (1,-1): B.append([(str(lo),str(hi)) if sx > 0 else (str(-hi),str(-lo)), (str(Q(y)*sy),)*2])
            E.append(Acc(p,'fmod',B,'1e-4' if p == 'f' else '1e-12',D=3))
        E.append(Acc(p,'fmod',[[('0.1',50),(60,200)],[('-50','-0.1'),(60,200)],[('0.1',50),(-200,-60)],[('10','11'),('3.05','3.3')],[('-11','-10'),('3.05','3.3')],[('100','101'),('7.3','7.6')],[('1e6','1.00001e6'),('3.0e5','3.2e5')]],'1e-4' if p == 'f' else '1e-11',D=3))
    accuracy.run(c, E, job)

SYM1 = {'sin':('odd',[],['tan']),'tan':('odd',[],[]),'atan':('odd',[],[]),'asin':('odd',['sqrt'],['atan']),'sinh':('odd',['exp'],[]),'tanh':('odd',[],[]),'asinh':('odd',['sqrt','log'],[]),'erf':('odd',[],[]),'erf_inv':('odd',['exp','log','sqrt'],['erf']),'cos':('even',[],['tan']),'cosh':('even',['exp'],[]),'abs':('even',[],[])}
@prop('C13', 'Relational abstract interpretation (symbolic value numbering with sign normalisation): the function is interpreted on x and on -x (or with arguments swapped, or one sign flipped) over the whole domain, and both results have to get the same symbolic value up to the required sign. Calls to functions whose own symmetry is an obligation here are abstracted as odd functions.')
def c13(c):
    J = []
    for m in STDS:
        for p in 'fdl':
            T = TY[p]; D = rng(T,DEN[p],'inf'); U = rng(T,DEN[p],1); A = rng(T,'-inf','inf'); N = rng(T,MINV[T],'inf'); M = rng(T,'-inf','-'+MINV[T])
            for f,(mode,a,o) in SYM1.items():
                J.append(job(f'sym:{p}_{f}', m, f'{p}_{f}', [[U if f in ('asin','erf_inv') else D]], dict(k='symeq',mode=mode), argmap='neg', what=f'{mode} function', **({'assume':{f'{p}_{g}':0 for g in a}} if a else {}), odd=[f'{p}_{g}' for g in o + ['copysign']]))
            Z = pt(T,'0')
            for n in ('0','1',''): # the magnitudes in either order, or equal, or zero
                for r in ('lt','eq','gt'): J.append(job(f'sym{n}{r}:{p}_hypot', m, f'{p}_hypot', [[D,D]], dict(k='symeq',mode='even'), argmap='neg'+n, rel=r, assume={f'{p}_{g}':0 for g in ('sqrt','inv_sqrt')}, what='hypot depends on magnitudes only'))
                J.append(job(f'sym{n}z:{p}_hypot', m, f'{p}_hypot', [[Z,D],[D,Z],[Z,Z]], dict(k='symeq',mode='even'), argmap='neg'+n, assume={f'{p}_{g}':0 for g in ('sqrt','inv_sqrt')}, what='hypot depends on magnitudes only'))
            for r in ('lt','gt'): J.append(job(f'swap{r}:{p}_hypot', m, f'{p}_hypot', [[N,N]], dict(k='symeq',mode=''), argmap='swap', rel=r, assume={f'{p}_{g}':0 for g in ('sqrt','inv_sqrt')}, what='hypot does not depend on the order of its arguments'))
            J.append(job(f'symy:{p}_atan2', m, f'{p}_atan2', [[N,N],[N,M]], dict(k='symeq',mode='odd'), argmap='neg0', odd=[f'{p}_atan'], what='atan2 odd in its first argument'))
            J.append(job(f'swap:{p}_lbeta', m, f'{p}_lbeta', [[N,N]], dict(k='symeq',mode=''), argmap='swap', assume={f'{p}_lgamma':0}, what='symmetric')); J.append(job(f'swap:{p}_beta', m, f'{p}_beta', [[N,N]], dict(k='symeq',mode=''), argmap='swap', assume={f'{p}_{g}':0 for g in ('exp','lgamma')}, what='symmetric'))
    for j in J: j['sec'] = 40; j['maxdepth'] = 1500
    two_step(c, J)

NOT_STD = ('atan','asin','acos','atan2')
@prop('C14', 'Relational abstract interpretation: every entry point is interpreted symbolically in the IR built for two language standards, over all argument values; both have to return the same symbolic value. exp, log, erf and tanh (which have separate C++11 bodies) are compared directly; other functions are compared with callees that are textually identical in both modules, or proved equal here, abstracted.')
def c14(c):
    stds = ('c++11','c++14','c++17','c++20'); c.mods = modules(stds); J = []
    base = [f'{p}_{f}' for p in 'fdl' for f in ('exp','log','erf','tanh') if f'{p}_{f}' != 'l_log']
    L = [job(f'std:{fn}', 'c++11', fn, doms([TY[fn[0]]]), dict(k='symeq',mode=''), module2='c++17', sec=40, steps=60000, maxdepth=1500, what='same value in C++11 and C++17') for fn in base]
    c.run(filt(c, L) or L)
    sigs = api_signatures() + [(f'{p}_lmgamma',[TY[p],'i32']) for p in 'fdl']
    for fn, ts in sigs:
        if fn not in base and not (fn[1] == '_' and fn[2:] in NOT_STD):
            J.append(job(f'std:{fn}', 'c++11', fn, [d[:-1] + [rng('i32',-5,20)] for d in doms(ts)] if fn.endswith('lmgamma') else doms(ts), dict(k='symeq',mode=''), module2='c++17', sec=40, maxdepth=1500, opaque='same', equal=base + ['l_log'], what='same value in C++11 and C++17'))
    for fn, ts in sigs:
        for s in ('c++14','c++20'): J.append(job(f'std:{fn}', s, fn, [d[:-1] + [rng('i32',-5,20)] for d in doms(ts)] if fn.endswith('lmgamma') else doms(ts), dict(k='symeq',mode=''), module2='c++17', sec=40, maxdepth=1500, opaque='same', equal=[], what=f'same value in {s} and C++17'))
    c.run(filt(c, J))

@prop('C15', 'Relational abstract interpretation: the entry point called with integer (or mixed) arguments and the same entry point called with those arguments converted to double are interpreted symbolically over every value of the integer type; both have to return the same symbolic value.')
def c15(c):
    J = []
    for m in STDS:
        for p in IT:
            T = TY[p]; d64 = [rng('f64','-inf','inf'), pt('f64','nan')]
            for f in F1:
                if f != 'abs': J.append(job(f'prom:{p}_{f}', m, f'{p}_{f}', [[full(T)]], dict(k='symeq',mode=''), fn2=f'{p}_{f}_as_double'))
            for f in F2:
                if f in ('max','min','pow','copysign'): continue
                J.append(job(f'prom:{p}_{f}', m, f'{p}_{f}', [[full(T)]*2], dict(k='symeq',mode=''), fn2=f'{p}_{f}_as_double'))
                J.append(job(f'prom:{p}d_{f}', m, f'{p}d_{f}', [[full(T),x] for x in d64], dict(k='symeq',mode=''), fn2=f'{p}d_{f}_as_double'))
                J.append(job(f'prom:d{p}_{f}', m, f'd{p}_{f}', [[x,full(T)] for x in d64], dict(k='symeq',mode=''), fn2=f'd{p}_{f}_as_double'))
            for f in F3: J.append(job(f'prom:{p}_{f}', m, f'{p}_{f}', [[full(T)]*3], dict(k='symeq',mode=''), fn2=f'{p}_{f}_as_double'))
            J.append(job(f'prom:{p}_lmgamma', m, f'{p}_lmgamma', [[full(T), rng('i32',-5,20)]], dict(k='symeq',mode=''), fn2=f'{p}_lmgamma_as_double'))
            J.append(job(f'prom:{p}_pow_d', m, f'{p}_pow_d', [[full(T),x] for x in d64], dict(k='symeq',mode=''), fn2=f'{p}_pow_d_as_double'))
        for f in F2:
            if f != 'copysign': J.append(job(f'prom:fd_{f}', m, f'fd_{f}', doms(['f32','f64']), dict(k='symeq',mode=''), fn2=f'fd_{f}_as_double'))
        for a, b in IPAIRS:
            for f in F2:
                if f not in ('max','min','pow','copysign'): J.append(job(f'prom:{a}{b}_{f}', m, f'{a}{b}_{f}', [[full(TY[a]),full(TY[b])]], dict(k='symeq',mode=''), fn2=f'{a}{b}_{f}_as_double'))
        for a, b in IPAIRS + [x[:2] for x in FPAIRS if x[0] in IT or x[1] in IT]:
            for f in ('max','min'): J.append(job(f'prom:{a}{b}_{f}', m, f'{a}{b}_{f}', [list(x) for x in __import__('itertools').product(*[([full(TY[q])] if q in IT else [rng(TY[q],'-inf','inf'), pt(TY[q],'nan')]) for q in (a, b)])], dict(k='symeq',mode=''), fn2=f'{a}{b}_{f}_as_common'))
        for k in ('iud','uid','diu','idf','fdx','ifd'):
            for f in F3: J.append(job(f'prom:{k}_{f}', m, f'{k}_{f}', [list(x) for x in __import__('itertools').product(*[([full(TY[q])] if q in IT else [rng(TY[q],'-inf','inf'), pt(TY[q],'nan')]) for q in k])], dict(k='symeq',mode=''), fn2=f'{k}_{f}_as_double'))
        for a, b, w in FPAIRS:
            for f in F2:
                if f == 'copysign' or (f == 'pow' and b in IT) or (f in ('max','min') and (a in IT or b in IT)): continue
                J.append(job(f'prom:{a}{b}_{f}', m, f'{a}{b}_{f}', [list(x) for x in __import__('itertools').product(*[([full(TY[q])] if q in IT else [rng(TY[q],'-inf','inf'), pt(TY[q],'nan')]) for q in (a, b)])], dict(k='symeq',mode=''), fn2=f'{a}{b}_{f}_as_common'))
    for j in J: j['opaque'] = 'common'; j['what'] = 'same value as with arguments converted to double'
    two_step(c, J)

@prop('C18', 'Taylor-model abstract interpretation of pow with an integer exponent against the exact power, for bases in a continuum and exponents of every integer type; for integer bases, symbolic value numbering (products modulo 2^w in canonical form) against the repeated product, for every base whose power is representable (every base at all for unsigned types).')
def c18(c):
    E = []; J = []
    for p in 'fdl':
        t = '1e-4' if p == 'f' else '1e-12'
        for q in 'iuxyschtnmk':
            sg = TY[q][0] == 'i'; NS = [1,2,3,4,5,6,7,8,9,10,13,15,16,17,21,31,32] + ([-1,-2,-3,-4,-5,-7,-8,-13] if sg else [])
            if q not in 'ixn': NS = [1,2,3,6,7,13] + ([-1,-2,-3,-7] if sg else [])
            ws = [-100,100] if q in 'chk' else [-1000,1000]
            B = [[b, (TY[q], n)] for n in NS for b in (('0.2',5),(-5,'-0.2'))] + [[b, (TY[q], n)] for n in ws + ([-10000,12345] if q not in 'chk' and p != 'f' else []) if sg or n > 0 for b in (('0.99','1.01') if abs(n) < 2000 else ('0.999','1.001'), ('-1.01','-0.99') if abs(n) < 2000 else ('-1.001','-0.999'))]
            if q == 'i': B += [[b, (TY[q], s*n)] for n in range(11,101 if p == 'f' else 129) for s in (1,-1) for b in ((('0.5',2),(-2,'-0.5')) if n < 41 else (('0.8','1.25'),('-1.25','-0.8')))]
            if q in 'iuxynm':   # single points over the whole exponent range
                X = (126,37) if p == 'f' else (1022,300); k = 1 if q == 'i' else 7
                B += [[(str(b),str(b)), (TY[q], n)] for b, e in (('2',X[0]),('-2',X[0]),('10',X[1]),('-10',X[1]),('0.5',X[0]),('3',X[1]*2)) for n in range(-e if sg else 1, e+1, k) if n]
            E.append(Acc(p, f'pow_{q}', B, '1e-2' if p == 'f' else '1e-10', ref='powi', rel=True, D=6))
            if q in 'iuxynm' and p != 'f':   # exponents beyond 16, 31 and 32 bits
                big = [65536,65539,10**9,2**31-1] + ([2**31,2**31+5] if q != 'i' else []) + ([2**32-1] if q == 'u' else [2**32-1,2**32,2**32+1,2**33+3,10**10,2**40+2**33] if q in 'xynm' else [])
                big = [s*n for n in big for s in ((1,-1) if sg else (1,))]
                E.append(Acc(p, f'pow_{q}', [[b, (TY[q], n)] for n in big for d in [0.5/abs(n)] for b in ((repr(1-d),repr(1+d)),(repr(-1-d),repr(-1+d)))], '1e-2', ref='powi', rel=True, D=6))
            for m in STDS: J.append(job(f'pow1:{p}_{q}', m, f'{p}_pow_{q}', [[pt(TY[p],1), full(TY[q])]], dict(k='set',nan=False,ranges=[['1','1']]), what='every power of 1 is exactly 1')); J.append(job(f'powm1:{p}_{q}', m, f'{p}_pow_{q}', [[pt(TY[p],-1), rng(TY[q],0,(1<<(int(TY[q][1:])-sg))-1)]], dict(k='set',nan=False,ranges=[['-1','1']]), what='every power of -1 with a non-negative exponent lies in [-1,1]'))
    for p in 'fdl':
        for q in 'iuxyschtnmk':
            for k in (1,2,3):
                for m in STDS: J.append(job(f'powx{k}:{p}_{q}', m, f'{p}_pow_{q}', [[rng(TY[p],'-inf','inf'), pt(TY[q],k)]], dict(k='symeq',mode=''), fn2=f'{p}_mul{k}_{q}', what=f'pow(x,{k}) is exactly the product'))
    for p in 'iuxynm':
        T = TY[p]; w = int(T[1:]); mx = (1<<(w-1))-1
        for n in range(21):
            if p in 'uym' or n < 2: d = full(T)
            else:
                b = int(round(mx ** (1.0/n))) + 2
                while b**n > mx: b -= 1
                d = rng(T,-b,b)
            for m in STDS: J.append(job(f'ipow:{p}_{n}', m, f'{p}_ipow{n}', [[d]], dict(k='symeq',mode=''), fn2=f'{p}_prod{n}', what=f'exactly the product of {n} factors'))
            if p == 'i':
                for m in STDS: J.append(job(f'ipowv:{p}_{n}', m, f'{p}_pow', [[d, pt(T,n)]], dict(k='set',nan=False,ranges=[['-2147483648','2147483647']]), what='representable power'))
    for a, b in PPAIRS:
        T = TY[a]; cw = max(32, int(T[1:]), int(TY[b][1:])); un = any(q in 'umy' and int(TY[q][1:]) == cw for q in (a,b)); mx = (1<<(cw-1))-1; aw = int(T[1:]); amx = (1<<(aw-(T[0]=='i')))-1
        for n in range(7):
            if un or n < 2: d = full(T)
            else:
                r = int(round(mx ** (1.0/n))) + 2
                while r**n > mx: r -= 1
                r = min(r, amx); d = rng(T,-r if T[0] == 'i' else 0,r)
            for m in STDS: J.append(job(f'mpow:{a}{b}_{n}', m, f'{a}{b}_ipow{n}', [[d]], dict(k='symeq',mode=''), fn2=f'{a}{b}_prod{n}', what=f'exactly the product of {n} factors of the common type'))
    c.run(filt(c, J))
    accuracy.run(c, E, job)

@prop('C17', 'Reachability over the IR call graph from every public entry point: no reachable function reads or writes a mutable global, stores outside its own frame, uses volatile, atomic or assembly, calls an external or unknown function, or takes part in exception handling.')
def c17(c):
    c.mods = modules(('c++11','c++17')); J = []
    names = sorted(set(re.findall(r'W [\w ]+? (\w+)\(', wrappers())))
    for m in STDS:
        for n in names: J.append(job(f'pure:{n}', m, n, [[pt('i32',0)]], dict(k='pure'), what='pure'))
    c.run(filt(c, J))

@prop('C19', 'Abstract interpretation: sign, zero and unit identities of gcd and lcm for every value of the other argument; the whole table of representable factorials and binomial coefficients, and gcd and lcm over a box of small arguments, subdivided down to single points and compared with the definition.')
def c19(c):
    J = []
    for m in STDS:
        for p in 'iuxynmfdl':
            T = TY[p]; I = lambda a, b: rng(T,a,b); fl = p in 'fdl'
            if not fl:
                J.append(job(f'fact:{p}', m, f'{p}_factorial', [[I(0, 20 if p in 'xynm' else 12)]], dict(k='iref',ref='fact'), what='factorial'))
                J.append(job(f'binom:{p}', m, f'{p}_binomial_coef', [[I(0,33 if p in 'iu' else 40), I(0,40)]], dict(k='iref',ref='binom'), steps=2000000, what='binomial coefficient'))
                b = 40; lo = -b if p in 'ixn' else 0
                J.append(job(f'gcd:{p}', m, f'{p}_gcd', [[I(lo,b), I(lo,b)]], dict(k='iref',ref='gcd'), what='greatest common divisor')); J.append(job(f'lcm:{p}', m, f'{p}_lcm', [[I(lo,b), I(lo,b)]], dict(k='iref',ref='lcm'), what='least common multiple'))
                big = [2**31-1,2**31-2,2**30,3**19,7**10,46341,99991,720720] + ([2**62,2**61+2,3**39,10**18,9007199254740993] if p in 'xynm' else [])
                J.append(job(f'gcdb:{p}', m, f'{p}_gcd', [[pt(T,a), pt(T,b)] for a in big for b in big], dict(k='iref',ref='gcd'), what='greatest common divisor'))
                w = int(T[1:]); mxv = (1<<(w-1))-1 if p in 'ixn' else (1<<w)-1; lb = big + [100000,150000,65536,98304,1000003,2*1000003,3*715827882] + ([10**12,6*10**12,2**40,3*2**40] if p in 'xynm' else [])
                J.append(job(f'lcmb:{p}', m, f'{p}_lcm', [[pt(T,a*s), pt(T,b)] for a in lb for b in lb for s in ((1,-1) if p in 'ixn' else (1,)) if a <= mxv and b <= mxv and a*b//math.gcd(a,b) <= mxv], dict(k='iref',ref='lcm'), what='least common multiple'))
                J.append(job(f'lcm1:{p}', m, f'{p}_lcm', [[rng(T,1,mxv), pt(T,1)]], dict(k='symeq',mode=''), fn2=f'{p}_arg0', what='lcm(a,1)=a'))
                for d in (2,3,5,7): J.append(job(f'gcdp{d}:{p}', m, f'{p}_gcd', [[rng(T,0,mxv), pt(T,d)]], dict(k='set',nan=False,ranges=[['1',str(d)]]), what=f'gcd(a,{d}) lies in [1,{d}]'))
                w = int(T[1:]); lo, hi = (-(1<<(w-1))+1, (1<<(w-1))-1) if p in 'ixn' else (0, (1<<w)-1)
                J.append(job(f'gcd0:{p}', m, f'{p}_gcd', [[I(0,hi), pt(T,0)]], dict(k='symeq',mode=''), fn2=f'{p}_arg0', what='gcd(a,0)=a')); J.append(job(f'gcd0r:{p}', m, f'{p}_gcd', [[pt(T,0), I(0,hi)]], dict(k='symeq',mode=''), fn2=f'{p}_arg1', what='gcd(0,b)=b'))
                if p in 'ixn': J.append(job(f'gcdn:{p}', m, f'{p}_gcd', [[I(lo,hi), I(lo,hi)]], dict(k='set',nan=False,ranges=[['0',str(hi)]]), fix=True, what='gcd is never negative'))
                J.append(job(f'gcd1:{p}', m, f'{p}_gcd', [[I(0,hi), pt(T,1)]], dict(k='set',nan=False,ranges=[['1','1']]), what='gcd(a,1)=1')); J.append(job(f'lcm0:{p}', m, f'{p}_lcm', [[I(lo,hi), pt(T,0)],[pt(T,0), I(lo,hi)]], dict(k='set',nan=False,ranges=[['0','0']]), what='lcm(a,0)=0'))
                J.append(job(f'bin0:{p}', m, f'{p}_binomial_coef', [[I(0,hi), pt(T,0)]], dict(k='set',nan=False,ranges=[['1','1']]), what='n choose 0 is 1'))
            else:
                J.append(job(f'gcd:{p}', m, f'{p}_gcd', [[pt(T,a), pt(T,b)] for a in range(-12,13) for b in range(-12,13)], dict(k='iref',ref='gcd'), what='greatest common divisor')); J.append(job(f'lcm:{p}', m, f'{p}_lcm', [[pt(T,a), pt(T,b)] for a in range(-12,13) for b in range(-12,13)], dict(k='iref',ref='lcm'), what='least common multiple'))
                fb = [1,6,2**20,2**24,2**24-1,46341,99991,720720,3*2**20] + ([2**31-1,2**32,2**40,3**19,10**12,6*10**12,2**53,2**53-1,9007199254740881] if p != 'f' else []) + ([2**62+2,3**39,10**18] if p == 'l' else [])
                J.append(job(f'gcdb:{p}', m, f'{p}_gcd', [[pt(T,s*a), pt(T,b)] for a in fb for b in fb for s in (1,-1)], dict(k='iref',ref='gcd'), what='greatest common divisor'))
                lim = 2**{'f':24,'d':53,'l':63}[p]; J.append(job(f'lcmb:{p}', m, f'{p}_lcm', [[pt(T,s*a), pt(T,b)] for a in fb + [0] for b in fb for s in (1,-1) if a*b//math.gcd(a,b) <= lim], dict(k='iref',ref='lcm'), what='least common multiple'))
                J.append(job(f'binom:{p}', m, f'{p}_binomial_coef', [[pt(T,n), pt(T,k)] for n in range(0,25) for k in range(0,n+1)], dict(k='iref',ref='binom'), steps=2000000, what='binomial coefficient'))
        for p, fm, bm in (('s',7,17),('c',5,9),('h',5,10),('t',8,18),('k',5,9)):   # narrow types
            T = TY[p]; I = lambda a, b: rng(T,a,b); lo = -11 if p in 'sck' else 0
            J.append(job(f'fact:{p}', m, f'{p}_factorial', [[I(0, fm)]], dict(k='iref',ref='fact'), what='factorial'))
            J.append(job(f'binom:{p}', m, f'{p}_binomial_coef', [[I(0,bm), I(0,bm+3)]], dict(k='iref',ref='binom'), steps=2000000, what='binomial coefficient'))
            J.append(job(f'gcd:{p}', m, f'{p}_gcd', [[I(lo,11), I(lo,11)]], dict(k='iref',ref='gcd'), what='greatest common divisor')); J.append(job(f'lcm:{p}', m, f'{p}_lcm', [[I(lo,11), I(lo,11)]], dict(k='iref',ref='lcm'), what='least common multiple'))
    for j in J: j['cells'] = 60000
    c.run(filt(c, J))

@prop('C20', 'Relational abstract interpretation: min and max are interpreted symbolically under each assumed order of their arguments (less, equal, greater; every value, infinities included) and have to return the right argument itself; abs, sgn, signbit and copysign over every value of each sign class, signed zeros included.')
def c20(c):
    J = []
    for m in STDS:
        for p in 'fdliuxyschtnmk':
            T = TY[p]; fl = p in 'fdl'; A = rng(T,'-inf','inf') if fl else full(T)
            for f, r, w in (('max','lt','arg1'),('max','gt','arg0'),('min','lt','arg0'),('min','gt','arg1'),('max','eq','arg0'),('min','eq','arg0')):
                J.append(job(f'{f}_{r}:{p}', m, f'{p}_{f}', [[A,A]], dict(k='symeq',mode=''), fn2=f'{p}_{w}', rel=r, what=f'{f} when the first argument is {r} the second'))
            sg = fl or T[0] == 'i'; w = 0 if fl else int(T[1:])
            pos = [[rng(T,DEN[p],'inf')]] if fl else [[rng(T,1,(1<<(w-1))-1 if sg else (1<<w)-1)]]; neg = [[rng(T,'-inf','-'+DEN[p])]] if fl else [[rng(T,-(1<<(w-1))+1,-1)]] if sg else []
            z = [[pt(T,'0')],[pt(T,'-0')]] if fl else [[pt(T,0)]]
            J.append(job(f'abs+:{p}', m, f'{p}_abs' , pos + z, dict(k='symeq',mode=''), fn2=f'{p}_id', what='abs(x)=x')) if sg else None
            if sg: J.append(job(f'abs-:{p}', m, f'{p}_abs', neg, dict(k='symeq',mode=''), fn2=f'{p}_neg', what='abs(x)=-x'))
            if fl: J.append(job(f'absz:{p}', m, f'{p}_abs', z, dict(k='set',nan=False,ranges=[['0','0']],zero=1), what='abs of a zero is +0'))
            full_neg = neg + ([[pt(T,-(1<<(w-1)))]] if sg and not fl else [])
            for nm, d, v in (('+',pos,1),('-',full_neg,-1),('0',z,0)):
                if d: J.append(job(f'sgn{nm}:{p}', m, f'{p}_sgn', d, dict(k='set',nan=False,ranges=[[str(v),str(v)]]), what=f'sgn is {v}'))
            if fl:
                P = pos + [[pt(T,'0')]]; N = neg + [[pt(T,'-0')]]
                J.append(job(f'sb+:{p}', m, f'{p}_signbit', P, dict(k='set',nan=False,mode='u',ranges=[['0','0']]), what='sign bit clear')); J.append(job(f'sb-:{p}', m, f'{p}_signbit', N, dict(k='set',nan=False,mode='u',ranges=[['1','1']]), what='sign bit set'))
                for sx, X in (('+',pos[0]),('-',neg[0])):
                    for sy, Y in (('+',P),('-',N)): J.append(job(f'cs{sx}{sy}:{p}', m, f'{p}_copysign', [X + y for y in Y], dict(k='symeq',mode=''), fn2=f'{p}_arg0' if sx == sy else f'{p}_nid', what='magnitude of the first, sign of the second argument'))
                J.append(job(f'csz+:{p}', m, f'{p}_copysign', [x + y for x in z for y in P], dict(k='set',nan=False,ranges=[['0','0']],zero=1), what='+0')); J.append(job(f'csz-:{p}', m, f'{p}_copysign', [x + y for x in z for y in N], dict(k='set',nan=False,ranges=[['0','0']],zero=0), what='-0'))
    c.run(filt(c, [j for j in J if j]))
