"""Accuracy obligations.

A function's obligation is proved once, on the C++17 module, for the non-negative half of its domain when it is odd
or even; the C++11 module and the other half follow from exact-equality lemmas (symbolic value numbering) that are
obligations of the same check.  Where a lemma is not provable the obligation is simply run there as well, so a lemma
that stops holding costs time and never an alarm.  Calls to other public functions are replaced by their accuracy
contract; every contract that is used is an obligation of the same check."""
from core import *

class Acc:
    def __init__(self, p, f, doms, tol, ref=None, rel=False, atol='0', D=10, use=(), sym=None, cells=2000000, sec=3000, args=None, steps=60000, inv=False, symlemma=True):
        self.inv = inv; self.symlemma = symlemma
        self.p, self.f, self.tol, self.ref, self.rel, self.atol, self.D, self.use, self.sym, self.cells, self.sec = p, f, str(tol), ref or f, rel, str(atol), D, tuple(use), sym, cells, sec
        self.doms = [d if isinstance(d[0], (list, tuple)) else [d] for d in doms]   # list of boxes: [(lo,hi),...] per argument
        self.fn = f'{p}_{f}'; self.steps = steps
    def boxes(self):
        T = TY[self.p]; return [[pt(a[0],a[1]) if str(a[0])[0] in 'iu' and str(a[0])[1:].isdigit() else rng(T, a[0], a[1]) if str(a[0]) != str(a[1]) else pt(T, a[0]) for a in d] for d in self.doms]
    def negboxes(self):
        T = TY[self.p]; neg = lambda v: str(v)[1:] if str(v).startswith('-') else '-' + str(v)
        return [[rng(T, neg(d[0][1]), neg(d[0][0]))] + [rng(T, *a) for a in d[1:]] for d in self.doms]
    def bound(self): return (f'{self.tol}*|f|' + (f' + {self.atol}' if float(self.atol) else '')) if self.rel else f'{self.tol}*(1+|f|)'

STDB = ('exp','log','erf','tanh')
def contract(a):
    """the contract a proved obligation provides to its callers (one box)"""
    d = a.doms[0]
    lo = [str(x[0]) for x in d]; hi = [str(x[1]) for x in d]
    if a.sym: lo[0] = '-' + hi[0]
    return dict(fn=a.fn, ref=a.ref, lo=lo, hi=hi, tol=a.tol, rel=a.rel, atol=a.atol)

def run(c, entries, job, timeout=36000):
    """entries: Acc obligations, in dependency order irrelevant (contracts are proved without using themselves)"""
    ents = {}
    def add(a):
        if id(a) in ents: return
        ents[id(a)] = a
        for u in a.use: add(u)
    for a in entries: add(a)
    ents = list(ents.values())
    if c.filter: ents = [a for a in ents if re.search(c.filter, a.fn)]
    # ---- lemmas
    fns = sorted({a.fn for a in ents}); ps = sorted({a.p for a in ents})
    arity = {a.fn: len(a.doms[0]) for a in ents}
    def dom(fn):
        import itertools
        T = TY[fn[0]]; ints = [rng('i32',-5,20)] if fn.endswith('_lmgamma') else [full(TY[fn[-1]])] if re.match('._pow_.$', fn) else []
        return [list(x) + ints for x in itertools.product(*[[rng(T,'-inf','inf'), pt(T,'nan')]]*(arity.get(fn,1) - len(ints)))]
    base = [f'{p}_{f}' for p in ps for f in STDB if f'{p}_{f}' != 'l_log']
    L = [job(f'std:{fn}', 'c++11', fn, dom(fn) if fn in arity else [[rng(TY[fn[0]],'-inf','inf')],[pt(TY[fn[0]],'nan')]], dict(k='symeq', mode=''), module2='c++17', sec=15, steps=30000, maxdepth=1500, what='C++11 and C++17 evaluation identical') for fn in base]
    L += [job(f'{a.sym}:{a.fn}', 'c++17', a.fn, [[rng(TY[a.p],0,'inf')] + [rng(TY[a.p],'-inf','inf')]*(arity[a.fn]-1)], dict(k='symeq', mode=a.sym), argmap='neg', sec=15, steps=30000, maxdepth=1500, what=f'{a.sym} symmetry') for a in {x.fn: x for x in ents if x.sym and x.symlemma}.values()]
    r1 = c.lemmas(L)
    eq = [j['fn'] for j in L if j['id'].startswith('std:') and r1[j['id']]]
    L2 = [job(f'std:{fn}', 'c++11', fn, dom(fn), dict(k='symeq', mode=''), module2='c++17', sec=15, steps=30000, maxdepth=1500, opaque='same', equal=eq, what='C++11 and C++17 evaluation identical') for fn in fns if fn not in base]
    r2 = c.lemmas(L2) if L2 else {}
    same = {fn: r1.get(f'std:{fn}@c++11', r2.get(f'std:{fn}@c++11', False)) for fn in fns}
    symm = {a.fn: r1.get(f'{a.sym}:{a.fn}@c++17', False) for a in ents if a.sym}
    # ---- accuracy
    J = []; seen = {}
    for a in ents:
        k = seen[a.fn] = seen.get(a.fn, -1) + 1
        for m in (['c++17'] if same[a.fn] else ['c++17','c++11']):
            # the symmetry lemma was proved for C++17; it carries over where the two are identical
            half = a.sym and symm.get(a.fn) and same[a.fn]
            boxes = a.boxes() + ([] if not a.sym or half else a.negboxes())
            J.append(job(f'acc{k}:{a.fn}', m, a.fn, boxes, dict(k='inv' if a.inv else 'acc', ref=a.ref, tol=a.tol, rel=a.rel, atol=a.atol), D=a.D, **({'noise':2} if a.inv else {}), cells=a.cells, sec=a.sec, steps=a.steps, contracts=[contract(u) for u in a.use], what=f'{a.ref} of the result differs from the last argument by at most {a.tol}' if a.inv else f'error at most {a.bound()}'))
    return c.run(J, timeout)
