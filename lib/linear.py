"""Decides orderings between sums of terms from the orderings a state holds (Fourier-Motzkin)."""
from fractions import Fraction
from terms import *
import engine

def lin(t, k=1, m=None):
    """t as a sum of terms with factors; None is the constant"""
    if m is None: m = {}
    if t.op == 'int': m[None] = m.get(None, 0) + k * t.a[0]
    elif t.op == '+': lin(t.a[0], k, m); lin(t.a[1], k, m)
    elif t.op == '-' and len(t.a) == 2: lin(t.a[0], k, m); lin(t.a[1], -k, m)
    elif t.op == '*' and t.a[1].op == 'int': lin(t.a[0], k * t.a[1].a[0], m)
    elif t.op == '*' and t.a[0].op == 'int': lin(t.a[1], k * t.a[0].a[0], m)
    else: m[t] = m.get(t, 0) + k
    return m

def pointer(t): return t.op in ('addr', 'str', 'fn', 'null')

def upper(a, b, strict):
    """a - b <= 0 (or < 0) as (sum, constant): sum <= constant"""
    m = lin(b, -1, lin(a, 1, {}))
    c = m.pop(None, 0)
    m = {t: k for t, k in m.items() if k}
    return m, -c - (1 if strict else 0)

def facts(st, F, seeds):
    """what the state knows about the terms reachable from seeds"""
    atoms = []
    whole = {y for t in seeds for y in subterms(t) if y.op == 'f2i'}
    for f, v in st.rel.items():
        if f.op in ('<', '<='):
            a, b = f.a
            if engine.isflt(a) or engine.isflt(b):
                # an ordering of a number is one of the whole number it is cut to
                for t in whole:
                    x = t.a[1]
                    l, r, s = (a, b, f.op == '<') if v else (b, a, f.op == '<=')
                    if l is x and not engine.isflt(r): atoms.append(upper(t, r, s))
                    if r is x and not engine.isflt(l): atoms.append(upper(l, t, False))
                continue
            if v: atoms.append(upper(a, b, f.op == '<'))
            else: atoms.append(upper(b, a, f.op == '<='))
        elif f.op == '==' and v and not pointer(f.a[0]) and not pointer(f.a[1]):
            atoms.append(upper(f.a[0], f.a[1], False)); atoms.append(upper(f.a[1], f.a[0], False))
    out, seen = [], set(seeds)
    todo = True
    while todo and len(out) < 24:
        todo = False
        for x in list(atoms):
            if seen & set(x[0]):
                atoms.remove(x); out.append(x); seen |= set(x[0]); todo = True
    for t in seen:
        if F.unsigned(t) or F.entails(st, le(I(0), t), True): out.append(({t: -1}, 0))
        if t.op == '/' and t.a[1].op == 'int' and t.a[1].a[0] > 0: pass
    # orderings that follow from x != y
    for f, v in st.rel.items():
        if f.op == '==' and not v and not pointer(f.a[0]) and not pointer(f.a[1]):
            a, b = f.a
            if (set(lin(a)) | set(lin(b))) & seen:
                if F.entails(st, le(a, b), True): out.append(upper(a, b, True))
                elif F.entails(st, le(b, a), True): out.append(upper(b, a, True))
    return out

def infeasible(cs):
    cs = [(dict(m), Fraction(c)) for m, c in cs]
    for _ in range(14):
        if any(not m and c < 0 for m, c in cs): return True
        vs = {}
        for m, c in cs:
            for t, k in m.items():
                p = vs.setdefault(t, [0, 0]); p[0 if k > 0 else 1] += 1
        if not vs: return False
        v = min(vs, key=lambda t: (vs[t][0] * vs[t][1], t.n if t is not None else 0))
        pos = [(m, c) for m, c in cs if m.get(v, 0) > 0]; neg_ = [(m, c) for m, c in cs if m.get(v, 0) < 0]
        cs = [x for x in cs if not x[0].get(v, 0)]
        for (m, c) in pos:
            for (n, d) in neg_:
                k, l = Fraction(m[v]), Fraction(-n[v])
                r = {}
                for t, q in m.items(): r[t] = r.get(t, 0) + q * l
                for t, q in n.items(): r[t] = r.get(t, 0) + q * k
                r = {t: q for t, q in r.items() if q}
                cs.append((r, c * l + d * k))
        if len(cs) > 300: return False
    return False

def literals(t, v=True, out=None):
    """the literals of a disjunction"""
    if out is None: out = []
    t = truth(t)
    if t.op == '!': return literals(t.a[0], not v, out)
    if t.op == '||' and v or t.op == '&&' and not v:
        literals(t.a[0], v, out); literals(t.a[1], v, out)
    else: out.append((t, v))
    return out

def proves(st, F, formula):
    """does the state make one of the disjuncts hold, seen as orderings of sums?"""
    neg_, seeds, ds = [], set(), literals(formula)
    for t, v in ds:
        if t.op in ('<', '<=') and not engine.isflt(t.a[0]) and not engine.isflt(t.a[1]):
            a, b = t.a
            x = upper(b, a, t.op == '<=') if v else upper(a, b, t.op == '<')
            neg_.append(x); seeds |= set(x[0])
        elif t.op == '==' and not v and not pointer(t.a[0]) and not pointer(t.a[1]):
            neg_ += [upper(t.a[0], t.a[1], False), upper(t.a[1], t.a[0], False)]
    if not neg_: return False
    if infeasible(neg_): return True
    if not seeds: return False
    return infeasible(neg_ + facts(st, F, seeds))
