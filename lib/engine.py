"""Path-sensitive, summary-based dataflow over clang CFGs.

A state is a conjunction of facts over symbolic terms; every program point
holds a bounded set of such states; joins merge by intersecting facts; loop
heads merge everything with the same client typestate.  Nothing is executed
and no solver is called: entailment is closure of difference bounds plus table
look-ups.
"""
import sys, collections
from terms import *
import terms as _t
from program import AnalysisError

sys.setrecursionlimit(20000)

RECT = ('struct ', )
MAXSTATES = 8
MAXEXITS = 6

# fields that never change once an object is visible to a script
STABLE = {('f', 'Obj', 'type'), ('f', 'ObjInstance', 'internal'), ('f', 'ObjInstance', 'klass'),
          ('f', 'ObjString', 'klass'), ('f', 'ObjArray', 'klass'), ('f', 'ObjMap', 'klass'),
          ('f', 'ObjClass', 'klass'), ('f', 'ObjInternal', 'data')}

# object flags whose absence is remembered, and the fact that says so
FLAGWATCH = set()
def nf(o, mask): return mk('nf', o, mask)

class State:
    __slots__ = ('env', 'mem', 'kinds', 'rel', 'tmp', 'props', 'killed', 'ret', '_adj', 'trace')
    def __init__(self):
        self.env = {}; self.mem = {}; self.kinds = {}; self.rel = {}; self.tmp = {}
        self.props = (); self.killed = frozenset(); self.ret = None; self._adj = None; self.trace = ()
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.kinds = dict(self.kinds); s.rel = dict(self.rel)
        s.tmp = dict(self.tmp); s.props = self.props; s.killed = self.killed; s.ret = self.ret
        s._adj = self._adj; s.trace = self.trace
        return s
    def same(self, o):
        return (self.props == o.props and self.env == o.env and self.rel == o.rel and self.kinds == o.kinds
                and self.mem == o.mem and self.tmp == o.tmp and self.killed == o.killed and self.ret is o.ret)

ZERO = mk('zero')

def lin(t):
    if t.op == 'int': return ZERO, t.a[0]
    if t.op == '+' and t.a[1].op == 'int': return t.a[0], t.a[1].a[0]
    if t.op == 'flt':
        return ZERO, t.a[0]
    return t, 0

def isflt(t):
    return t.op in ('num', 'flt') or t in FLT

class Facts:
    """entailment over a state's facts"""
    def __init__(self, kdef, class_kinds):
        self.kdef = kdef; self.ck = class_kinds
    def curkind(self, st, key):
        k = st.kinds.get(key)
        if k is not None: return k
        k = self.kdef.get(key)
        if k is not None: return k
        return K_ALL if key.op == 'unbox' else K_ALLOBJ
    def adj(self, st):
        if st._adj is not None: return st._adj
        out = collections.defaultdict(list)     # x -> [(y, c)] meaning x - y <= c
        def put(a, b, k):       # a - b <= k over lin terms
            x, ca = lin(a); y, cb = lin(b)
            out[x].append((y, k - ca + cb))
        for f, v in st.rel.items():
            if f.op == '<':
                a, b = f.a
                strict = 0 if (isflt(a) or isflt(b)) else -1
                if v: put(a, b, strict)
                else: put(b, a, 0)
            elif f.op == '<=':
                a, b = f.a
                strict = 0 if (isflt(a) or isflt(b)) else -1
                if v: put(a, b, 0)
                else: put(b, a, strict)
            elif f.op == '==' and v:
                a, b = f.a
                put(a, b, 0); put(b, a, 0)
            elif f.op == '==' and not v:
                a, b = f.a
                if b.op == 'int' and b.a[0] == 0 and self.unsigned(a):
                    put(I(1), a, 0)
        st._adj = out
        return out
    def unsigned(self, t):
        if t in UNS or t.op in ('strlen',): return True
        if t.op == 'f2i' and t.a[0].startswith(('unsigned', 'size_t', 'uint')): return True
        if t.op == '&' and t.a[1].op == 'int' and t.a[1].a[0] >= 0: return True
        if t.op == '*' or t.op == '/': return all(self.unsigned(x) or x.op == 'int' and x.a[0] >= 0 for x in t.a)
        return False
    def dist(self, st, x, y, depth=0):
        """least c with x - y <= c derivable, or None"""
        if x is y: return 0
        adj = self.adj(st)
        best = {x: 0}
        frontier = [x]
        for _ in range(6):
            nf = []
            for u in frontier:
                edges = list(adj.get(u, ()))
                if u is ZERO:
                    if self.unsigned(y): edges.append((y, 0))
                    for z in list(adj):
                        pass
                if u.op == '+' :
                    p, q = u.a
                    # p+q: bound through a non-positive / constant-bounded part
                    if depth < 2:
                        c = self.dist(st, q, ZERO, depth + 1)
                        if c is not None: edges.append((p, c))
                        c = self.dist(st, p, ZERO, depth + 1)
                        if c is not None: edges.append((q, c))
                elif u.op == '-' and depth < 2:
                    p, q = u.a
                    c = self.dist(st, ZERO, q, depth + 1)    # 0 - q <= c
                    if c is not None: edges.append((p, c))
                    c = self.dist(st, p, q, depth + 1)
                    if c is not None: edges.append((ZERO, c))
                elif u.op == 'f2i' and depth < 2:
                    s = u.a[1]
                    c = self.dist(st, s, ZERO, depth + 1)
                    if c is not None and c >= 0: edges.append((ZERO, c))
                    c = self.dist(st, ZERO, s, depth + 1)
                    if c is not None and c <= 0: edges.append((s, 0))
                elif u.op == '%' and depth < 2:
                    p, q = u.a
                    if q.op == 'int' and q.a[0] > 0: edges.append((ZERO, q.a[0] - 1))
                    elif self.unsigned(p): edges.append((q, -1))
                elif u.op == '&' and u.a[1].op == 'int' and u.a[1].a[0] >= 0:
                    edges.append((ZERO, u.a[1].a[0]))
                elif u.op == '?:' and depth < 2:
                    c1 = self.dist(st, lin(u.a[1])[0], y, depth + 1); c2 = self.dist(st, lin(u.a[2])[0], y, depth + 1)
                    if c1 is not None and c2 is not None:
                        edges.append((y, max(c1 + lin(u.a[1])[1], c2 + lin(u.a[2])[1])))
                for (v, c) in edges:
                    d = best[u] + c
                    if v not in best or d < best[v]:
                        best[v] = d; nf.append(v)
            if not nf: break
            frontier = nf
        r = best.get(y)
        # lower bounds of y through its structure
        if depth < 2:
            if y.op == 'f2i':
                s = y.a[1]
                c = self.dist(st, x, s, depth + 1) if x is ZERO else None
                if c is not None:
                    # 0 - s <= c, s >= -c, trunc(s) >= -floor: integral c only
                    import math
                    cc = math.floor(c) if c <= 0 and c == math.floor(c) else math.ceil(c)
                    r = cc if r is None else min(r, cc)
            elif y.op == '-' :
                p, q = y.a
                if x is ZERO:      # 0 - (p-q) = q - p
                    c = self.dist(st, q, p, depth + 1)
                    if c is not None: r = c if r is None else min(r, c)
            elif y.op == '+':
                p, q = y.a
                c = self.dist(st, ZERO, q, depth + 1)
                if c is not None:
                    d = self.dist(st, x, p, depth + 1)
                    if d is not None: r = c + d if r is None else min(r, c + d)
                c = self.dist(st, ZERO, p, depth + 1)
                if c is not None:
                    d = self.dist(st, x, q, depth + 1)
                    if d is not None: r = c + d if r is None else min(r, c + d)
            elif y.op == '?:':
                cs = []
                for z in (y.a[1], y.a[2]):
                    l, k = lin(z)
                    c = self.dist(st, x, l, depth + 1)
                    cs.append(None if c is None else c - k)
                if None not in cs:
                    m = max(cs)
                    r = m if r is None else min(r, m)
        return r
    def le_c(self, st, a, b, k):
        """a - b <= k ?"""
        x, ca = lin(a); y, cb = lin(b)
        d = self.dist(st, x, y)
        return d is not None and d + ca - cb <= k
    def entails(self, st, t, v=True):
        t = truth(t)
        o = t.op
        if o == 'int': return bool(t.a[0]) == v
        if o == '!': return self.entails(st, t.a[0], not v)
        if o == '&&':
            if v: return self.entails(st, t.a[0], True) and self.entails(st, t.a[1], True)
            if st.rel.get(t) is False: return True
            return self.entails(st, t.a[0], False) or self.entails(st, t.a[1], False)
        if o == '||':
            if not v: return self.entails(st, t.a[0], False) and self.entails(st, t.a[1], False)
            if st.rel.get(t) is True: return True
            return self.entails(st, t.a[0], True) or self.entails(st, t.a[1], True)
        if o == 'kind':
            cur = self.curkind(st, t.a[0])
            return (cur & ~t.a[1]) == 0 if v else (cur & t.a[1]) == 0
        if o == '?:':
            c = t.a[0]
            if self.entails(st, c, True): return self.entails(st, t.a[1], v)
            if self.entails(st, c, False): return self.entails(st, t.a[2], v)
            return self.entails(st, t.a[1], v) and self.entails(st, t.a[2], v)
        r = st.rel.get(t)
        if r is not None: return r == v
        if o in ('<', '<='):
            a, b = t.a
            if not v:
                a, b = b, a
                o = '<=' if o == '<' else '<'
                if o == '<' and st.rel.get(lt(a, b)) is True: return True
            if o == '<':
                if isflt(a) or isflt(b):
                    x, ca = lin(a); y, cb = lin(b)
                    d = self.dist(st, x, y)
                    if d is not None and d + ca - cb < 0: return True
                    return False
                if self.le_c(st, a, b, -1): return True
                return st.rel.get(eq(a, b)) is False and self.le_c(st, a, b, 0)
            return self.le_c(st, a, b, 0)
        if o == '==':
            a, b = t.a
            if v:
                return self.le_c(st, a, b, 0) and self.le_c(st, b, a, 0)
            if b.op == 'int' and b.a[0] == 0 and a.op == 'addr': return True
            if self.le_c(st, a, b, -1) or self.le_c(st, b, a, -1): return True
            if isflt(a) or isflt(b):
                return self.entails(st, lt(a, b), True) or self.entails(st, lt(b, a), True)
            # a == c known for another constant / same non-null alias
            for f, fv in st.rel.items():
                if fv and f.op == '==':
                    for p, q in (f.a, f.a[::-1]):
                        if p is a and q is not b:
                            if q.op == 'int' and b.op == 'int': return q.a[0] != b.a[0]
                            if st.rel.get(eq(q, b)) is False: return True
            return False
        if o == 'isa':
            # subclass relation is not tracked; same pointer and class only
            return False
        return False
    def assume(self, st, t, v=True):
        """adds the fact; False when it contradicts the state"""
        t = truth(t)
        o = t.op
        if o == 'int': return bool(t.a[0]) == v
        if o == '!': return self.assume(st, t.a[0], not v)
        if o == '&&':
            if v: return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
            if self.entails(st, t.a[0], True): return self.assume(st, t.a[1], False)
            if self.entails(st, t.a[1], True): return self.assume(st, t.a[0], False)
            if self.entails(st, t.a[0], False) or self.entails(st, t.a[1], False): return True
            if st.rel.get(t) is True: return False
            st.rel[t] = False; return True
        if o == '||':
            if not v: return self.assume(st, t.a[0], False) and self.assume(st, t.a[1], False)
            if self.entails(st, t.a[0], False): return self.assume(st, t.a[1], True)
            if self.entails(st, t.a[1], False): return self.assume(st, t.a[0], True)
            if self.entails(st, t.a[0], True) or self.entails(st, t.a[1], True): return True
            if st.rel.get(t) is False: return False
            st.rel[t] = True; return True
        if o == 'kind':
            key = t.a[0]
            cur = self.curkind(st, key)
            new = cur & (t.a[1] if v else ~t.a[1])
            if new == 0: return False
            if new != cur: st.kinds[key] = new
            return True
        if o == '?:':
            c = t.a[0]
            if self.entails(st, c, True): return self.assume(st, t.a[1], v)
            if self.entails(st, c, False): return self.assume(st, t.a[2], v)
            a, b = truth(t.a[1]), truth(t.a[2])
            if a.op == 'int' and bool(a.a[0]) != v: return self.assume(st, c, False) and self.assume(st, b, v)
            if b.op == 'int' and bool(b.a[0]) != v: return self.assume(st, c, True) and self.assume(st, a, v)
            st.rel[t] = v
            return True
        r = st.rel.get(t)
        if r is not None: return r == v
        if o in ('<', '<=', '==') and self.entails(st, t, not v): return False
        st.rel[t] = v
        st._adj = None
        if o == '==' and v:
            a, b = t.a
            if FLAGWATCH and b.op == 'int' and b.a[0] == 0 and a.op == '&':
                x, y = a.a
                if y.op == 'int' and y.a[0] in FLAGWATCH and x.op == 'fld' and x.a[1:] == ('Obj', 'flags'): st.rel[nf(x.a[0], y.a[0])] = True
            for p, k in ((a, b), (b, a)):
                if p.op == 'fld' and p.a[2] == 'klass' and k.op == 'g':
                    if not self.assume(st, isa(p.a[0], k), True): return False
            # propagate kind knowledge between equal values/pointers
            for p, q in ((a, b), (b, a)):
                for kp, kq in ((p, q), (unbox(p), unbox(q))):
                    m = st.kinds.get(kp) or self.kdef.get(kp)
                    if m is not None and kq.op != 'int':
                        if not self.assume(st, kind(kq, m), True): return False
            if b.op == 'int' and b.a[0] != 0 or a.op == 'int' and a.a[0] != 0: pass
        if o == 'isa' and v:
            k = t.a[1]
            m = self.ck.get(k.a[0]) if k.op == 'g' else None
            if m: return self.assume(st, kind(t.a[0], m), True)
        return True

class Summary:
    __slots__ = ('exits', 'requires', 'noreturn', 'throws')
    def __init__(self):
        self.exits = []; self.requires = []; self.noreturn = False; self.throws = []

class Req:
    """an obligation: formula over args, with where it came from"""
    __slots__ = ('formula', 'what', 'site', 'chain')
    def __init__(self, formula, what, site, chain=()):
        self.formula = formula; self.what = what; self.site = site; self.chain = chain
    def key(self): return (self.formula, self.site, self.what)

class Client:
    """hooks; a property overrides what it needs"""
    name = 'client'
    def entry_props(self, fn): return ()
    def relevant(self, fn): return True
    def also(self, cx, st, formula): return False      # further ways to discharge an obligation
    def on_node(self, cx, st, nid, n, t): pass
    def on_call(self, cx, st, nid, n, callee, args): pass
    def post_call(self, cx, st, nid, n, callee, args, ret): pass
    def on_store(self, cx, st, nid, n, place, val): pass
    def on_exit(self, cx, st): pass
    def on_noreturn(self, cx, st, nid, n, callee): pass
    def entry_assume(self, cx, st): pass
    def is_entry(self, fn): return False
    def keep_terms(self, st): return frozenset()
    def summary_props(self, cx, st): return st.props
    def enter_props(self, cx, st, callee, args=()): return st.props
    def leave_props(self, cx, st, outprops, args=(), ret=None, nid=None): return outprops
    def on_edge(self, cx, st, b, s): pass
    def head_meet(self, cx, b, outer, back):
        return frozenset.intersection(*[s.props for s in outer + back])
    force_phi = False
    must_props = False      # typestates are sets of facts that hold; intersecting two is sound

class Engine:
    def __init__(self, prog, client, world):
        self.P = prog; self.cl = client; self.W = world
        self.F = Facts(world.kdef, world.class_kinds)
        self.summaries = {}
        self.active = set()
        self.violations = {}
        self.obligations = {}
        self.stats = collections.Counter()
    # ------------------------------------------------------------------
    def summary(self, key, props=None):
        fn = self.P.fns[key]
        if props is None: props = self.cl.entry_props(fn)
        k = (key, props)
        s = self.summaries.get(k)
        if s is not None: return s
        if k in self.active or not self.cl.relevant(fn):
            s = Summary(); s.exits = [((), None, props)]
            if not self.cl.relevant(fn) and k not in self.active:
                s = self.plain_summary(fn, props)
                self.summaries[k] = s
            return s
        self.active.add(k)
        cx = FnCtx(self, fn, props)
        # what is known about the types of terms holds within one function only
        tabs = (INTT, UNS, FLT); kd = self.W.kdef
        saved = [set(x) for x in tabs], dict(kd)
        for x in tabs: x.clear()
        kd.clear()
        try: s = cx.run()
        finally:
            for x, o in zip(tabs, saved[0]): x.clear(); x.update(o)
            kd.clear(); kd.update(saved[1])
        self.active.discard(k)
        self.summaries[k] = s
        self.stats['functions'] += 1
        return s
    def plain_summary(self, fn, props):
        s = Summary()
        s.noreturn = fn.key in self.W.noreturn
        if not s.noreturn: s.exits = [((), None, props)]
        return s

class FnCtx:
    def __init__(self, eng, fn, props):
        self.E = eng; self.fn = fn; self.F = eng.F; self.W = eng.W; self.P = eng.P; self.cl = eng.cl
        self.props = props
        self.reqs = {}
        self.exits = []
        self.throws = []
        self.cur = None
        self.path = ()
        self.phin = {}
    # -- obligations ----------------------------------------------------
    def require(self, st, formula, what, nid, site=None, chain=()):
        """records the obligation; discharges it, defers it to callers, or reports it"""
        formula = truth(formula)
        site = site or self.fn.loc(nid)
        k = (self.fn.key, nid, what, site)
        E = self.E
        ok = self.F.entails(st, formula, True) or self.cl.also(self, st, formula)
        deferred = False
        if not ok and not self.cl.is_entry(self.fn):
            res = self.residual(st, formula)
            if res is not None:
                deferred = True
                r = Req(res, what, site, chain)
                self.reqs.setdefault(r.key(), r)
        self.pending.setdefault(k, []).append((ok, deferred, formula, chain, st.trace))
        return ok
    def residual(self, st, formula):
        """the formula weakened by what the state knows, over entry terms only"""
        f = formula
        # path condition => formula, kept only if expressible at entry
        if not self.expressible(st, f): return None
        conds = []
        vs = set(self.argroots(f))
        for atom, v in st.rel.items():
            if self.expressible(st, atom) and (set(self.argroots(atom)) & vs or len(st.rel) < 6):
                conds.append(neg(atom) if v else atom)
        for key, m in st.kinds.items():
            if self.expressible(st, key) and (set(self.argroots(key)) & vs):
                conds.append(neg(kind(key, m)))
        for c in conds[:6]:
            f = lor(c, f)
        return f
    def argroots(self, t):
        for x in subterms(t):
            if x.op == 'arg': yield x
    def expressible(self, st, t):
        if not t.expr: return False
        if st.killed:
            if 'ALL' in st.killed:
                if any(c not in STABLE for c in t.cls): return False
            if t.cls & st.killed: return False
        return True
    # -- running ----------------------------------------------------------
    def initial(self):
        st = State()
        for i, p in enumerate(self.fn.params):
            a = mk('arg', i)
            st.env[p['d']] = a
            self.note_type(a, p['ty'], p['cty'], st)
        st.props = self.props
        self.cl.entry_assume(self, st)
        return st
    def note_type(self, t, ty, cty=None, st=None):
        cty = cty or ty
        if t.op in ('int', 'flt', 'str', 'null'): return
        m = self.W.ptr_kinds.get(ty) or self.W.ptr_kinds.get(cty)
        if m and t.op in ('arg', 'fld', 'g', 'idx', 'ret', 'var') and t not in self.W.kdef:
            self.W.kdef[t] = m
        if cty in UNSIGNED: UNS.add(t); INTT.add(t)
        elif cty in SIGNED or cty.startswith('enum '): INTT.add(t)
        elif cty in ('double', 'float'): FLT.add(t)
    def run(self):
        fn = self.fn
        s = Summary()
        if fn.entry is None or not fn.blocks:
            s.exits = [((), None, self.props)]
            return s
        out = {}       # (block, succ index) -> [State]
        inn = {}
        visits = collections.Counter()
        order = {b: i for i, b in enumerate(fn.rpo)}
        import heapq
        work = [(0, fn.entry)]
        inq = {fn.entry}
        self.pending = {}
        last_pending = {}
        while work:
            _, b = heapq.heappop(work)
            inq.discard(b)
            if b == fn.entry:
                ins = [self.initial()]
            else:
                ins = []; origin = []
                for (p, i) in fn.preds[b]:
                    o = out.get((p, i), [])
                    ins += o; origin += [p] * len(o)
                if not ins: continue
                ins = self.combine(b, ins, inn.get(b), visits[b], origin)
            for x in ins: self.prune(b, x)
            old = inn.get(b)
            if old is not None and len(old) == len(ins) and all(x.same(y) for x, y in zip(old, ins)):
                continue
            inn[b] = ins
            visits[b] += 1
            if visits[b] > 60:
                raise AnalysisError('no fixpoint in %s block %d' % (fn.key, b))
            self.pending = {}
            outs = collections.defaultdict(list)
            for st in ins:
                self.block(b, st.copy(), outs)
            last_pending[b] = self.pending
            bl = fn.blocks[b]
            for i, sc in enumerate(bl['s']):
                if sc is None or bl.get('nr'): continue
                new = outs.get(i, [])
                out[(b, i)] = new
                if new and sc not in inq:
                    inq.add(sc); heapq.heappush(work, (order[sc], sc))
        self.inn = inn
        # final obligations: re-evaluated on the fixpoint states (last visit of each block)
        E = self.E
        for b, pend in last_pending.items():
            for k, l in pend.items():
                okall = all(o or d for o, d, *_ in l)
                rec = E.obligations.setdefault(k, [True, 0, False])
                rec[1] += 1
                if any(d for o, d, *_ in l if not o): rec[2] = True
                if not okall:
                    rec[0] = False
                    bad = next(x for x in l if not (x[0] or x[1]))
                    E.violations.setdefault(k, dict(fn=fn.key, site=k[3], at=fn.loc(k[1]), what=k[2],
                                                   formula=show(bad[2])[:400], term=bad[2], phin=self.phin, chain=bad[3], trace=bad[4]))
        # exits
        ex = []
        for (p, i) in fn.preds[fn.exit]:
            ex += out.get((p, i), [])
        s.noreturn = not ex
        s.requires = list(self.reqs.values())
        s.exits = self.project(ex)
        s.throws = self.throws
        return s
    # -- exits to summary --------------------------------------------------
    def project(self, sts):
        res = []
        RET = mk('retd')
        for st in sts:
            self.cl.on_exit(self, st)
            cands = [st]
            r = st.ret
            if r is not None and self.fn.ret in ('_Bool', 'bool', 'int') and r.op in ('!', '==', '<', '<=', 'kind', '&&', '||', 'isa'):
                cands = []
                for v in (True, False):
                    s2 = st.copy()
                    if self.F.assume(s2, r, v):
                        s2.ret = TRUE if v else FALSE
                        cands.append(s2)
            for c in cands:
                m = {}
                r = c.ret
                rt = None
                if r is not None:
                    if self.expressible(c, r): rt = r
                    else:
                        m = {r: RET}
                        if r.op == 'box' and not r.a[0].expr: m = {r.a[0]: mk('unbox', RET)}
                        rt = RET
                facts = []
                for atom, v in c.rel.items():
                    a = subst(atom, m) if m else atom
                    if self.proj_ok(c, a): facts.append((a, v))
                for key, mask in c.kinds.items():
                    k = subst(key, m) if m else key
                    if self.proj_ok(c, k) and k.op != 'int': facts.append((kind(k, mask), True))
                for pl, val in c.mem.items():
                    if pl.expr and val.op == 'int':
                        facts.append((eq(pl, val), True))
                if r is not None and rt is RET:
                    for key in (r, unbox(r)):
                        d = self.W.kdef.get(key)
                        if d and key not in c.kinds:
                            facts.append((kind(RET if key is r else unbox(RET), d), True))
                facts = [(a, v) for a, v in facts if a.op != 'int']
                res.append((frozenset(facts), rt, self.cl.summary_props(self, c)))
        # dedupe / merge
        grp = collections.defaultdict(list)
        for f, r, p in res:
            grp[(frozenset(x for x in f if any(y.op in ('arg', 'retd') for y in subterms(x[0]))), r, p)].append(f)
        res = []
        for (af, r, p), l in grp.items():
            f = l[0]
            for x in l[1:]: f = f & x
            res.append((f, r, p))
        res = list(dict.fromkeys(res))
        while len(res) > MAXEXITS:
            groups = collections.defaultdict(list)
            for x in res: groups[(x[2], x[1])].append(x)
            merged = False
            for k, l in groups.items():
                if len(l) > 1:
                    best = None
                    for i in range(len(l)):
                        for j in range(i + 1, len(l)):
                            c = len(l[i][0] & l[j][0])
                            if best is None or c > best[0]: best = (c, i, j)
                    _, i, j = best
                    a, b = l[i], l[j]
                    res.remove(a); res.remove(b)
                    res.append((a[0] & b[0], k[1], k[0]))
                    res = list(dict.fromkeys(res))
                    merged = True
                    break
            if not merged:
                # different return terms: forget them
                byp = collections.defaultdict(list)
                for x in res: byp[x[2]].append(x)
                nres = []
                for p, l in byp.items():
                    f = l[0][0]
                    for x in l[1:]: f = f & x[0]
                    f = frozenset((a, v) for a, v in f if not has_ret(a))
                    nres.append((f, RET if any(x[1] is not None for x in l) else None, p))
                res = nres
                break
        return [(tuple(f), r, p) for f, r, p in res]
    def proj_ok(self, st, t):
        for x in subterms(t):
            if x.op in ('ret', 'phi', 'out', 'old', 'opq', 'var', 'icallx'): return False
        return len(list(subterms(t))) < 40
    # -- joins --------------------------------------------------------------
    def combine(self, b, ins, old, nvis, origin=()):
        head = b in self.fn.heads
        if head:
            groups = collections.defaultdict(list)
            if self.cl.must_props:
                body = self.fn.loop(b)
                ins = [s.copy() for s in ins]
                outer = [s for s, p in zip(ins, origin) if p not in body]
                back = [s for s, p in zip(ins, origin) if p in body]
                m = self.cl.head_meet(self, b, outer, back)
                for s in ins: s.props = m
                if old:
                    old = [s.copy() for s in old]
                    for s in old: s.props = m
            if old:
                for s in old: groups[s.props].append(s)
            for s in ins: groups[s.props].append(s)
            res = []
            for p, l in groups.items():
                olds = [s for s in (old or []) if s.props == p]
                res.append(self.merge(b, l, bool(olds) and nvis > 6, self.fn.loopvars(b) if self.cl.force_phi else ()))
            if len(res) > 24:
                raise AnalysisError('too many typestates at %s block %d' % (self.fn.key, b))
            return res
        if len(ins) == 1: return ins
        u = []
        for s in ins:
            if not any(s.same(x) for x in u): u.append(s)
        while len(u) > MAXSTATES:
            best = None
            for i in range(len(u)):
                for j in range(i + 1, len(u)):
                    if u[i].props != u[j].props: continue
                    a, c = u[i], u[j]
                    d = len(a.rel.items() ^ c.rel.items()) + len(a.kinds.items() ^ c.kinds.items()) + \
                        2 * len(a.env.items() ^ c.env.items())
                    if best is None or d < best[0]: best = (d, i, j)
            if best is None:
                if self.cl.must_props:
                    self.meet(u); continue
                if len(u) > 40: raise AnalysisError('too many typestates in %s' % self.fn.key)
                break
            _, i, j = best
            m = self.merge(b, [u[i], u[j]])
            u = [x for k, x in enumerate(u) if k not in (i, j)] + [m]
        return u
    def meet(self, u):
        """typestates that are sets of facts: the closest two become their intersection"""
        ps = list({s.props for s in u})
        best = None
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                d = len(ps[i] ^ ps[j])
                if best is None or d < best[0]: best = (d, i, j)
        _, i, j = best
        m = ps[i] & ps[j]
        for s in u:
            if s.props == ps[i] or s.props == ps[j]: s.props = m
    def merge(self, b, l, hard=False, force=()):
        force = [d for d in force if all(d in s.env for s in l) and not all(s.env[d] is mk('phi', b, d) for s in l)]
        if len(l) == 1 and not force: return l[0]
        F = self.F
        res = State()
        res.props = l[0].props
        res.trace = l[0].trace
        res.killed = frozenset().union(*[s.killed for s in l])
        # variables
        keys = set(l[0].env)
        for s in l[1:]: keys &= set(s.env)
        phis = {}
        changed = True
        env0 = l[0].env
        diff = set()
        for d in keys:
            t = env0[d]
            if any(s.env[d] is not t for s in l[1:]): diff.add(d)
        diff |= set(force)
        # terms mentioning a phi of this block that is being redefined are stale
        while True:
            bad = {mk('phi', b, d) for d in diff}
            more = set()
            for d in keys - diff:
                t = env0[d]
                if t.op in ('int', 'arg'): continue
                if any(x in bad for x in subterms(t)): more.add(d)
            if not more: break
            diff |= more
        bad = {mk('phi', b, d) for d in diff}
        for d in keys - diff: res.env[d] = env0[d]
        maps = [dict() for _ in l]     # incoming term -> phi
        for d in diff:
            ph = mk('phi', b, d)
            res.env[d] = ph
            phis[d] = ph
        tk = set(l[0].tmp)
        for s in l[1:]: tk &= set(s.tmp)
        for k in tk:
            t = l[0].tmp[k]
            if all(s.tmp[k] is t for s in l[1:]) and not any(x in bad for x in subterms(t)): res.tmp[k] = t
            else:
                ph = mk('phi', b, ('t', k)); res.tmp[k] = ph; phis[('t', k)] = ph; bad.add(ph)
        def val(s, d): return s.tmp[d[1]] if isinstance(d, tuple) else s.env[d]
        for d, ph in phis.items(): self.phin.setdefault(ph, set()).update(val(s, d) for s in l)
        # type knowledge for phis
        for d, ph in phis.items():
            ts = [val(s, d) for s in l]
            if all(is_int(t) for t in ts): INTT.add(ph)
            if all(F.unsigned(t) or t.op == 'int' and t.a[0] >= 0 for t in ts) and any(F.unsigned(t) for t in ts): UNS.add(ph)
            if any(isflt(t) for t in ts): FLT.add(ph)
        mt = l[0].mem
        for pl, v in mt.items():
            if all(s.mem.get(pl) is v for s in l[1:]) and not any(x in bad for x in subterms(pl)) and not any(x in bad for x in subterms(v)):
                res.mem[pl] = v
        if res.mem != mt or any(s.mem != mt for s in l[1:]):
            # a place forwarded on one side only: its facts must not be taken from its old content
            lost = set()
            for s in l:
                for pl in s.mem:
                    if pl not in res.mem: lost.add(pl)
        else: lost = set()
        # candidate facts
        cands = {}
        kcand = {}
        back = [{ph: val(s, d) for d, ph in phis.items()} for s in l]
        for s, bk in zip(l, back):
            fwd = {}
            for d, ph in phis.items():
                t = val(s, d)
                if t.op != 'int' and t.op != 'flt': fwd.setdefault(t, ph)
            for atom, v in s.rel.items():
                hit = False
                if fwd:
                    a2 = subst(atom, fwd)
                    if a2 is not atom and a2.op != 'int':
                        cands[a2] = v; hit = True
                if not any(x in bad for x in subterms(atom)): cands[atom] = v
            for key, m in s.kinds.items():
                if fwd:
                    k2 = subst(key, fwd)
                    if k2 is not key: kcand[k2] = True
                if not any(x in bad for x in subterms(key)): kcand[key] = True
            for d, ph in phis.items():
                t = val(s, d)
                if t.op == 'int':
                    if abs(t.a[0]) < 2**31:
                        cands[le(t, ph)] = True; cands[le(ph, t)] = True
                        if t.a[0] == 0: cands[eq(ph, NULL)] = True
                        else: cands[eq(ph, NULL)] = False
                else:
                    x, c = lin(t)
                    kcand[ph] = True; kcand[unbox(ph)] = True
                    if d in force and not any(x in bad for x in subterms(t)): cands.setdefault(eq(ph, t), True)
                    cands.setdefault(le(I(0), ph), True)
                    cands.setdefault(eq(ph, NULL), False)
        for a in list(cands):
            v = cands[a]
            okk = True
            for s, bk in zip(l, back):
                q = subst(a, bk) if bk else a
                if s.rel.get(q) is v and q.op not in ('int',): continue
                if s.mem and any(x in s.mem for x in subterms(q)):
                    q = subst(q, {x: s.mem[x] for x in subterms(q) if x in s.mem})
                if not F.entails(s, q, v): okk = False; break
            if okk and a.op != 'int': res.rel[a] = v
        for k in kcand:
            m = 0
            for s, bk in zip(l, back):
                q = subst(k, bk) if bk else k
                if q.op == 'unbox' and q.a[0].op == 'boxn': m |= K_NUM
                elif q.op == 'unbox' and q.a[0].op == 'int' and q.a[0].a[0] in KCONST: m |= KCONST[q.a[0].a[0]]
                else: m |= F.curkind(s, q)
            default = self.W.kdef.get(k, K_ALL if k.op == 'unbox' else K_ALLOBJ)
            if m != default: res.kinds[k] = m
        if hard:
            o = l[0]
            res.rel = {a: v for a, v in res.rel.items() if o.rel.get(a) is v}
        r = l[0].ret
        res.ret = r if all(s.ret is r for s in l) else (mk('phi', b, 'ret') if r is not None else None)
        return res
    def prune(self, b, st):
        """forget dead locals and facts about values nothing refers to any more"""
        lv = self.fn.live[b]; at = self.fn.addrtaken
        dead = [d for d in st.env if d not in lv and d not in at]
        for d in dead: del st.env[d]
        keep = set()
        for t in st.env.values(): keep |= subterms(t)
        for t in st.tmp.values(): keep |= subterms(t)
        if st.ret is not None: keep |= subterms(st.ret)
        keep |= self.cl.keep_terms(st)
        for q in list(st.mem):
            if any(x not in keep and x.op != 'var' for x in opaques(q)): del st.mem[q]
        for q, t in st.mem.items(): keep |= subterms(t)
        ch = False
        for dct in (st.rel, st.kinds):
            bad = [q for q in dct if any(x not in keep and x.op != 'var' for x in opaques(q))]
            for q in bad: del dct[q]
            ch = ch or bad
        if ch: st._adj = None
    # -- transfer -------------------------------------------------------------
    def block(self, b, st, outs):
        fn = self.fn
        bl = fn.blocks[b]
        sts = [(st, {})]
        for nid in bl['e']:
            nxt = []
            cons = fn.consumes.get(nid)
            for s, memo in sts:
                r = self.element(nid, s, memo)
                if cons:
                    for c in cons: s.tmp.pop(c, None)
                    if r:
                        for s2, _ in r:
                            for c in cons: s2.tmp.pop(c, None)
                if r is None: nxt.append((s, memo))
                else:
                    for (s2, m2) in r: nxt.append((s2, m2))
            sts = nxt
            if len(sts) > 24:
                by = collections.defaultdict(list)
                for s, m in sts: by[s.props].append((s, m))
                sts = self.squash(b, sts)
        if bl.get('nr'):
            return
        succ = bl['s']
        t = bl.get('t')
        for s, memo in sts:
            if t in ('SwitchStmt',):
                self.switch(bl, s, memo, outs)
            elif len(succ) == 2 and 'cond' in bl and t != 'IndirectGotoStmt':
                cond = self.condval(bl, s, memo)
                for i, v in ((0, True), (1, False)):
                    if succ[i] is None: continue
                    s2 = s.copy()
                    if not self.F.assume(s2, cond, v): continue
                    tn = bl.get('tn')
                    if tn is not None: self.outcome(tn, v, s2)
                    self.save_cross(s2, memo)
                    self.cl.on_edge(self, s2, bl['id'], succ[i])
                    outs[i].append(s2)
            else:
                for i, sc in enumerate(succ):
                    if sc is None: continue
                    s2 = s.copy() if len(succ) > 1 else s
                    self.save_cross(s2, memo)
                    self.cl.on_edge(self, s2, bl['id'], sc)
                    outs[i].append(s2)
    def outcome(self, t, v, st):
        """records which way a short-circuit operator or conditional went"""
        fn = self.fn; nodes = fn.nodes
        nd = nodes[t]
        if nd['k'] == 'cond':
            if t in fn.logel: st.tmp[t] = TRUE if v else FALSE
            return
        if nd['k'] != 'bin' or nd['op'] not in ('&&', '||'): return
        if (nd['op'] == '&&') == v:      # the right operand is evaluated next
            st.tmp.pop(t, None)
            return
        while True:
            if t in fn.logel: st.tmp[t] = TRUE if v else FALSE
            p = fn.parent.get(t)
            if p is None: return
            pn = nodes[p]
            if pn['k'] == 'cond':
                if pn['c'][0] == t and p in fn.logel: st.tmp[p] = TRUE if v else FALSE
                return
            if pn['k'] != 'bin' or pn['op'] not in ('&&', '||'): return
            if pn['c'][0] == t and (pn['op'] == '&&') == v:
                st.tmp.pop(p, None)
                return
            t = p
    def squash(self, b, sts):
        by = collections.defaultdict(list)
        for s, m in sts: by[s.props].append((s, m))
        res = []
        for p, l in by.items():
            st = self.merge(('q', b), [x[0] for x in l])
            memo = {}
            ks = set(l[0][1])
            for _, m in l[1:]: ks &= set(m)
            for k in ks:
                v = l[0][1][k]
                memo[k] = v if all(m[k] is v for _, m in l[1:]) else mk('opq', k)
            res.append((st, memo))
        return res
    def save_cross(self, st, memo):
        for k in self.fn.cross:
            if k in memo: st.tmp[k] = memo[k]
    def condval(self, bl, st, memo):
        n = bl['cond']
        nodes = self.fn.nodes
        # earlier operands of a short-circuit condition were decided by earlier blocks
        while n >= 0 and nodes[n]['k'] == 'bin' and nodes[n]['op'] in ('&&', '||') and n not in memo and n not in st.tmp:
            n = nodes[n]['c'][1]
        return truth(self.val(n, st, memo))
    def switch(self, bl, st, memo, outs):
        fn = self.fn
        v = self.val(bl['cond'], st, memo)
        cases = []
        default = None
        for i, sc in enumerate(bl['s']):
            if sc is None: continue
            sb = fn.blocks[sc]
            if 'case' in sb:
                c = self.val(sb['case'], st, {})
                cases.append((i, c, sb.get('case2')))
            else: default = i
        for i, c, c2 in cases:
            s2 = st.copy()
            if c2 is None:
                if not self.F.assume(s2, eq(v, c), True): continue
            self.save_cross(s2, memo)
            self.cl.on_edge(self, s2, bl['id'], bl['s'][i])
            outs[i].append(s2)
        if default is not None:
            s2 = st.copy()
            ok = True
            for i, c, c2 in cases:
                if c2 is None and not self.F.assume(s2, eq(v, c), False): ok = False; break
            if ok:
                self.save_cross(s2, memo)
                self.cl.on_edge(self, s2, bl['id'], bl['s'][default])
                outs[default].append(s2)
    # -- expressions ---------------------------------------------------------------
    def val(self, n, st, memo):
        if n is None or n < 0: return mk('opq', -1)
        if n in memo: return memo[n]
        if n in st.tmp: return st.tmp[n]
        return self.compute(n, st, memo)
    def place(self, n, st, memo):
        """the place an lvalue node denotes, or ('local', d)"""
        nd = self.fn.nodes[n]
        k = nd['k']
        if k == 'ref':
            dk = nd.get('dk')
            if dk in ('local', 'parm'):
                d = nd['d']
                if self.isscalar(nd): return ('local', d)
                return mk('var', d, nd['name'])
            return mk('g', nd['name'])
        if k == 'mem':
            if nd['arrow']: base = self.val(nd['c'][0], st, memo)
            else:
                p = self.place(nd['c'][0], st, memo)
                if isinstance(p, tuple): base = mk('opq', n)
                else: base = addr(p)
            return fld(base, nd.get('rec', '?'), nd['f'])
        if k == 'idx':
            base = self.val(nd['c'][0], st, memo)
            i = self.val(nd['c'][1], st, memo)
            return idx(base, i, self.ety(nd))
        if k == 'un' and nd['op'] == '*':
            base = self.val(nd['c'][0], st, memo)
            if base.op == 'addr' : return base.a[0]
            if base.op == 'addrl': return ('local', base.a[0])
            return idx(base, I(0), self.ety(nd))
        if k == 'cast' : return self.place(nd['c'][0], st, memo)
        if k == 'call' or k == 'cond' or k == 'stmtexpr' or k == 'asg':
            return mk('deref_tmp', self.val(n, st, memo))
        return mk('opq', n)
    def ety(self, nd):
        ty = nd.get('ty', '')
        if ty == 'Value': return ty
        return nd.get('cty', ty)
    def isscalar(self, nd):
        cty = nd.get('cty', nd.get('ty', ''))
        return not (cty.startswith(('struct ', 'union ')) and not cty.endswith('*')) and not cty.endswith(']') \
            and cty not in self.W.recnames
    def load(self, p, nd, st):
        if isinstance(p, tuple):
            t = st.env.get(p[1])
            if t is None:
                t = mk('uninit', p[1]); 
            return t
        v = st.mem.get(p)
        if v is not None: return v
        self.note_type(p, nd.get('ty', ''), nd.get('cty', nd.get('ty', '')))
        return p
    def compute(self, n, st, memo):
        nd = self.fn.nodes[n]
        k = nd['k']
        if k == 'int': return I(int(nd['cv'])) if 'cv' in nd else mk('opq', n)
        if 'cv' in nd and k not in ('asg', 'call') and not (k == 'un' and nd.get('incdec')): return I(int(nd['cv']))
        c = nd['c']
        if k == 'ref':
            dk = nd.get('dk')
            if dk == 'fn': return mk('fn', self.P.resolve(nd['name'], self.fn) or nd['name'])
            if dk == 'enum': return I(int(nd['cv']))
            p = self.place(n, st, memo)
            if not isinstance(p, tuple):
                cty = nd.get('cty', nd.get('ty', ''))
                if cty.endswith(']'): return addr_arr(p)
                if not self.isscalar(nd): return p
            return self.load(p, nd, st)
        if k in ('mem', 'idx') or (k == 'un' and nd['op'] == '*'):
            p = self.place(n, st, memo)
            cty = nd.get('cty', nd.get('ty', ''))
            if not isinstance(p, tuple) and cty.endswith(']'): return addr_arr(p)
            return self.load(p, nd, st)
        if k == 'cast':
            v = self.val(c[0], st, memo)
            ck = nd.get('ck')
            if ck == 'FloatingToIntegral': return f2i(nd.get('cty', nd['ty']), v)
            if ck == 'IntegralToFloating': return v
            if ck in ('IntegralCast',) and v.op == 'int':
                return I(wrap(v.a[0], nd.get('cty', nd['ty'])))
            return v
        if k == 'bin': return self.binop(n, nd, st, memo)
        if k == 'un':
            op = nd['op']
            if op == '&':
                p = self.place(c[0], st, memo)
                if isinstance(p, tuple): return mk('addrl', p[1])
                return addr(p)
            v = self.val(c[0], st, memo)
            if nd.get('incdec'): return v
            if op == '!': return neg(truth(v))
            if op == '-':
                if v.op == 'int': return I(-v.a[0])
                if v.op == 'flt': return mk('flt', -v.a[0])
                return sub(I(0), v)
            if op == '~' and v.op == 'int': return I(~v.a[0])
            if op == '+': return v
            return mk('un' + op, v)
        if k == 'call': return self.purecall(n, nd, st, memo)
        if k == 'flt': return mk('flt', nd['v'])
        if k == 'str': return mk('str', nd.get('v', '?'))
        if k == 'cond':
            if n in st.tmp and st.tmp[n] in (TRUE, FALSE): return self.val(c[1] if st.tmp[n] is TRUE else c[2], st, memo)
            return ite(self.val(c[0], st, memo), self.val(c[1], st, memo), self.val(c[2], st, memo))
        if k == 'sizeof': return mk('sizeof', nd.get('of'))
        if k == 'stmtexpr' and c: return self.val(c[-1], st, memo)
        if k == 'asg': return self.val(c[0], st, memo)
        if k == 'expr' and nd.get('cls') == 'CompoundLiteralExpr' and c: return self.val(c[0], st, memo)
        return mk('opq', n)
    def binop(self, n, nd, st, memo):
        op = nd['op']; c = nd['c']
        if op == '&&': return land(truth(self.val(c[0], st, memo)), truth(self.val(c[1], st, memo)))
        if op == '||': return lor(truth(self.val(c[0], st, memo)), truth(self.val(c[1], st, memo)))
        a = self.val(c[0], st, memo); b = self.val(c[1], st, memo)
        if op == ',': return b
        if op in ('<', '>', '<=', '>='):
            r = self.relop(op, a, b)
            if nd_unsigned_cmp(self.fn.nodes, c):
                # an explicitly unsigned comparison x < y also gives 0 <= x
                ea, eb = self.fn.nodes[c[0]], self.fn.nodes[c[1]]
                if op in ('<', '<=') and ea['k'] == 'cast' and not self.F.unsigned(a) and a.op != 'int':
                    return land(le(I(0), a), r)
                if op in ('>', '>=') and ea['k'] == 'cast' and not self.F.unsigned(a) and a.op != 'int':
                    return lor(lt(a, I(0)), r)
            return r
        if op == '==': return eq(a, b)
        if op == '!=': return neg(eq(a, b))
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        return arith(op, a, b)
    def relop(self, op, a, b):
        if op == '<': return lt(a, b)
        if op == '<=': return le(a, b)
        if op == '>': return lt(b, a)
        return le(b, a)
    def args(self, nd, st, memo):
        return [self.val(x, st, memo) for x in nd['c'][1:]]
    def purecall(self, n, nd, st, memo):
        """value of a call when it is a pure expression; else an opaque result"""
        name = nd.get('fn')
        if name == '__builtin_expect': return self.val(nd['c'][1], st, memo)
        args = self.args(nd, st, memo)
        if name is None:
            f = self.val(nd['c'][0], st, memo)
            if f.op == 'fn': key = f.a[0]
            elif self.W.pure_indirect(self.fn, nd): return mk('icall', f, *args)
            else: return mk('ret', '*', n)
        else: key = self.P.resolve(name, self.fn)
        r = self.W.primitive(name or '', args)
        if r is not None: return r
        if key:
            r = self.W.inline(key, args, self)
            if r is not None: return r
        return mk('ret', name or '*', n)
    # -- elements ---------------------------------------------------------------------
    def element(self, n, st, memo):
        self.memo = memo        # values of the expressions of this block evaluated so far
        nd = self.fn.nodes[n]
        k = nd['k']
        if k == 'decl':
            for v in nd['vars']:
                if v.get('static'): continue
                self.decl(n, v, st, memo)
            return None
        if k == 'asg':
            self.assign(n, nd, st, memo)
            return None
        if k == 'un' and nd.get('incdec'):
            p = self.place(nd['c'][0], st, memo)
            old = self.val(nd['c'][0], st, memo)
            new = add(old, I(1 if nd['op'] == '++' else -1))
            if is_int(old): INTT.add(new)
            memo[n] = old if nd.get('post') else new
            self.store(n, nd, p, new, st, memo)
            if nd['c'][0] in memo: del memo[nd['c'][0]]
            return None
        if k == 'call':
            return self.call(n, nd, st, memo)
        if k == 'ret':
            st.ret = self.val(nd['c'][0], st, memo) if nd['c'] else None
            self.cl.on_node(self, st, n, nd, st.ret)
            return None
        if k == 'bin' and nd['op'] in ('&&', '||'):
            memo[n] = self.logical(n, st, memo)
            return None
        if k == 'cond':
            arm = st.tmp.pop(n, None)
            if arm is TRUE: memo[n] = self.val(nd['c'][1], st, memo)
            elif arm is FALSE: memo[n] = self.val(nd['c'][2], st, memo)
            else: memo[n] = self.compute(n, st, memo)
            if isinstance(memo[n], T) and nd.get('ty') != 'void': pass
            return None
        if k in ('stmt', 'label'): return None
        t = self.compute(n, st, memo)
        memo[n] = t
        self.cl.on_node(self, st, n, nd, t)
        return None
    def logical(self, n, st, memo):
        nodes = self.fn.nodes
        chain = []
        q = n; r = None
        while True:
            chain.append(q)
            if q in st.tmp and q in self.fn.logel: r = st.tmp[q]; break
            rhs = nodes[q]['c'][1]
            if nodes[rhs]['k'] == 'bin' and nodes[rhs]['op'] in ('&&', '||') and rhs not in memo:
                q = rhs; continue
            r = truth(self.val(rhs, st, memo)); break
        q = n
        while nodes[q]['k'] == 'bin' and nodes[q]['op'] in ('&&', '||'):
            st.tmp.pop(q, None)
            q = nodes[q]['c'][1]
        return r
    def decl(self, n, v, st, memo):
        d = v['d']
        cty = v['cty']
        scalar = self.isscalar({'cty': cty})
        if scalar:
            if v['init'] >= 0:
                t = self.val(v['init'], st, memo)
                st.env[d] = t
                self.cl.on_store(self, st, n, self.fn.nodes[n], ('local', d), t)
            else:
                st.env[d] = mk('uninit', d)
        else:
            p = mk('var', d, v['name'])
            self.kill_place(p, st, n)
            if v['init'] >= 0:
                self.copy_struct(p, v['init'], cty, st, memo)
    def copy_struct(self, p, init, cty, st, memo):
        nd = self.fn.nodes[init]
        rn = rec_of(cty)
        r = self.P.recs.get(rn)
        if r is None: return
        base = addr(p)
        if nd['k'] == 'init':
            for f, x in zip(r['fields'], nd['c']):
                if self.fn.nodes[x]['k'] not in ('init',) and self.isscalar({'cty': f['cty']}):
                    st.mem[fld(base, r['name'], f['name'])] = self.val(x, st, memo)
            return
        if nd['k'] in ('ref', 'mem', 'idx', 'un'):
            src = self.place(init, st, memo)
            if isinstance(src, tuple): return
            sb = addr(src)
            for f in r['fields']:
                if self.isscalar({'cty': f['cty']}):
                    q = fld(sb, r['name'], f['name'])
                    val = st.mem.get(q)
                    if val is None:
                        val = q; self.note_type(q, f['ty'], f['cty'])
                    st.mem[fld(base, r['name'], f['name'])] = val
    def assign(self, n, nd, st, memo):
        c = nd['c']; op = nd['op']
        p = self.place(c[0], st, memo)
        if op == '=':
            v = self.val(c[1], st, memo)
        else:
            old = self.val(c[0], st, memo) if c[0] in memo else self.load(p, self.fn.nodes[c[0]], st)
            b = self.val(c[1], st, memo)
            o = op[:-1]
            if o == '+': v = add(old, b)
            elif o == '-': v = sub(old, b)
            else: v = arith(o, old, b)
        memo[n] = v
        memo.pop(c[0], None)
        lhs = self.fn.nodes[c[0]]
        if not isinstance(p, tuple) and not self.isscalar(lhs):
            snap = None
            rn = rec_of(lhs.get('cty', lhs.get('ty', '')))
            tmpm = {}
            holder = mk('var', ('cp', n), 'cp')
            self.copy_struct(holder, c[1], lhs.get('cty', lhs.get('ty', '')), st, memo)
            r = self.P.recs.get(rn)
            self.cl.on_store(self, st, n, nd, p, v)
            self.kill_struct(p, rn, st, n)
            if r:
                hb = addr(holder); pb = addr(p)
                for f in r['fields']:
                    q = fld(hb, r['name'], f['name'])
                    if q in st.mem:
                        st.mem[fld(pb, r['name'], f['name'])] = st.mem.pop(q)
            return
        self.store(n, nd, p, v, st, memo)
    def store(self, n, nd, p, v, st, memo):
        self.cl.on_store(self, st, n, nd, p, v)
        if isinstance(p, tuple):
            st.env[p[1]] = v if v.depth <= MAXD else mk('opq', n)
            return
        self.kill_place(p, st, n, strong=True)
        if p.depth <= MAXD and v.depth <= MAXD and not (set(p.cls) & set()):
            if not any(x is p for x in subterms(v)):
                st.mem[p] = v
    # -- kills ------------------------------------------------------------------------
    def kill_place(self, p, st, site, strong=False):
        if p.op == 'var':
            self.kill(st, {('v', p.a[0])}, site)
            base = addr(p)
            for q in [q for q in st.mem if root(q) is p]: del st.mem[q]
            for dct in (st.rel, st.kinds):
                for q in [q for q in dct if any(root(x) is p for x in subterms(q) if x.op in PLACE)]:
                    del dct[q]; st._adj = None
            return
        if p.op == 'fld': c = ('f', p.a[1], p.a[2])
        elif p.op == 'idx': c = ('e', p.a[2])
        elif p.op == 'g': c = ('g', p.a[0])
        else: return
        if p.op == 'fld' and root(p) is not None and root(p).op == 'var':
            # field of a local struct: only that place changes
            self.kill_exact(p, st, site)
            return
        self.kill(st, {c}, site, p)
    def kill_struct(self, p, rn, st, site):
        cls = set()
        def go(r, seen):
            rr = self.P.recs.get(r)
            if not rr or r in seen: return
            for f in rr['fields']:
                cls.add(('f', rr['name'], f['name']))
                if f.get('rec'): go(f['rec'], seen | {r})
        go(rn, set())
        if p.op == 'fld': cls.add(('f', p.a[1], p.a[2]))
        self.kill(st, cls, site, p)
    def kill_exact(self, p, st, site):
        if p in st.mem: del st.mem[p]
        new = mk('old', site, p)
        self.rename(st, {p: new}, site)
    def rename(self, st, m, site):
        targets = set(m.values())
        for dct in (st.rel, st.kinds):
            for q in [q for q in dct if any(x in targets for x in subterms(q))]:
                del dct[q]; st._adj = None
        for d, t in list(st.env.items()):
            if t.depth > 1 or t in m:
                u = subst(t, m)
                if u is not t: st.env[d] = u if u.depth <= MAXD else mk('opq', site, d)
        for d, t in list(st.tmp.items()):
            u = subst(t, m)
            if u is not t: st.tmp[d] = u
        for q, t in list(st.mem.items()):
            u = subst(t, m); q2 = subst(q, m) if q not in m else q
            if u is not t or q2 is not q:
                del st.mem[q]; st.mem[q2] = u
        nr = {}
        for q, v in st.rel.items():
            u = subst(q, m)
            if u.op != 'int': nr[u] = v
        st.rel = nr
        nk = {}
        for q, v in st.kinds.items():
            u = subst(q, m)
            nk[u] = v
        st.kinds = nk
        st._adj = None
    def kill(self, st, classes, site, place=None):
        """invalidate every term reading one of the classes"""
        ALL = 'ALL' in classes
        esc = self.escaped
        def hit(cls):
            if not cls: return False
            if ALL:
                for c in cls:
                    if c[0] != 'v' and c not in STABLE: return True
                return bool(classes & cls)
            return bool(classes & cls)
        lroot = root(place) if place is not None else None
        need = {}
        def scan(t):
            if not hit(t.cls): return
            stk = [t]; seen = set()
            while stk:
                x = stk.pop()
                if x in seen: continue
                seen.add(x)
                if x.op in PLACE:
                    own = own_class(x)
                    if own is not None and hit(frozenset([own])) and not local_rooted(x):
                        need[x] = mk('old', site, strip_old(x)) if x.depth < 8 else mk('opq', site, x.n)
                        continue
                for y in x.a:
                    if isinstance(y, T): stk.append(y)
        for t in st.env.values(): scan(t)
        for t in st.tmp.values(): scan(t)
        # forwarded contents
        for q in list(st.mem):
            if local_rooted(q) and not ('v', ) in classes:
                scan(st.mem[q]); continue
            o = own_class(q)
            if o is not None and hit(frozenset([o])):
                del st.mem[q]
        for q, t in list(st.mem.items()):
            scan(t)
            for x in q.a:
                if isinstance(x, T): scan(x)
        if need: self.rename(st, need, site)
        for dct in (st.rel, st.kinds):
            bad = [q for q in dct if hit(q.cls) and any(own_class(x) is not None and hit(frozenset([own_class(x)])) and not local_rooted(x) for x in subterms(q) if x.op in PLACE)]
            for q in bad: del dct[q]
            if bad: st._adj = None
        st.killed = st.killed | frozenset(classes)
    escaped = frozenset()
    # -- calls ------------------------------------------------------------------------
    def call(self, n, nd, st, memo):
        name = nd.get('fn')
        if name == '__builtin_expect':
            memo[n] = self.val(nd['c'][1], st, memo); return None
        args = self.args(nd, st, memo)
        key = self.P.resolve(name, self.fn) if name else None
        ftgt = None
        if name is None:
            f = self.val(nd['c'][0], st, memo)
            if f.op == 'fn':
                key = f.a[0] if f.a[0] in self.P.fns else None
                name = f.a[0]
        callee = key or name
        if self.cl.on_call(self, st, n, nd, callee, args) == 'stop': return []
        pure = self.purecall_val(n, nd, st, memo, args, key, name)
        if nd.get('nr') or (callee in self.W.noreturn):
            # obligations of the callee still apply
            if key: self.apply_requires(n, st, key, args)
            self.cl.on_noreturn(self, st, n, nd, callee)
            return []
        ret = mk('ret', name or '*', n)
        summ = None
        if key and not (name in self.W.prims):
            props = self.cl.enter_props(self, st, key, args)
            summ = self.E.summary(key, props)
            self.apply_requires(n, st, key, args, summ)
        # effects
        if pure is None:
            self.forget(st, ret, n)
            self.call_kills(n, nd, st, memo, key, name, args)
        self.note_type(ret, nd.get('ty', ''), nd.get('cty', nd.get('ty', '')))
        val = pure if pure is not None else ret
        results = []
        if summ is not None and (summ.exits or summ.noreturn):
            RET = mk('retd')
            amap = {mk('arg', i): a for i, a in enumerate(args)}
            exits = summ.exits
            single = len(exits) == 1
            for (facts, rt, props) in exits:
                s2 = st if single else st.copy()
                m2 = memo if single else dict(memo)
                v = val
                m = dict(amap)
                if pure is None and rt is not None:
                    if rt is RET: m[RET] = ret
                    else:
                        v = self.instantiate(rt, m, s2)
                        m[RET] = v
                else: m[RET] = val
                ok = True
                for atom, tv in facts:
                    a2 = self.instantiate(atom, m, s2)
                    if a2 is None: continue
                    if not self.F.assume(s2, a2, tv): ok = False; break
                if not ok: continue
                s2.props = self.cl.leave_props(self, s2, props, args, v, n)
                m2[n] = v
                self.memo = m2
                self.cl.post_call(self, s2, n, nd, callee, args, v)
                self.cl.on_node(self, s2, n, nd, v)
                results.append((s2, m2))
            if len(results) == 1 and results[0][0] is st: return None
            return results
        memo[n] = val
        self.W.axiom(self, st, name, args, val)
        self.cl.post_call(self, st, n, nd, callee, args, val)
        self.cl.on_node(self, st, n, nd, val)
        return None
    def instantiate(self, t, m, st):
        r = subst(t, m)
        if st.mem:
            mm = {x: st.mem[x] for x in subterms(r) if x in st.mem}
            if mm: r = subst(r, mm)
        if any(x.op == 'icall' for x in subterms(r)): r = self.resolve_icalls(r)
        return r
    def resolve_icalls(self, t):
        for _ in range(3):
            m = {}
            for x in subterms(t):
                if x.op == 'icall' and x.a[0].op == 'fn':
                    v = self.W.inline(x.a[0].a[0], list(x.a[1:]), self)
                    if v is not None: m[x] = v
            if not m: break
            t = subst(t, m)
        return t
    def purecall_val(self, n, nd, st, memo, args, key, name):
        r = self.W.primitive(name or '', args)
        if r is not None: return r
        if name is None:
            if self.W.pure_indirect(self.fn, nd):
                return mk('icall', self.val(nd['c'][0], st, memo), *args)
            return None
        if key:
            r = self.W.inline(key, args, self)
            if r is not None and st.mem:
                mm = {x: st.mem[x] for x in subterms(r) if x in st.mem}
                if mm: r = subst(r, mm)
            return r
        return None
    def apply_requires(self, n, st, key, args, summ=None):
        if summ is None:
            summ = self.E.summary(key, self.cl.enter_props(self, st, key, args))
        m = {mk('arg', i): a for i, a in enumerate(args)}
        for r in summ.requires:
            f = self.instantiate(r.formula, m, st)
            if len(r.chain) > 12: continue
            what = r.what
            if isinstance(what, tuple): what = (what[0], self.instantiate(what[1], m, st))   # what the obligation is about
            self.require(st, f, what, n, r.site, r.chain + ((self.fn.key, self.fn.loc(n), key),))
    def forget(self, st, ret, n):
        """the opaque result of node n from an earlier iteration is stale"""
        used = False
        for t in st.env.values():
            if t is ret or t.depth > 1 and any(x is ret for x in subterms(t)): used = True; break
        if not used:
            for dct in (st.rel, st.kinds, st.mem):
                for q in dct:
                    if q is ret or any(x is ret for x in subterms(q)): used = True; break
        if used: self.rename(st, {ret: mk('old', n, ret)}, n)
    def call_kills(self, n, nd, st, memo, key, name, args):
        argn = nd['c'][1:]
        if key:
            mods = self.W.mods(key)
            keys = [key]
        elif name is not None:
            mods = self.W.extern_mods(name, self.fn, nd)
        else:
            mods = self.W.indirect_mods(self.fn, nd)
        if not mods: return
        glob = set()
        for (cls, rt) in mods:
            if cls == 'ALL': glob.add('ALL'); continue
            if rt is None: glob.add(cls); continue
            if rt >= len(args): continue
            a = args[rt]
            if a.op == 'addrl':
                st.env[a.a[0]] = mk('out', n, a.a[0])
                self.forget(st, mk('out', n, a.a[0]), n) if False else None
                self.drop_facts(st, mk('out', n, a.a[0]))
                nn = self.fn.nodes[argn[rt]]
            elif a.op == 'addr' and root(a.a[0]) is not None and root(a.a[0]).op == 'var':
                self.kill_local_fields(st, root(a.a[0]), cls, n, a.a[0])
            else:
                glob.add(cls)
        for i, a in enumerate(args):
            if 'ALL' in glob and a.op == 'addrl':
                st.env[a.a[0]] = mk('out', n, a.a[0]); self.drop_facts(st, st.env[a.a[0]])
        if glob: self.kill(st, glob, n)
    def drop_facts(self, st, t):
        for dct in (st.rel, st.kinds):
            bad = [q for q in dct if any(x is t for x in subterms(q))]
            for q in bad: del dct[q]
            if bad: st._adj = None
    def kill_local_fields(self, st, var, cls, n, pl):
        def h(x):
            return x.op in PLACE and root(x) is var and (own_class(x) == cls or cls[0] == 'e' and x is pl)
        for q in [q for q in st.mem if h(q)]: del st.mem[q]
        need = {}
        for t in list(st.env.values()) + list(st.mem.values()) + list(st.tmp.values()):
            for x in subterms(t):
                if h(x): need[x] = mk('old', n, strip_old(x))
        if need: self.rename(st, need, n)
        for dct in (st.rel, st.kinds):
            bad = [q for q in dct if any(h(x) for x in subterms(q))]
            for q in bad: del dct[q]
            if bad: st._adj = None

def has_ret(t):
    return any(x.op == 'retd' for x in subterms(t))
def addr_arr(p):
    if isinstance(p, tuple): return mk('addrl', p[1])
    return mk('addr', p)
def root(p):
    """the local variable a place is inside of, if any"""
    while True:
        if p is None or not isinstance(p, T): return None
        if p.op == 'var': return p
        if p.op == 'fld': b = p.a[0]
        elif p.op == 'idx': b = p.a[0]
        else: return None
        if b.op == 'addr': p = b.a[0]
        else: return None
def local_rooted(p): return root(p) is not None
def own_class(x):
    if x.op == 'fld': return ('f', x.a[1], x.a[2])
    if x.op == 'g': return ('g', x.a[0]) if x.cls else None
    if x.op == 'idx':
        if x.a[0].op == 'arg' and x.a[2] == 'Value': return None
        return ('e', x.a[2])
    if x.op == 'var': return ('v', x.a[0])
    return None
def strip_old(t):
    m = {x: x.a[1] for x in subterms(t) if x.op == 'old' and len(x.a) == 2 and isinstance(x.a[1], T)}
    if not m: return t
    # remove nested version tags so that terms stay bounded
    def f(x):
        if not isinstance(x, T): return x
        if x.op == 'old' and len(x.a) == 2: return f(x.a[1])
        if not x.a: return x
        return build(x.op, [f(y) for y in x.a])
    return f(t)
def rec_of(cty):
    c = cty
    for p in ('struct ', 'union '):
        if c.startswith(p): c = c[len(p):]
    return c.strip()
UNSIGNED = {'unsigned int', 'unsigned long', 'unsigned char', 'unsigned short', 'unsigned long long', 'size_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t'}
SIGNED = {'int', 'long', 'short', 'char', 'signed char', 'long long', '_Bool', 'ssize_t'}
def nd_unsigned_cmp(nodes, c):
    for x in c:
        n = nodes[x]
        if n.get('cty', n.get('ty', '')) in ('unsigned int', 'unsigned long', 'unsigned long long'): return True
    return False
def wrap(v, ty):
    bits = {'unsigned char': 8, 'signed char': -8, 'char': -8, 'short': -16, 'unsigned short': 16, 'int': -32, 'unsigned int': 32,
            'long': -64, 'unsigned long': 64, 'long long': -64, 'unsigned long long': 64}.get(ty)
    if ty == '_Bool': return 1 if v else 0
    if bits is None: return v
    n = abs(bits); v &= (1 << n) - 1
    if bits < 0 and v >> (n - 1): v -= 1 << n
    return v
