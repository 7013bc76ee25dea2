"""Coverage of an object graph by a traversal.

Used for the marking phase of the collector (every reference a heap record
holds is greyed), for root marking, and for element-wise walks in general.
The typestate is the set of *paths* (field chains, with `*` for every element
of a container) already visited.  A path through a container element counts as
covered only when the loop that visits it runs from the first to the last
element, one by one, and every iteration visits it.
"""
from terms import *
import engine as E
from program import AnalysisError

# element count of each container: (record, field of the storage) -> fields of the count
LENS = {
    'data': ('length', 0), 'values': ('count', 0), 'tbl': ('size', 0), 'frames': ('frameCount', 0),
    'upvalues': ('upvalueCount', 0), 'entries': ('capacityMask', 1), 'grayStack': ('grayCount', 0),
}
ENDS = {'stack': 'stackTop'}        # storage -> end pointer
LISTS = {'next', 'prev'}
EMPTY = {'entries': 'count'}        # the container also is empty when this field is 0

def strip(t):
    return E.strip_old(t) if any(x.op == 'old' for x in subterms(t)) else t

class Derive:
    """reference-holding paths of a record, from its type"""
    def __init__(self, P, W, exempt, vecs, owned, weakptr):
        self.P = P; self.W = W; self.exempt = exempt; self.vecs = vecs; self.owned = owned; self.weak = weakptr
        self.used = set(); self.untracked = set()
    def linked(self, rec):
        return any(f['name'] in LISTS and f['ty'].replace('struct ', '').rstrip('* ') == rec for f in self.P.recs[rec]['fields'])
    def paths(self, rec, depth=0, seen=()):
        r = self.P.recs.get(rec)
        if r is None: raise AnalysisError('record %s not found' % rec)
        out = []
        for f in r['fields']:
            n = f['name']; ty = f['ty']; cty = f['cty']
            if (rec, n) in self.exempt:
                self.used.add((rec, n)); continue
            t = ty.replace('struct ', '').replace('volatile ', '').strip()
            if t == 'Value': out.append((n,)); continue
            if t == 'Value *':
                if n in ENDS.values(): continue
                if n in self.weak: out.append((n, '0'))
                elif n in LENS or n in ENDS: out.append((n, '*'))
                else: self.untracked.add((rec, n))
                continue
            if t in ('Table', 'Table *'): out.append((n,)); continue
            if t == 'ValueArray': out.append((n, 'values', '*')); continue
            if t == 'ValueArray *': out.append((n, 'values', '*')); continue
            if t.startswith('vec_'):
                el = self.vecs.get((rec, n))
                if el is None:
                    if t in ('vec_int_t', 'vec_char_t', 'vec_str_t'): continue
                    self.untracked.add((rec, n)); continue
                if el == 'Obj' or el == 'Value': out.append((n, 'data', '*'))
                elif el == 'Value*': out.append((n, 'data', '*'))
                else:
                    for p in self.paths(el, depth + 1, seen + (rec,)): out.append((n, 'data', '*') + p)
                continue
            if t.endswith('**'):
                b = t[:-2].strip()
                if b == 'Obj' or b in self.W.rec_kinds:
                    if n in LENS: out.append((n, '*'))
                    else: self.untracked.add((rec, n))
                continue
            if t.endswith('*'):
                b = t[:-1].strip()
                if b == 'Obj' or b in self.W.rec_kinds:
                    out.append((n, '*') if b in self.W.rec_kinds and n not in LISTS and b in self.P.recs and self.linked(b) else (n,)); continue
                if b in self.owned and b not in seen:
                    star = ('*',) if n in LENS or self.linked(b) else ()
                    for p in self.paths(b, depth + 1, seen + (rec,)): out.append((n,) + star + p)
                continue
            if f.get('rec') and f['rec'] in self.P.recs and f['rec'] not in seen:
                if f['rec'] == 'Obj': continue
                for p in self.paths(f['rec'], depth + 1, seen + (rec,)): out.append((n,) + p)
        return out

def step_eq(a, b):
    """instance step a against pattern step b"""
    if b == '*': return a == '*' or isinstance(a, tuple)
    return a == b

def is_prefix(p, R):
    return len(p) <= len(R) and all(step_eq(a, b) for a, b in zip(p, R))

class Cover(E.Client):
    force_phi = True
    must_props = True
    def __init__(self, P, W, leaves, required, cut=(), at=None, extra_ok=None):
        """leaves: {function name: argument index}; required(fn) -> list of rooted paths;
        at: function names whose call sites are the check points (default: exits)"""
        self.P = P; self.W = W; self.leaves = leaves; self.req = required; self.cut = cut; self.at = at
        self.R = {}
        self.missing = {}
        self.checked = 0
        self.visited = set()
        self.sites = 0
        self.vac = extra_ok or (lambda cx, st, p, R: ())
        self.fnfilter = None
        import terms as _t
        self.first = set(_t.FIRST.values())
    def relevant(self, fn):
        return self.fnfilter(fn) if self.fnfilter else True
    def reqs(self, cx):
        r = getattr(cx, 'cover_reqs', None)
        if r is None:
            r = list(self.req(cx.fn)) if self.is_root(cx) else []
            r += sorted((x[1] for x in cx.props if x[0] == 'req'), key=str)
            cx.cover_reqs = r
        return r
    def entry_assume(self, cx, st):
        st.props = frozenset(x for x in st.props if x[0] != 'req')
    # -- paths ----------------------------------------------------------------
    def path(self, cx, st, t):
        t = strip(t)
        return self._path(cx, st, t)
    def _path(self, cx, st, t):
        o = t.op
        if o == 'arg': return (('A', t.a[0]),)
        if o == 'g': return (('G', t.a[0]),)
        if o == 'fld':
            if t.a[1] in self.cut: pass
            b = self._path(cx, st, t.a[0])
            return None if b is None else b + (t.a[2],)
        if o in ('unbox', 'box', 'addr'):
            return self._path(cx, st, t.a[0])
        if o == 'idx':
            base, i = t.a[0], t.a[1]
            d = self.itvar(base)
            if d is not None and i.op == 'int':
                for p in st.props:
                    if p[0] == 'itr' and p[1] == d: return p[2] + (('cur',) + d,)
            if i is I(0) and base.op == '+': return self._path(cx, st, base)
            if i is I(0) and base.op == 'addr': return self._path(cx, st, base.a[0])
            b = self._path(cx, st, base)
            if b is None: return None
            if i.op == 'int':
                return b + ('0' if i.a[0] == 0 else '#%d' % i.a[0],)
            d = self.itvar(i)
            if d is not None: return b + (('cur',) + d,)
            return b + (('at', i.n),)
        if o == '+':
            for x, y in (t.a, t.a[::-1]):
                d = self.itvar(y)
                if d is not None:
                    b = self._path(cx, st, x)
                    if b is not None: return b + (('cur',) + d,)
        if o == 'phi':
            d = self.itvar(t)
            for p in st.props:
                if p[0] == 'itr' and p[1] == d: return p[2] + (('cur',) + d,)
        if o == '?:':
            a = self._path(cx, st, t.a[1]); b = self._path(cx, st, t.a[2])
            if a == b: return a
            if t.a[2].op == 'int': return a
        return None
    def itvar(self, t):
        """(decl, head) when t is the loop variable of some loop, possibly with an offset"""
        if t.op == '+' and t.a[1].op == 'int': t = t.a[0]
        if t.op == 'phi' and not isinstance(t.a[1], tuple): return (t.a[1], t.a[0])
        return None
    def expand(self, cx, st, p):
        """the required paths made vacuous when path p is null/empty"""
        out = []
        for R in self.reqs(cx):
            if is_prefix(p, R): out.append(p + R[len(p):])
        return out
    def add(self, cx, st, toks):
        if self.is_root(cx):
            rq = self.reqs(cx)
            toks = [t for t in toks if t is not None and any(is_prefix(t, R) for R in rq)]
        if not toks: return
        n = set(st.props) | set(toks)
        st.props = frozenset(n)
    # -- events ------------------------------------------------------------------
    def entry_props(self, fn): return frozenset()
    def enter_props(self, cx, st, callee, args=()):
        """what the callee may visit on behalf of its caller"""
        out = set()
        rq = self.reqs(cx)
        ps = [self.path(cx, st, a) for a in args]
        for R in rq:
            if R[0][0] == 'G': out.add(('req', R))
            for i, p in enumerate(ps):
                if p is not None and is_prefix(p, R): out.add(('req', (('A', i),) + R[len(p):]))
        return frozenset(out)
    def leave_props(self, cx, st, outprops, args=(), ret=None, nid=None):
        new = set(st.props)
        for p in outprops:
            if p[0] in ('itr', 'req'): continue
            h = p[0]
            if h[0] == 'A' and h[1] < len(args):
                b = self.path(cx, st, args[h[1]])
                if b is not None: new.add(b + p[1:])
            elif h[0] == 'G': new.add(p)
        return frozenset(new)
    def summary_props(self, cx, st):
        return frozenset(p for p in st.props if p[0] not in ('itr', 'req') and not any(isinstance(x, tuple) and x[0] in ('cur', 'upto', 'at') for x in p[1:]))
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn')
        if name is None:
            f = cx.val(n['c'][0], st, {})
            pf = self.path(cx, st, f)
            if pf is not None and 'calls' in self.leaves and pf[-1] in self.leaves['calls']:
                self.sites += 1
                self.mark(cx, st, pf[:-1] + (pf[-1] + '()',))
            return
        if name in self.leaves:
            self.sites += 1
            a = args[self.leaves[name]]
            if a.op == '?:' : pass
            p = self.path(cx, st, a)
            if p is not None: self.mark(cx, st, p)
        if self.at and name in self.at and self.is_root(cx):
            self.check(cx, st, nid, 'before %s' % name)
            return 'stop'
    def on_store(self, cx, st, nid, n, place, val): pass
    def mark(self, cx, st, p):
        if self.is_root(cx) and not any(len(R) == len(p) and is_prefix(p, R) for R in self.reqs(cx)):
            for R in self.reqs(cx):       # the address of a record is the address of its first field
                if len(R) == len(p) + 1 and is_prefix(p, R) and R[-1] in self.first: p = p + (R[-1],); break
        self.visited.add(tuple(x if isinstance(x, str) or x[0] in ('A', 'G') else '*' for x in p))
        self.add(cx, st, [p])
    def on_exit(self, cx, st):
        self.normal(cx, st)
        if not self.at and self.is_root(cx): self.check(cx, st, None, 'exit')
    def is_root(self, cx): return cx.fn.key in self.roots
    roots = ()
    def check(self, cx, st, nid, where):
        if not self.is_root(cx): return
        self.normal(cx, st)
        for R in self.reqs(cx):
            self.checked += 1
            if R not in st.props:
                self.missing.setdefault((cx.fn.key, R, self.tag), (cx.fn.loc(nid), where))
    tag = None
    # -- null/empty normalisation -----------------------------------------------
    def normal(self, cx, st):
        out = []
        F = cx.F
        rq = self.reqs(cx)
        if not rq: return
        for f, v in st.rel.items():
            if f.op == '==' and v and f.a[1].op == 'int' and f.a[1].a[0] == 0:
                p = self.path(cx, st, f.a[0])
                if p is not None: out += self.expand(cx, st, p)
            if f.op == '==' and v:
                out += self.vac(cx, st, f, v)
                if f.a[1].op != 'int' and (f.a[0].op == 'phi' or f.a[1].op == 'phi') and F.entails(st, eq(f.a[0], NULL), True):
                    for x in f.a:
                        if x.op == 'phi': continue
                        p = self.path(cx, st, x)
                        if p is not None: out += self.expand(cx, st, p)
            if f.op in ('<', '<=', '=='):
                for x in f.a:
                    y = E.lin(x)[0]
                    if y.op == 'fld': out += self.empty(cx, st, y)
            elif f.op == '!' or f.op == 'kind': pass
            if not v or f.op == '&&' or f.op == '||':
                out += self.vac(cx, st, f, v)
        for k, m in st.kinds.items():
            if not m & K_ALLOBJ and k.op == 'unbox':
                p = self.path(cx, st, k)
                if p is not None:
                    out += self.expand(cx, st, p)
                    out += self.undef(cx, st, p, m)
        if out: self.add(cx, st, out)
    def undef(self, cx, st, p, m):
        if m == K_UNDEF and p[-1] == 'key':
            return self.expand(cx, st, p[:-1])
        return []
    def empty(self, cx, st, y):
        out = []
        for store, (lf, off) in LENS.items():
            if y.a[2] == lf and cx.F.entails(st, le(add(y, I(off)), I(0)), True):
                p = self.path(cx, st, y)
                if p is not None: out += self.expand(cx, st, p[:-1] + (store,))
        for store, ef in EMPTY.items():
            if y.a[2] == ef and cx.F.entails(st, le(y, I(0)), True):
                p = self.path(cx, st, y)
                if p is not None: out += self.expand(cx, st, p[:-1] + (store,))
        for store, ef in ENDS.items():
            if y.a[2] == ef:
                q = fld(y.a[0], y.a[1], store)
                if cx.F.entails(st, le(y, q), True):
                    p = self.path(cx, st, q)
                    if p is not None: out += self.expand(cx, st, p)
        return out
    # -- loops ----------------------------------------------------------------------
    def on_edge(self, cx, st, b, s):
        self.normal(cx, st)
        fn = cx.fn
        for h in fn.heads:
            body = fn.loop(h)
            if b in body and s == h: self.backedge(cx, st, h)
            elif b in body and s not in body: self.leave(cx, st, h)
            elif b not in body and s == h: self.enter(cx, st, h)
    def enter(self, cx, st, h):
        """pointers about to walk a container"""
        out = []
        for d in cx.fn.loopvars(h):
            t = st.env.get(d)
            if t is None or t.op in ('int', 'uninit'): continue
            p = self.path(cx, st, t)
            if p is None: continue
            for R in self.reqs(cx):
                if is_prefix(p, R) and len(R) > len(p) and R[len(p)] == '*':
                    out.append(('itr', (d, h), p))
        st.props = frozenset([q for q in st.props if not (q[0] == 'itr' and q[1][1] == h)] + out)
    def backedge(self, cx, st, h):
        new = set()
        ok = {}
        for q in st.props:
            for x in q:
                if isinstance(x, tuple) and x and x[0] == 'cur' and x[2] == h: ok[x[1]] = None
        for d in ok:
            ph = mk('phi', h, d)
            t = st.env.get(d)
            good = 0
            if t is not None:
                if t is add(ph, I(1)): good = 1
                elif t is add(ph, I(-1)): good = -1
                elif t.op == 'fld' and t.a[2] in LISTS and strip(t.a[0]) is ph: good = 1
            ok[d] = good
        for q in st.props:
            if q[0] == 'itr': new.add(q); continue
            bad = False; nq = []
            for x in q:
                if isinstance(x, tuple) and x[0] in ('cur', 'upto') and x[2] == h:
                    if x[0] == 'upto' or not ok[x[1]]: bad = True; break
                    nq.append(('upto',) + x[1:] + (ok[x[1]],))
                else: nq.append(x)
            if not bad: new.add(tuple(nq))
        st.props = frozenset(new)
    def head_meet(self, cx, h, outer, back):
        """what holds at a loop head: everything before the current element has been visited when the
        walk starts at the first element and every way around the loop visits its element"""
        B = None
        for s in back: B = s.props if B is None else B & s.props
        O = None
        for s in outer: O = s.props if O is None else O & s.props
        if O is None: return B if B is not None else frozenset()
        if B is None: return O
        res = set(O & B)
        for q in B - O:
            if q[0] == 'itr': continue
            us = [(i, x) for i, x in enumerate(q) if isinstance(x, tuple) and x[0] == 'upto' and x[2] == h]
            if len(us) != 1: continue
            i, x = us[0]
            if all(self.starts(cx, s, q[:i], x) for s in outer): res.add(q)
        return frozenset(res)
    def starts(self, cx, st, cpath, x):
        _, d, h, sign = x
        if sign > 0 and any(q[0] == 'itr' and q[1] == (d, h) and q[2] == cpath for q in st.props): return True
        t = st.env.get(d)
        if t is None: return False
        if sign > 0: return t is I(0)
        y, k = E.lin(t)
        if y.op == 'fld':
            for store, (lf, off) in LENS.items():
                if y.a[2] == lf and k == off - 1 and cpath[-1] == store:
                    p = self.path(cx, st, y)
                    if p is not None and p[:-1] == cpath[:-1]: return True
        return False
    def leave(self, cx, st, h):
        new = set()
        done = {}
        for q in st.props:
            if q[0] == 'itr':
                if q[1][1] != h: new.add(q)
                continue
            bad = False; nq = []
            for i, x in enumerate(q):
                if isinstance(x, tuple) and x[0] in ('cur', 'upto') and x[2] == h:
                    if x[0] == 'cur': bad = True; break
                    if not self.exhausted(cx, st, q[:i], x): bad = True; break
                    nq.append('*')
                else: nq.append(x)
            if not bad: new.add(tuple(nq))
        st.props = frozenset(new)
    def exhausted(self, cx, st, cpath, x):
        _, d, h, sign = x
        ph = mk('phi', h, d)
        F = cx.F
        if sign < 0: return F.entails(st, lt(ph, I(0)), True)
        if F.entails(st, eq(ph, NULL), True) and any(q[0] == 'itr' and q[1] == (d, h) for q in st.props): return True
        for f, v in st.rel.items():
            if f.op not in ('<', '<='): continue
            for y in f.a:
                y = E.lin(y)[0]
                if y.op != 'fld': continue
                for store, (lf, off) in LENS.items():
                    if y.a[2] == lf and cpath[-1] == store and F.entails(st, le(add(y, I(off)), ph), True):
                        p = self.path(cx, st, y)
                        if p is not None and p[:-1] == cpath[:-1]: return True
                for store, ef in ENDS.items():
                    if y.a[2] == ef and cpath[-1] == store and F.entails(st, le(y, ph), True): return True
        return False
    def keep_terms(self, st): return frozenset()
