"""Frozen objects stay as they are; copies don't share what they change."""
import collections
import engine, natives
from terms import *
from engine import nf
from program import AnalysisError
from props.nat import Origin, rel

STRF = {'chars', 'length'}

def masks(P):
    """the flag bits, read off the functions that set and clear them"""
    def bits(fn, op):
        out = set()
        f = P.fns.get(fn)
        if f is None: raise AnalysisError('%s not found' % fn)
        for n in f.nodes:
            if n['k'] == 'asg' and n.get('op') == op:
                l = f.nodes[n['c'][0]]
                if l['k'] == 'mem' and l['f'] == 'flags':
                    x = f.nodes[n['c'][1]]
                    if 'cv' in x: out.add(int(x['cv']))
                    elif x['k'] == 'un' and 'cv' in f.nodes[x['c'][0]]: out.add(~int(f.nodes[x['c'][0]]['cv']))
        return out
    fz = bits('objFreeze', '|=')
    return fz

class Content(engine.Client):
    def __init__(self, P, W, owners, fz, shared):
        self.P = P; self.W = W; self.owners = owners; self.native = set(W.natives)
        self.fz = fz; self.shared = shared     # 'ObjString'/'ObjArray' -> flag
        self.frees = self._params({'free': {0}, 'realloc': {0}}, None)
        self.mutates = self._params({}, {'ValueArray', 'Table'})
        self.dies = {k for k in P.fns if P.fns[k].name in ('diePrintCBacktrace', 'die', 'abort')}
        self.counts = collections.Counter(); self.sites = set(); self.unmarked = {}
        self.nat = natives.NativeClient(P, W, owners)
    def relevant(self, fn): return fn.name != 'vm_run'
    def is_entry(self, fn): return fn.key in self.native
    def entry_assume(self, cx, st): self.nat.entry_assume(cx, st)
    def _params(self, out, recs):
        """functions and the parameters they free, or whose fields they store to"""
        P = self.P
        def par(f, x, pd, ini, d=0):
            while x >= 0 and f.nodes[x]['k'] == 'cast': x = f.nodes[x]['c'][0]
            if x < 0 or f.nodes[x]['k'] != 'ref' or d > 4: return None
            v = f.nodes[x].get('d')
            if v in pd: return pd[v]
            return par(f, ini[v], pd, ini, d + 1) if v in ini else None
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                pd = {p['d']: i for i, p in enumerate(f.params)}
                if not pd: continue
                ini = {v['d']: v['init'] for n in f.nodes if n['k'] == 'decl' for v in n['vars'] if v['init'] >= 0}
                got = set()
                for n in f.nodes:
                    if recs and (n['k'] == 'asg' or n.get('incdec')):
                        l = f.nodes[n['c'][0]]
                        if l['k'] == 'mem' and l['arrow'] and l.get('rec') in recs: got.add(par(f, l['c'][0], pd, ini))
                    if n['k'] != 'call' or not n.get('fn'): continue
                    for i in out.get(P.resolve(n['fn'], f) or n['fn'], ()):
                        if i + 1 < len(n['c']): got.add(par(f, n['c'][i + 1], pd, ini))
                got -= {None} | out.get(f.key, set())
                if got: out.setdefault(f.key, set()).update(got); ch = True
        return out
    # -- storage taken over from another object ----------------------------
    # props: (type, place) taken over and not marked yet; ('set', flag, object) marked; ('src', flag, object) marked before
    def entry_props(self, fn): return frozenset()
    def enter_props(self, cx, st, callee, args=()): return frozenset(x for x in st.props if len(x) == 2)
    def summary_props(self, cx, st): return frozenset(x for x in st.props if len(x) == 2)
    def leave_props(self, cx, st, outprops, args=(), ret=None, nid=None): return outprops | frozenset(x for x in st.props if len(x) == 3)
    def takes(self, cx, st, nid, r, o, src):
        if src == o: return
        self.counts['shared'] += 1
        self.counts['taken'] += 1
        if st.rel.get(eq(mk('&', fld(o, 'Obj', 'flags'), I(self.shared[r])), I(0))) is not False and ('set', self.shared[r], o) not in st.props:
            st.props = st.props | {(r, cx.fn.loc(nid))}
        ms = [self.constant[r], self.shared[r]]
        fs = [eq(mk('&', fld(src, 'Obj', 'flags'), I(m)), I(0)) for m in ms]
        if any(st.rel.get(f) is False for f in fs) or any(('src', m, src) in st.props for m in ms): return
        cx.require(st, neg(fs[0]), 'source', nid)
    def on_exit(self, cx, st):
        if cx.fn.key not in self.native and self.P.callers.get(cx.fn.key): return
        for r, at in [x for x in st.props if len(x) == 2]: self.unmarked.setdefault(at, (cx.fn.key, r))
    def whose(self, t, r):
        while t.op in ('old', 'cast') and t.a: t = t.a[1] if t.op == 'old' else t.a[0]
        if t.op == 'fld' and t.a[1:] == ('ObjArray', 'valAry'): return t.a[0] if r == 'ObjArray' else None
        o = self.buf(t)
        return o[1] if o and o[0] == r else None
    # -- whose content a place is ------------------------------------------
    def buf(self, t):
        """the object whose characters or elements the pointer leads to"""
        while t.op in ('+', '-') and t.a and isinstance(t.a[0], T): t = t.a[0]
        if t.op == 'addr' and t.a[0].op == 'idx': return self.buf(t.a[0].a[0])
        if t.op == 'fld':
            if t.a[1:] == ('ObjString', 'chars'): return 'ObjString', t.a[0]
            if t.a[1:] == ('ValueArray', 'values'): return self.box(t.a[0])
            if t.a[1:] == ('Table', 'entries'): return self.box(t.a[0])
        return None
    def box(self, t):
        """the object that owns the vector or table the pointer leads to"""
        if t.op == 'addr' and t.a[0].op == 'fld' and t.a[0].a[1:] == ('ObjArray', 'valAry'): return 'ObjArray', t.a[0].a[0]
        if t.op == 'fld' and t.a[1:] in (('ObjMap', 'table'), ('ObjInstance', 'fields')): return t.a[1], t.a[0]
        return None
    def on_store(self, cx, st, nid, n, place, val):
        if isinstance(place, tuple): return
        p = place
        if p.op == 'fld':
            r, f = p.a[1], p.a[2]
            if r == 'Obj' and f == 'flags':
                for m in self.shared.values():
                    if val.op == '|' and val.a[1].op == 'int' and val.a[1].a[0] & m:
                        for r2 in [x for x in self.shared if self.shared[x] == m]:
                            st.props = frozenset(x for x in st.props if x[0] != r2) | {('set', m, p.a[0])}
                        for q, v in st.rel.items():
                            if v is False and q.op == '==' and q.a[1] is I(0) and q.a[0].op == '&' and q.a[0].a[1].op == 'int' and q.a[0].a[0].op == 'fld' and q.a[0].a[0].a[1:] == ('Obj', 'flags') \
                               and q.a[0].a[1].a[0] in self.constant.values(): st.props = st.props | {('src', q.a[0].a[1].a[0], q.a[0].a[0].a[0])}
                    if val.op == '&' and val.a[1].op == 'int' and not val.a[1].a[0] & m: st.props = frozenset(x for x in st.props if x[:2] != ('set', m))
                    if val.op == '&' and val.a[1].op == 'int' and not val.a[1].a[0] & m: st.rel[nf(p.a[0], m)] = True
                    elif val.op == '|': st.rel.pop(nf(p.a[0], m), None)
                if val.op == '&' and val.a[1].op == 'int' and not val.a[1].a[0] & self.fz: st.rel[nf(p.a[0], self.fz)] = True
                return
            own = ('ObjString', p.a[0]) if (r, f) == ('ObjString', 'chars') else ('ObjArray', p.a[0]) if (r, f) == ('ObjArray', 'valAry') else self.box(p.a[0]) if (r, f) == ('ValueArray', 'values') else None
            if own and own[0] in self.shared:
                src = self.whose(val, own[0])
                if src is not None: self.takes(cx, st, nid, *own, src)
            if r == 'ObjString' and f in STRF: self.need(cx, st, nid, 'ObjString', p.a[0], False)
            elif (r, f) == ('ObjArray', 'valAry') or (r, f) in (('ObjMap', 'table'), ('ObjInstance', 'fields')): self.need(cx, st, nid, r, p.a[0], False)
            elif r in ('ValueArray', 'Table'):
                o = self.box(p.a[0])
                if o: self.need(cx, st, nid, *o, False)
            elif r == 'Entry':
                o = self.buf(p.a[0])
                if o: self.need(cx, st, nid, *o, False)
        elif p.op == 'idx':
            o = self.buf(p.a[0])
            if o: self.need(cx, st, nid, *o, True)
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn')
        key = self.P.resolve(name, cx.fn) if name else None
        if key:
            for i in self.mutates.get(key, ()):
                o = self.box(args[i]) if i < len(args) else None
                if o: self.need(cx, st, nid, *o, True)
            if key in self.dies:
                for t, v in list(st.rel.items()):
                    if not v and t.op == '==' and t.a[1] is I(0) and t.a[0].op == '&' and t.a[0].a[1] is I(self.fz) and t.a[0].a[0].op == 'fld' and t.a[0].a[0].a[1:] == ('Obj', 'flags'):
                        self.counts['frozen'] += 1
                        cx.require(st, nf(t.a[0].a[0].a[0], self.fz), 'frozen', nid)
        elif name:
            if name in ('memcpy', 'memmove') and len(args) > 1:
                a, b = [x.a[0] if x.op == 'addr' else None for x in args[:2]]
                if a is not None and b is not None and a.op == 'fld' and a.a[1:] == ('ObjArray', 'valAry'):
                    src = self.whose(b, 'ObjArray')
                    if src is not None: self.takes(cx, st, nid, 'ObjArray', a.a[0], src)
            for i, a in enumerate(args):
                if i == 0 and name in ('memcpy', 'memmove', 'memset', 'qsort', 'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'fgets', 'fread') \
                        or i == 1 and name in ('read', 'recv'):
                    o = self.buf(a)
                    if o: self.need(cx, st, nid, *o, True)
        for i in self.frees.get(key or name, ()):
            if i < len(args):
                o = self.buf(args[i])
                if o: self.need(cx, st, nid, *o, True)
    def need(self, cx, st, nid, r, o, inplace):
        # giving a shared object storage of its own doesn't change what it holds
        m = self.shared.get(r)
        if not inplace and m and st.rel.get(eq(mk('&', fld(o, 'Obj', 'flags'), I(m)), I(0))) is False: return
        self.counts['frozen'] += 1
        self.sites.add((cx.fn.key, nid))
        cx.require(st, nf(o, self.fz), 'frozen', nid)
        if inplace and r in self.shared:
            self.counts['shared'] += 1
            cx.require(st, nf(o, self.shared[r]), 'shared', nid)

def analyse(ctx):
    P, W = ctx.P, ctx.W
    ow = natives.resolve_owners(P, W)
    fz = masks(P)
    if len(fz) != 1: raise AnalysisError('the frozen flag was not found: %s' % fz)
    fz = fz.pop()
    shared = {'ObjString': 1 << 12, 'ObjArray': 1 << 10}
    engine.FLAGWATCH.clear(); engine.FLAGWATCH.update({fz, 1 << 11} | set(shared.values()))
    engine.STABLE.update({('f', 'ObjMap', 'table'), ('f', 'ObjInstance', 'fields')})     # set when the object is made
    c = Content(P, W, ow, fz, shared)
    c.constant = {'ObjString': 1 << 11, 'ObjArray': 1 << 11}     # interned; static
    eng = engine.Engine(P, c, W)
    for k in sorted(W.natives): eng.summary(k)
    for k in sorted(P.fns):
        # what shares must say so, wherever it happens
        if any(n['k'] == 'mem' and (n.get('rec'), n['f']) in (('ObjString', 'chars'), ('ObjArray', 'valAry'), ('ValueArray', 'values')) for n in P.fns[k].nodes) \
           and k not in c.native and not P.callers.get(k): eng.summary(k)
    return c, eng

def free_roots(P): return [k for k in P.fns if P.fns[k].name == 'freeObject']

def target(t):
    while t.op in ('or', '||'): t = t.a[-1]
    return t

def run(ctx, what):
    P, W = ctx.P, ctx.W
    c, eng = analyse(ctx)
    vs = []; trusted = 0
    for k, v in sorted(eng.violations.items(), key=str):
        if v['what'] != what: continue
        o = Origin(P, W, v['fn'], v['phin'])
        t = target(v['term'])
        hit = t.a[0] if t.op == 'nf' else None
        if hit is None or hit.op != 'unbox' or not o.script(hit.a[0]): trusted += 1; continue
        vs.append(dict(key='%s %s' % (v['fn'], show(hit)), loc=v['at'], msg='%s changes %s where it may be %s (at %s)' % (v['fn'], show(hit), what, v['site'])))
    if what == 'shared':
        for at, (fn, r) in sorted(c.unmarked.items()):
            vs.append(dict(key='%s takes' % fn, loc=at, msg='%s is left with the storage of another %s without being marked as sharing it' % (fn, r)))
        for k, v in sorted(eng.violations.items(), key=str):
            if v['what'] == 'source': vs.append(dict(key='%s source' % v['fn'], loc=v['at'], msg='%s takes over storage that its owner may change: %s is not established (at %s)' % (v['fn'], v['formula'], v['site'])))
        for k in free_roots(P):
            for rq in eng.summary(k).requires:
                if rq.what == 'shared': vs.append(dict(key='%s frees' % k, loc=rq.site, msg='%s frees storage that may be shared' % k))
            c.counts['shared'] += 1
        if not c.counts['taken']: raise AnalysisError('no storage is taken over anywhere')
    if what == 'frozen':
        v2, n2 = vm_calls(P, W, eng, what)
        vs += v2; c.counts[what] += n2
    return dict(violations=vs, obligations=c.counts[what], coverage={'changes': c.counts[what], 'sites': len(c.sites), 'of objects the interpreter made itself': trusted})
def run_frozen(ctx): return run(ctx, 'frozen')
def run_shared(ctx): return run(ctx, 'shared')

def vm_calls(P, W, eng, what):
    """calls the instructions themselves make to what changes the object they're given"""
    vs = []; n = 0
    root = 'vm_run'
    if root not in P.fns: raise AnalysisError('vm_run not found')
    f = P.fns[root]
    src = collections.defaultdict(list)
    for x in f.nodes:
        if x['k'] == 'decl':
            for v in x['vars']:
                if v['init'] >= 0: src[v['d']].append(v['init'])
        elif x['k'] == 'asg' and x.get('op') == '=':
            l = f.nodes[x['c'][0]]
            if l['k'] == 'ref' and 'd' in l: src[l['d']].append(x['c'][1])
    def literal(x, d=0):
        # a name the interpreter itself chose
        y = f.nodes[x]
        while y['k'] == 'cast': x = y['c'][0]; y = f.nodes[x]
        if y['k'] == 'str': return True
        if y['k'] == 'call': return any(literal(a, d + 1) for a in y['c'][1:]) if d < 6 else False
        if y['k'] == 'ref' and y.get('d') in src and d < 6: return all(literal(a, d + 1) for a in src[y['d']])
        return False
    for nid, k, nm in P.calls[root]:
        if k not in P.fns or k in W.noreturn: continue
        s = eng.summary(k)
        rq = [r for r in s.requires if r.what == what]
        if not rq: continue
        n += 1
        if any(literal(a) for a in f.nodes[nid]['c'][1:]): continue
        vs.append(dict(key='vm_run %s' % k, loc='%s:%s' % (rel(P, root), f.nodes[nid]['line']), msg='an instruction changes an object through %s without checking that it is not %s (at %s)' % (k, what, getattr(rq[0], 'site', ''))))
    return vs, n
