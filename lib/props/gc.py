from terms import *
import engine as E
import gctrace, par
from program import AnalysisError

EXEMPT = {
    ('ObjInstance', 'internal'): 'traced through its mark function, checked separately',
    ('ObjUpvalue', 'next'): 'list of open upvalues; every open upvalue is held by its closure',
    ('ObjUpvalue', 'value'): 'points at `closed` or into a rooted stack',
    ('ObjFunction', 'upvaluesInfo'): 'indices only',
    ('Chunk', 'constants'): 'constants are interned strings, hidden compile-time objects or numbers',
    ('Chunk', 'varInfo'): 'debugger tables of interned names',
    ('Chunk', 'catchTbl'): 'constants and the error being handled, which is on the VM stack',
    ('Local', 'name'): 'token', 
}
VECS = {('ObjFunction', 'variables'): 'LocalVariable', ('ObjFunction', 'scopes'): 'Scope',
        ('ClassInfo', 'v_includedMods'): 'Obj'}
OWNED = {'ClassInfo', 'LocalVariable', 'Scope', 'Chunk'}
LEAVES = {'grayObject': 0, 'grayValue': 0, 'grayTable': 0}

def derive(P, W, exempt=EXEMPT, vecs=VECS, owned=OWNED):
    return gctrace.Derive(P, W, exempt, vecs, owned, {'value', 'lastValue'})

TYPEREC = {'OBJ_T_STRING': 'ObjString', 'OBJ_T_FUNCTION': 'ObjFunction', 'OBJ_T_INSTANCE': 'ObjInstance', 'OBJ_T_CLASS': 'ObjClass',
           'OBJ_T_MODULE': 'ObjModule', 'OBJ_T_ICLASS': 'ObjIClass', 'OBJ_T_CLOSURE': 'ObjClosure', 'OBJ_T_NATIVE_FUNCTION': 'ObjNative',
           'OBJ_T_BOUND_METHOD': 'ObjBoundMethod', 'OBJ_T_UPVALUE': 'ObjUpvalue', 'OBJ_T_INTERNAL': 'ObjInternal', 'OBJ_T_ARRAY': 'ObjArray',
           'OBJ_T_MAP': 'ObjMap', 'OBJ_T_REGEX': 'ObjRegex', 'OBJ_T_SCOPE': 'ObjScope'}

class Trace(gctrace.Cover):
    kindmask = None
    shared = None
    def vac0(self, cx, st, f, v):
        # an array that shares its storage with a hidden constant array: the elements are the hidden array's
        if f.op == '==' and not v and f.a[1] is I(0) and f.a[0].op == '&' and f.a[0].a[1] is I(self.shared):
            x = f.a[0].a[0]
            if x.op == 'fld' and x.a[2] == 'flags':
                p = self.path(cx, st, x)
                if p is not None:
                    b = p[:-1]
                    if b and b[-1] in ('obj', 'object'): b = b[:-1]
                    return self.expand(cx, st, b + ('valAry',))
        return []
    def entry_assume(self, cx, st):
        gctrace.Cover.entry_assume(self, cx, st)
        if self.is_root(cx) and self.kindmask:
            cx.F.assume(st, kind(mk('arg', 0), self.kindmask), True)

def ppath(R):
    return '.'.join(x if isinstance(x, str) else str(x[1]) if isinstance(x, tuple) and x[0] in ('A', 'G') else '?' for x in R).replace('.*', '[*]')

def trace_raw(P, W):
    D = derive(P, W)
    out = []
    for tn, tv in W.ot.items():
        if tn == 'OBJ_T_NONE': continue
        rec = TYPEREC.get(tn)
        if rec is None:
            if tn.endswith('LAST') or 'COUNT' in tn: continue
            raise AnalysisError('no record known for object type %s' % tn)
        reqd = [(('A', 0),) + p for p in D.paths(rec)]
        c = Trace(P, W, LEAVES, lambda fn: reqd if fn.key == 'blackenObject' else [])
        c.leaves = dict(LEAVES, calls={'markFunc'})
        c.roots = {'blackenObject'}
        c.vac = c.vac0; c.shared = P.macro('ARRAY_FLAG_SHARED') if tn == 'OBJ_T_ARRAY' else None
        c.kindmask = K_OBJ(tv)
        c.fnfilter = lambda fn: fn.name not in LEAVES
        eng = E.Engine(P, c, W)
        eng.summary('blackenObject')
        out.append((tn, len(reqd), c.checked, [(R, v) for (k, R, _), v in c.missing.items()]))
    return out

ROOT_EXEMPT = {
    ('LxThread', 'ec'): 'the current context is one of v_ecs',
    ('LxThread', 'lockedMutexes'): 'plain mutex structures',
    ('LxThread', 'recurseSet'): 'objects being printed, held by the caller',
    ('CallFrame', 'blockEntry'): 'entries of the block stack',
    ('CallFrame', 'prev'): 'frames are walked by index',
    ('CallFrame', 'slots'): 'points into the rooted stack',
    ('CallFrame', 'name'): 'name of the function, held by it',
    ('CallInfo', 'blockIterRet'): 'points into the calling native frame',
    ('CallInfo', 'blockArgsExtra'): 'values of the calling native frame',
    ('BlockStackEntry', 'frame'): 'frames are walked by index',
    ('ErrTagInfo', 'prev'): 'walked as a list',
    ('ErrTagInfo', 'frame'): 'one of the frames of the thread',
    ('ErrTagInfo', 'bentry'): 'one of the entries of the block stack',
}
ROOT_VECS = {('LxThread', 'v_ecs'): 'VMExecContext', ('LxThread', 'v_thisStack'): 'Obj', ('LxThread', 'v_crefStack'): 'Obj',
             ('LxThread', 'v_blockStack'): 'BlockStackEntry', ('LxThread', 'stackObjects'): 'Obj',
             ('VM', 'threads'): 'Obj', ('VM', 'exitHandlers'): 'Obj', ('VM', 'hiddenObjs'): 'Obj', ('VM', 'loadedScripts'): 'Value'}
ROOT_OWNED = {'VMExecContext', 'CallFrame', 'CallInfo', 'BlockStackEntry', 'ErrTagInfo'}

class Roots(gctrace.Cover):
    zombie = None
    def vac0(self, cx, st, f, v):
        if f.op == '==' and v and f.a[0].op == 'fld' and f.a[0].a[2] == 'status' and f.a[1].op == 'int' and f.a[1].a[0] == self.zombie:
            p = self.path(cx, st, f.a[0])
            # a finished thread runs no code any more
            if p is not None and p[-3:-1] == ('internal', 'data'): return self.expand(cx, st, p[:-3])
        return []

YOUNG_STRINGS = (('G', 'vm'), 'strings')

def skipcasts(fn, x):
    while x >= 0 and fn.nodes[x]['k'] == 'cast': x = fn.nodes[x]['c'][0]
    return x

def interned_fields(P):
    """string members of the VM that only ever hold interned strings, which the table of interned strings keeps"""
    seen = {}
    for f in P.fns.values():
        for n in f.nodes:
            if n['k'] != 'asg': continue
            l = f.nodes[n['c'][0]]
            if l['k'] == 'mem' and l.get('rec') == 'VM':
                r = f.nodes[skipcasts(f, n['c'][1])]
                ok = r['k'] == 'call' and r.get('fn') == 'internedString' or f.nodes[n['c'][1]].get('ck') == 'NullToPointer' or r.get('v') == 0
                seen[l['f']] = seen.get(l['f'], True) and ok
    return {('VM', x): 'only interned strings' for x, ok in seen.items() if ok and
            any(fd['name'] == x and fd['ty'].startswith('ObjString') or fd['name'] == x and 'ObjString *' in fd['ty'] for fd in P.rec('VM')['fields'])}

class Interned(E.Client):
    def __init__(self, P): self.P = P; self.made = {}; self.sites = []; self.old = P.macro('NEWOBJ_FLAG_OLD')
    def relevant(self, fn): return True
    def on_call(self, cx, st, nid, n, callee, args):
        f = self.P.fns.get(callee) if callee else None
        if f is not None and f.params and f.params[-1]['name'] == 'flags' and f.ret.endswith('*') and args:
            self.made[(cx.fn.key, nid)] = args[-1]
        if n.get('fn') == 'tableSet' and len(args) == 3:
            t = args[0]
            if t.op == 'addr' and t.a[0].op == 'fld' and t.a[0].a[2] == 'strings':
                k = gctrace.strip(args[1])
                while k.op in ('box', 'unbox'): k = k.a[0]
                fl = self.made.get((cx.fn.key, k.a[1])) if k.op == 'ret' else None
                def has(t):
                    return t.op == 'int' and t.a[0] & self.old or t.op == '|' and any(has(x) for x in t.a)
                self.sites.append((cx.fn.key, cx.fn.loc(nid), fl is not None and bool(has(fl))))

def interned_old(P, W):
    c = Interned(P)
    eng = E.Engine(P, c, W)
    for f in P.fns.values():
        if any(n['k'] == 'call' and n.get('fn') == 'tableSet' for n in f.nodes) and any(n['k'] == 'mem' and n['f'] == 'strings' for n in f.nodes):
            c.relevant = lambda g, f=f: g.key == f.key
            eng.summary(f.key)
    if not c.sites: raise AnalysisError('no place that interns strings found')
    return c.sites

def roots(P, W, fns=('collectGarbage', 'collectYoungGarbage')):
    D = gctrace.Derive(P, W, ROOT_EXEMPT, ROOT_VECS, ROOT_OWNED, {'value', 'lastValue'})
    th = D.paths('LxThread')
    base = (('G', 'vm'), 'threads', 'data', '*')
    req = [base + ('internal', 'data') + p for p in th] + [base]
    D2 = gctrace.Derive(P, W, interned_fields(P), ROOT_VECS, ROOT_OWNED, {'value', 'lastValue'})
    for p in D2.paths('VM'):
        if p[0] in ('threads', 'curThread', 'mainThread', 'debugger', 'grayStack'): continue
        req.append((('G', 'vm'),) + p)
    req.append((('G', 'sigHandlers'), '*', 'callable'))
    jobs = [(fn, [R]) for fn in fns for R in req if not (fn == 'collectYoungGarbage' and R == YOUNG_STRINGS)]
    def one(job):
        fn, rq = job
        c = Roots(P, W, LEAVES, lambda f: rq if f.key == fn else [], at={'freeObject'})
        c.roots = {fn}
        c.zombie = P.enumconst['THREAD_ZOMBIE']; c.vac = c.vac0
        c.fnfilter = lambda f: f.name not in LEAVES and f.name not in ('blackenObject', 'freeObject', 'callFinalizer')
        eng = E.Engine(P, c, W)
        eng.summary(fn)
        return fn, rq[0], c.checked, c.sites, {(k, R): v for (k, R, _), v in c.missing.items()}
    return req, par.pmap(one, jobs)

def run_trace(ctx):
    P, W = ctx.P, ctx.W
    viol = []; n = 0; per = {}
    for (tn, nreq, checked, missing) in trace_raw(P, W):
        n += nreq; per[tn] = {'references': nreq, 'checked_at_exits': checked}
        for R, (loc, where) in missing:
            viol.append(dict(key='%s %s' % (tn, ppath(R[1:])), loc=loc,
                             msg='marking a %s can end without visiting its `%s`' % (tn, ppath(R[1:]))))
    iv, icov, io = internals(P, W)
    lv, ln = leaves(P, W)
    iv = iv + lv; io += ln
    return dict(violations=viol + iv, obligations=n + io, coverage={'heap_types': per, 'native_records': icov,
                'samples': ['%s: %d references' % (k, v['references']) for k, v in per.items()]})

def run_roots(ctx, fn):
    req, res = roots(ctx.P, ctx.W, (fn,))
    viol = []; un = []; chk = 0
    for f, R, checked, sites, missing in res:
        chk += checked
        if not checked: un.append(ppath(R))
        for k, (loc, where) in missing.items():
            viol.append(dict(key='%s misses %s' % (f, ppath(R)), loc=loc, msg='%s can free objects without having marked %s' % (f, ppath(R))))
    n0 = 1
    if fn == 'collectYoungGarbage':
        for (k, loc, ok) in interned_old(ctx.P, ctx.W):
            n0 += 1
            if not ok: viol.append(dict(key='%s interns a young string' % k, loc=loc, msg='%s puts a string that is not in the old generation into the table of interned strings, which young collections do not mark' % k))
    for (k, R), (loc, w) in drain(ctx.P, ctx.W, fn).items():
        viol.append(dict(key='%s drains the grey stack' % fn, loc=loc, msg='%s can free objects while greyed objects have not been traversed' % fn))
    if un: raise AnalysisError('no freeing point found for %s' % un[:3])
    return dict(violations=viol, obligations=len(res) + n0, coverage={'root_paths': [ppath(R) for R in req], 'checked_at_points': chk,
                'samples': [ppath(R) for R in req[:3]]})

def run_full(ctx): return run_roots(ctx, 'collectGarbage')
def run_young(ctx): return run_roots(ctx, 'collectYoungGarbage')

# -- data of native classes -----------------------------------------------------------
INTERNAL_EXEMPT = {
    ('LxMutex', 'owner'): 'thread structure; the thread object is a root while it lives',
    ('LxThread', None): 'threads are roots, see the root sets',
    ('CallInfo', None): 'call sites of compiled code: names and compile-time functions, which are hidden from the collector',
}
INTERNAL_VECS = {('LxBinding', 'v_crefStack'): 'Obj'}
# the data a function keeps for a type
def unit_null_fields(P, fn, rec):
    """pointer fields of rec the function itself sets to null and nobody in its file sets otherwise"""
    ok = {}; 
    for f in P.fns.values():
        if f.file != fn.file: continue
        for n in f.nodes:
            if n['k'] == 'asg' and n['op'] == '=':
                l = f.nodes[n['c'][0]]
                if l['k'] == 'mem' and l.get('rec') == rec:
                    r = f.nodes[n['c'][1]]
                    isnull = r['k'] == 'cast' and r.get('ck') == 'NullToPointer'
                    ok[l['f']] = ok.get(l['f'], True) and isnull
    return {k for k, v in ok.items() if v}

def fnref(fn, x):
    while x >= 0 and fn.nodes[x]['k'] == 'cast': x = fn.nodes[x]['c'][0]
    n = fn.nodes[x]
    if n['k'] == 'un' and n['op'] == '&': return fnref(fn, n['c'][0])
    if n['k'] == 'ref' and n.get('dk') == 'fn': return n['name']
    if n['k'] == 'cast' or n.get('v') == 0 or n['k'] in ('int', 'lit'): return None
    return None if n['k'] != 'ref' else '?'

def ptr_type(fn, x):
    """pointee record of an expression, looking through casts to void*"""
    while x >= 0:
        n = fn.nodes[x]
        t = n.get('ty', '').replace('struct ', '')
        if t.endswith('*') and t != 'void *' and not t.startswith('char'): return t[:-1].strip()
        if n['k'] != 'cast': return None
        x = n['c'][0]
    return None

def internals(P, W):
    viol = []; cov = {}; obl = 0
    jobs = []
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if n['k'] != 'call' or n.get('fn') != 'newInternalObject': continue
            args = n['c'][1:]
            mark = fnref(f, args[3])
            ts = set()
            t = ptr_type(f, args[1])
            if t: ts.add(t)
            for m in f.nodes:
                if m['k'] == 'asg' and m['op'] == '=':
                    l = f.nodes[m['c'][0]]
                    if l['k'] == 'mem' and l.get('rec') == 'ObjInternal' and l['f'] == 'data':
                        t = ptr_type(f, m['c'][1])
                        if t: ts.add(t)
            ts = {t for t in ts if t in P.recs}
            if mark == '?': continue
            for t in ts: jobs.append((f, i, t, mark))
    for f, i, t, mark in jobs:
        if (t, None) in INTERNAL_EXEMPT: continue
        D = gctrace.Derive(P, W, INTERNAL_EXEMPT, INTERNAL_VECS, set(), {'value'})
        nulls = unit_null_fields(P, f, t)
        reqd = [(('A', 0), 'data') + p for p in D.paths(t) if p[0] not in nulls]
        obl += max(1, len(reqd))
        cov.setdefault('%s in %s' % (t, f.name), len(reqd))
        if D.untracked:
            raise AnalysisError('unknown container in %s: %s' % (t, D.untracked))
        if not reqd: continue
        mk_ = P.resolve(mark, f) if mark else None
        if mk_ is None:
            for R in reqd:
                viol.append(dict(key='%s %s unmarked' % (t, ppath(R[2:])), loc=f.loc(i), msg='%s keeps a %s whose `%s` is never marked' % (f.name, t, ppath(R[2:]))))
            continue
        c = gctrace.Cover(P, W, LEAVES, lambda fn: reqd if fn.key == mk_ else [])
        c.roots = {mk_}
        c.fnfilter = lambda fn: fn.name not in LEAVES
        E.Engine(P, c, W).summary(mk_)
        if not c.checked: raise AnalysisError('mark function %s never returns' % mk_)
        for (k, R, _), (loc, where) in c.missing.items():
            viol.append(dict(key='%s %s unmarked' % (t, ppath(R[2:])), loc=loc, msg='%s can return without marking `%s` of a %s' % (mark, ppath(R[2:]), t)))
    if len(jobs) < 8: raise AnalysisError('only %d native records found' % len(jobs))
    return viol, cov, obl

# -- the marking primitives themselves ------------------------------------------------
class Push(gctrace.Cover):
    """grayObject: either there is nothing to do, or the object is flagged and queued"""
    dark = None
    def on_store(self, cx, st, nid, n, place, val):
        if isinstance(place, tuple): return
        v = gctrace.strip(val)
        p = self.path(cx, st, v)
        if place.op == 'idx' and p == (('A', 0),):
            l = cx.fn.nodes[n['c'][0]]
            b = cx.fn.nodes[l['c'][0]]
            while b['k'] == 'cast': b = cx.fn.nodes[b['c'][0]]
            if b['k'] == 'mem' and b['f'] == 'grayStack': self.add(cx, st, [(('A', 0), 'queued')])
        if place.op == 'fld' and place.a[2] == 'flags' and v.op == '|' and any(x is I(self.dark) for x in v.a):
            q = self.path(cx, st, place)
            if q and q[0] == ('A', 0): self.add(cx, st, [(('A', 0), 'dark')])
        if place.op == 'fld' and place.a[2] == 'grayCount':
            y, k = E.lin(v)
            if y is gctrace.strip(place) and k == 1: self.add(cx, st, [(('A', 0), 'counted')])
    def vac0(self, cx, st, f, v):
        out = []
        both = [(('A', 0), 'queued'), (('A', 0), 'dark'), (('A', 0), 'counted')]
        if f.op == '==' and not v and f.a[1] is I(0) and f.a[0].op == '&' and f.a[0].a[1] is I(self.dark):
            x = gctrace.strip(f.a[0].a[0])
            if f.a[0].a[0].op != 'old' and x.op == 'fld' and x.a[2] == 'flags' and (self.path(cx, st, x) or ((),))[0] == ('A', 0): out += both
        if cx.F.entails(st, eq(mk('g', 'inYoungGC'), I(0)), False):
            for y in st.rel:
                if y.op == '<' and st.rel[y] and y.a[0] is I(self.genmin) and y.a[1].op == 'fld' and y.a[1].a[2] == 'GCGen' \
                        and (self.path(cx, st, y.a[1]) or ((),))[0] == ('A', 0): out += both
        return out

def leaves(P, W):
    viol = []; n = 0
    def one(fn, reqd, leaf, cls=gctrace.Cover, **kw):
        nonlocal n
        P.fn(fn)
        c = cls(P, W, leaf, lambda f: reqd if f.key == fn else [])
        for k, v in kw.items(): setattr(c, k, v)
        if hasattr(c, 'vac0'): c.vac = c.vac0
        c.roots = {fn}
        c.fnfilter = lambda f: f.name not in leaf
        E.Engine(P, c, W).summary(fn)
        n += len(reqd)
        if not c.checked: raise AnalysisError('%s never returns' % fn)
        for (k, R, _), (loc, where) in c.missing.items():
            viol.append(dict(key='%s %s' % (fn, ppath(R)), loc=loc, msg='%s can return without having handled `%s` of its argument' % (fn, ppath(R[1:]) or 'the value')))
    A = ('A', 0)
    one('grayValue', [(A,)], {'grayObject': 0})
    one('grayTable', [(A, 'entries', '*', 'key'), (A, 'entries', '*', 'value')], {'grayValue': 0, 'grayObject': 0})
    one('grayObject', [(A, 'queued'), (A, 'dark'), (A, 'counted')], {}, Push, dark=P.macro('OBJ_FLAG_DARK'), genmin=P.macro('GC_GEN_MIN'))
    return viol, n

class Drain(gctrace.Cover):
    """every queued object is blackened before anything is freed"""
    R = None
    def vac0(self, cx, st, f, v):
        out = []
        g = None
        if f.op == '==' and not v and f.a[1] is I(0): g = f.a[0]
        elif f.op == '<' and v and f.a[0].op == 'int' and f.a[0].a[0] >= 0: g = f.a[1]
        if g is not None and g.op == 'fld' and g.a[2] == 'GCGen':
            p = self.path(cx, st, g)
            if p is not None and len(p) >= 3: return [q for q in self.expand(cx, st, p[:3])]
        return out
    def count(self): return fld(addr(mk('g', 'vm')), 'VM', 'grayCount')
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn')
        if name in LEAVES: st.props = frozenset(q for q in st.props if q != self.Rq)
        if name == 'blackenObject' and self.is_root(cx):
            a = gctrace.strip(args[0])
            if a.op == 'idx':
                b = a.a[0]
                if b.op == 'fld' and b.a[2] == 'grayStack':
                    c = st.mem.get(self.count())
                    if c is not None and gctrace.strip(c) is a.a[1]: st.props = st.props | {('popok',)}
        return gctrace.Cover.on_call(self, cx, st, nid, n, callee, args)
    def exhausted(self, cx, st, cpath, x):
        # what traversing an element adds goes behind it, where a walk towards the first never comes
        if cpath[-1] == 'grayStack' and x[3] < 0: return False
        return gctrace.Cover.exhausted(self, cx, st, cpath, x)
    def post_call(self, cx, st, nid, n, callee, args, ret):
        gctrace.Cover.post_call(self, cx, st, nid, n, callee, args, ret)
        if n.get('fn') in LEAVES or n.get('fn') == 'blackenObject': cx.kill(st, {('f', 'VM', 'grayCount')}, nid)
    def enter(self, cx, st, h):
        gctrace.Cover.enter(self, cx, st, h)
        if self.is_root(cx): st.props = st.props | {('pop', h)}
    def backedge(self, cx, st, h):
        ok = ('popok',) in st.props
        gctrace.Cover.backedge(self, cx, st, h)
        st.props = frozenset(q for q in st.props if q != ('popok',) and (q[0] != 'pop' or q[1] != h or ok))
    def leave(self, cx, st, h):
        had = ('pop', h) in st.props
        gctrace.Cover.leave(self, cx, st, h)
        if had:
            st.props = frozenset(q for q in st.props if q != ('pop', h))
            if cx.F.entails(st, le(self.count(), I(0)), True) or (st.mem.get(self.count()) is not None and cx.F.entails(st, le(st.mem[self.count()], I(0)), True)):
                st.props = st.props | {self.Rq}

def drain(P, W, fn):
    R = (('G', 'vm'), 'grayStack', '*')
    c = Drain(P, W, {'blackenObject': 0}, lambda f: [R] if f.key == fn else [], at={'freeObject'})
    c.Rq = R; c.roots = {fn}; c.vac = c.vac0
    c.fnfilter = lambda f: f.name not in LEAVES and f.name not in ('blackenObject', 'freeObject', 'callFinalizer')
    E.Engine(P, c, W).summary(fn)
    if not c.checked: raise AnalysisError('no freeing point in %s' % fn)
    return {(k, R): v for (k, R, _), v in c.missing.items()}
