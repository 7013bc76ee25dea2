"""Obligations at native (script-callable) functions."""
import collections
from terms import *
import engine as E
from program import AnalysisError

SINGLETON_MAKERS = {'singletonClass', 'classSingletonClass', 'moduleSingletonClass', 'instanceSingletonClass'}

class Owners(E.Client):
    """resolves, for every registered native function, the class it is registered on"""
    def __init__(self, W):
        self.W = W; self.regs = []
        self.roots = {f.key for l in W.natives.values() for (_, f, _, _, _) in l}
    def relevant(self, fn): return fn.key in self.roots
    def on_call(self, cx, st, nid, n, callee, args):
        if callee in ('addNativeMethod', 'addNativeGetter', 'addNativeSetter', 'addGlobalFunction') and args[-1].op == 'fn':
            self.regs.append((callee, cx.fn.key, nid, args, cx))
            cx._st = st
    def on_exit(self, cx, st):
        cx._final = st

def resolve_owners(P, W):
    c = Owners(W)
    eng = E.Engine(P, c, W)
    for k in sorted(c.roots): eng.summary(k)
    out = {}
    for (reg, fk, nid, args, cx) in c.regs:
        key = args[-1].a[0]
        o = out.setdefault(key, {'kinds': 0, 'classes': set(), 'self': None, 'names': set(), 'reg': set()})
        o['reg'].add(reg)
        nm = args[-2]
        if nm.op == 'str': o['names'].add(nm.a[0])
        if reg == 'addGlobalFunction':
            o['self'] = False if o['self'] in (None, False) else 'mixed'
            continue
        o['self'] = True if o['self'] in (None, True) else 'mixed'
        own = args[0]
        fin = getattr(cx, '_final', None)
        cls, k = classify_owner(own, fin, W, cx)
        o['kinds'] |= k
        if cls: o['classes'].add(cls)
    return out

def classify_owner(own, fin, W, cx):
    K = W.K
    name = None
    if own.op == 'g': name = own.a[0]
    elif fin is not None:
        for pl, v in fin.mem.items():
            if pl.op == 'g' and v is own: name = pl.a[0]
    if own.op == 'ret' and own.a[0] in SINGLETON_MAKERS:
        return None, K('OBJ_T_CLASS', 'OBJ_T_MODULE')
    if name == 'lxObjClass': return name, W.INSTLIKE
    if name in W.class_kinds: return name, W.class_kinds[name]
    if name and name.startswith('lx') and 'Mod' in name: return name, W.INSTLIKE
    if own.op == 'ret' and own.a[0] == 'addGlobalClass':
        n = cx.fn.nodes[own.a[1]]
        s = cx.fn.nodes[n['c'][1]].get('v')
        return 'class:%s' % s, K('OBJ_T_INSTANCE')
    if own.op == 'ret' and own.a[0] in ('addGlobalModule',):
        return None, W.INSTLIKE
    return None, W.INSTLIKE

INST_COMMON = {'object', 'klass', 'singletonKlass', 'finalizerFunc', 'fields'}

class NativeClient(E.Client):
    """arity, type-before-unbox and related obligations"""
    def __init__(self, P, W, owners, skip=('vm_run',)):
        self.P = P; self.W = W; self.owners = owners; self.skip = set(skip)
        self.counts = collections.Counter()
        self.native = set(W.natives)
        self.need = self._needkinds()
        self.enabled = {'arity', 'type'}
    def _needkinds(self):
        W = self.W; K = W.K
        need = dict(W.rec_kinds)
        need['ObjIClass'] = K('OBJ_T_ICLASS')
        return need
    def relevant(self, fn): return fn.name not in self.skip
    def is_entry(self, fn): return fn.key in self.native
    def entry_assume(self, cx, st):
        fn = cx.fn
        if fn.key not in self.native: return
        o = self.owners.get(fn.key)
        argc, args = mk('arg', 0), mk('arg', 1)
        INTT.add(argc)
        st.rel[le(I(0), argc)] = True
        if o and o['self'] is True:
            st.rel[le(I(1), argc)] = True
            s = idx(args, I(0), 'Value')
            st.kinds[unbox(s)] = o['kinds'] or self.W.INSTLIKE
            for c in o['classes']:
                if len(o['classes']) == 1: st.rel[isa(unbox(s), mk('g', c))] = True
    def need_for(self, rec, field):
        if rec == 'ObjInstance' and field == 'internal': return self.W.K('OBJ_T_INSTANCE')
        if rec == 'Obj': return K_ALLOBJ
        if rec in ('ObjClass', 'ObjModule') and field == 'classInfo': return self.W.K('OBJ_T_CLASS', 'OBJ_T_MODULE')
        return self.need.get(rec)
    def src(self, t):
        """the script value a pointer term was unboxed from"""
        while t.op == 'addr' and t.a[0].op == 'fld': t = t.a[0].a[0]
        return t if t.op == 'unbox' else None
    def on_node(self, cx, st, nid, n, t):
        k = n['k']
        if k == 'mem':
            self.deref(cx, st, nid, n)
        elif k == 'idx' or (k == 'un' and n['op'] == '*'):
            self.argread(cx, st, nid, n, t)
    def deref(self, cx, st, nid, n):
        if 'type' not in self.enabled: return
        fn = cx.fn
        x = nid
        m = n
        while m['k'] == 'mem' and not m['arrow']:
            x = m['c'][0]; m = fn.nodes[x]
            if m['k'] != 'mem': return
        if x != nid: return       # the inner member expression carries the obligation
        base = cx.val(m['c'][0], st, {})
        u = self.src(base)
        if u is None: return
        need = self.need_for(m.get('rec', '?'), m['f'])
        if need is None: return
        self.counts['type'] += 1
        cx.require(st, kind(u, need), 'type', nid)
    def argread(self, cx, st, nid, n, t):
        if 'arity' not in self.enabled: return
        if cx.fn.key not in self.native: return
        if n.get('ty') != 'Value': return
        p = cx.place(nid, st, {})
        if isinstance(p, tuple) or p.op != 'idx': return
        if p.a[0] is mk('arg', 1):
            self.counts['arity'] += 1
            cx.require(st, lt(p.a[1], mk('arg', 0)), 'arity', nid)
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn')
        if 'type' not in self.enabled: return
        if name == 'valueToNumber':
            self.counts['type'] += 1
            cx.require(st, kind(unbox(args[0]), K_NUM), 'type', nid)
            return
        f = self.P.fns.get(callee) if callee else None
        if f is not None:
            for a, p in zip(args, f.params):
                u = self.src(a)
                if u is None: continue
                need = self.W.ptr_kinds.get(p['ty'])
                what = 'type'
                if need is None and p['ty'].replace('struct ', '') == 'Obj *': need = K_ALLOBJ; what = 'obj'
                if need is None: continue
                self.counts['type'] += 1
                cx.require(st, kind(u, need), what, nid)
