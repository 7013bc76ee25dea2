"""What built-ins may assume about what scripts hand them."""
import re
import engine, natives
from terms import *
from program import AnalysisError

def setup(ctx):
    P, W = ctx.P, ctx.W
    ow = natives.resolve_owners(P, W)
    return P, W, ow

def rel(P, fk): return P.fns[fk].file if fk in P.fns else '?'

def run_arity(ctx):
    P, W, ow = setup(ctx)
    c = natives.NativeClient(P, W, ow)
    c.enabled = {'arity'}
    eng = engine.Engine(P, c, W)
    for k in sorted(W.natives): eng.summary(k)
    vs = []
    for k, v in eng.violations.items():
        if v['what'] != 'arity': continue
        vs.append(dict(key='%s %s' % (v['fn'], v['formula']), loc=v['at'],
                       msg='%s reads an argument that the caller may not have given: %s is not established' % (v['fn'], v['formula'])))
    unreg = sorted(k for k in W.natives if k not in ow)
    return dict(violations=vs, obligations=c.counts['arity'],
                coverage={'native functions analysed': len(W.natives), 'argument reads': c.counts['arity'],
                          'natives with resolved owner': len(ow), 'natives without owner': unreg})

# results of these are whatever the called script code returned
CALLS = {'callMethod', 'callFunctionValue', 'callCallable', 'yieldBlock', 'yieldBlockCatch', 'lxYield', 'VM_pop', 'pop', 'vm_run', 'callVMMethod'}
# values read back from places script code can write
READS = {'propertyGet', 'getProp'}
# out parameters holding values a script stored
OUTS = {'findConstantUnder', 'mapGet'}

class Origin:
    """decides whether a value may be anything a script chooses"""
    def __init__(self, P, W, fn, phin, calls=CALLS):
        self.calls = calls; self.P = P; self.W = W; self.fn = P.fns.get(fn); self.phin = phin; self.native = fn in W.natives
    def script(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen: return False
        seen.add(t)
        if t.op == 'old': t = t.a[1]; return self.place(t, seen)
        if t.op == 'phi': return any(self.script(x, seen) for x in self.phin.get(t, ()))
        if t.op == 'ret':
            f = t.a[0]
            if f in READS: return True
            if f in self.calls: return not self.ctor(t)
            return False
        if t.op == 'out':
            n = self.call(t.a[1]) or self.call(t.a[0])
            return bool(n) and n.get('fn') in OUTS
        return self.place(t, seen)
    def call(self, nid):
        if not isinstance(nid, int) or self.fn is None or nid >= len(self.fn.nodes): return None
        n = self.fn.nodes[nid]
        return n if n['k'] == 'call' else None
    def ctor(self, t):
        """calling a class constant gives an instance of it"""
        n = self.call(t.a[1])
        if n is None: return False
        for x in n['c'][1:]:
            for y in self.sub(x):
                m = self.fn.nodes[y]
                if m['k'] == 'ref' and m.get('n', m.get('name', '')) in self.W.class_kinds: return True
        return False
    def sub(self, x):
        yield x
        for c in self.fn.nodes[x].get('c', ()):
            if c is not None and c >= 0: yield from self.sub(c)
    def place(self, t, seen):
        if t.op == 'idx':
            b = t.a[0]
            if b is mk('arg', 1) and self.native: return True
            # an element of an array, or of a map's table
            x = b
            while x.op in ('+', 'phi', 'addr') and x.a and not isinstance(x.a[0], int): x = x.a[0]
            if x.op == 'fld' and x.a[1:] == ('ValueArray', 'values'): return self.holder(x.a[0])
            return False
        if t.op == 'fld':
            r, f = t.a[1], t.a[2]
            if r == 'Entry' and f in ('key', 'value'): return self.holder(t.a[0])
            return False
        return False
    def holder(self, b):
        """the array or map a script sees, as opposed to the VM's own vectors"""
        for s in subterms(b):
            if s.op == 'unbox' and self.script(s.a[0]): return True
            if s.op == 'unbox' and s.a[0].op == 'idx' and s.a[0].a[0] is mk('arg', 1) and self.native: return True
        return False

def target(t):
    """the required type is the last alternative; the others are conditions under which it isn't needed"""
    while t.op in ('or', '||'): t = t.a[-1]
    return t

SKIP = {'compiler.c', 'debug.c', 'memory.c', 'parser.c', 'nodes.c', 'scanner.c'}

CALLERS = {'callFunctionValue': 0, 'callCallable': 0, 'callVMMethod': 1}

def strip(f, x):
    while f.nodes[x]['k'] == 'cast' or f.nodes[x]['k'] == 'un' and f.nodes[x].get('op') == '!': x = f.nodes[x]['c'][0]
    return x
def P_dies(P, f, b):
    return b in f.blocks and bool(f.blocks[b].get('nr'))

class Types(natives.NativeClient):
    """also what is stored to be used later: as an object, as an object of some kind, or as something to call"""
    def __init__(self, P, W, ow):
        super().__init__(P, W, ow)
        self.callable = W.K('OBJ_T_CLASS', 'OBJ_T_NATIVE_FUNCTION', 'OBJ_T_BOUND_METHOD', 'OBJ_T_CLOSURE')
        self.called = set()
        for f in P.fns.values():
            if f.entry is None: continue
            for n in f.nodes:
                if n['k'] == 'call' and n.get('fn') in CALLERS and CALLERS[n['fn']] + 1 < len(n['c']):
                    for r, x in self.sources(f, n['c'][CALLERS[n['fn']] + 1]): self.called.add((r, x))
        self.asserted = {}
        for f in P.fns.values():
            if f.entry is None: continue
            pi = {p['d']: i for i, p in enumerate(f.params)}
            for b in f.blocks.values():
                if b.get('cond') is None or b['cond'] < 0 or not any(P_dies(P, f, s) for s in b['s']): continue
                x = f.nodes[strip(f, b['cond'])]
                if x['k'] == 'call' and x.get('fn') == 'isCallable':
                    y = f.nodes[strip(f, x['c'][1])]; boxed = False
                    if y['k'] == 'call' and y.get('fn') == 'objectToValue': y = f.nodes[strip(f, y['c'][1])]; boxed = True
                    if y.get('d') in pi: self.asserted.setdefault(f.key, set()).add((pi[y['d']], boxed))
        self.called -= {(r, x) for r, x in self.called if self.ftype(r, x) not in ('Obj *', 'Value')}
    def sources(self, f, x, d=0):
        from props.text import defs_of
        todo = [x]; seen = set()
        while todo:
            y = todo.pop()
            if y is None or y < 0 or y in seen: continue
            seen.add(y); n = f.nodes[y]
            if n['k'] == 'mem': yield n.get('rec'), n['f']; continue
            if n['k'] == 'call' and n.get('fn'):
                g = self.P.fns.get(self.P.resolve(n['fn'], f))
                if g is not None and d < 2 and len(g.nodes) < 40:
                    for m in g.nodes:
                        if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0: yield from self.sources(g, m['c'][0], d + 1)
                todo += n['c'][1:]; continue
            if n['k'] == 'ref' and 'd' in n and n.get('dk') != 'parm': todo += defs_of(f, n['d']) or []
            todo += n['c']
    def ftype(self, rec, field):
        r = self.P.recs.get(rec)
        for fd in (r or {}).get('fields', ()):
            if fd['name'] == field: return fd.get('ty', fd.get('cty', '')).replace('struct ', '')
        return ''
    def on_store(self, cx, st, nid, n, place, val):
        super().on_store(cx, st, nid, n, place, val)
        if 'type' not in self.enabled or isinstance(place, tuple) or place.op != 'fld' or val.op != 'unbox': return
        rec, field = place.a[1], place.a[2]
        t = self.ftype(rec, field)
        if (rec, field) in self.called: need, what = self.callable, 'type'
        elif t == 'Obj *': need, what = natives.K_ALLOBJ, 'obj'
        else: need, what = self.W.ptr_kinds.get(t), 'type'
        if need is None: return
        self.counts['stored'] += 1
        cx.require(st, kind(val, need), what, nid)
    def on_call(self, cx, st, nid, n, callee, args):
        if 'type' in self.enabled:
            for i, boxed in sorted(self.asserted.get(callee, set()) | ({(CALLERS[n['fn']], False)} if n.get('fn') in CALLERS else set())):
                if i < len(args) and not (boxed and args[i].op != 'unbox'):
                    self.counts['called'] += 1
                    cx.require(st, kind(args[i] if boxed else unbox(args[i]), self.callable), 'type', nid)
        r = super().on_call(cx, st, nid, n, callee, args)
        if 'type' in self.enabled and n.get('fn') == 'tableSet' and len(args) > 2 and any(x.op == 'fld' and x.a[1:] == ('ClassInfo', m) for x in subterms(args[0]) for m in ('methods', 'getters', 'setters')):
            self.counts['stored'] += 1
            cx.require(st, kind(unbox(args[2]), self.callable), 'type', nid)
        return r

def run_types(ctx):
    P, W, ow = setup(ctx)
    c = Types(P, W, ow)
    c.enabled = {'type'}
    eng = engine.Engine(P, c, W)
    for k in sorted(W.natives): eng.summary(k)
    vs = []; trusted = 0
    for k, v in sorted(eng.violations.items(), key=str):
        if v['what'] not in ('type', 'obj'): continue
        if rel(P, v['fn']) in SKIP: trusted += 1; continue
        # a pointer to any object: what was just looked at on the stack is popped later, which isn't followed
        o = Origin(P, W, v['fn'], v['phin'], CALLS if v['what'] == 'type' else CALLS - {'pop', 'VM_pop'})
        t = target(v['term'])
        hit = t.a[0] if t.op == 'kind' else None
        if hit is None or hit.op != 'unbox' or not o.script(hit.a[0]): trusted += 1; continue
        vs.append(dict(key='%s %s' % (v['fn'], show(hit)), loc=v['at'],
                       msg='%s uses a value a script supplied without knowing its type: %s is not established (used at %s)' % (v['fn'], v['formula'], v['site'])))
    return dict(violations=vs, obligations=c.counts['type'] + c.counts['stored'] + c.counts['called'],
                coverage={'native functions analysed': len(W.natives), 'unboxing uses': c.counts['type'], 'values stored for later use': c.counts['stored'], 'values called or taken for callable': c.counts['called'], 'uses of values made by the interpreter itself': trusted})
