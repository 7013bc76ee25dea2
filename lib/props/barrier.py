"""Generational write barrier.

Young collections do not walk old objects.  A reference that is put into a heap
object therefore has to be announced (objWrite -> the remember set), or be known
not to need it: no object at all, an object of the old generation, or a
reference read from another heap object (announced when it was put there).

One forward must-analysis per function computes what is known about values
(each with the conditions on the function's parameters it rests on), one
backward must-analysis which values are announced on every way to the end of
the function; stores that rest on a parameter become obligations of the callers.
"""
import collections
from program import AnalysisError
from props.vmcode import cint
from props import gc as G

GENERIC = {'Entry', 'ValueArray', 'Table', 'LocalsTable'}
SAFE = frozenset()
# locals of a young scope are marked through the frame it belongs to; once something else refers to
# a scope it must be old (checked where references to scopes are stored)
SCOPE = ('ObjScope', 'localsTable')
# only ever hold classes and modules, which are made in the old generation (checked where they are allocated)
CLASSES = {('ObjFunction', 'klass'), ('ObjNative', 'klass'), ('ClassInfo', 'under'), ('ClassInfo', 'singletonOf')}

def is_generic(rec): return rec in GENERIC or (rec or '').startswith('vec_')

def reftype(P, W, ty):
    t = (ty or '').replace('struct ', '').replace('const ', '').strip()
    if t == 'Value': return 'Value'
    if t.endswith('*'):
        b = t[:-1].strip()
        if b == 'Obj' or b in W.rec_kinds: return b
    return None

class Barrier:
    def __init__(self, P, W):
        self.P = P; self.W = W
        self.OLD = P.macro('NEWOBJ_FLAG_OLD'); self.GENMIN = P.macro('GC_GEN_MIN')
        self.QN = None
        self.fns = [f for f in P.fns.values() if f.entry is not None]
        self.byk = {f.key: f for f in self.fns}
        self.asg = {}
        for f in self.fns: self.index(f)
        self.pts = {}           # (function) -> owners of what it returns
        # members that point at values kept elsewhere: nothing is known about those
        self.borrowed = {(r, fd['name']) for r, d in P.recs.items() for fd in d['fields']
                         if fd['ty'].replace('struct ', '').strip() in ('Value *', 'Value **') and not is_generic(r)}
        self.alias = collections.defaultdict(set)
        self.traced = self.traced_fields()
        self.oldrec = set(); self.types_old()
        self.mode = None
        self.nonsafe = set()    # other places that hold references nobody announced
        self.ret = {}; self.outs = {}; self.mb = {}; self.obl = {}
    # -- indexes ---------------------------------------------------------------
    def index(self, f):
        a = collections.defaultdict(list)
        for i, n in enumerate(f.nodes):
            if n['k'] == 'asg':
                l = self.sk(f, n['c'][0]); m = f.nodes[l]
                if m['k'] == 'ref' and 'd' in m: a[m['d']].append(n['c'][1] if n['op'] == '=' else -2)
            elif n.get('incdec'):
                m = f.nodes[self.sk(f, n['c'][0])]
                if m['k'] == 'ref' and 'd' in m: a[m['d']].append(-2)
            elif n['k'] == 'decl':
                for v in n['vars']:
                    if v['init'] >= 0: a[v['d']].append(v['init'])
        self.asg[f.key] = a
        f._x['pidx'] = {}
        for i, p in enumerate(f.params):
            f._x['pidx'][i] = p
    def sk(self, f, x):
        while x is not None and x >= 0 and f.nodes[x]['k'] in ('cast', 'paren'): x = f.nodes[x]['c'][0]
        return x
    def obj(self, f, x):
        """look through conversions between references and values"""
        while True:
            x = self.sk(f, x)
            if x is None or x < 0: return x
            n = f.nodes[x]
            if n['k'] == 'call' and n.get('fn') == 'objectToValue' and len(n['c']) > 1: x = n['c'][1]; continue
            if n['k'] == 'bin' and n['op'] in ('&', '|') and cint(f, x) is None:
                a, b = n['c']
                if cint(f, b) is not None and abs(cint(f, b)) > 1 << 40: x = a; continue
                if cint(f, a) is not None and abs(cint(f, a)) > 1 << 40: x = b; continue
            return x
    def skey(self, f, x, depth=0):
        x = self.obj(f, x)
        if x is None or x < 0 or depth > 12: return None
        n = f.nodes[x]; k = n['k']
        v = n.get('cv')
        if v is not None: return ('c', int(v))
        if k == 'ref':
            d = n.get('d')
            if n.get('dk') == 'local' and d is not None and d not in f.addrtaken:
                r = self.asg[f.key].get(d, [])
                if len(r) == 1 and r[0] >= 0:
                    s = self.skey(f, r[0], depth + 1)
                    if s is not None and self.stable(f, s): return s
            return ('v', d if d is not None else n.get('name'))
        if k == 'mem':
            s = self.skey(f, n['c'][0], depth + 1); return None if s is None else ('m', n['f'], s)
        if k == 'idx' or k == 'bin':
            a = self.skey(f, n['c'][0], depth + 1); b = self.skey(f, n['c'][1], depth + 1)
            return None if a is None or b is None else (k, n.get('op'), a, b)
        if k == 'un':
            if n.get('incdec'): return None
            s = self.skey(f, n['c'][0], depth + 1); return None if s is None else ('u', n['op'], s)
        return None
    def stable(self, f, s):
        if s[0] == 'v':
            d = s[1]
            return not self.asg[f.key].get(d) and d not in f.addrtaken and any(p.get('d') == d for p in f.params) or len(self.asg[f.key].get(d, [])) == 1 and d not in f.addrtaken and not any(p.get('d') == d for p in f.params)
        if s[0] == 'c': return True
        if s[0] == 'idx': return self.stable(f, s[2]) and s[3][0] == 'c' and s[2][0] == 'v'
        if s[0] == 'u' and s[1] == '*': return False
        return False
    def vars_of(self, k, out=None):
        if out is None: out = set()
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'v': out.add(k[1])
            else:
                for c in k: self.vars_of(c, out)
        return out
    def flds_of(self, k, out=None):
        if out is None: out = set()
        if isinstance(k, tuple):
            if k and k[0] == 'm': out.add(k[1])
            for c in k: self.flds_of(c, out)
        return out
    # -- places ----------------------------------------------------------------
    def loc(self, f, x, seen=()):
        x = self.sk(f, x)
        if x is None or x < 0: return {('unk',)}
        n = f.nodes[x]; k = n['k']
        if k == 'mem':
            if is_generic(n.get('rec')) or not n.get('rec'):
                return self.ptr(f, n['c'][0], seen) if n['arrow'] else self.loc(f, n['c'][0], seen)
            return {('fld', n['rec'], n['f'])}
        if k == 'idx':
            b = n['c'][0]
            t = f.nodes[self.sk(f, b)]
            if t.get('cty', t.get('ty', '')).endswith(']'): return self.loc(f, b, seen)
            return self.ptr(f, b, seen)
        if k == 'un' and n['op'] == '*': return self.ptr(f, n['c'][0], seen)
        if k == 'ref':
            if n.get('dk') in ('local', 'parm'):
                d = n.get('d')
                if (f.key, d) in seen: return set()
                out = set()
                t = n.get('cty', n.get('ty', '')).replace('struct ', '')
                if is_generic(t):
                    for r in self.asg[f.key].get(d, []):
                        if r >= 0: out |= self.loc(f, r, seen + ((f.key, d),))
                return out or {('local', d)}
            return {('global', n.get('name'))}
        if k == 'cond': return self.loc(f, n['c'][1], seen) | self.loc(f, n['c'][2], seen)
        if k == 'asg': return self.loc(f, n['c'][1], seen)
        if k == 'call':
            # a struct returned by value
            c = self.callee(f, x)
            if c is not None: return self.subst(f, x, self.retpts(c, loc=True), seen)
        return {('unk',)}
    def callee(self, f, x):
        for nid, key, nm in self.P.calls[f.key]:
            if nid == x: return self.byk.get(key) if key else None
        return None
    def subst(self, f, x, owners, seen=()):
        out = set()
        a = f.nodes[x]['c'][1:]
        for o in owners:
            if o[0] == 'parm': out |= self.ptr(f, a[o[1]], seen) if o[1] < len(a) else {('unk',)}
            elif o[0] == 'local': out.add(('unk',))
            else: out.add(o)
        return out
    def retpts(self, g, loc=False):
        c = self.pts.get((g.key, loc))
        if c is not None: return c
        self.pts[(g.key, loc)] = set()
        out = set()
        for i, n in enumerate(g.nodes):
            if n['k'] == 'ret' and n['c'] and n['c'][0] is not None and n['c'][0] >= 0:
                out |= (self.loc if loc else self.ptr)(g, n['c'][0])
        self.pts[(g.key, loc)] = out
        return out
    def ptr(self, f, x, seen=()):
        """where the memory a pointer points at belongs"""
        x = self.sk(f, x)
        if x is None or x < 0: return {('unk',)}
        if cint(f, x) == 0: return set()
        n = f.nodes[x]; k = n['k']
        if k == 'un' and n['op'] == '&': return self.loc(f, n['c'][0], seen)
        if k == 'un' and n.get('incdec'): return self.ptr(f, n['c'][0], seen)
        if k == 'mem':
            if is_generic(n.get('rec')) or not n.get('rec'):
                return self.ptr(f, n['c'][0], seen) if n['arrow'] else self.loc(f, n['c'][0], seen)
            o = {('fld', n['rec'], n['f'])}
            return o | self.alias.get((n['rec'], n['f']), set())
        if k == 'ref':
            d = n.get('d')
            if n.get('cty', n.get('ty', '')).endswith(']'): return self.loc(f, x, seen)
            if n.get('dk') == 'parm':
                out = {('parm', n['pi'])}
                if (f.key, d) not in seen:
                    for r in self.asg[f.key].get(d, []):
                        if r >= 0: out |= self.ptr(f, r, seen + ((f.key, d),))
                return out
            if n.get('dk') == 'local':
                if (f.key, d) in seen: return set()
                out = set()
                for r in self.asg[f.key].get(d, []):
                    if r >= 0: out |= self.ptr(f, r, seen + ((f.key, d),))
                return out or {('unk',)}
            return {('global', n.get('name'))}
        if k == 'cond': return self.ptr(f, n['c'][1], seen) | self.ptr(f, n['c'][2], seen)
        if k == 'bin':
            if n['op'] == ',': return self.ptr(f, n['c'][1], seen)
            a, b = (self.sk(f, c) for c in n['c'])
            pt = lambda y: f.nodes[y].get('cty', f.nodes[y].get('ty', '')).rstrip(']0123456789[').endswith('*') or f.nodes[y].get('cty', '').endswith(']')
            if n['op'] in '+-': return self.ptr(f, b if pt(b) and not pt(a) else a, seen)
            return {('unk',)}
        if k == 'asg': return self.ptr(f, n['c'][1], seen)
        if k == 'call':
            c = self.callee(f, x)
            if c is not None: return self.subst(f, x, self.retpts(c), seen)
            return {('unk',)}
        if k == 'idx':
            # an element that is a pointer itself
            return self.loc(f, x, seen)
        return {('unk',)}
    # -- what counts -----------------------------------------------------------
    def traced_fields(self):
        P, W = self.P, self.W
        out = set()
        recs = set(W.rec_kinds) - {'ObjAny'}
        skip = {k for k, v in G.EXEMPT.items() if k not in (('ObjUpvalue', 'value'),)}
        todo = [(r, skip, G.VECS, G.OWNED) for r in recs]
        for f in self.fns:
            for i, n in enumerate(f.nodes):
                if n['k'] != 'call' or n.get('fn') != 'newInternalObject': continue
                ts = set()
                t = G.ptr_type(f, n['c'][2])
                if t: ts.add(t)
                for m in f.nodes:
                    if m['k'] == 'asg' and m['op'] == '=':
                        l = f.nodes[m['c'][0]]
                        if l['k'] == 'mem' and l.get('rec') == 'ObjInternal' and l['f'] == 'data':
                            t = G.ptr_type(f, m['c'][1])
                            if t: ts.add(t)
                for t in ts:
                    if t in P.recs and (t, None) not in G.INTERNAL_EXEMPT:
                        todo.append((t, set(G.INTERNAL_EXEMPT), G.INTERNAL_VECS, set()))
        done = set()
        while todo:
            r, ex, vecs, owned = todo.pop()
            if r in done or r not in P.recs or (r, None) in G.INTERNAL_EXEMPT: continue
            done.add(r)
            for fd in P.recs[r]['fields']:
                n, t = fd['name'], fd['ty'].replace('struct ', '').replace('volatile ', '').strip()
                if (r, n) in ex: continue
                if t in ('Value', 'Table', 'Table *', 'ValueArray', 'ValueArray *', 'LocalsTable') or reftype(P, W, t): out.add((r, n))
                elif t == 'Value *': out.add((r, n))
                elif t.endswith('**') and (t[:-2].strip() == 'Obj' or t[:-2].strip() in W.rec_kinds): out.add((r, n))
                elif t.startswith('vec_'):
                    el = vecs.get((r, n))
                    if el == 'Obj' or el == 'Value': out.add((r, n))
                    elif el in P.recs: todo.append((el, ex, vecs, owned))
                elif t.endswith('*') and t[:-1].strip() in owned: todo.append((t[:-1].strip(), ex, vecs, owned))
                elif fd.get('rec') and fd['rec'] in P.recs and not is_generic(fd['rec']) and fd['rec'] != 'Obj': todo.append((fd['rec'], ex, vecs, owned))
        # a member that points at another member of a heap object: stores through it are stores to the latter
        for f in self.fns:
            for n in f.nodes:
                if n['k'] != 'asg' or n['op'] != '=': continue
                l = f.nodes[self.sk(f, n['c'][0])]
                if l['k'] != 'mem' or l.get('ty', '').replace('struct ', '') not in ('Value *',): continue
                r = f.nodes[self.sk(f, n['c'][1])]
                if r['k'] == 'un' and r['op'] == '&':
                    m = f.nodes[self.sk(f, r['c'][0])]
                    if m['k'] == 'mem' and m.get('ty') == 'Value': self.alias[(l['rec'], l['f'])].add(('fld', m['rec'], m['f']))
        out -= {k for k in self.alias}
        self.classonly = out & CLASSES
        out -= CLASSES
        if len(out) < 40: raise AnalysisError('only %d places that hold references found' % len(out))
        return out
    def types_old(self):
        """records that are always made in the old generation"""
        P = self.P
        sites = collections.defaultdict(list)
        for f in self.fns:
            for nid, key, nm in P.calls[f.key]:
                if nm == 'allocateObject':
                    n = f.nodes[nid]
                    a = n['c'][1:]
                    rec = None
                    p = nid
                    while p in f.parent and f.nodes[f.parent[p]]['k'] in ('cast', 'paren'):
                        p = f.parent[p]
                        t = reftype(P, self.W, f.nodes[p].get('ty'))
                        if t and t != 'Obj': rec = t
                    if rec is None: continue
                    ok = self.flagv(f, a[-1], set())
                    if not ok:
                        # promoted right there
                        d = None
                        q = f.parent.get(p)
                        if q is not None and f.nodes[q]['k'] == 'decl':
                            for v in f.nodes[q]['vars']:
                                if v['init'] == p: d = v['d']
                        elif q is not None and f.nodes[q]['k'] == 'asg':
                            m = f.nodes[self.sk(f, f.nodes[q]['c'][0])]
                            d = m.get('d')
                        for nid2, k2, nm2 in P.calls[f.key]:
                            if nm2 == 'GCPromote' and d is not None:
                                b = f.nodes[nid2]['c'][1:]
                                m = f.nodes[self.sk(f, b[0])]
                                g = cint(f, b[1])
                                if m.get('d') == d and g is not None and g > self.GENMIN and self.dominates_exit(f, nid2): ok = True
                    sites[rec].append((ok, f.loc(nid)))
        self.sites = sites
        if len(sites) < 8: raise AnalysisError('only %d kinds of allocations found' % len(sites))
        if not {'ObjClass', 'ObjModule', 'ObjIClass'} - {r for r, s in sites.items() if not all(o for o, _ in s)} == {'ObjClass', 'ObjModule', 'ObjIClass'}:
            self.traced |= self.classonly
        self.oldrec = {r for r, s in sites.items() if all(o for o, _ in s)}
    def dominates_exit(self, f, nid):
        b = None
        x = nid
        while x is not None and x not in f.owner_block: x = f.parent.get(x)
        if x is None: return False
        b = f.owner_block[x]
        if b == f.entry: return True
        seen = {f.entry}; st = [f.entry]
        while st:
            y = st.pop()
            if f.blocks[y].get('nr'): continue
            for s in f.blocks[y]['s']:
                if s is None or s == b or s in seen: continue
                if s == f.exit: return False
                seen.add(s); st.append(s)
        return f.exit not in seen
    def hasold(self, f, x, assume):
        v = cint(f, x)
        if v is not None: return bool(v & self.OLD)
        x = self.sk(f, x)
        if x is None or x < 0: return False
        n = f.nodes[x]
        if n['k'] == 'bin' and n['op'] == '|': return any(self.flagv(f, c, assume) for c in n['c'])
        if n['k'] == 'ref' and n.get('dk') == 'parm': return n['pi'] in assume
        return False
    def flagv(self, f, c, assume):
        v = cint(f, c)
        if v is not None: return bool(v & self.OLD)
        return self.hasold(f, c, assume)
    # -- values ----------------------------------------------------------------
    def join(self, *cs):
        if any(c is None for c in cs): return None
        return frozenset().union(*cs)
    def value(self, f, x, st, depth=0):
        """None: may need announcing.  Otherwise the conditions under which it does not."""
        if depth > 40: return None
        if cint(f, x) is not None: return SAFE
        k = self.skey(f, x)
        if k is not None and k in st: return st[k]
        x = self.obj(f, x)
        if x is None or x < 0: return None
        n = f.nodes[x]
        if cint(f, x) is not None: return SAFE
        if n.get('v') == 0: return SAFE
        kk = n['k']
        t = (n.get('ty') or '').replace('struct ', '')
        if t.endswith('*') and t[:-1].strip() in self.oldrec: return SAFE
        if t not in ('Value', 'void *', 'unsigned long') and reftype(self.P, self.W, t) is None and not t.endswith('*'): 
            return SAFE if kk in ('int', 'bin', 'float', 'double', 'char', 'bool') else None
        if kk == 'cond':
            return self.join(self.value(f, n['c'][1], st, depth + 1), self.value(f, n['c'][2], st, depth + 1))
        if kk == 'asg': return self.value(f, n['c'][1], st, depth + 1)
        if kk == 'bin':
            if n['op'] == ',': return self.value(f, n['c'][1], st, depth + 1)
            return SAFE        # a number
        if kk in ('int', 'str'): return SAFE
        if kk == 'ref':
            if n.get('dk') == 'global': return SAFE if ('global', n.get('name')) not in self.nonsafe else None
            if n.get('dk') == 'parm' and not self.asg[f.key].get(n.get('d')): return frozenset({('parm', n['pi'])})
            return None
        if kk in ('mem', 'idx') or kk == 'un' and n['op'] == '*':
            return self.load(f, self.loc(f, x))
        if kk == 'un' and n['op'] == '&': return None
        if kk == 'call': return self.callval(f, x, st, depth)
        return None
    def load(self, f, owners):
        if not owners: return None
        cs = []
        for o in owners:
            if o[0] == 'fld':
                if (o[1], o[2]) in self.traced: cs.append(SAFE)
                elif (o[1], o[2]) in self.borrowed: cs.append(None)
                else: cs.append(None if o in self.nonsafe else SAFE)
            elif o[0] == 'global': cs.append(None if o in self.nonsafe else SAFE)
            elif o[0] == 'parm': cs.append(frozenset({('load', o[1])}))
            else: cs.append(None)
        return self.join(*cs)
    def cond_at(self, f, x, conds, st, depth=0):
        """conditions of a callee, at one of its calls"""
        if conds is None: return None
        a = f.nodes[x]['c'][1:]
        out = []
        for c in conds:
            if c[1] >= len(a): return None
            if c[0] == 'parm': out.append(self.value(f, a[c[1]], st, depth + 1))
            elif c[0] == 'load': out.append(self.load(f, self.ptr(f, a[c[1]])))
            elif c[0] == 'flag':
                if self.flagv(f, a[c[1]], set()): out.append(SAFE)
                else:
                    m = f.nodes[self.sk(f, a[c[1]])]
                    fl = self.flagparms(f, a[c[1]])
                    out.append(frozenset(('flag', p) for p in fl) if len(fl) == 1 else None)
        return self.join(*out) if out else SAFE
    def flagparms(self, f, x):
        x = self.sk(f, x)
        if x is None or x < 0: return set()
        n = f.nodes[x]
        if n['k'] == 'bin' and n['op'] == '|': return self.flagparms(f, n['c'][0]) | self.flagparms(f, n['c'][1])
        if n['k'] == 'ref' and n.get('dk') == 'parm' and not self.asg[f.key].get(n.get('d')): return {n['pi']}
        return set()
    def callval(self, f, x, st, depth):
        n = f.nodes[x]
        fn = n.get('fn')
        if fn == 'numberToValue': return SAFE
        if fn == 'allocateObject':
            a = n['c'][1:]
            if self.flagv(f, a[-1], set()): return SAFE
            fl = self.flagparms(f, a[-1])
            return frozenset(('flag', p) for p in fl) if len(fl) == 1 else None
        g = self.callee(f, x)
        if g is None: return None
        return self.cond_at(f, x, self.ret.get(g.key, SAFE), st, depth)
    def inloop(self, f, e):
        while e is not None and e not in f.owner_block: e = f.parent.get(e)
        if e is None: return False
        b0 = f.owner_block[e]
        seen = set(); st = [b0]
        while st:
            for s in f.blocks[st.pop()]['s']:
                if s == b0: return True
                if s is not None and s not in seen: seen.add(s); st.append(s)
        return False
    # -- one function ----------------------------------------------------------
    def atom(self, f, B):
        x = B.get('cond')
        if x is None or len(B['s']) != 2: return None
        pol = True
        while True:
            x = self.sk(f, x)
            if x is None or x < 0: return None
            n = f.nodes[x]
            if n['k'] == 'bin' and n['op'] in ('&&', '||'): x = n['c'][1]; continue
            if n['k'] == 'un' and n['op'] == '!': x = n['c'][0]; pol = not pol; continue
            if n['k'] == 'call' and n.get('fn') == '__builtin_expect': x = n['c'][1]; continue
            return x, pol
    def edge_keys(self, f, B):
        """per successor: the values that need no announcing there"""
        c = f._x.setdefault('bek', {}).get(B['id'])
        if c is not None: return c
        out = (set(), set())
        a = self.atom(f, B)
        if a is not None:
            x, pol = a
            n = f.nodes[x]
            if n['k'] == 'bin' and n['op'] in ('==', '!='):
                l, r = n['c']
                v = cint(f, r)
                if v is None: l, r = r, l; v = cint(f, r)
                if v is not None:
                    eq = (n['op'] == '==') == pol
                    ls = self.sk(f, l); m = f.nodes[ls]
                    if m['k'] == 'mem' and m['f'] == 'GCGen':
                        k = self.genbase(f, ls)
                        if k is not None and v == self.GENMIN: out[1 if eq else 0].add(k)
                    elif m['k'] == 'bin' and m['op'] == '&':
                        # (v & mask) == mask
                        k = self.skey(f, m['c'][0]) if cint(f, m['c'][1]) is not None else self.skey(f, m['c'][1])
                        if k is not None: out[1 if eq else 0].add(k)
                    else:
                        y = l if m['k'] != 'bin' else m['c'][0]
                        k = self.skey(f, y)
                        if k is not None: out[0 if eq else 1].add(k)
            elif n['k'] == 'bin' and n['op'] in ('<', '>', '<=', '>='):
                l, r = (self.sk(f, y) for y in n['c']); op = n['op']
                if f.nodes[r]['k'] == 'mem' and f.nodes[r]['f'] == 'GCGen':
                    l, r = r, l; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
                v = cint(f, r)
                if f.nodes[l]['k'] == 'mem' and f.nodes[l]['f'] == 'GCGen' and v is not None:
                    k = self.genbase(f, l)
                    if k is not None:
                        if op == '>' and v >= self.GENMIN or op == '>=' and v > self.GENMIN: out[0 if pol else 1].add(k)
                        if op == '<=' and v == self.GENMIN or op == '<' and v == self.GENMIN + 1: out[1 if pol else 0].add(k)
            else:
                k = self.skey(f, x)
                if k is not None: out[1 if pol else 0].add(k)
        f._x['bek'][B['id']] = out
        return out
    def young_edge(self, f, B, i):
        """the way on which a scope is known to be young"""
        c = f._x.setdefault('young', {}).get(B['id'])
        if c is None:
            c = -1
            a = self.atom(f, B)
            if a is not None:
                x, pol = a
                n = f.nodes[x]
                if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
                    for y in n['c']:
                        m = f.nodes[self.sk(f, y)]
                        if m['k'] == 'mem' and m['f'] == 'GCGen' and self.scopeish(f, m['c'][0]):
                            ek = self.edge_keys(f, B)
                            # the other way is the one that says `old`
                            if ek[0] and not ek[1]: c = 1
                            elif ek[1] and not ek[0]: c = 0
            f._x['young'][B['id']] = c
        return c == i
    def scopeish(self, f, x):
        for _ in range(12):
            if x is None or x < 0: return False
            n = f.nodes[x]
            t = (n.get('ty') or '').replace('struct ', '')
            if t.rstrip('* ') == 'ObjScope': return True
            if n['k'] in ('cast', 'paren', 'mem'): x = n['c'][0]
            elif n['k'] == 'ref' and n.get('dk') == 'local':
                r = self.asg[f.key].get(n.get('d'), [])
                if len(r) != 1 or r[0] < 0: return False
                x = r[0]
            elif n['k'] == 'call' and n.get('fn') == 'objectToValue': x = n['c'][1]
            else: return False
        return False
    def genbase(self, f, x):
        """the object whose generation a member expression reads"""
        n = f.nodes[x]
        b = self.sk(f, n['c'][0])
        m = f.nodes[b]
        while m['k'] == 'mem' and not m['arrow'] and m['f'] in ('obj', 'object'): b = self.sk(f, m['c'][0]); m = f.nodes[b]
        if m['k'] == 'mem' and m['f'] in ('obj', 'object') and not n['arrow']: b = self.sk(f, m['c'][0])
        return self.skey(f, b)
    def killed(self, f, n):
        """variables and members an element overwrites"""
        if n['k'] == 'asg' or n.get('incdec'):
            m = f.nodes[self.sk(f, n['c'][0])]
            if m['k'] == 'ref': return {m.get('d', m.get('name'))}, set()
            if m['k'] == 'mem': return set(), {m['f']}
            return set(), set()
        if n['k'] == 'decl': return {v['d'] for v in n['vars']}, set()
        return set(), set()
    def step(self, f, e, st, rec=None):
        n = f.nodes[e]
        if n['k'] == 'call':
            if rec: rec(e, st)
            st = self.call(f, e, st)
        elif n['k'] in ('asg', 'decl') or n.get('incdec'):
            if rec: rec(e, st)
            adds = {}
            pairs = []
            if n['k'] == 'asg' and n['op'] == '=':
                pairs = [(n['c'][0], n['c'][1])]
            elif n['k'] == 'decl':
                pairs = [(('v', v['d']), v['init']) for v in n['vars'] if v['init'] >= 0]
            for l, r in pairs:
                c = self.value(f, r, st)
                if c is not None:
                    k = l if isinstance(l, tuple) else self.skey(f, l)
                    if k is not None and k[0] in ('v',): adds[k] = c
                    elif k is not None and self.skey(f, r) in st: adds[k] = c
            vs, fs = self.killed(f, n)
            if vs or fs:
                st = {k: c for k, c in st.items() if not (self.vars_of(k) & vs) and not (fs and self.flds_of(k) & fs)}
            if adds: st = dict(st); st.update(adds)
        elif n['k'] == 'ret':
            if rec: rec(e, st)
        return st
    def barriered(self, f, e):
        """values a call announces"""
        n = f.nodes[e]
        fn = n.get('fn'); a = n['c'][1:]
        if fn == 'objWrite' and len(a) > 1 and self.scopeish(f, a[1]): return []      # a scope must become old, see `escapes`
        if fn == 'pushRememberSet': return [a[0]]
        if fn == 'GCPromoteOnce': return [a[0]]
        if fn == 'GCPromote': return [a[0]] if cint(f, a[1]) is not None and cint(f, a[1]) > self.GENMIN else []
        g = self.callee(f, e)
        if g is None: return []
        return [a[i] for i in self.mb.get(g.key, ()) if i < len(a)]
    def call(self, f, e, st):
        n = f.nodes[e]
        a = n['c'][1:]
        g = self.callee(f, e)
        kill = set(); add = {}
        for i, y in enumerate(a):
            z = self.sk(f, y)
            if z is None or z < 0: continue
            m = f.nodes[z]
            if m['k'] == 'un' and m['op'] == '&':
                t = f.nodes[self.sk(f, m['c'][0])]
                if t['k'] == 'ref' and t.get('dk') in ('local', 'parm'):
                    d = t['d']; kill.add(d)
                    if g is not None and t.get('ty') == 'Value':
                        c = self.cond_at(f, e, self.outs.get((g.key, i), SAFE), st)
                        if c is not None: add[('v', d)] = c
        if kill: st = {k: c for k, c in st.items() if not (self.vars_of(k) & kill)}
        for y in self.barriered(f, e):
            k = self.skey(f, y)
            if k is not None: add[k] = SAFE
        if add: st = dict(st); st.update(add)
        return st
    def meet(self, a, b):
        if a is None: return b
        out = {}
        for k, c in a.items():
            d = b.get(k)
            if d is not None: out[k] = c if c == d else c | d
        return out
    def forward(self, f, rec=None):
        inn = {f.entry: {}}
        todo = collections.deque([f.entry]); inq = {f.entry}
        order = {b: i for i, b in enumerate(f.rpo)}
        n = 0
        while todo:
            b = min(todo, key=lambda y: order.get(y, 0)); todo.remove(b); inq.discard(b)
            n += 1
            if n > 20000: raise AnalysisError('no fixpoint in %s' % f.key)
            B = f.blocks[b]
            st = inn[b]
            for e in B['e']: st = self.step(f, e, st)
            if B.get('nr') or self.dies(f, B): continue
            ek = self.edge_keys(f, B)
            for i, s in enumerate(B['s']):
                if s is None or self.mode and self.young_edge(f, B, i): continue
                t = st
                if len(B['s']) == 2 and ek[i]: t = dict(st); t.update({k: SAFE for k in ek[i]})
                o = inn.get(s)
                m = t if o is None else self.meet(o, t)
                if m != o:
                    inn[s] = m
                    if s not in inq: inq.add(s); todo.append(s)
        if rec:
            for b, st in inn.items():
                for e in f.blocks[b]['e']: st = self.step(f, e, st, rec)
        return inn
    def dies(self, f, B):
        for e in B['e']:
            n = f.nodes[e]
            if n['k'] == 'call' and n.get('fn') in self.W.noreturn: return True
        return False
    def backward(self, f):
        """at the point after each element: what is announced on every way from there to the end"""
        TOP = None
        out = {}
        # candidates only
        ins = {}
        blocks = list(f.rpo)[::-1]
        exitk = frozenset()
        ch = True
        preds = f.preds
        def at_end(b):
            B = f.blocks[b]
            if B.get('nr') or self.dies(f, B): return TOP
            if b == f.exit: return exitk
            ek = self.edge_keys(f, B)
            acc = TOP; some = False
            for i, s in enumerate(B['s']):
                if s is None: continue
                some = True
                if self.mode and self.young_edge(f, B, i): continue
                k = ins.get(s, TOP)
                if k is TOP: continue
                if len(B['s']) == 2 and ek[i]: k = k | frozenset(ek[i])
                acc = k if acc is TOP else acc & k
            if not some: return exitk
            return acc
        n = 0
        while ch:
            ch = False; n += 1
            if n > 200: raise AnalysisError('no backward fixpoint in %s' % f.key)
            for b in blocks:
                k = at_end(b)
                if k is not TOP:
                    for e in reversed(f.blocks[b]['e']): k = self.bstep(f, e, k)
                if ins.get(b, TOP) != k or (b not in ins):
                    ins[b] = k; ch = True
        def after(e):
            b = f.owner_block.get(e)
            k = at_end(b)
            if k is TOP: return None
            for y in reversed(f.blocks[b]['e']):
                if y == e: return k
                k = self.bstep(f, y, k)
            return k
        return after
    def bstep(self, f, e, k):
        n = f.nodes[e]
        vs, fs = self.killed(f, n)
        adds = []
        # what is announced through a copy is announced
        if n['k'] == 'asg' and n['op'] == '=' and self.skey(f, n['c'][0]) in k: adds = [self.skey(f, n['c'][1])]
        elif n['k'] == 'decl': adds = [self.skey(f, v['init']) for v in n['vars'] if v['init'] >= 0 and ('v', v['d']) in k]
        if vs or fs: k = frozenset(y for y in k if not (self.vars_of(y) & vs) and not (fs and self.flds_of(y) & fs))
        adds = [y for y in adds if y is not None]
        if adds: k = k | frozenset(adds)
        if n['k'] == 'call':
            adds = [self.skey(f, y) for y in self.barriered(f, e)]
            adds = [y for y in adds if y is not None]
            if adds: k = k | frozenset(adds)
        return k
    # -- stores ----------------------------------------------------------------
    def stores(self, f, e):
        """(owners, value expression, place expression or None) an element stores itself"""
        n = f.nodes[e]
        if n['k'] == 'asg' and n['op'] == '=':
            l = self.sk(f, n['c'][0]); m = f.nodes[l]
            if m['k'] == 'ref' and m.get('dk') != 'global': return []
            if reftype(self.P, self.W, m.get('ty')) is None and not (m.get('ty') == 'void *' and m['k'] == 'idx'): 
                return []
            if m.get('ty') == 'void *' and not self.isref(f, n['c'][1]): return []
            return [(self.loc(f, l), n['c'][1], l)]
        return []
    def isref(self, f, x):
        while x is not None and x >= 0:
            if reftype(self.P, self.W, f.nodes[x].get('ty')): return True
            if f.nodes[x]['k'] not in ('cast', 'paren'): return False
            x = f.nodes[x]['c'][0]
        return False
    def visit(self, f):
        """new summaries of one function"""
        r = self.visit1(f)
        if f._x.get('scopes') is None:
            f._x['scopes'] = any(n['k'] == 'mem' and n.get('rec') == 'ObjScope' for n in f.nodes) and \
                any(self.young_edge(f, B, 0) or self.young_edge(f, B, 1) for B in f.blocks.values())
        if f._x['scopes']:
            self.mode = 'scope'
            s = self.visit1(f)
            self.mode = None
            sc = lambda o: o[0] == 'fld' and (o[1], o[2]) == SCOPE
            bad = [b for b in r[4] if not sc(b[0])] + [b for b in s[4] if sc(b[0])]
            obl = {b for b in r[3] if not sc(b[0])} | {b for b in s[3] if sc(b[0])}
            r = (r[0], r[1], r[2], obl, bad, r[5])
        return r
    def visit1(self, f):
        P = self.P
        obl = set(); rets = []; outs = collections.defaultdict(list); bad = []
        after = None
        hits = []
        count = [0]
        def later(e, *xs):
            nonlocal after
            if after is None: after = self.backward(f)
            ks = after(e)
            if ks is None: return True
            for x in xs:
                if x is None: continue
                k = self.skey(f, x)
                if k is not None and k in ks: return True
            return False
        def demand(owners, conds, e, x, place, src):
            """a value with these conditions is stored into these owners at element e"""
            tr = [o for o in owners if o[0] == 'fld' and (o[1], o[2]) in self.traced]
            ot = [o for o in owners if o not in tr and o[0] in ('fld', 'global')]
            pa = [o for o in owners if o[0] == 'parm']
            if not tr and not pa and not ot: return
            count[0] += 1
            if conds is not None and not conds: return
            if later(e, x, place): return
            if conds is None:
                for o in tr: bad.append((o, src))
                for o in ot: bad.append((o, src))
                for o in pa: obl.add((o, None, src))
            else:
                for c in conds:
                    for o in tr + ot: obl.add((o, c, src))
                    for o in pa: obl.add((o, c, src))
        def rec(e, st):
            n = f.nodes[e]
            if n['k'] == 'ret':
                if n['c'] and n['c'][0] is not None and n['c'][0] >= 0: 
                    if f.ret.endswith('*') or f.ret == 'Value': rets.append(self.value(f, n['c'][0], st))
                return
            for owners, x, place in self.stores(f, e):
                c = self.value(f, x, st)
                for o in owners:
                    if o[0] == 'parm':
                        m = f.nodes[place]
                        if m['k'] == 'un' and m['op'] == '*' and f.nodes[self.sk(f, m['c'][0])].get('dk') == 'parm': outs[o[1]].append(c)
                demand(owners, c, e, x, place, f.loc(e))
            if n['k'] == 'call':
                g = self.callee(f, e)
                if g is None: return
                a = n['c'][1:]
                for (o, c, src) in self.obl.get(g.key, ()):
                    if o[0] == 'parm':
                        if o[1] >= len(a): continue
                        ow = self.ptr(f, a[o[1]])
                    else: ow = {o}
                    if c is None: conds = None; x = None
                    else:
                        conds = self.cond_at(f, e, frozenset({c}), st)
                        x = a[c[1]] if c[0] == 'parm' and c[1] < len(a) else None
                    demand(ow, conds, e, x, None, f.loc(e) if c is not None else src)
        inn = self.forward(f, rec)
        mb = set()
        if f.exit in inn:
            st = inn[f.exit]
            for i, p in enumerate(f.params):
                if 'd' in p and st.get(('v', p['d'])) == SAFE and not self.asg[f.key].get(p['d']): mb.add(i)
        elif f.exit is not None: mb = set(range(len(f.params)))
        r = self.join(*rets) if rets else SAFE
        o = {i: self.join(*v) for i, v in outs.items()}
        return r, o, mb, obl, bad, count[0]
    def run(self):
        P = self.P
        fns = self.fns
        for f in fns:
            for i, p in enumerate(f.params):
                if 'd' not in p:
                    for n in f.nodes:
                        if n['k'] == 'ref' and n.get('dk') == 'parm' and n.get('pi') == i: p['d'] = n['d']; break
        callers = collections.defaultdict(set)
        for f in fns:
            for nid, k, nm in P.calls[f.key]:
                if k: callers[k].add(f.key)
        for f in fns: self.mb[f.key] = set()
        # what is announced: grows from nothing; the rest shrinks from everything
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60: raise AnalysisError('no fixpoint of the summaries')
            work = collections.deque(f.key for f in fns); inw = set(work)
            steps = 0
            while work:
                k = work.popleft(); inw.discard(k)
                steps += 1
                if steps > 60 * len(fns): raise AnalysisError('no fixpoint of the summaries')
                f = self.byk[k]
                r, o, mb, obl, bad, cnt = self.visit(f)
                self.res = getattr(self, 'res', {}); self.res[k] = (bad, cnt)
                old = (self.ret.get(k, SAFE), {i: self.outs.get((k, i), SAFE) for i in o}, self.mb[k], self.obl.get(k, set()))
                if (r, o, mb, obl) != old:
                    self.ret[k] = r
                    for i, v in o.items(): self.outs[(k, i)] = v
                    self.mb[k] = mb; self.obl[k] = obl
                    for c in callers[k]:
                        if c in self.byk and c not in inw: inw.add(c); work.append(c)
            new = set()
            viol = {}
            ncall = 0
            for f in fns:
                bad, cnt = self.res[f.key]
                ncall += cnt
                for o, src in bad:
                    if o[0] == 'fld' and (o[1], o[2]) in self.traced: viol.setdefault((f.key, o, src), src)
                    elif o not in self.nonsafe: new.add(o)
                if not callers[f.key] or f.key in P.addr_fns:
                    for (o, c, src) in self.obl.get(f.key, ()):
                        if o[0] == 'parm': continue
                        if o[0] == 'fld' and (o[1], o[2]) in self.traced: viol.setdefault((f.key, o, src), src)
                        elif o not in self.nonsafe: new.add(o)
            if not new: break
            self.nonsafe |= new
        self.rounds = rounds
        return viol, ncall

def escapes(b):
    """making a scope old comes with announcing the locals it has by then"""
    out = []; n = 0
    for f in b.fns:
        for nid, key, nm in b.P.calls[f.key]:
            if nm not in ('GCPromote', 'GCPromoteOnce'): continue
            a = f.nodes[nid]['c'][1:]
            if not b.scopeish(f, a[0]): continue
            n += 1
            ok = False
            for g in {f.key} | {k for _, k, _ in b.P.calls[f.key] if k in b.byk}:
                g = b.byk[g]
                for e, _, nm2 in b.P.calls[g.key]:
                    for y in b.barriered(g, e):
                        y = b.obj(g, y)
                        owners = b.loc(g, y) if g.nodes[y]['k'] != 'ref' else set().union(*([b.loc(g, r) for r in b.asg[g.key].get(g.nodes[y].get('d'), []) if r >= 0] or [set()]))
                        if ('fld',) + SCOPE in owners and b.inloop(g, e): ok = True
            if not ok: out.append(dict(key='%s keeps a scope' % f.key, loc=f.loc(nid), msg='%s makes a scope old without telling the collector about the locals it holds' % f.key))
    return out, n

def remembered(b):
    """announcing puts the object into the remember set, and a young collection frees nothing that is in it"""
    P = b.P; out = []; n = 0
    push = b.byk.get('pushRememberSet')
    if push is None: raise AnalysisError('pushRememberSet not found')
    def globs(f): return {m['name'] for m in f.nodes if m['k'] == 'ref' and m.get('dk') == 'global'}
    def stored(f):
        r = set()
        for i, m in enumerate(f.nodes):
            if m['k'] != 'asg' or m['op'] != '=': continue
            l = b.sk(f, m['c'][0])
            if f.nodes[l]['k'] not in ('idx', 'un'): continue
            v = f.nodes[b.sk(f, m['c'][1])]
            if v['k'] == 'ref' and v.get('dk') == 'parm':
                for o in b.loc(f, l):
                    if o[0] == 'global': r.add((o[1], i))
        return r
    todo = [push]; sets = set(); seen = set()
    while todo:
        f = todo.pop()
        if f.key in seen: continue
        seen.add(f.key)
        sets |= {g for g, _ in stored(f)}
        todo += [b.byk[k] for _, k, _ in P.calls[f.key] if k in b.byk]
    if not sets: raise AnalysisError('the remember set was not found')
    # every way through pushRememberSet stores the object, or has tested it for being there
    n += 1
    good = {push.owner_block[i] for _, i in stored(push) if i in push.owner_block}
    for nid, k, _ in P.calls[push.key]:
        if k in b.byk and stored(b.byk[k]) and nid in push.owner_block: good.add(push.owner_block[nid])
    def mentions(f, x, d):
        m = f.nodes[x]
        if m['k'] == 'ref' and m.get('d') == d: return True
        return any(mentions(f, c, d) for c in m['c'] if c is not None and c >= 0)
    def grows(f, x):
        m = f.nodes[x]
        if m['k'] == 'call' and m.get('fn') == 'vec_expand_': return True
        return any(grows(f, c) for c in m['c'] if c is not None and c >= 0)
    d = push.params[0].get('d')
    st = [push.entry]; vis = {push.entry}
    while st:
        x = st.pop()
        if x in good: continue
        if x == push.exit:
            out.append(dict(key='pushRememberSet loses objects', loc='%s:%d' % (push.file, push.line), msg='pushRememberSet can return without having remembered the object'))
            break
        B = push.blocks[x]
        if B.get('nr') or b.dies(push, B): continue
        if B.get('cond') is not None and mentions(push, B['cond'], d): continue
        if B.get('cond') is not None and grows(push, B['cond']): continue    # out of memory
        for s_ in B['s']:
            if s_ is not None and s_ not in vis: vis.add(s_); st.append(s_)
    # tests for membership
    tests = {f.key for f in b.fns if f.ret in ('bool', '_Bool', 'int') and globs(f) & sets and f.params}
    cy = b.byk.get('collectYoungGarbage')
    if cy is None: raise AnalysisError('collectYoungGarbage not found')
    where = [cy] + [b.byk[k] for _, k, _ in P.calls[cy.key] if k in b.byk and b.byk[k].file == cy.file and
                    any(nm == 'freeObject' for _, _, nm in P.calls[k]) and k != 'freeObject' and len(P.callers.get(k, ())) <= 1]
    for f in where:
        frees = [nid for nid, _, nm in P.calls[f.key] if nm == 'freeObject']
        for nid in frees:
            n += 1
            k = b.skey(f, f.nodes[nid]['c'][1])
            blk = f.owner_block[nid]
            # blocks from where the object is chosen (its last assignment): start over at each definition
            vs = b.vars_of(k) if k else set()
            defs = set()
            for e, bl in f.owner_block.items():
                kv, _ = b.killed(f, f.nodes[e])
                if kv & vs: defs.add(bl)
            start = defs or {f.entry}
            st = list(start); vis = set(start); hit = False
            while st and not hit:
                x = st.pop(); B = f.blocks[x]
                if B.get('nr') or b.dies(f, B): continue
                a = b.atom(f, B)
                cut = None
                if a is not None:
                    c, pol = a
                    m = f.nodes[c]
                    if m['k'] == 'call' and (b.callee(f, c).key if b.callee(f, c) else None) in tests and b.skey(f, m['c'][1]) == k: cut = 1 if pol else 0
                    elif m['k'] == 'ref' and m.get('dk') == 'local':
                        for r in b.asg[f.key].get(m['d'], []):
                            if r >= 0:
                                r = b.sk(f, r); m2 = f.nodes[r]
                                if m2['k'] == 'call' and (b.callee(f, r).key if b.callee(f, r) else None) in tests and b.skey(f, m2['c'][1]) == k: cut = 1 if pol else 0
                if x == blk and x not in start: hit = True; break
                for i, s_ in enumerate(B['s']):
                    if s_ is None or i == cut: continue
                    if s_ == blk: hit = True
                    elif s_ not in vis: vis.add(s_); st.append(s_)
            if hit and f is cy: out.append(dict(key='%s frees remembered objects' % f.key, loc=f.loc(nid), msg='%s can free an object without having looked for it in the remember set' % f.key))
            # the set must still be there
            for e, bl in f.owner_block.items():
                m = f.nodes[e]
                if m['k'] == 'asg' and m['op'] == '=' and cint(f, m['c'][1]) == 0:
                    l = f.nodes[b.sk(f, m['c'][0])]
                    if l['k'] == 'mem' and any(o in b.loc(f, m['c'][0]) for o in {('global', g) for g in sets}):
                        seen2 = {bl}; st = [bl]
                        if bl == blk and f.blocks[bl]['e'].index(e) < f.blocks[bl]['e'].index(nid): seen2.add(None)
                        r = False
                        while st:
                            for s_ in f.blocks[st.pop()]['s']:
                                if s_ == blk: r = True
                                if s_ is not None and s_ not in seen2: seen2.add(s_); st.append(s_)
                        if r or None in seen2: out.append(dict(key='%s empties the remember set early' % f.key, loc=f.loc(e), msg='%s empties the remember set before it frees objects' % f.key))
    return out, n

def run_barrier(ctx):
    b = Barrier(ctx.P, ctx.W)
    viol, n = b.run()
    out, m = escapes(b)
    n += m
    o, m = remembered(b)
    out += o; n += m
    for (fk, o, src), loc in sorted(viol.items(), key=str):
        out.append(dict(key='%s %s.%s' % (fk, o[1], o[2]), loc=src,
                        msg='%s puts a reference into `%s.%s` of a heap object without telling the collector' % (fk, o[1], o[2])))
    return dict(violations=out, obligations=n, coverage={'places': sorted('%s.%s' % p for p in b.traced), 'old_types': sorted(b.oldrec),
                'unannounced': sorted('.'.join(map(str, o[1:])) for o in b.nonsafe), 'rounds': b.rounds, 'samples': ['%s.%s' % p for p in sorted(b.traced)[:3]]})
