"""G05, second part: an element read from an array or map is not used after script code ran that can have removed it."""
import collections
from program import AnalysisError
from .vmcode import strip, cint
from . import moved, rooted

class Held:
    def __init__(self, P, W):
        self.M = moved.Moved(P, W); self.P = P; self.W = W; self.reads = 0; self.uses = 0
        self.gives = {}; self.outs = {}
        self.keeps = rooted.Rooted(P, W).keeps()
        self.summarise()
    def summarise(self):
        """functions that return, or store through a parameter, an element of what a parameter holds"""
        ch = True; n = 0
        while ch and n < 6:
            ch = False; n += 1
            for f in self.M.fns:
                if f.key in self.W.noreturn: continue
                g = set(); o = set()
                for e, m in enumerate(f.nodes):
                    if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0:
                        for own in self.elem(f, m['c'][0]):
                            if own and own[0] == 'p': g.add(own[1])
                    if m['k'] == 'asg' and m['op'] == '=':
                        l = f.nodes[strip(f, m['c'][0])]
                        if l['k'] == 'un' and l['op'] == '*':
                            r = f.nodes[strip(f, l['c'][0])]
                            if r['k'] == 'ref' and r.get('dk') == 'parm':
                                for own in self.elem(f, m['c'][1]):
                                    if own and own[0] == 'p': o.add((r['pi'], own[1]))
                    if m['k'] == 'call' and m.get('fn'):
                        k = self.P.resolve(m['fn'], f)
                        for a, b in self.outs.get(k, ()):
                            if max(a, b) + 1 < len(m['c']):
                                r = f.nodes[strip(f, m['c'][a + 1])]; own = self.M.own(f, m['c'][b + 1])
                                own = self.base(own)
                                if r['k'] == 'ref' and r.get('dk') == 'parm' and own and own[0] == 'p': o.add((r['pi'], own[1]))
                if g != self.gives.get(f.key, set()) or o != self.outs.get(f.key, set()):
                    self.gives[f.key] = g; self.outs[f.key] = o; ch = True
    def base(self, o):
        while o and o[0] in ('m', 'd') : o = o[3] if o[0] == 'm' else o[1]
        return o
    def elem(self, f, x, depth=0):
        """owners of the storage the value of x was read from"""
        x = strip(f, x)
        if x is None or x < 0 or depth > 8: return []
        n = f.nodes[x]; k = n['k']
        if k == 'asg' and n['op'] == '=': return self.elem(f, n['c'][1], depth + 1)
        if k == 'mem' and n.get('rec') == 'Entry':
            return self.slot(f, n['c'][0], depth) if not n.get('arrow') else self.own(f, n['c'][0])
        if k == 'idx' or k == 'un' and n['op'] == '*': return self.slot(f, x, depth)
        if k == 'cond': return self.elem(f, n['c'][1], depth + 1) + self.elem(f, n['c'][2], depth + 1)
        if k == 'call' and n.get('fn'):
            kk = self.P.resolve(n['fn'], f)
            return [self.M.own(f, n['c'][i + 1]) for i in self.gives.get(kk, ()) if i + 1 < len(n['c'])]
        return []
    def own(self, f, p):
        """owners of the storage a pointer points into"""
        p = strip(f, p)
        if p is None or p < 0: return []
        n = f.nodes[p]
        if n['k'] == 'mem':
            s = moved.STORE.get((n.get('rec'), n['f']))
            return [self.M.own(f, n['c'][0])] if s in ('elements', 'slots') else []
        if n['k'] == 'bin' and n['op'] in ('+', '-'): return self.own(f, n['c'][0])
        if n.get('incdec'): return self.own(f, n['c'][0])
        if n['k'] == 'un' and n['op'] == '&': return self.slot(f, n['c'][0], 0)
        if n['k'] == 'ref' and n.get('dk') == 'local' and 'd' in n:
            return [o for r in self.M.defs(f, n['d']) for o in (self.own(f, r) if f.nodes[strip(f, r)]['k'] != 'ref' else [])]
        return []
    def slot(self, f, x, depth):
        x = strip(f, x); n = f.nodes[x]
        if n['k'] == 'asg' and n['op'] == '=': return self.slot(f, n['c'][1], depth + 1)
        if n['k'] == 'idx': return self.own(f, n['c'][0])
        if n['k'] == 'un' and n['op'] == '*': return self.own(f, n['c'][0])
        return []
    def toks(self, f, x, st, depth=0):
        """what the object value x may be"""
        x = strip(f, x)
        if x is None or x < 0 or depth > 12: return frozenset()
        n = f.nodes[x]; k = n['k']
        if k == 'ref' and 'd' in n: return st.get(n['d'], frozenset())
        if k == 'mem' and not n.get('arrow') and n.get('rec') == 'Entry':
            return self.toks(f, n['c'][0], st, depth + 1)
        if k == 'call' and n.get('fn') and len(n['c']) == 2:      # unboxing
            o = self.M.own(f, x)
            kk = self.P.resolve(n['fn'], f)
            if kk and self.unbox(kk): return self.toks(f, n['c'][1], st, depth + 1)
        if k == 'call' and n.get('fn') == '__builtin_expect': return self.toks(f, n['c'][1], st, depth + 1)
        if k == 'cond': return self.toks(f, n['c'][1], st, depth + 1) | self.toks(f, n['c'][2], st, depth + 1)
        if k == 'bin' and n['op'] in ('&', '|', '^') : return self.toks(f, n['c'][0], st, depth + 1) | self.toks(f, n['c'][1], st, depth + 1) if not str(n.get('cty', n.get('ty'))) in ('int', 'bool') else frozenset()
        return frozenset()
    def unbox(self, k):
        g = self.P.fns[k]
        rs = [m['c'][0] for m in g.nodes if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0]
        return len(rs) == 1 and len(g.nodes) < 40 and len(g.params) == 1 and '*' in str(g.ret if hasattr(g, 'ret') else '*') and self.M.own(g, rs[0]) == ('p', 0)
    def function(self, f, report):
        ins = {f.entry: {}}; work = [f.entry]; rounds = collections.Counter()
        while work:
            b = work.pop(); rounds[b] += 1
            if rounds[b] > 25: continue
            st = dict(ins[b]); B = f.blocks[b]
            for e in B['e']:
                n = f.nodes[e]; k = n['k']
                if k == 'call' or k == 'mem' and n.get('arrow'):
                    for a in (n['c'][1:] if k == 'call' else n['c'][:1]):
                        for t in self.toks(f, a, st):
                            self.uses += 1
                            if t[0] == 'st': report(f, e, a, t)
                if k == 'call' and n.get('fn'):
                    kk = self.P.resolve(n['fn'], f)
                    if kk in self.M.script and kk not in self.W.noreturn and not (self.P.fns[kk].file == 'table.c' and not self.M.mapstable(f, e)):
                        st = {d: frozenset(t if t[0] == 'st' else ('st', t[1], n['line'], t[2]) for t in ts) for d, ts in st.items()}
                    if kk:
                        for a, bb in self.outs.get(kk, ()):
                            if max(a, bb) + 1 >= len(n['c']): continue
                            r = f.nodes[strip(f, n['c'][a + 1])]
                            if r['k'] == 'un' and r['op'] == '&':
                                r = f.nodes[strip(f, r['c'][0])]
                                o = self.M.own(f, n['c'][bb + 1])
                                if r['k'] == 'ref' and 'd' in r and not self.safe(f, o): st[r['d']] = frozenset([('el', n['line'], str(o))]); self.reads += 1
                        if self.roots(f, e, kk):
                            for a in n['c'][1:]:
                                ts = self.toks(f, a, st)
                                if ts: st = {d: v - ts for d, v in st.items()}
                elif k == 'asg' and n['op'] == '=':
                    l = f.nodes[strip(f, n['c'][0])]
                    if l['k'] == 'ref' and 'd' in l: st[l['d']] = self.value(f, n['c'][1], st, n['line'])
                    elif l['k'] in ('mem', 'idx') or l['k'] == 'un':      # kept somewhere
                        ts = self.toks(f, n['c'][1], st)
                        if ts: st = {d: v - ts for d, v in st.items()}
                elif k == 'decl':
                    for v in n['vars']:
                        if v['init'] >= 0: st[v['d']] = self.value(f, v['init'], st, n['line'])
                        else: st.pop(v['d'], None)
            if B.get('nr'): continue
            for s in f.succs(b):
                old = ins.get(s)
                if old is None: ins[s] = dict(st); work.append(s)
                else:
                    ch = False
                    for d, ts in st.items():
                        o = old.get(d, frozenset())
                        if not ts <= o: old[d] = o | ts; ch = True
                    if ch and s not in work: work.append(s)
    def value(self, f, x, st, line):
        os = self.elem(f, x)
        y = strip(f, x); n = f.nodes[y]
        if not os and n['k'] in ('idx', 'un'): os = self.slot(f, y, 0)
        os = [o for o in os if not self.safe(f, o)]
        if os: self.reads += 1; return frozenset(('el', line, str(o)) for o in os)
        return self.toks(f, x, st)
    def safe(self, f, o): return o is None or self.M.internal(o) or self.M.freshown(f, o)
    def roots(self, f, e, kk):
        return kk in self.keeps or self.P.fns[kk].name in ('push', 'vm_push', 'hideFromGC', 'objWrite', 'arrayPush', 'mapSet', 'tableSet')
    def run(self):
        vs = {}
        def report(f, e, a, t):
            nm = f.nodes[strip(f, a)].get('name')
            if not nm:
                for c in f.nodes[strip(f, a)]['c']:
                    nm = nm or f.nodes[strip(f, c)].get('name')
            key = '%s element %s' % (f.key, nm)
            vs.setdefault(key, dict(key=key, loc=f.loc(e), msg='%s uses %s, an element read in line %d, after line %d, which may run script code that removes it so that it is collected' % (f.name, nm or 'a value', t[1], t[2])))
        for f in self.M.fns: self.function(f, report)
        return [vs[k] for k in sorted(vs)]

def run(ctx):
    H = Held(ctx.P, ctx.W)
    vs = H.run()
    if H.reads < 20: raise AnalysisError('too few reads of elements found (%d)' % H.reads)
    r = rooted.run(ctx)
    return dict(violations=r['violations'] + vs, obligations=r['obligations'] + H.reads + H.uses, coverage=dict(r['coverage'], **{'elements read from arrays and maps': H.reads, 'uses of such elements': H.uses}))
