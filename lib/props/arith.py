"""Whole-number division: no divisor that ends the interpreter."""
from program import AnalysisError
from props.vmcode import strip, cint, parm_index, owner

def skey(f, x):
    """structure of an expression; None when it may differ each time"""
    n = f.nodes[x]
    k = n['k']
    v = n.get('cv')
    if v is not None: return ('c', int(v))
    if k == 'paren': return skey(f, n['c'][0])
    if k == 'cast':
        s = skey(f, n['c'][0])
        if s is None: return None
        t = n.get('ty')
        u = f.nodes[n['c'][0]].get('cty', f.nodes[n['c'][0]].get('ty'))
        if t == f.nodes[n['c'][0]].get('ty'): return s
        return ('fcast' if u in ('double', 'float') and n.get('cty', t) not in ('double', 'float') else 'cast', t, s)
    if k == 'ref': return ('v', n.get('d', n.get('name')))
    if k == 'mem':
        s = skey(f, n['c'][0]); return None if s is None else ('m', n['f'], s)
    if k == 'idx' or k == 'bin':
        a = skey(f, n['c'][0]); b = skey(f, n['c'][1])
        return None if a is None or b is None else (k, n.get('op'), a, b)
    if k == 'un':
        if n.get('incdec'): return None
        s = skey(f, n['c'][0]); return None if s is None else ('u', n['op'], s)
    if k == 'call' and 'fn' in n:
        a = [skey(f, c) for c in n['c'][1:]]
        return None if None in a else ('call', n['fn'], tuple(a))
    return None

def vars_of(k, out):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == 'v': out.add(k[1])
        else:
            for c in k: vars_of(c, out)
    return out

def has_mem(k):
    return isinstance(k, tuple) and (k[0] in ('m', 'idx') or k[0] == 'u' and k[1] == '*' or any(has_mem(c) for c in k if isinstance(c, tuple)))

def forms(k):
    """the expression, and what it is a value-keeping copy of"""
    yield k, False
    frac = False
    while isinstance(k, tuple) and k[0] in ('cast', 'fcast') and (wide(k[1]) or k[1] in ('double', 'float')):
        frac |= k[0] == 'fcast'
        k = k[2]; yield k, frac

def wide(t): return t in ('int', 'long', 'long long', 'size_t', 'ssize_t', 'unsigned long', 'unsigned int', 'int64_t')

class Facts:
    """must-analysis: what a divisor is known not to be"""
    def __init__(self, f, ks):
        self.f = f; self.ks = ks
        vs = set()
        for k in ks: vars_of(k, vs)
        self.vs = vs; self.mem = any(has_mem(k) for k in ks)
        self.inn = {f.entry: frozenset()}
        todo = [f.entry]
        while todo:
            b = todo.pop()
            st = self.step(b, self.inn[b])
            B = f.blocks[b]
            if B.get('nr'): continue
            for i, s in enumerate(B['s']):
                if s is None: continue
                t = self.edge(B, i, st)
                if t is None: continue
                o = self.inn.get(s)
                n = t if o is None else o & t
                if n != o: self.inn[s] = n; todo.append(s)
    def kills(self, n):
        f = self.f
        if n['k'] == 'asg' or n.get('incdec'):
            m = f.nodes[strip(f, n['c'][0])]
            if m['k'] == 'ref': return m.get('d', m.get('name')) in self.vs
            return self.mem
        if n['k'] == 'decl': return any(v['d'] in self.vs for v in n['vars'])
        if n['k'] == 'call': return self.mem and not n.get('fn', '').startswith(('AS_', 'value', 'IS_'))
        return False
    def step(self, b, st, upto=None):
        for e in self.f.blocks[b]['e']:
            if e == upto: return st
            n = self.f.nodes[e]
            if self.kills(n):
                gen = frozenset()
                st = gen
                src = None
                if n['k'] == 'asg' and n['op'] == '=': src = n['c'][1]
                elif n['k'] == 'decl' and len(n['vars']) == 1 and n['vars'][0]['init'] >= 0: src = n['vars'][0]['init']
                if src is not None: st = self.ofvalue(src)
        return st
    def ofvalue(self, x):
        f = self.f; v = cint(f, x)
        if v is not None:
            out = set()
            if v != 0: out.add(0)
            if v != -1: out.add(-1)
            if v >= 0: out.add('nn')
            return frozenset(out)
        y = strip(f, x); n = f.nodes[y]
        if n['k'] == 'un' and n['op'] == 'sizeof' or n['k'] == 'sizeof': return frozenset({0, -1, 'nn'})
        if n['k'] == 'bin' and n['op'] == '+':
            for p, q in (n['c'], n['c'][::-1]):
                if cint(f, p) is not None and cint(f, p) > 0 and 'unsigned' in f.nodes[q].get('cty', f.nodes[q].get('ty', '')): return frozenset({0, -1, 'nn'})
        return frozenset()
    def edge(self, B, i, st):
        f = self.f
        c = B.get('cond')
        if c is None or len(B['s']) != 2 or (B.get('t') or '').startswith('Switch'): return st
        y = c; pol = (i == 0)
        while True:
            v = cint(f, y)
            if v is not None: return st if bool(v) == pol else None
            n = f.nodes[y]
            if n['k'] == 'bin' and n['op'] in ('&&', '||'): y = n['c'][1]; continue
            if n['k'] in ('paren',) or n['k'] == 'cast' and n.get('ty') in ('int', 'long', '_Bool', 'bool') and f.nodes[n['c'][0]].get('ty') in ('int', '_Bool', 'bool'): y = n['c'][0]; continue
            if n['k'] == 'un' and n['op'] == '!': y = n['c'][0]; pol = not pol; continue
            if n['k'] == 'call' and n.get('fn') == '__builtin_expect': y = n['c'][1]; continue
            break
        n = f.nodes[y]
        out = set(st)
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
            for sw, (p, q) in enumerate((n['c'], n['c'][::-1])):
                v = cint(f, q)
                if v is None or v != v: continue
                how = self.same(p)
                if not how: continue
                op = n['op']
                if sw: op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if not pol: op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
                if how == 'frac' and op in ('!=', '<', '>') and not (op == '>' and v >= 1) and not (op == '<' and v <= -2):
                    # 0.5 is cut to 0
                    if op == '>' and v >= -1: out |= {-1, 'nn'}
                    if op == '<' and v <= -1: out.add(0)
                    continue
                if op == '!=' : out.add(v)
                if op == '==': out |= {x for x in (0, -1) if x != v} | ({'nn'} if v >= 0 else set())
                if op == '>' and v >= 0 or op == '>=' and v > 0: out |= {0, -1, 'nn'}
                if op == '>=' and v == 0 or op == '>' and v == -1: out |= {-1, 'nn'}
                if op == '<' and v <= 0: out.add(0)
                if op == '<' and v <= -1: out |= {0, -1}
        elif self.same(y) == 'exact' and pol: out.add(0)
        elif self.same(y) == 'exact' and not pol: out.add(-1)
        return frozenset(out)
    def same(self, x):
        k = skey(self.f, x)
        if k is None: return None
        fs = dict(reversed(list(forms(k))))
        best = None
        for d in self.ks:
            for g, frac in forms(d):
                if g in fs:
                    if not frac and not fs[g] or frac and fs[g]: return 'exact'
                    if frac and not fs[g]: best = 'frac'
        return best

class Div:
    def __init__(self, P):
        self.P = P; self.memo = {}
    def known(self, f, nid, x, depth=0, seen=frozenset()):
        """what the value of x at node nid is known not to be, plus why not"""
        v = cint(f, x)
        if v is not None: return frozenset(({0} if v != 0 else set()) | ({-1} if v != -1 else set()) | ({'nn'} if v >= 0 else set()))
        k = skey(f, x)
        out = frozenset()
        t = f.nodes[x].get('cty', f.nodes[x].get('ty', ''))
        if k is not None:
            F = Facts(f, [k])
            b = owner(f, nid)
            e = nid
            while e is not None and e not in f.owner_block: e = f.parent.get(e)
            if b in F.inn: out = F.step(b, F.inn[b], e)
            else: return frozenset({0, -1, 'nn'})          # not reached
        out |= Facts.ofvalue(type('X', (), {'f': f})(), x)
        if 'unsigned' in t or t in ('size_t',): out |= {-1, 'nn'}
        if {0, -1} <= out: return out
        p = parm_index(f, x)
        if p is not None and depth < 3 and (f.key, p) not in seen and not any(n['k'] == 'asg' and parm_index(f, n['c'][0]) == p for n in f.nodes):
            cs = [(c, i) for c in sorted(self.P.callers[f.key]) for i, kk, _ in self.P.calls[c] if kk == f.key]
            if cs and not self.P.addr_fns.get(f.key):
                r = None
                for c, i in cs:
                    a = self.P.fns[c].nodes[i]['c'][1:]
                    q = self.known(self.P.fns[c], i, a[p], depth + 1, seen | {(f.key, p)}) if p < len(a) else frozenset()
                    r = q if r is None else r & q
                out |= r
        return out

def integral(f, x):
    n = f.nodes[x]
    t = n.get('cty', n.get('ty', ''))
    return not any(w in t for w in ('double', 'float')) and '*' not in t

def run_div(ctx):
    P = ctx.P
    D = Div(P)
    vs = []; ob = 0; consts = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.file.startswith('vendor') or '/vendor/' in f.file: continue
        for i, n in enumerate(f.nodes):
            if n['k'] == 'bin' and n['op'] in ('/', '%') or n['k'] == 'asg' and n['op'] in ('/=', '%='):
                l, r = n['c'][0], n['c'][1]
                if not integral(f, l) or not integral(f, r) or owner(f, i) is None: continue
                v = cint(f, r)
                if v is not None:
                    consts += 1
                    if v not in (0, -1): continue
                ob += 1
                kn = D.known(f, i, r)
                dk = D.known(f, i, l)
                if 0 not in kn:
                    vs.append(dict(key='%s %s zero' % (f.key, n['op']), loc=f.loc(i), msg='%s divides whole numbers by what may be 0' % f.key))
                elif -1 not in kn and 'nn' not in dk and signed(f, r) and signed(f, l) and not wider(f, l, r):
                    vs.append(dict(key='%s %s -1' % (f.key, n['op']), loc=f.loc(i), msg='%s divides whole numbers by what may be -1, which overflows for the smallest number' % f.key))
    return dict(violations=vs, obligations=ob, coverage=dict(divisions=ob, constant_divisors=consts))

def signed(f, x):
    t = f.nodes[x].get('cty', f.nodes[x].get('ty', ''))
    return 'unsigned' not in t and t not in ('size_t', 'bytecode_t', 'uint32_t', 'uint64_t')

def wider(f, l, r):
    """a value that was widened to the type the division is made in isn't its smallest"""
    n = f.nodes[l]
    while n['k'] in ('cast', 'paren') and n['c']:
        m = f.nodes[n['c'][0]]
        a = m.get('cty', m.get('ty', '')); b = n.get('cty', n.get('ty', ''))
        if b.startswith('long') and a in ('int', 'short', 'char', 'unsigned int', 'signed char', 'unsigned char'): return True
        n = m
    return False
