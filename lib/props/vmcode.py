"""Byte code: what the compiler emits, the interpreter reads and the listing steps over."""
import collections
from program import AnalysisError

CAP = 9

def strip(f, x):
    while x is not None and x >= 0 and f.nodes[x]['k'] in ('cast', 'paren'): x = f.nodes[x]['c'][0]
    return x

def cint(f, x):
    if x is None or x < 0: return None
    n = f.nodes[x]
    v = n.get('cv')
    if v is None:
        y = strip(f, x)
        v = f.nodes[y].get('cv') if y is not None and y >= 0 else None
    try: return int(v) if v is not None else None
    except ValueError: return None

def opcodes(P):
    e = P.enums.get('OpCode')
    if e is None:
        for x in P.enums.values():
            if sum(c['name'].startswith('OP_') for c in x['consts']) > 40: e = x
    if e is None: raise AnalysisError('enumeration of the opcodes not found')
    r = {int(c['v']): c['name'] for c in e['consts'] if c['name'].startswith('OP_')}
    if len(r) < 40: raise AnalysisError('only %d opcodes found' % len(r))
    return r

def lhs_field(f, x):
    """(record, field, base) of a member lvalue"""
    x = strip(f, x)
    if x is None or x < 0: return None
    n = f.nodes[x]
    if n['k'] == 'mem': return n.get('rec'), n['f'], n['c'][0]
    return None

def parm_index(f, x):
    x = strip(f, x)
    if x is None or x < 0: return None
    n = f.nodes[x]
    if n['k'] == 'ref' and n.get('dk') == 'parm': return n['pi']
    return None

# ---------------------------------------------------------------- constants of locals, path-sensitively

class Consts:
    """At chosen nodes of one function: the (variable -> constant) combinations that can hold."""
    def __init__(self, f, want):
        self.f = f
        # relevant variables: those asked about, those they are copied from, those compared with constants beside them
        rel = set(want)
        ch = True
        while ch:
            ch = False
            for l, r in self.assigns():
                if l in rel:
                    for y in self.refs(r):
                        if y not in rel: rel.add(y); ch = True
        assigned = collections.Counter(l for l, r in self.assigns())
        # conditions over parameters/flags that select between the assignments
        for b in f.blocks.values():
            c = self.atom(b)
            if c and (c[0] in f_parms(f) and not assigned[c[0]] or self.constish(c[0])): rel.add(c[0])
        self.rel = {d for d in rel if d not in f.addrtaken}
        self.at = collections.defaultdict(set)
        self.run()
    def constish(self, d):
        rs = [r for l, r in self.assigns() if l == d]
        return bool(rs) and all(cint(self.f, r) is not None for r in rs)
    def assigns(self):
        c = self.f._x.get('asgs')
        if c is None:
            c = []
            for i, n in enumerate(self.f.nodes):
                if n['k'] == 'asg' and n['op'] == '=':
                    m = self.f.nodes[strip(self.f, n['c'][0])]
                    if m['k'] == 'ref' and 'd' in m: c.append((m['d'], n['c'][1]))
                elif n['k'] == 'decl':
                    for v in n['vars']:
                        if v['init'] >= 0: c.append((v['d'], v['init']))
            self.f._x['asgs'] = c
        return c
    def refs(self, x):
        x = strip(self.f, x)
        if x is None or x < 0: return
        n = self.f.nodes[x]
        if n['k'] == 'ref' and 'd' in n and n.get('dk') in ('local', 'parm'): yield n['d']
        elif n['k'] == 'cond':
            yield from self.refs(n['c'][1]); yield from self.refs(n['c'][2])
    def atom(self, b):
        """(variable, constant, polarity) when the block ends in a test of a variable against a constant"""
        f = self.f
        x = b.get('cond')
        if x is None or len(b['s']) != 2: return None
        pol = True
        while True:
            x = strip(f, x)
            if x is None or x < 0: return None
            n = f.nodes[x]
            if n['k'] == 'bin' and n['op'] in ('&&', '||'): x = n['c'][1]; continue
            if n['k'] == 'un' and n['op'] == '!': x = n['c'][0]; pol = not pol; continue
            break
        if n['k'] == 'bin' and n['op'] in ('==', '!='):
            a, c = n['c']
            v = cint(f, c)
            if v is None: a, c = c, a; v = cint(f, c)
            a = strip(f, a)
            if v is None or f.nodes[a]['k'] != 'ref' or 'd' not in f.nodes[a] or f.nodes[a].get('dk') not in ('local', 'parm'): return None
            return f.nodes[a]['d'], v, (n['op'] == '==') == pol
        if n['k'] == 'ref' and n.get('dk') in ('local', 'parm') and 'd' in n: return n['d'], 0, not pol
        return None
    def val(self, x, st):
        f = self.f
        v = cint(f, x)
        if v is not None: return {v}
        x = strip(f, x)
        if x is None or x < 0: return {None}
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n: return {st.get(n['d'])}
        if n['k'] == 'cond': return self.val(n['c'][1], st) | self.val(n['c'][2], st)
        return {None}
    def run(self):
        f = self.f
        if f.entry is None: return
        todo = [(f.entry, frozenset())]
        seen = set(todo)
        while todo:
            b, s0 = todo.pop()
            if len(seen) > 200000: raise AnalysisError('too many constant states in %s' % f.key)
            sts = [dict(s0)]
            B = f.blocks[b]
            for e in B['e']:
                n = f.nodes[e]
                for st in sts: self.at[e].add(frozenset(st.items()))
                pairs = []
                if n['k'] == 'decl': pairs = [(v['d'], v['init']) for v in n['vars']]
                elif n['k'] == 'asg':
                    m = f.nodes[strip(f, n['c'][0])]
                    if m['k'] == 'ref' and 'd' in m: pairs = [(m['d'], n['c'][1] if n['op'] == '=' else -1)]
                elif n.get('incdec'):
                    m = f.nodes[strip(f, n['c'][0])]
                    if m['k'] == 'ref' and 'd' in m: pairs = [(m['d'], -1)]
                for d, r in pairs:
                    if d not in self.rel: continue
                    out = []
                    for st in sts:
                        for v in (self.val(r, st) if r >= 0 else {None}):
                            t = {k: w for k, w in st.items() if k != d and k != ('!', d)}
                            if v is not None: t[d] = v
                            out.append(t)
                    sts = out
            if B.get('nr'): continue
            a = self.atom(B)
            for i, s in enumerate(B['s']):
                if s is None: continue
                for st in sts:
                    t = st
                    if a and a[0] in self.rel:
                        d, v, pol = a
                        eq = (i == 0) == pol
                        if d in st:
                            if (st[d] == v) != eq: continue
                        elif eq:
                            if v in dict(st).get(('!', d), ()): continue
                            t = dict(st); t.pop(('!', d), None); t[d] = v
                        else:
                            t = dict(st); t[('!', d)] = tuple(sorted(set(t.get(('!', d), ())) | {v}))
                    k = (s, frozenset(t.items()))
                    if k not in seen: seen.add(k); todo.append(k)

def f_parms(f):
    c = f._x.get('parmd')
    if c is None:
        c = {n['d'] for n in f.nodes if n['k'] == 'ref' and n.get('dk') == 'parm' and 'd' in n}
        f._x['parmd'] = c
    return c

# ---------------------------------------------------------------- what is emitted

class Emit:
    def __init__(self, P, ops):
        self.P = P; self.ops = ops
        self.base = {}       # function -> (code parameter, operand count, [operand parameter])
        for f in P.fns.values():
            code = None; cnt = None; opn = {}
            for n in f.nodes:
                if n['k'] != 'asg' or n['op'] != '=': continue
                l = lhs_field(f, n['c'][0])
                if l and l[0] == 'Insn' and l[1] == 'code':
                    p = parm_index(f, n['c'][1])
                    if p is not None: code = p
                elif l and l[0] == 'Insn' and l[1] == 'numOperands':
                    v = cint(f, n['c'][1])
                    cnt = v if cnt is None else 'many'
                else:
                    x = strip(f, n['c'][0])
                    m = f.nodes[x]
                    if m['k'] == 'idx':
                        l = lhs_field(f, m['c'][0])
                        i = cint(f, m['c'][1])
                        if l and l[0] == 'Insn' and l[1] == 'operands' and i is not None:
                            opn[i] = parm_index(f, n['c'][1])
            if code is not None:
                if not isinstance(cnt, int): raise AnalysisError('%s builds an instruction with an unknown number of operands' % f.key)
                self.base[f.key] = (code, cnt, [opn.get(i) for i in range(cnt)])
        if len(self.base) < 3: raise AnalysisError('functions that build instructions not found')
        self.fns = dict(self.base)
        # words of data: wrappers that flag what they emit as data, rather than as an instruction
        self.data = set()
        for f in P.fns.values():
            for n in f.nodes:
                if n['k'] == 'asg' and n['op'] == '|=':
                    l = lhs_field(f, n['c'][0])
                    if l and l[0] == 'Insn' and l[1] == 'flags' and any(k in self.base and cint(f, f.nodes[i]['c'][1 + self.base[k][0]]) is None for i, k, _n in P.calls[f.key]): self.data.add(f.key)
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.key in self.fns: continue
                for nid, k, _ in P.calls[f.key]:
                    if k not in self.fns: continue
                    a = f.nodes[nid]['c'][1:]
                    cp, cnt, on = self.fns[k]
                    p = parm_index(f, a[cp])
                    if p is not None and not self.assigned(f, p):
                        self.fns[f.key] = (p, cnt, [parm_index(f, a[o]) if o is not None else None for o in on])
                        if k in self.data: self.data.add(f.key)
                        ch = True; break
        self.constfns()
        self.sites()
    def assigned(self, f, p):
        for n in f.nodes:
            if n['k'] == 'asg' and parm_index(f, n['c'][0]) == p: return True
        return False
    def constfns(self):
        """functions that return an index into the constant table"""
        P = self.P
        self.cfn = set()
        for f in P.fns.values():
            # the function that adds to Chunk.constants and returns where
            if f.name == 'addConstant' or f.name == 'makeConstant': self.cfn.add(f.key)
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.key in self.cfn: continue
                rs = [n['c'][0] for n in f.nodes if n['k'] == 'ret' and n['c'] and n['c'][0] >= 0]
                if rs and all(self.isconst(f, r, set()) for r in rs): self.cfn.add(f.key); ch = True
    def isconst(self, f, x, seen):
        x = strip(f, x)
        if x is None or x < 0 or x in seen: return False
        seen = seen | {x}
        n = f.nodes[x]
        if n['k'] == 'call': return 'fn' in n and self.P.resolve(n['fn'], f) in self.cfn
        if n['k'] == 'ref' and n.get('dk') == 'local' and 'd' in n:
            c = Consts.assigns(type('X', (), {'f': f})())
            rs = [r for l, r in c if l == n['d']]
            return bool(rs) and all(self.isconst(f, r, seen) for r in rs)
        return False
    def sites(self):
        P = self.P
        self.out = []       # (fn, nid, opcode, count, [operand expression])
        self.unres = []
        self.dsites = []
        for f in sorted(P.fns.values(), key=lambda f: f.key):
            calls = [(nid, k) for nid, k, _ in P.calls[f.key] if k in self.fns]
            if not calls: continue
            C = None
            for nid, k in calls:
                a = f.nodes[nid]['c'][1:]
                cp, cnt, on = self.fns[k]
                if k in self.data: self.dsites.append((f, nid)); continue
                if f.key in self.data: continue
                args = [a[o] if o is not None else None for o in on]
                x = a[cp]
                v = cint(f, x)
                if v is not None: self.out.append((f, nid, v, cnt, args)); continue
                p = parm_index(f, x)
                if p is not None and f.key in self.fns and self.fns[f.key][0] == p: continue
                y = strip(f, x)
                vs = set()
                n = f.nodes[y]
                if n['k'] == 'cond':
                    for z in n['c'][1:]: vs.add(cint(f, z))
                elif n['k'] == 'ref' and n.get('dk') in ('local', 'parm') and 'd' in n:
                    if C is None:
                        want = set()
                        for m, kk in calls:
                            z = strip(f, f.nodes[m]['c'][1:][self.fns[kk][0]])
                            if f.nodes[z]['k'] == 'ref' and 'd' in f.nodes[z]: want.add(f.nodes[z]['d'])
                        C = Consts(f, want)
                    for st in C.at.get(nid, ()): vs.add(dict(st).get(n['d']))
                else: vs = {None}
                for v in vs:
                    if v is None: self.unres.append((f, nid))
                    else: self.out.append((f, nid, v, cnt, args))
        # instructions that are rewritten in place
        self.rew = []
        for f in sorted(P.fns.values(), key=lambda f: f.key):
            for i, n in enumerate(f.nodes):
                if n['k'] != 'asg' or n['op'] != '=': continue
                l = lhs_field(f, n['c'][0])
                if not l or l[0] != 'Insn' or l[1] != 'code': continue
                v = cint(f, n['c'][1])
                if v is None: continue
                self.rew.append((f, i, v, l[2]))

# ---------------------------------------------------------------- what is read

def dominators(f):
    c = f._x.get('dom')
    if c is not None: return c
    order = f.rpo
    idx = {b: i for i, b in enumerate(order)}
    dom = {b: None for b in order}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == f.entry: continue
            s = None
            for p, _ in f.preds[b]:
                if p in dom and dom[p] is not None:
                    s = set(dom[p]) if s is None else s & dom[p]
            s = (s or set()) | {b}
            if s != dom[b]: dom[b] = s; ch = True
    f._x['dom'] = dom
    return dom

def is_ip(f, x, rec='CallFrame', field='ip'):
    l = lhs_field(f, x)
    return bool(l and l[1] == field and (l[0] == rec or l[0] is None))

class Reads:
    """counts of operand words read, from a block to a set of stop blocks (or to the exit)"""
    def __init__(self, P):
        self.P = P; self.memo = {}
    def delta(self, f, e):
        """(words read, node) by one element, or ('move', node) / ('fn', counts)"""
        n = f.nodes[e]
        if n.get('incdec') and is_ip(f, n['c'][0]): return [('read', 1 if '+' in n['op'] else -1, e)]
        if n['k'] == 'un' and n['op'] in ('++', '--', 'post++', 'pre++') and is_ip(f, n['c'][0]): return [('read', 1 if '+' in n['op'] else -1, e)]
        if n['k'] == 'asg' and is_ip(f, n['c'][0]):
            v = cint(f, n['c'][1])
            if n['op'] == '+=' and v is not None: return [('skip', v, e)]
            return [('move', 0, e)]
        if n['k'] == 'call' and 'fn' in n:
            k = self.P.resolve(n['fn'], f)
            if k and self.touches(k): return [('fn', k, e)]
        return []
    def touches(self, k):
        f = self.P.fns[k]
        c = f._x.get('touchip')
        if c is None:
            # helpers that step a frame they were given (not functions that set up or leave frames)
            c = any(n.get('incdec') and is_ip(f, n['c'][0]) for n in f.nodes) and not any((b.get('t') or '').startswith('IndirectGoto') for b in f.blocks.values())
            f._x['touchip'] = c
        return c
    def count(self, f, start, stops):
        """-> (set of totals, {read node: set of positions}, moves)"""
        tot = set(); pos = collections.defaultdict(set); moves = set()
        todo = [(start, 0, False)]; seen = set(todo)
        while todo:
            b, c, mv = todo.pop()
            B = f.blocks[b]
            cs = {c}
            for e in B['e']:
                for kind, v, nid in self.delta(f, e):
                    if kind == 'read':
                        for x in cs: pos[nid].add(x)
                        cs = {min(x + v, CAP) for x in cs}
                    elif kind == 'skip': cs = {min(x + v, CAP) for x in cs}
                    elif kind == 'move': moves.add(nid)
                    elif kind == 'fn':
                        t = self.fncounts(v)
                        cs = {min(x + y, CAP) for x in cs for y in t}
            if B.get('nr'): continue
            for s in B['s']:
                if s is None: continue
                for x in cs:
                    if s in stops or s == f.exit: tot.add(x); continue
                    k = (s, x, False)
                    if k not in seen: seen.add(k); todo.append(k)
        return tot, pos, moves
    def fncounts(self, k):
        if k not in self.memo:
            self.memo[k] = {0}
            f = self.P.fns[k]
            self.memo[k] = self.count(f, f.entry, set())[0] or {0}
        return self.memo[k]

def layout(ts):
    """set of totals -> (fixed words, words per repetition)"""
    if not ts: return None
    t = sorted(ts)
    if len(t) == 1: return (t[0], 0)
    st = {b - a for a, b in zip(t, t[1:])}
    if len(st) == 1 and len(t) > 2: return (t[0], st.pop())
    if t[-1] == CAP and len(t) > 3:
        st = {b - a for a, b in zip(t[:-1], t[1:-1])}
        if len(st) == 1: return (t[0], st.pop())
    return tuple(['?'] + t)

def vm_handlers(P, ops):
    """opcode -> (fn, start block), and the stop blocks"""
    cand = [f for f in P.fns.values() if any((b.get('t') or '').startswith('IndirectGoto') for b in f.blocks.values())]
    byname = {n[3:]: v for v, n in ops.items()}
    for f in cand:
        h = {}
        for b in f.blocks.values():
            l = b.get('label') or ''
            if l.startswith('code_') and l[5:] in byname: h[byname[l[5:]]] = b['id']
        if len(h) > 40:
            disp = [b['id'] for b in f.blocks.values() if (b.get('t') or '').startswith('IndirectGoto')]
            dom = dominators(f)
            stops = set()
            for d in disp: stops |= dom.get(d) or {d}
            return f, h, stops
    # a switch
    best = None
    for f in P.fns.values():
        if not any(n.get('incdec') and is_ip(f, n['c'][0]) for n in f.nodes): continue
        for b in f.blocks.values():
            if not (b.get('t') or '').startswith('Switch'): continue
            h = {}
            for s in f.succs(b['id']):
                v = casev(f, s)
                for x in v:
                    if x in ops: h[x] = s
            if len(h) > 40 and (best is None or len(h) > len(best[1])):
                best = (f, h, dominators(f).get(b['id']) or {b['id']})
    if best is None: raise AnalysisError('interpreter loop not found')
    return best

def casev(f, b):
    c = f.blocks[b].get('case')
    v = cint(f, c) if c is not None else None
    if v is not None and not (f.nodes[strip(f, c)].get('name') or 'OP_').startswith('OP_'): v = None
    return [] if v is None else [v]

def const_base(f, x):
    """x is (a copy of) the values of a chunk's constant table"""
    x = strip(f, x)
    if x is None or x < 0: return False
    n = f.nodes[x]
    if n['k'] == 'mem' and n['f'] == 'values':
        return True
    if n['k'] == 'ref' and 'd' in n and n.get('dk') == 'local':
        rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
        return any(f.nodes[strip(f, r)]['k'] == 'mem' and f.nodes[strip(f, r)]['f'] == 'values' for r in rs if strip(f, r) is not None and strip(f, r) >= 0)
    return False

def role_of(P, f, x, depth=0):
    """how the word read at node x is used: 'const' when it indexes the constants"""
    p = f.parent.get(x)
    cur = x
    while p is not None:
        n = f.nodes[p]
        if n['k'] in ('cast', 'paren') or n['k'] == 'un' and n['op'] == '*': cur = p; p = f.parent.get(p); continue
        if n['k'] == 'idx' and n['c'][1] == cur and const_base(f, n['c'][0]): return 'const'
        if n['k'] == 'call' and 'fn' in n and 'onstant' in n['fn'] and cur in n['c'][1:]: return 'const'
        if n['k'] == 'decl' and depth < 2:
            for v in n['vars']:
                if v['init'] == cur: return use_role(P, f, v['d'], depth + 1)
        if n['k'] == 'asg' and n['op'] == '=' and n['c'][1] == cur and depth < 2:
            m = f.nodes[strip(f, n['c'][0])]
            if m['k'] == 'ref' and 'd' in m: return use_role(P, f, m['d'], depth + 1)
        return None
    return None

def use_role(P, f, d, depth):
    for i, n in enumerate(f.nodes):
        if n['k'] == 'ref' and n.get('d') == d and role_of(P, f, i, depth) == 'const': return 'const'
    return None

# ---------------------------------------------------------------- what is listed

class Lin:
    """value of an expression as a*i + c (+ k per repetition), i being what one parameter was at `start`"""
    def __init__(self, P, f, parm, start=None):
        self.P = P; self.f = f; self.parm = parm
        self.start = f.entry if start is None else start
        self._in = None; self.busy = False
    def ev(self, x, depth=0):
        """x as it is where it stands"""
        f = self.f
        if self._in is None: self.run()
        b = owner(f, x)
        st = self._in.get(b)
        if st is None: st = self.init()
        else:
            e = x
            while e is not None and e not in f.owner_block: e = f.parent.get(e)
            st = self.step(b, st, e)
        return self.val(x, st, depth)
    def init(self):
        return {('p', self.parm): (1, 0, 0)}
    def run(self):
        f = self.f
        self._in = {self.start: self.init()}
        todo = [self.start]; n = 0
        while todo and n < 4000:
            b = todo.pop(); n += 1
            st = self.step(b, self._in[b])
            if f.blocks[b].get('nr'): continue
            for s in f.succs(b):
                o = self._in.get(s)
                if o is None: self._in[s] = st; todo.append(s); continue
                j = {k: (o[k] if o[k] == st[k] else None) if k in o and k in st else o.get(k, st.get(k)) if k not in o or k not in st else None for k in set(o) | set(st)}
                if j != o: self._in[s] = j; todo.append(s)
    def key(self, x):
        n = self.f.nodes[strip(self.f, x)]
        if n['k'] != 'ref': return None
        if n.get('dk') == 'parm': return ('p', n['pi'])
        return ('d', n['d']) if n.get('dk') == 'local' and 'd' in n else None
    def step(self, b, st, upto=None):
        f = self.f
        st = dict(st)
        for e in f.blocks[b]['e']:
            if e == upto: break
            n = f.nodes[e]
            if n['k'] == 'decl':
                for v in n['vars']: st[('d', v['d'])] = self.val(v['init'], st) if v['init'] >= 0 else None
            elif n['k'] == 'asg':
                k = self.key(n['c'][0])
                if k is None: continue
                r = self.val(n['c'][1], st)
                if n['op'] == '=': st[k] = r
                else: st[k] = self.comb(n['op'][:-1], st.get(k), r)
            elif n.get('incdec'):
                k = self.key(n['c'][0])
                if k is not None: st[k] = self.comb('-' if '--' in n['op'] else '+', st.get(k), (0, 1, 0))
            elif n['k'] == 'un' and n['op'] == '&':
                k = self.key(n['c'][0])
                if k is not None: st[k] = None
        return st
    def comb(self, op, a, b):
        if a is None or b is None: return None
        if op == '+': return tuple(p + q for p, q in zip(a, b))
        if op == '-': return tuple(p - q for p, q in zip(a, b))
        if op == '*' and b[0] == 0 and b[2] == 0: return tuple(p * b[1] for p in a)
        if op == '*' and a[0] == 0 and a[2] == 0: return tuple(p * a[1] for p in b)
        return None
    def val(self, x, st, depth=0):
        f = self.f
        v = cint(f, x)
        if v is not None: return (0, v, 0)
        x = strip(f, x)
        if x is None or x < 0 or depth > 6: return None
        n = f.nodes[x]
        if n['k'] == 'ref':
            k = self.key(x)
            if k is None: return None
            if k in st: return st[k]
            if k[0] == 'd':
                rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
                if len(rs) == 1:
                    if mentions(f, rs[0], 'upvalueCount'): return (0, 0, 1)
                    return self.val(rs[0], st, depth + 1)
            return None
        if n['k'] == 'mem' and n['f'] == 'upvalueCount' or n['k'] == 'call' and mentions(f, x, 'upvalueCount') and not n.get('fn'): return (0, 0, 1)
        if n.get('incdec'):
            k = self.key(n['c'][0]); o = st.get(k)
            # the element was done before: o is the value after it
            return o if o is None or not n.get('post') else self.comb('-' if n['op'] == '++' else '+', o, (0, 1, 0))
        if n['k'] == 'bin': return self.comb(n['op'], self.val(n['c'][0], st, depth + 1), self.val(n['c'][1], st, depth + 1))
        if n['k'] == 'call' and 'fn' in n:
            k = self.P.resolve(n['fn'], f)
            if not k: return None
            r = retlin(self.P, k, depth + 1)
            if r is None: return None
            pi, lin = r
            if pi is None: return lin
            a = n['c'][1:]
            if pi >= len(a): return None
            s = self.val(a[pi], st, depth + 1)
            if s is None: return None
            return (s[0] * lin[0], s[1] * lin[0] + lin[1], s[2] * lin[0] + lin[2])
        return None

def mentions(f, x, field, seen=None):
    seen = set() if seen is None else seen
    if x is None or x < 0 or x in seen: return False
    seen.add(x)
    n = f.nodes[x]
    if n['k'] == 'mem' and n['f'] == field: return True
    return any(mentions(f, c, field, seen) for c in n['c'])

def retlin(P, k, depth=0):
    """(parameter, linear form) of what a function returns, when all returns agree"""
    f = P.fns[k]
    c = f._x.get('retlin', 0)
    if c != 0: return c
    f._x['retlin'] = None
    rs = [n['c'][0] for n in f.nodes if n['k'] == 'ret' and n['c'] and n['c'][0] >= 0]
    res = None
    if rs and depth < 5:
        for pi in range(len(f.params)):
            if f.params[pi].get('cty', f.params[pi].get('ty', '')) not in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'bytecode_t'): continue
            L = Lin(P, f, pi)
            vs = {L.ev(r) for r in rs}
            if len(vs) == 1 and None not in vs and next(iter(vs))[0] == 1: res = (pi, vs.pop()); break
    f._x['retlin'] = res
    return res

def listings(P, ops):
    """functions that switch on the opcode and return the position after the instruction"""
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.ret not in ('int', 'long', 'size_t', 'unsigned int'): continue
        for b in f.blocks.values():
            if not (b.get('t') or '').startswith('Switch'): continue
            x = b.get('cond')
            if x is None or not reads_code(f, x): continue
            h = {}; dflt = None
            for s in f.succs(b['id']):
                v = casev(f, s)
                for y in v:
                    if y in ops: h[y] = s
                if not v: dflt = s
            if len(h) >= 30:
                # consecutive case labels share a block through fallthrough
                out.append((f, h, dflt))
    return out

def reads_code(f, x, depth=0):
    x = strip(f, x)
    if x is None or x < 0 or depth > 4: return False
    n = f.nodes[x]
    if n['k'] == 'idx': return mentions(f, n['c'][0], 'code')
    if n['k'] == 'ref' and 'd' in n:
        return any(reads_code(f, r, depth + 1) for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d'])
    return False

def returns_from(f, b):
    seen = {b}; todo = [b]; out = []
    while todo:
        c = todo.pop()
        B = f.blocks[c]
        rr = [e for e in B['e'] if f.nodes[e]['k'] == 'ret']
        if rr: out += rr; continue
        for s in f.succs(c):
            if s not in seen: seen.add(s); todo.append(s)
    return out

def list_roles(P, f):
    """operand positions (1-based) that a listing helper uses as an index of the constants"""
    c = f._x.get('lroles')
    if c is not None: return c
    out = {}
    ls = [Lin(P, f, pi) for pi in range(len(f.params))]
    for i, n in enumerate(f.nodes):
        if n['k'] != 'idx' or not mentions(f, n['c'][0], 'code') or owner(f, i) is None: continue
        for L in ls:
            r = L.ev(n['c'][1])
            if r and r[0] == 1 and r[2] == 0:
                ro = role_of(P, f, i)
                if ro: out.setdefault(r[1], ro)
                else: out.setdefault(r[1], None)
    f._x['lroles'] = out
    return out

# ---------------------------------------------------------------- V01

def unused(f, x):
    """the word read at x is thrown away"""
    p = f.parent.get(x); cur = x
    while p is not None:
        n = f.nodes[p]
        if n['k'] in ('cast', 'paren') or n['k'] == 'un' and n['op'] == '*': cur = p; p = f.parent.get(p); continue
        ds = []
        if n['k'] == 'decl': ds = [v['d'] for v in n['vars'] if v['init'] == cur]
        elif n['k'] == 'asg' and n['op'] == '=' and n['c'][1] == cur:
            m = f.nodes[strip(f, n['c'][0])]
            if m['k'] == 'ref' and 'd' in m: ds = [m['d']]
        if not ds: return False
        lhs = {m['c'][0] for m in f.nodes if m['k'] == 'asg'}
        for i, m in enumerate(f.nodes):
            if m['k'] == 'ref' and m.get('d') == ds[0] and i not in lhs:
                q = f.parent.get(i)
                if q is not None and f.nodes[q]['k'] == 'cast' and f.nodes[q].get('ty') == 'void': continue
                return False
        return True
    return True

def maybe_const(E, f, x, seen=frozenset()):
    """(can, must) be an index of the constants"""
    x = strip(f, x)
    if x is None or x < 0 or x in seen: return False, False
    seen = seen | {x}
    n = f.nodes[x]
    if n['k'] == 'call':
        r = 'fn' in n and E.P.resolve(n['fn'], f) in E.cfn
        if r: return True, True
        k = E.P.resolve(n['fn'], f) if 'fn' in n else None
        if k:
            g = E.P.fns[k]
            rs = [m['c'][0] for m in g.nodes if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0]
            return any(maybe_const(E, g, r, seen)[0] for r in rs) if len(seen) < 4 else False, False
        return False, False
    if n['k'] == 'cond':
        a = maybe_const(E, f, n['c'][1], seen); b = maybe_const(E, f, n['c'][2], seen)
        return a[0] or b[0], a[1] and b[1]
    if n['k'] == 'ref' and 'd' in n:
        if n.get('dk') == 'parm': return True, False       # judged by the caller's value, which is not followed
        rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
        v = [maybe_const(E, f, r, seen) for r in rs]
        return any(a for a, b in v), bool(v) and all(b for a, b in v)
    return False, False

def words_before(E, f, i, base):
    """how many operands the instruction rewritten at node i has there, when that can be told"""
    blk = None
    x = i
    while x is not None and x not in f.owner_block: x = f.parent.get(x)
    if x is None: return None
    blk = f.owner_block[x]
    key = ekey(f, base)
    els = f.blocks[blk]['e']
    cur = els.index(x)
    # after: the count may be set behind the change of the opcode
    plus = 0; setv = None
    def look(lst):
        p = 0; s = None
        for e in lst:
            n = f.nodes[e]
            if n['k'] == 'asg':
                l = lhs_field(f, n['c'][0])
                if l and l[1] == 'numOperands' and ekey(f, l[2]) == key:
                    v = cint(f, n['c'][1])
                    if n['op'] == '=': s = v; p = 0
                    elif n['op'] == '+=' and v is not None: p += v
                    elif n['op'] == '-=' and v is not None: p -= v
            elif n.get('incdec'):
                l = lhs_field(f, n['c'][0])
                if l and l[1] == 'numOperands' and ekey(f, l[2]) == key: p += 1 if '+' in n['op'] else -1
            elif n['k'] == 'call' and 'fn' in n:
                k = E.P.resolve(n['fn'], f)
                if k:
                    for ai, a in enumerate(n['c'][1:]):
                        if ekey(f, a) == key: p += grows(E.P, k, ai)
        return s, p
    s1, p1 = look(els[:cur]); s2, p2 = look(els[cur + 1:])
    if s2 is not None: return s2 + p2
    if s1 is not None: return s1 + p1 + p2
    # the opcode it had, from the tests on the way here
    old = set()
    todo = [blk]; seen = {blk}; ok = True
    d = dominators(f).get(blk) or set()
    for b in d:
        B = f.blocks[b]
        for idx, s in enumerate(B['s']):
            if s is None or s not in d and s != blk: continue
            c = B.get('cond')
            if c is None: continue
            y = c
            while f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] in ('&&', '||'): y = f.nodes[y]['c'][1]
            m = f.nodes[y]
            if m['k'] == 'bin' and m['op'] == '==' and idx == 0 and len(B['s']) == 2 and f.preds[s] == [(b, 0)]:
                for p, q in (m['c'], m['c'][::-1]):
                    l = lhs_field(f, p)
                    if l and l[1] == 'code' and ekey(f, l[2]) == key and cint(f, q) is not None: old = {cint(f, q)}
            elif (B.get('t') or '').startswith('Switch'):
                l = lhs_field(f, c)
                if l and l[1] == 'code' and ekey(f, l[2]) == key:
                    # the case labels that lead to this block
                    vs = set(); st = [s]; sn = {s}
                    for t in B['s']:
                        if t is None: continue
                        rch = {t}; w = [t]
                        while w:
                            u = w.pop()
                            if u == blk: vs |= set(casev(f, t)); break
                            for z in f.succs(u):
                                if z not in rch and z != b: rch.add(z); w.append(z)
                    if vs: old = vs
    return ('old', old, p1 + p2)

def grows(P, k, ai):
    f = P.fns[k]; p = 0
    for n in f.nodes:
        if n['k'] == 'asg' and n['op'] == '+=':
            l = lhs_field(f, n['c'][0])
            if l and l[0] == 'Insn' and l[1] == 'numOperands' and parm_index(f, l[2]) == ai: p += cint(f, n['c'][1]) or 0
        elif n.get('incdec'):
            l = lhs_field(f, n['c'][0])
            if l and l[0] == 'Insn' and l[1] == 'numOperands' and parm_index(f, l[2]) == ai: p += 1
    return p

def ekey(f, x):
    x = strip(f, x)
    if x is None or x < 0: return None
    n = f.nodes[x]
    if n['k'] == 'ref': return ('v', n.get('d', n.get('name')))
    if n['k'] == 'mem': return ('m', n['f'], ekey(f, n['c'][0]))
    if n['k'] == 'un': return ('u', n['op'], ekey(f, n['c'][0]))
    return ('n', x)

def run_layout(ctx):
    P = ctx.P
    ops = opcodes(P)
    E = Emit(P, ops)
    if len(E.out) < 60: raise AnalysisError('only %d places found that emit instructions' % len(E.out))
    f, h, stops = vm_handlers(P, ops)
    R = Reads(P)
    vs = []; ob = 0
    lay = {}; roles = {}; unus = {}
    def bad(key, loc, msg): vs.append(dict(key=key, loc=loc, msg=msg))
    for v, name in sorted(ops.items()):
        ob += 1
        if v not in h:
            bad('%s no handler' % name, '%s:%d' % (f.file, f.line), '%s has no handler in %s' % (name, f.key)); continue
        t, pos, mv = R.count(f, h[v], stops)
        l = layout(t)
        line = f.blocks[h[v]].get('lline', f.line)
        if l and l[0] == '?':
            bad('%s reads vary' % name, '%s:%d' % (f.file, line), 'the handler of %s reads %s operand words, depending on the path' % (name, ' or '.join(map(str, l[1:])))); continue
        lay[v] = l
        roles[v] = {min(p): role_of(P, f, n) for n, p in pos.items()}
        unus[v] = {min(p): unused(f, n) for n, p in pos.items()}
        if l and l[1]:
            ob += 1
            # what bounds the repetition
            rd = [n for n, p in pos.items() if len(p) > 1]
            ok = False
            for hd in f.heads:
                lp = f.loop(hd)
                if all(owner(f, n) in lp for n in rd):
                    if any(mentions(f, f.blocks[b]['cond'], 'upvalueCount') for b in lp if f.blocks[b].get('cond') is not None): ok = True
            if not ok: bad('%s repetition' % name, '%s:%d' % (f.file, line), 'the handler of %s reads words in a loop that isn\'t bounded by the number of upvalues' % name)
    # what is emitted
    seen = collections.Counter()
    for g, nid, v, cnt, args in E.out:
        ob += 1
        if v not in ops:
            bad('%s emits %s' % (g.key, v), g.loc(nid), '%s emits an instruction with the unknown opcode %s' % (g.key, v)); continue
        l = lay.get(v)
        seen[v] += 1
        if l and l[0] != cnt:
            bad('%s %s operands' % (g.key, ops[v]), g.loc(nid), '%s emits %s with %d operand words, its handler reads %d' % (g.key, ops[v], cnt, l[0])); continue
        for i, a in enumerate(args):
            if a is None: continue
            can, must = maybe_const(E, g, a)
            ob += 1
            r = roles.get(v, {}).get(i)
            if r == 'const' and not can:
                bad('%s %s operand %d' % (g.key, ops[v], i + 1), g.loc(nid), '%s emits %s with operand %d not an index of the constants, which its handler takes it for' % (g.key, ops[v], i + 1))
            elif l and must and r is None and not unus.get(v, {}).get(i):
                bad('%s %s operand %d' % (g.key, ops[v], i + 1), g.loc(nid), '%s emits %s with an index of the constants as operand %d, which its handler takes for something else' % (g.key, ops[v], i + 1))
    for g, nid in E.unres:
        ob += 1
        bad('%s emits unknown' % g.key, g.loc(nid), '%s emits an instruction whose opcode can\'t be told' % g.key)
    # words of data
    steps = {l[1] for l in lay.values() if l and l[1]}
    byloop = collections.defaultdict(list)
    for g, nid in E.dsites:
        hds = [hd for hd in g.heads if owner(g, nid) in g.loop(hd)]
        hd = min(hds, key=lambda x: len(g.loop(x))) if hds else None
        byloop[g.key, hd].append(nid)
    for (gk, hd), nids in byloop.items():
        ob += 1
        g = P.fns[gk]
        if hd is None: continue
        c = per_iter(g, hd, set(nids))
        if c - {0} not in [{s} for s in steps]:     # none, when the closure itself isn't emitted either
            bad('%s data words' % gk, g.loc(nids[0]), '%s emits %s data words per repetition, the handler reads %s' % (gk, sorted(c), sorted(steps)))
        elif not any(mentions(g, g.blocks[b]['cond'], 'upvalueCount') for b in g.loop(hd) if g.blocks[b].get('cond') is not None):
            bad('%s data repetition' % gk, g.loc(nids[0]), '%s emits data words in a loop that isn\'t bounded by the number of upvalues' % gk)
    # rewritten instructions
    for g, i, v, base in E.rew:
        if g.key in E.base: continue
        ob += 1
        l = lay.get(v)
        w = words_before(E, g, i, base)
        if l is None or w is None: continue
        if isinstance(w, tuple):
            cs = {lay[o][0] + w[2] for o in w[1] if lay.get(o)}
        else: cs = {w}
        if cs and cs != {l[0]}:
            bad('%s rewrites %s' % (g.key, ops[v]), g.loc(i), '%s turns an instruction into %s with %s operand words, its handler reads %d' % (g.key, ops[v], sorted(cs), l[0]))
    # what is listed
    unkn = 0
    ls = listings(P, ops)
    if not ls: raise AnalysisError('no listing of instructions found')
    for g, lh, dflt in ls:
        pi = None
        for v, b in lh.items():
            rs = returns_from(g, b)
            for p in range(len(g.params)):
                if g.params[p].get('ty') in ('int', 'size_t', 'unsigned int', 'long') and any((Lin(P, g, p).ev(g.nodes[r]['c'][0]) or (0,))[0] == 1 for r in rs): pi = p
            if pi is not None: break
        if pi is None: raise AnalysisError('%s: which parameter is the position?' % g.key)
        L0 = {}
        for v, name in sorted(ops.items()):
            ob += 1
            if v in lh and lh[v] not in L0: L0[lh[v]] = Lin(P, g, pi, lh[v])
            L = L0.get(lh.get(v))
            if v not in lh:
                bad('%s %s missing' % (g.key, name), g.loc(), '%s doesn\'t know %s' % (g.key, name)); continue
            for r in returns_from(g, lh[v]):
                e = g.nodes[r]['c'][0]
                lin = L.ev(e)
                l = lay.get(v)
                if lin is None: unkn += 1
                elif l and lin != (1, 1 + l[0], l[1]):
                    bad('%s %s step' % (g.key, name), g.loc(r), '%s steps %d words over %s%s, which has %d%s' % (g.key, lin[1], name, ' (and %d for each upvalue)' % lin[2] if lin[2] else '', 1 + l[0], ' (and %d for each upvalue)' % l[1] if l[1] else ''))
                y = strip(g, e)
                if g.nodes[y]['k'] == 'call' and 'fn' in g.nodes[y]:
                    k = P.resolve(g.nodes[y]['fn'], g)
                    if k and l:
                        for op, ro in list_roles(P, P.fns[k]).items():
                            ob += 1
                            if op > l[0] and not l[1]: bad('%s %s reads %d' % (k, name, op), P.fns[k].loc(), '%s reads operand %d of %s, which has %d' % (k, op, name, l[0]))
                            elif ro == 'const' and roles[v].get(op - 1) != 'const' and not unus[v].get(op - 1):
                                bad('%s %s constant %d' % (k, name, op), P.fns[k].loc(), '%s takes operand %d of %s for an index of the constants, which the interpreter doesn\'t' % (k, op, name))
    # names
    for g in P.fns.values():
        if 'char' not in g.ret: continue
        for b in g.blocks.values():
            if not (b.get('t') or '').startswith('Switch'): continue
            hs = {}
            for s in g.succs(b['id']):
                for y in casev(g, s):
                    if y in ops: hs[y] = s
            if len(hs) < 30: continue
            names = collections.defaultdict(list)
            for v, name in sorted(ops.items()):
                ob += 1
                if v not in hs: bad('%s %s missing' % (g.key, name), g.loc(), '%s has no name for %s' % (g.key, name)); continue
                rs = returns_from(g, hs[v])
                t = {g.nodes[strip(g, g.nodes[r]['c'][0])].get('v') for r in rs}
                if len(t) == 1 and None not in t: names[t.pop()].append(name)
            for t, l in names.items():
                if len(l) > 1: bad('%s same name %s' % (g.key, t), g.loc(), '%s gives %s the same name, %s' % (g.key, ' and '.join(l), t))
    return dict(violations=vs, obligations=ob, coverage=dict(opcodes=len(ops), handlers=len(h), emission_sites=len(E.out), data_sites=len(E.dsites),
                rewrites=len(E.rew), listing_steps_unknown=unkn, listings=[g.key for g, _, _ in ls],
                fixed_words={str(k): sum(1 for l in lay.values() if l and l[0] == k) for k in range(4)}, never_falls_through=[ops[v] for v, l in lay.items() if l is None]))

def owner(f, x):
    while x is not None and x not in f.owner_block: x = f.parent.get(x)
    return f.owner_block.get(x) if x is not None else None

def per_iter(f, hd, nids):
    """how many of the nodes one iteration of the loop passes"""
    lp = f.loop(hd)
    out = set(); todo = [(hd, 0, True)]; seen = set()
    while todo:
        b, c, first = todo.pop()
        if (b, c) in seen and not first: continue
        seen.add((b, c))
        c += sum(1 for e in f.blocks[b]['e'] if e in nids)
        if c > CAP: continue
        for s in f.succs(b):
            if s == hd: out.add(c)
            elif s in lp: todo.append((s, c, False))
    return out

# ---------------------------------------------------------------- V02

DATAFLAG = 'INSN_FL_DATA'

def insn_param(P, f):
    for i, p in enumerate(f.params):
        t = p.get('ty', '') + p.get('cty', '')
        if 'Insn' in t and '*' in t: return i
    return None

class OpEval:
    """Which way a function's tests of an instruction go when its opcode is known"""
    def __init__(self, P, ops):
        self.P = P; self.ops = ops; self.memo = {}
        try: self.dflag = P.macro(DATAFLAG)
        except AnalysisError: self.dflag = None
    def alias(self, f, x, key):
        """x reads the opcode of the instruction `key`"""
        x = strip(f, x)
        if x is None or x < 0: return False
        n = f.nodes[x]
        if n['k'] == 'mem' and n['f'] == 'code': return key == 'any' or ekey(f, n['c'][0]) == key
        if n['k'] == 'ref' and 'd' in n and n.get('dk') == 'local':
            rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
            return len(rs) == 1 and self.alias(f, rs[0], key)
        return False
    def ev(self, f, x, key, op, data, depth=0): return self.eve(f, x, {key: op}, data, depth)
    def eve(self, f, x, env, data, depth=0):
        """True, False or None, with the opcodes of some instructions known"""
        v = cint(f, x)
        if v is not None: return bool(v)
        x = strip(f, x)
        if x is None or x < 0: return None
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n and n.get('dk') == 'local' and depth < 6:
            rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
            if len(rs) == 1: return self.eve(f, rs[0], env, data, depth + 1)
            return None
        if n['k'] == 'un' and n['op'] == '!':
            r = self.eve(f, n['c'][0], env, data, depth)
            return None if r is None else not r
        if n['k'] == 'bin':
            if n['op'] in ('&&', '||'):
                a = self.eve(f, n['c'][0], env, data, depth); b = self.eve(f, n['c'][1], env, data, depth)
                if n['op'] == '&&': return False if a is False or b is False else (True if a and b else None)
                return True if a or b else (False if a is False and b is False else None)
            if n['op'] in ('==', '!='):
                for p, q in (n['c'], n['c'][::-1]):
                    c = cint(f, q)
                    if c is not None:
                        for key, op in env.items():
                            if self.alias(f, p, key): return (c == op) == (n['op'] == '==')
                    if c == 0:
                        m = f.nodes[strip(f, p)]
                        if m['k'] == 'bin' and m['op'] == '&':
                            r = self.eve(f, strip(f, p), env, data, depth)
                            if r is not None: return r == (n['op'] == '!=')
            if n['op'] == '&':
                for p, q in (n['c'], n['c'][::-1]):
                    c = cint(f, q); l = lhs_field(f, p)
                    if l and l[1] == 'flags' and ekey(f, l[2]) in env and c is not None and c == self.dflag: return data
        if n['k'] == 'call' and 'fn' in n and depth < 5:
            k = self.P.resolve(n['fn'], f)
            if k:
                g = self.P.fns[k]
                sub = {}
                for i, a in enumerate(n['c'][1:]):
                    if i < len(g.params) and 'Insn' in g.params[i].get('ty', '') + g.params[i].get('cty', ''):
                        ka = ekey(f, a)
                        if ka in env:
                            pk = self.pkey(g, i)
                            if pk is not None: sub[pk] = env[ka]
                if sub:
                    r = self.truth(k, sub, data, depth + 1)
                    return next(iter(r)) if len(r) == 1 else None
        if n['k'] == 'cond':
            c = self.eve(f, n['c'][0], env, data, depth)
            a = self.eve(f, n['c'][1], env, data, depth); b = self.eve(f, n['c'][2], env, data, depth)
            return a if c else b if c is False else a if a == b else None
        return None
    def blocks(self, f, key, op, data, start=None, depth=0): return self.blockse(f, {key: op}, data, start, depth)
    def blockse(self, f, env, data, start=None, depth=0):
        """blocks that may be reached"""
        start = f.entry if start is None else start
        seen = {start}; todo = [start]
        while todo:
            b = todo.pop(); B = f.blocks[b]
            if B.get('nr'): continue
            c = B.get('cond')
            ss = list(B['s'])
            if c is not None and len(ss) == 2 and not (B.get('t') or '').startswith('Switch'):
                y = strip(f, c)
                while f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] in ('&&', '||'): y = strip(f, f.nodes[y]['c'][1])
                r = self.eve(f, y, env, data, depth)
                if r is True: ss = ss[:1]
                elif r is False: ss = ss[1:]
            elif c is not None and (B.get('t') or '').startswith('Switch'):
                for key, op in env.items():
                    if self.alias(f, c, key):
                        hit = [s for s in ss if s is not None and op in casev(f, s)]
                        if hit: ss = hit
                        else: ss = [s for s in ss if s is not None and not casev(f, s)]
                        break
            for s in ss:
                if s is not None and s not in seen: seen.add(s); todo.append(s)
        return seen
    def truth(self, k, env, data, depth=0):
        m = (k, frozenset(env.items()), data)
        if m not in self.memo:
            self.memo[m] = {True, False}
            f = self.P.fns[k]
            out = set()
            for b in self.blockse(f, env, data, depth=depth):
                for e in f.blocks[b]['e']:
                    if f.nodes[e]['k'] == 'ret' and f.nodes[e]['c'] and f.nodes[e]['c'][0] >= 0:
                        r = self.eve(f, f.nodes[e]['c'][0], env, data, depth)
                        out |= {True, False} if r is None else {r}
            self.memo[m] = out or {True, False}
        return self.memo[m]
    def pkey(self, f, i):
        for n in f.nodes:
            if n['k'] == 'ref' and n.get('dk') == 'parm' and n.get('pi') == i: return ('v', n.get('d', n.get('name')))
        return ('v', None)

def is_list_insn_write(f, n):
    """in->operands[..] += by   ->  (base, rhs)"""
    if n['k'] != 'asg' or n['op'] not in ('+=', '-='): return None
    m = f.nodes[strip(f, n['c'][0])]
    if m['k'] != 'idx': return None
    l = lhs_field(f, m['c'][0])
    if l and l[0] == 'Insn' and l[1] == 'operands': return l[2], n['c'][1]
    return None

def advances(f):
    """the local steps through the list of instructions: x = x->next"""
    out = set()
    for n in f.nodes:
        if n['k'] == 'asg' and n['op'] == '=':
            l = f.nodes[strip(f, n['c'][0])]; r = f.nodes[strip(f, n['c'][1])]
            if l['k'] == 'ref' and 'd' in l and r['k'] == 'mem' and r['f'] == 'next' and (r.get('rec') in ('Insn', None)):
                if ekey(f, r['c'][0]) == ('v', l['d']): out.add(('v', l['d']))
    return out

def shifter(P):
    """The function that moves positions when an instruction grows or shrinks, and where it changes an operand
    of the instruction it has stepped to: [(node, key)]"""
    best = []
    for f in P.fns.values():
        for key in advances(f):
            if patches(P, f, key): best.append((f, key))
    return best

def patches(P, f, key, depth=0):
    """nodes of f that change an operand of the instruction `key`, by themselves or in a function they give it to"""
    out = []
    for i, n in enumerate(f.nodes):
        w = is_list_insn_write(f, n)
        if w and ekey(f, w[0]) == key: out.append((i, None))
        if n['k'] == 'call' and 'fn' in n and depth < 4:
            k = P.resolve(n['fn'], f)
            if not k: continue
            g = P.fns[k]
            for pi, a in enumerate(n['c'][1:]):
                if pi < len(g.params) and 'Insn' in g.params[pi].get('ty', '') + g.params[pi].get('cty', '') and ekey(f, a) == key:
                    c = g._x.setdefault('patches', {})
                    if pi not in c:
                        c[pi] = []
                        kk = pkeyof(g, pi)
                        c[pi] = patches(P, g, kk, depth + 1) if kk else []
                    if c[pi]: out.append((i, (k, pi)))
    return out

def pkeyof(g, pi):
    for i, n in enumerate(g.nodes):
        if n['k'] == 'ref' and n.get('dk') == 'parm' and n['pi'] == pi: return ekey(g, i)
    return None

def moves(P, OE, f, key, op, data, depth=0):
    """an operand of the instruction `key` may be changed when its opcode is op"""
    hits = patches(P, f, key, depth)
    if not hits or depth > 4: return False
    bl = OE.blocks(f, key, op, data)
    for i, c in hits:
        if owner(f, i) not in bl: continue
        if c is None: return True
        g = P.fns[c[0]]
        if moves(P, OE, g, pkeyof(g, c[1]), op, data, depth + 1): return True
    return False

SRC = {('Iseq', 'wordCount'), ('Insn', 'numOperands')}

class Positions:
    """fields that hold a position counted in words of code under compilation"""
    def __init__(self, P):
        self.P = P
        self.rett = set(); self.parmt = set(); self.fields = {}
        fns = [f for f in P.fns.values() if any(n['k'] == 'mem' and n.get('rec') in ('Insn', 'Iseq') for n in f.nodes) or True]
        rel = {f.key for f in P.fns.values() if any(n['k'] == 'mem' and (n.get('rec'), n['f']) in SRC for n in f.nodes)}
        ch = True
        work = set(rel)
        rounds = 0
        while ch and rounds < 30:
            ch = False; rounds += 1
            for k in sorted(work):
                f = P.fns[k]
                loc = self.locals(f)
                for i, n in enumerate(f.nodes):
                    if n['k'] == 'ret' and n['c'] and n['c'][0] >= 0 and self.t(f, n['c'][0], loc):
                        if k not in self.rett:
                            self.rett.add(k); ch = True
                            work = work | set(P.callers[k])
                    elif n['k'] == 'call' and 'fn' in n:
                        c = P.resolve(n['fn'], f)
                        if c:
                            for ai, a in enumerate(n['c'][1:]):
                                if self.t(f, a, loc) and (c, ai) not in self.parmt:
                                    self.parmt.add((c, ai)); ch = True; work = work | {c}
                    elif n['k'] == 'asg':
                        l = lhs_field(f, n['c'][0])
                        if l and l[0] not in ('Iseq', 'Insn') and l[0] and self.t(f, n['c'][1], loc):
                            if (l[0], l[1]) not in self.fields: self.fields[l[0], l[1]] = f.loc(i)
    def locals(self, f):
        t = set(); ch = True
        while ch:
            ch = False
            for i, n in enumerate(f.nodes):
                prs = []
                if n['k'] == 'decl': prs = [(v['d'], v['init']) for v in n['vars'] if v['init'] >= 0]
                elif n['k'] == 'asg':
                    l = f.nodes[strip(f, n['c'][0])]
                    if l['k'] == 'ref' and 'd' in l: prs = [(l['d'], n['c'][1])]
                for d, r in prs:
                    if d not in t and self.t(f, r, t): t.add(d); ch = True
        return t
    def t(self, f, x, loc):
        x = strip(f, x)
        if x is None or x < 0: return False
        n = f.nodes[x]
        if n['k'] == 'mem': return (n.get('rec'), n['f']) in SRC
        if n['k'] == 'ref':
            if n.get('dk') == 'parm' and (f.key, n['pi']) in self.parmt: return True
            return n.get('d') in loc and n.get('dk') == 'local'
        if n['k'] == 'bin': return n['op'] in ('+', '-') and any(self.t(f, c, loc) for c in n['c'])
        if n['k'] == 'cond': return any(self.t(f, c, loc) for c in n['c'][1:])
        if n['k'] == 'call' and 'fn' in n: return self.P.resolve(n['fn'], f) in self.rett
        return False

def removers(P):
    """functions that unlink an instruction given to them, or change how many words it has: key -> parameter"""
    base = set(Emit(P, opcodes(P)).base)
    ev = {}
    for f in P.fns.values():
        if f.key in base: continue
        unl = False
        for i, n in enumerate(f.nodes):
            t = None
            if n['k'] == 'asg' or n.get('incdec'):
                l = lhs_field(f, n['c'][0])
                if l and l[0] == 'Insn' and l[1] == 'numOperands': t = l[2]
            if t is not None: ev.setdefault(f.key, []).append((i, t, 'changes the number of operands of'))
        # unlinking: the neighbours of an instruction are joined
        nx = [n for n in f.nodes if n['k'] == 'asg' and n['op'] == '=' and (lhs_field(f, n['c'][0]) or (0, 0, 0))[:2] == ('Insn', 'next')]
        for n in nx:
            r = f.nodes[strip(f, n['c'][1])]
            if r['k'] == 'mem' and r['f'] == 'next':
                ev.setdefault(f.key, []).append((f.nodes.index(n), r['c'][0], 'removes'))
    return ev

def reach(f, start, avoid, target=None):
    seen = {start}; todo = [start]
    while todo:
        b = todo.pop()
        if target is not None and b == target: return True
        for s in f.succs(b):
            if s not in seen and s not in avoid: seen.add(s); todo.append(s)
    return seen if target is None else False

def run_optimizer(ctx):
    P = ctx.P
    ops = opcodes(P)
    f, h, stops = vm_handlers(P, ops)
    R = Reads(P); OE = OpEval(P, ops)
    vs = []; ob = 0; cov = {}
    def bad(key, loc, msg): vs.append(dict(key=key, loc=loc, msg=msg))
    movers = set(); polar = {}
    for v in ops:
        if v not in h: continue
        t, pos, mv = R.count(f, h[v], stops)
        if mv and pos:
            movers.add(v); polar[v] = polarity(P, f, h[v], stops, mv)
    if len(movers) < 4: raise AnalysisError('only %d instructions found that jump' % len(movers))
    cov['jumps'] = sorted(ops[v] for v in movers)
    # (1) every jump is moved along, nothing else is
    S = []
    for g, k in shifter(P):
        rch = {v for v in ops if moves(P, OE, g, k, v, False)}
        if rch & movers: S.append((g, k, rch))
    ob += len(ops)
    if not S: raise AnalysisError('the function that moves jumps over a changed instruction was not found')
    allr = set().union(*[r for _, _, r in S])
    g0 = S[0][0]
    for v in sorted(movers - allr): bad('%s %s not moved' % (g0.key, ops[v]), g0.loc(), '%s doesn\'t move the target of %s when an instruction on its way grows or shrinks' % (g0.key, ops[v]))
    for g, k, r in S:
        for v in sorted(r - movers): bad('%s %s moved' % (g.key, ops[v]), g.loc(), '%s changes the operand of %s, which isn\'t a jump' % (g.key, ops[v]))
        ob += 1
        if any(moves(P, OE, g, k, v, True) for v in movers):
            bad('%s data moved' % g.key, g.loc(), '%s takes a word of data for a jump' % g.key)
    skeys = {g.key for g, _, _ in S}
    # (2) every position kept in a structure is moved
    po = Positions(P)
    moved = set()
    work = set(skeys); todo = list(skeys)
    for _ in range(2):
        for k in list(work):
            for _n, c, _m in P.calls[k]:
                if c: work.add(c)
    for k in work:
        g = P.fns[k]
        for n in g.nodes:
            x = None
            if n['k'] == 'un' and n['op'] == '&': x = n['c'][0]
            elif n['k'] == 'asg' or n.get('incdec'): x = n['c'][0]
            if x is not None:
                l = lhs_field(g, x)
                if l: moved.add((l[0], l[1]))
    cov['position_fields'] = ['%s.%s' % x for x in sorted(po.fields)]
    for (r, fl), loc in sorted(po.fields.items()):
        ob += 1
        if (r, fl) not in moved: bad('%s.%s not moved' % (r, fl), loc, 'a position in the code is kept in %s.%s, which %s doesn\'t move' % (r, fl, g0.key))
    ch = True
    while ch:       # functions that hand an instruction on to it
        ch = False
        for k in sorted({c for m in skeys for c in P.callers[m]} - skeys):
            g = P.fns[k]
            sb = {owner(g, nid) for nid, c, _ in P.calls[k] if c in skeys and any(parm_index(g, a) is not None and 'Insn' in str(g.nodes[strip(g, a)].get('ty')) for a in g.nodes[nid]['c'][1:])}
            if sb and not removers(P).get(k) and (g.entry in sb or not reach(g, g.entry, sb, g.exit)): skeys.add(k); ch = True
    # (3) every change of size comes with a move
    ev = removers(P)
    done = set(); queue = [(k, i, x, w) for k, l in ev.items() for i, x, w in l]
    nev = 0
    roots = set()
    while queue:
        k, i, x, what = queue.pop()
        if (k, i) in done: continue
        done.add((k, i)); nev += 1; ob += 1
        g = P.fns[k]
        key = ekey(g, x)
        sb = set()
        for nid, c, _ in P.calls[k]:
            if c in skeys and any(ekey(g, a) == key for a in g.nodes[nid]['c'][1:]): sb.add(owner(g, nid))
        b = owner(g, i)
        if b is None: continue
        if b in sb: roots.add(k); continue
        before = reach(g, g.entry, sb, b) if g.entry not in sb else False
        after = reach(g, b, sb, g.exit)
        if not (before and after): roots.add(k); continue
        p = parm_index(g, x)
        if p is None:       # the one found in the list that is the one given
            for n in g.nodes:
                if n['k'] == 'bin' and n['op'] in ('==', '!='):
                    for y, z in (n['c'], n['c'][::-1]):
                        if ekey(g, y) == key and parm_index(g, z) is not None: p = parm_index(g, z)
        callers = [(c, nid) for c in P.callers[k] for nid, kk, _ in P.calls[c] if kk == k]
        if p is not None and callers and not sb:
            for c, nid in callers:
                a = P.fns[c].nodes[nid]['c'][1:]
                if p < len(a): queue.append((c, nid, a[p], what))
            continue
        bad('%s %s without a move' % (k, what), g.loc(i), '%s %s an instruction without moving jumps and positions behind it' % (k, what))
    cov['size_changes'] = nev
    # (4) what the optimizer concludes from the opcodes of two neighbours
    tr = transforms(P, ev, skeys)
    pairs = 0
    for O, (kc, kp) in tr:
        for nid, c, name in P.calls[O.key]:
            if c is None or c not in roots and not any(x in roots for _, x, _ in P.calls[c]): continue
            if c not in roots and c in skeys: continue
            a = O.nodes[nid]['c'][1:]
            tgt = [ekey(O, y) for y in a]
            which = 'cur' if kc in tgt else 'prev' if kp in tgt else None
            if which is None: continue
            b = owner(O, nid)
            per = {}
            for vc in ops:
                per[vc] = {vp for vp in ops if b in two(OE, O, kc, vc, kp, vp)}
            for vc, s in per.items():
                if not s: continue
                dep = len(s) < len(ops)
                pairs += len(s); ob += len(s)
                if which == 'cur' and vc in movers and dep:
                    # a jump decided by the constant before it: it must be one that isn't taken
                    for vp in sorted(s):
                        t = TRUTH.get(ops[vp])
                        tk = polar.get(vc)
                        if t is None or tk is None or tk == t:
                            bad('%s %s after %s' % (O.key, ops[vc], ops[vp]), O.loc(nid), '%s drops %s after %s, though it is%s taken then' % (O.key, ops[vc], ops[vp], '' if t is not None and tk is not None else ' perhaps'))
                    eff = replaced(P, OE, c, a, O, kc, vc)
                    pops = handler_pops(P, f, h[vc], stops)
                    ob += 1
                    if eff == 'abort': bad('%s %s aborts' % (c, ops[vc]), P.fns[c].loc(), '%s can\'t replace %s, which %s gives it' % (c, ops[vc], O.key))
                    elif eff is not None and pops is not None and eff != pops:
                        bad('%s %s stack' % (c, ops[vc]), P.fns[c].loc(), '%s replaces %s, which pops %d, by what pops %d' % (c, ops[vc], pops, eff))
                elif which == 'prev' and dep:
                    for vp in sorted(s):
                        ob += 1
                        e = effects(P, ctx.W, f, h[vp], stops)
                        if e: bad('%s %s dropped' % (O.key, ops[vp]), O.loc(nid), '%s drops %s, which does more than push or pop: %s' % (O.key, ops[vp], e))
    cov['neighbour_pairs'] = pairs
    # (5) constants computed ahead agree with the interpreter
    fo = folding(P, OE, ops, f, h, stops, bad)
    ob += fo; cov['folded_operators'] = fo
    # (6) a folded constant isn't shared
    n6 = shared_constants(P, bad)
    ob += n6
    # (7) exactly the jumps and positions the change lies under are moved; nothing enters between neighbours
    from . import optsim as o2
    dirs = {v: o2.direction(f, R.count(f, h[v], stops)[2]) for v in movers}
    cov['directions'] = {ops[v]: d for v, d in dirs.items()}
    cov['orders_of_jump_and_change'] = o2.boundaries(P, ops, S, movers, dirs, OE.dflag, bad)
    cov['orders_of_position_and_change'] = o2.positions(P, work, set(po.fields), OE.dflag, bad)
    cov['targets'] = o2.labels(P, ops, dirs, f, OE.dflag, bad, ev, skeys, roots)
    lastv = o2.lastvalue(P, f, h, stops, ops)
    cov['takes_last_value'] = sorted(ops[v] for v in lastv)
    cov['neighbours_and_targets'] = o2.windows(P, OE, ops, tr, ev, skeys, roots, OE.dflag, lastv, bad)
    ob += cov['orders_of_jump_and_change'] + cov['orders_of_position_and_change'] + cov['targets'] + cov['neighbours_and_targets']
    return dict(violations=vs, obligations=ob, coverage=cov)

TRUTH = {'OP_CONSTANT': True, 'OP_TRUE': True, 'OP_FALSE': False, 'OP_NIL': False}

def polarity(P, f, start, stops, mv):
    """the truth of the tested value with which the jump is taken; None when it always is"""
    mb = {owner(f, n) for n in mv}
    seen = {start}; todo = [start]; res = None
    while todo:
        b = todo.pop(); B = f.blocks[b]
        c = B.get('cond')
        if c is not None and len(B['s']) == 2 and not B.get('nr'):
            pol = True; y = strip(f, c)
            while f.nodes[y]['k'] == 'un' and f.nodes[y]['op'] == '!': pol = not pol; y = strip(f, f.nodes[y]['c'][0])
            if f.nodes[y]['k'] == 'call' and 'ruthy' in (f.nodes[y].get('fn') or ''):
                r = [s is not None and bool(reach_to(f, s, stops) & mb) for s in B['s']]
                if r[0] != r[1]: res = (r[0] == pol)
        for s in f.succs(b):
            if s not in seen and s not in stops: seen.add(s); todo.append(s)
    return res

def reach_to(f, start, stops):
    seen = {start}; todo = [start]
    while todo:
        b = todo.pop()
        for s in f.succs(b):
            if s not in seen and s not in stops: seen.add(s); todo.append(s)
    return seen

def transforms(P, ev, skeys):
    """functions that walk the instructions and look at one and the one before it: (fn, (key of it, key of the one before))"""
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        adv = advances(f)
        if not adv: continue
        for n in f.nodes:
            if n['k'] == 'asg' and n['op'] == '=':
                r = f.nodes[strip(f, n['c'][1])]
                if r['k'] == 'mem' and r['f'] == 'prev':
                    kc = ekey(f, r['c'][0]); kp = ekey(f, n['c'][0])
                    if kc in adv and kc != kp and (f, (kc, kp)) not in out: out.append((f, (kc, kp)))
    return out

def two(OE, f, kc, vc, kp, vp):
    c = f._x.setdefault('two', {})
    m = (kc, vc, kp, vp)
    if m in c: return c[m]
    # the walk starts again after a change: one step through the loop is looked at
    c[m] = OE.blockse(f, {kc: vc, kp: vp}, False)
    return c[m]

def replaced(P, OE, k, args, O, kc, vc):
    """how many values what remains of the instruction pops: 0 when it is removed; 'abort'"""
    g = P.fns[k]
    i = next((j for j, a in enumerate(args) if ekey(O, a) == kc), None)
    if i is None: return None
    key = OE.pkey(g, i)
    bl = OE.blocks(g, key, vc, False)
    if not any(g.exit in g.succs(b) and not g.blocks[b].get('nr') for b in bl): return 'abort'
    for b in bl:
        for e in g.blocks[b]['e']:
            n = g.nodes[e]
            if n['k'] == 'asg' and n['op'] == '=':
                l = lhs_field(g, n['c'][0])
                if l and l[1] == 'code' and ekey(g, l[2]) == key:
                    return {'OP_POP': 1}.get(OE.ops.get(cint(g, n['c'][1])))
    return 0

def handler_nodes(f, start, stops):
    for b in reach_to(f, start, stops):
        if b in stops: continue
        for e in f.blocks[b]['e']: yield b, e

def handler_pops(P, f, start, stops):
    k = 0
    for b, e in handler_nodes(f, start, stops):
        n = f.nodes[e]
        if n['k'] == 'call' and 'fn' in n:
            if n['fn'] in ('vm_pop', 'pop'): k += 1
            elif n['fn'] in ('vm_push', 'push', 'vm_popN', 'popN'): return None
    return k

STACKONLY = ('vm_push', 'vm_pop', 'vm_popN', 'vm_peek', 'vm_pushSwap', 'push', 'pop', 'popN', 'peek')

def effects(P, W, f, start, stops):
    """what a handler does besides pushing and popping"""
    for b, e in handler_nodes(f, start, stops):
        n = f.nodes[e]
        if n['k'] == 'call':
            k = P.resolve(n['fn'], f) if 'fn' in n else None
            if 'fn' in n and n['fn'] in STACKONLY: continue
            if k and pure(P, k): continue
            if n.get('fn', '').startswith(('diePrint', '__builtin')): continue
            return 'calls %s' % n.get('fn', 'through a pointer')
        if n['k'] == 'asg':
            l = lhs_field(f, n['c'][0])
            if l and not is_ip(f, n['c'][0]): return 'sets %s' % l[1]
    return None

def pure(P, k, depth=0):
    g = P.fns[k]
    c = g._x.get('pure')
    if c is None:
        g._x['pure'] = c = False
        c = depth < 4
        for n in g.nodes:
            if n['k'] == 'asg' or n.get('incdec'):
                l = g.nodes[strip(g, n['c'][0])]
                if l['k'] != 'ref' or l.get('dk') not in ('local', 'parm'): c = False
            elif n['k'] == 'call':
                kk = P.resolve(n['fn'], g) if 'fn' in n else None
                if not kk or not pure(P, kk, depth + 1):
                    if n.get('fn') not in ('memcpy', 'diePrintCBacktrace'): c = False
        g._x['pure'] = c
    return c

ARITH = {'+', '-', '*', '/', '%', '|', '&', '^', '<<', '>>'}

def arith_of(P, f, els, follow=True, depth=0):
    """(operator, whole numbers?) of the arithmetic on two values, also in a function given the values and the operator"""
    out = set()
    for e in els:
        st = [e]; seen = set()
        while st:
            x = st.pop()
            if x is None or x < 0 or x in seen: continue
            seen.add(x)
            n = f.nodes[x]
            st += n['c']
            if n['k'] == 'bin' and n['op'] in ARITH and cint(f, n['c'][1]) is None and cint(f, n['c'][0]) is None:
                if all(numeric(f, c) for c in n['c']):
                    t = n.get('ty', '')
                    w = 64 if 'long' in n.get('cty', t) else 32
                    out.add((n['op'], 0 if t in ('double', 'float') else -w if 'unsigned' in n.get('cty', t) else w))
            if n['k'] == 'call' and 'fn' in n and follow and depth < 2:
                k = P.resolve(n['fn'], f)
                if k and sum(numeric(f, c) for c in n['c'][1:]) >= 2:
                    g = P.fns[k]
                    env = {i: cint(f, a) for i, a in enumerate(n['c'][1:]) if cint(f, a) is not None}
                    out |= arith_of(P, g, [e for b in penv_blocks(g, env) for e in g.blocks[b]['e']], True, depth + 1)
    return out

def numeric(f, x, depth=0):
    """an expression computed from the number a value holds"""
    x = strip(f, x)
    if x is None or x < 0 or depth > 4: return False
    n = f.nodes[x]
    if n['k'] == 'call': return 'umber' in (n.get('fn') or '') or any('NUMBER' in m for m in n.get('mac', []))
    if n['k'] == 'ref' and n.get('dk') == 'parm' and n.get('cty', n.get('ty')) == 'double': return True
    if n['k'] == 'ref' and 'd' in n:
        rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
        return bool(rs) and all(numeric(f, r, depth + 1) for r in rs)
    return False

def folding(P, OE, ops, f, h, stops, bad):
    """the function that computes constants: each operator as the handler of the same opcode has it"""
    fold = None
    for g in sorted(P.fns.values(), key=lambda g: g.key):
        if g.key == f.key: continue
        for b in g.blocks.values():
            if (b.get('t') or '').startswith('Switch') and b.get('cond') is not None:
                l = lhs_field(g, b['cond'])
                if not (l and l[1] == 'code') and parm_index(g, b['cond']) is None and not OE.alias(g, b['cond'], 'any'): continue
                vals = {}
                for s in g.succs(b['id']):
                    for v in casev(g, s):
                        if v in ops: vals[v] = s
                if len(vals) < 5: continue
                ar = {v: arith_of(P, g, [e for bb in reach(g, s, {x for w, x in vals.items() if x != s}) for e in g.blocks[bb]['e']], True) for v, s in vals.items()}
                if sum(bool(x) for x in ar.values()) >= 5: fold = (g, vals, ar)
    if fold is None: return 0
    g, vals, ar = fold
    via = {g.key}
    for _ in range(2): via |= {c for k in via for c in P.callers[k] if c not in {O.key for O, _ in transforms(P, None, None)}}
    n = 0
    # what the optimizer has it compute
    cand = set()
    for O, (kc, kp) in transforms(P, None, None):
        for nid, c, _ in P.calls[O.key]:
            if c in via and any(ekey(O, a) == kc for a in O.nodes[nid]['c'][1:]):
                b = owner(O, nid)
                cand |= {v for v in ops if b in two(OE, O, kc, v, kp, next(w for w in ops if ops[w] == 'OP_CONSTANT'))}
    for v in sorted(cand):
        n += 1
        if v not in vals: bad('%s %s' % (g.key, ops[v]), g.loc(), '%s isn\'t able to compute %s ahead' % (g.key, ops[v]))
    for v in sorted(vals):
        n += 1
        hb = [e for _, e in handler_nodes(f, h[v], stops)] if v in h else []
        want = arith_of(P, f, hb)
        if ar[v] and want and ar[v] != want:
            bad('%s %s differs' % (g.key, ops[v]), g.loc(), '%s computes %s as %s, the interpreter as %s' % (g.key, ops[v], show(ar[v]), show(want)))
    from . import optsim
    return n + optsim.folding2(P, OE, ops, g, vals, f, h, stops, [(O, k) for O, k in transforms(P, None, None)], OE.dflag, bad)

def show(s): return ' and '.join('%s on %s' % (o, '%swhole numbers of %d bits' % ('unsigned ' if w < 0 else '', abs(w)) if w else 'numbers') for o, w in sorted(s)) or 'nothing'

def pv(f, x, env, depth=0):
    """value of an expression of parameters with known values"""
    v = cint(f, x)
    if v is not None: return v
    x = strip(f, x)
    if x is None or x < 0 or depth > 4: return None
    n = f.nodes[x]
    if n['k'] == 'ref':
        if n.get('dk') == 'parm': return env.get(n['pi'])
        if 'd' in n:
            rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
            if len(rs) == 1: return pv(f, rs[0], env, depth + 1)
        return None
    if n['k'] == 'un' and n['op'] == '!':
        r = pv(f, n['c'][0], env, depth + 1); return None if r is None else int(not r)
    if n['k'] == 'bin':
        a = pv(f, n['c'][0], env, depth + 1); b = pv(f, n['c'][1], env, depth + 1)
        if n['op'] == '||': return 1 if a or b else (0 if a == 0 and b == 0 else None)
        if n['op'] == '&&': return 0 if a == 0 or b == 0 else (1 if a and b else None)
        if a is None or b is None: return None
        if n['op'] == '==': return int(a == b)
        if n['op'] == '!=': return int(a != b)
    return None

def shared_constants(P, bad):
    """a literal whose constant may be overwritten by folding has an entry of its own"""
    num = None
    try: nf = P.macro('INSN_FL_NUMBER')
    except AnalysisError: return 0
    kinds = {}
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if n['k'] != 'asg' or n['op'] != '|=': continue
            l = lhs_field(f, n['c'][0])
            if not l or l[0] != 'Insn' or l[1] != 'flags' or cint(f, n['c'][1]) != nf: continue
            # under which kinds of constant
            b = owner(f, i)
            for e in P.enums.values():
                cs = [c for c in e['consts'] if c['name'].startswith('CONST_T_')]
                for c in cs:
                    for pi in range(len(f.params)):
                        if 'Const' not in f.params[pi].get('ty', '') + f.params[pi].get('cty', ''): continue
                        if b in penv_blocks(f, {pi: int(c['v'])}): kinds[int(c['v'])] = c['name']
    n = 0
    for f in P.fns.values():
        for nid, k, name in P.calls[f.key]:
            if name != 'tableGet' and name != 'tableSet': continue
            a = f.nodes[nid]['c'][1:]
            if not any(mentions(f, y, 'constTbl') for y in a[:1]): continue
            for pi in range(len(f.params)):
                if 'Const' not in f.params[pi].get('ty', '') + f.params[pi].get('cty', ''): continue
                for v, nm in kinds.items():
                    n += 1
                    if owner(f, nid) in penv_blocks(f, {pi: v}):
                        bad('%s shares %s' % (f.key, nm), f.loc(nid), '%s lets equal constants of kind %s share an entry, which folding overwrites' % (f.key, nm))
    return n

def penv_blocks(f, env):
    seen = {f.entry}; todo = [f.entry]
    while todo:
        b = todo.pop(); B = f.blocks[b]
        if B.get('nr'): continue
        ss = list(B['s']); x = B.get('cond')
        if x is not None and len(ss) == 2 and not (B.get('t') or '').startswith('Switch'):
            y = strip(f, x)
            while f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] in ('&&', '||'): y = strip(f, f.nodes[y]['c'][1])
            r = pv(f, y, env)
            if r is not None: ss = ss[:1] if r else ss[1:]
        elif x is not None and (B.get('t') or '').startswith('Switch'):
            r = pv(f, x, env)
            if r is not None:
                hit = [s for s in ss if s is not None and r in casev(f, s)]
                ss = hit or [s for s in ss if s is not None and not casev(f, s)]
        for s in ss:
            if s is not None and s not in seen: seen.add(s); todo.append(s)
    return seen
