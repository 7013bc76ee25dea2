"""V02, second half: what the optimizer's conditions let through, followed with small numbers in place of
the indexes and positions (every order of up to four places is tried)."""
import collections
from .vmcode import (strip, cint, lhs_field, ekey, owner, Consts, patches, advances, is_list_insn_write, casev, reach, dominators)

def asgs(f, d): return [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == d]

def bumped(f):
    c = f._x.get('bumped')
    if c is None:
        c = set()
        for n in f.nodes:
            if n.get('incdec') or n['k'] == 'un' and n['op'] in ('++', '--', 'post++', 'pre++', 'post--', 'pre--') or n['k'] == 'asg' and n['op'] != '=':
                l = f.nodes[strip(f, n['c'][0])]
                if l['k'] == 'ref' and 'd' in l: c.add(l['d'])
        f._x['bumped'] = c
    return c

def subkey(k, a, b):
    if k == a: return b
    if isinstance(k, tuple): return tuple(subkey(x, a, b) for x in k)
    return k

def isinsn(p): return 'Insn' in p.get('ty', '') + p.get('cty', '') and '*' in p.get('ty', '') + p.get('cty', '')

def parmkey(g, i):
    p = g.params[i]
    if p.get('d') is not None: return ('v', p['d'])
    for x, n in enumerate(g.nodes):
        if n['k'] == 'ref' and n.get('dk') == 'parm' and n.get('pi') == i: return ekey(g, x)
    return ('v', p.get('name'))

class Sim:
    """env: ('op', key) opcode, ('lab', key) is a target, ('idx', key) index in the list, ('ptr', key) identity,
    ('n', key) number; ('num', source) number a value holds"""
    def __init__(self, P, dflag): self.P = P; self.dflag = dflag
    def canon(self, f, x, known, depth=0):
        x = strip(f, x)
        if x is None or x < 0: return None
        k = ekey(f, x)
        if k in known: return k
        n = f.nodes[x]
        if n['k'] == 'ref' and n.get('dk') == 'local' and 'd' in n and depth < 5 and n['d'] not in bumped(f):
            rs = asgs(f, n['d'])
            if len(rs) == 1:
                c = self.canon(f, rs[0], known, depth + 1)
                if c is not None: return c
        if n['k'] == 'mem':
            b = self.canon(f, n['c'][0], known, depth + 1)
            if b is not None: return ('m', n['f'], b)
        return k
    def known(self, env): return {k[1] for k in env}
    def val(self, f, x, env, depth=0):
        if x is None or x < 0 or depth > 12: return None
        while f.nodes[x]['k'] in ('cast', 'paren') and f.nodes[x]['c']:
            n = f.nodes[x]
            t = n.get('cty', n.get('ty', ''))
            if n['k'] == 'cast' and ('int' in t or 'long' in t or 'char' in t) and '*' not in t:
                v = self.val(f, n['c'][0], env, depth + 1)
                return int(v) if v is not None else None
            x = n['c'][0]
        v = cint(f, x)
        if v is not None: return v
        n = f.nodes[x]
        if n['k'] == 'flt' or n['k'] == 'float':
            try: return float(n.get('v', n.get('cv')))
            except (TypeError, ValueError): return None
        kn = self.known(env)
        k = self.canon(f, x, kn)
        if ('n', k) in env: return env['n', k]
        if ('ptr', k) in env: return env['ptr', k]
        if n['k'] == 'mem':
            b = self.canon(f, n['c'][0], kn)
            if n['f'] == 'code' and ('op', b) in env: return env['op', b]
            if n['f'] == 'isLabel' and ('lab', b) in env: return env['lab', b]
            if n['f'] == 'flags' and ('op', b) in env: return ('flags', b)
            return None
        if n['k'] == 'ref':
            if 'd' in n and n.get('dk') == 'local' and n['d'] not in bumped(f):
                rs = asgs(f, n['d'])
                if len(rs) == 1: return self.val(f, rs[0], env, depth + 1)
            return None
        if n['k'] == 'un':
            if n['op'] in ('__extension__', '+'): return self.val(f, n['c'][0], env, depth + 1)
            v = self.val(f, n['c'][0], env, depth + 1)
            if v is None or isinstance(v, tuple): return None
            return int(not v) if n['op'] == '!' else -v if n['op'] == '-' else None
        if n['k'] == 'cond':
            c = self.val(f, n['c'][0], env, depth + 1)
            if c is None or isinstance(c, tuple):
                a = self.val(f, n['c'][1], env, depth + 1); b = self.val(f, n['c'][2], env, depth + 1)
                return a if a == b else None
            return self.val(f, n['c'][1 if c else 2], env, depth + 1)
        if n['k'] == 'bin':
            a = self.val(f, n['c'][0], env, depth + 1); b = self.val(f, n['c'][1], env, depth + 1)
            op = n['op']
            if op in ('&&', '||'):
                ta = None if a is None or isinstance(a, tuple) else bool(a); tb = None if b is None or isinstance(b, tuple) else bool(b)
                if op == '&&': return 0 if ta is False or tb is False else 1 if ta and tb else None
                return 1 if ta or tb else 0 if ta is False and tb is False else None
            if op == '&':
                if isinstance(a, tuple) and b == self.dflag or isinstance(b, tuple) and a == self.dflag: return 0
            if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple): return None
            try:
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '<=': lambda: int(a <= b),
                    '>': lambda: int(a > b), '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                    '&': lambda: int(a) & int(b), '|': lambda: int(a) | int(b)}.get(op, lambda: None)()
            except (TypeError, OverflowError): return None
        if n['k'] == 'call' and 'fn' in n:
            if n['fn'] == '__builtin_expect': return self.val(f, n['c'][1], env, depth + 1)
            s = numsource(f, x)
            if s is not None and ('num', s) in env: return env['num', s]
            kk = self.P.resolve(n['fn'], f)
            g = self.P.fns[kk] if kk else None
            if n.get('ty', '') in ('int', 'size_t', 'long', 'unsigned int', 'unsigned long'):
                for a in n['c'][1:]:
                    ka = self.canon(f, a, kn)
                    if ('idx', ka) in env and len(n['c']) <= 3: return env['idx', ka]
            if g is not None and depth < 9:
                sub = self.sub(f, n, g, env)
                return self.result(g, sub, depth + 3) if sub else None
        return None
    def sub(self, f, n, g, env):
        out = {}
        kn = self.known(env)
        for i, a in enumerate(n['c'][1:]):
            if i >= len(g.params): break
            pk = parmkey(g, i)
            if pk is None or pk[1] is None: continue
            if '*' in g.params[i].get('cty', g.params[i].get('ty', '')):
                ka = self.canon(f, a, kn)
                if ka is None: continue
                for (kd, k), v in env.items():
                    s = subkey(k, ka, pk)
                    if s != k: out[kd, s] = v
            else:
                v = self.val(f, a, env)
                if v is not None and not isinstance(v, tuple): out['n', pk] = v
        return out
    def result(self, g, env, depth):
        key = ('simres', frozenset(env.items()))
        if key in g._x: return g._x[key]
        g._x[key] = None
        vs = set()
        for b in self.may(g, env, depth):
            for e in g.blocks[b]['e']:
                if g.nodes[e]['k'] == 'ret' and g.nodes[e]['c'] and g.nodes[e]['c'][0] >= 0:
                    v = self.val(g, g.nodes[e]['c'][0], env, depth)
                    vs.add(v if not isinstance(v, tuple) else None)
        r = next(iter(vs)) if len(vs) == 1 else None
        g._x[key] = r
        return r
    def edges(self, f, b, env, depth=0):
        B = f.blocks[b]
        if B.get('nr'): return []
        ss = list(B['s']); c = B.get('cond')
        if c is not None and len(ss) == 2 and not (B.get('t') or '').startswith('Switch'):
            y = strip(f, c)
            while f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] in ('&&', '||'): y = strip(f, f.nodes[y]['c'][1])
            v = self.val(f, y, env, depth)
            if v is not None and not isinstance(v, tuple): ss = ss[:1] if v else ss[1:]
        elif c is not None and (B.get('t') or '').startswith('Switch'):
            v = self.val(f, c, env, depth)
            if v is not None and not isinstance(v, tuple):
                hit = [s for s in ss if s is not None and v in casev(f, s)]
                ss = hit or [s for s in ss if s is not None and not casev(f, s)]
        return [s for s in ss if s is not None]
    def may(self, f, env, depth=0, start=None, avoid=()):
        start = f.entry if start is None else start
        seen = {start}; todo = [start]
        while todo:
            b = todo.pop()
            for s in self.edges(f, b, env, depth):
                if s not in seen and s not in avoid: seen.add(s); todo.append(s)
        return seen
    def status(self, f, nodes, env, ends, start=None):
        """(may, must) be passed on the way to one of the ends; nodes: [(node, continuation or None)]"""
        start = f.entry if start is None else start
        # up to the ends only
        seen = {start}; todo = [start]
        while todo:
            b = todo.pop()
            if b in ends: continue
            for s in self.edges(f, b, env): 
                if s not in seen: seen.add(s); todo.append(s)
        may = False; mustb = set()
        for i, cont in nodes:
            b = owner(f, i)
            if b not in seen: continue
            st = (True, True) if cont is None else cont(env)
            may = may or st[0]
            if st[1]: mustb.add(b)
        must = False
        if may and mustb:
            if start in mustb: must = True
            else:
                s2 = {start}; todo = [start]; hit = False
                while todo:
                    b = todo.pop()
                    if b in ends: hit = True; break
                    for s in self.edges(f, b, env):
                        if s not in s2 and s not in mustb: s2.add(s); todo.append(s)
                must = not hit
        return may, must

def numsource(f, x, depth=0):
    """a number taken out of a value: where the value came from"""
    x = strip(f, x)
    if x is None or x < 0 or depth > 8: return None
    n = f.nodes[x]
    if n['k'] == 'call' and 'fn' in n:
        if 'umber' in n['fn'] or any('NUMBER' in m for m in n.get('mac', [])):
            return valsource(f, n['c'][1]) if len(n['c']) > 1 else None
        return None
    if n['k'] == 'ref' and 'd' in n:
        if n.get('dk') == 'parm': return ('parm', n['pi'])
        rs = asgs(f, n['d'])
        if len(rs) == 1: return numsource(f, rs[0], depth + 1)
    return None

def valsource(f, x, depth=0):
    x = strip(f, x)
    if x is None or x < 0 or depth > 8: return None
    n = f.nodes[x]
    if n['k'] == 'ref' and 'd' in n:
        if n.get('dk') == 'parm': return ('parm', n['pi'])
        rs = asgs(f, n['d'])
        if len(rs) == 1: return valsource(f, rs[0], depth + 1)
        return None
    if n['k'] == 'call' and 'fn' in n:
        if 'peek' in n['fn'].lower():
            v = cint(f, n['c'][-1])
            return ('peek', v) if v is not None else None
        if 'pop' in n['fn'].lower(): return ('pop', x)
        for a in n['c'][1:]:
            s = valsource(f, a, depth + 1)
            if s is not None and (s[0] != 'parm' or isinsn(f.params[s[1]])): return s
        return None
    if n['k'] == 'idx':
        return valsource(f, n['c'][1], depth + 1) or valsource(f, n['c'][0], depth + 1)
    if n['k'] == 'mem': return valsource(f, n['c'][0], depth + 1)
    return None

# ---------------------------------------------------------------- the rules

def direction(f, mv):
    """1 when the jump goes forward, -1 back"""
    out = set()
    for i in mv:
        n = f.nodes[i]
        if n['op'] in ('+=', '-='): out.add(1 if n['op'] == '+=' else -1)
        elif n['op'] == '=':
            r = f.nodes[strip(f, n['c'][1])]
            if r['k'] == 'bin' and r['op'] in ('+', '-'): out.add(1 if r['op'] == '+' else -1)
    return next(iter(out)) if len(out) == 1 else None

def counters(S, f, key, adv):
    """locals that count the instructions the walk has passed"""
    out = set()
    cand = collections.Counter()
    for i, n in enumerate(f.nodes):
        if n.get('incdec') or n['k'] == 'asg' and n['op'] == '+=' and cint(f, n['c'][1]) == 1 or n['k'] == 'un' and n['op'] in ('++', 'post++', 'pre++'):
            l = f.nodes[strip(f, n['c'][0])]
            if l['k'] == 'ref' and l.get('dk') == 'local' and 'd' in l:
                if S.status(f, [(i, None)], {('ptr', key): 1}, adv)[1] or owner(f, i) in adv: cand[l['d']] += 1
    for d, c in cand.items():
        if c == 1 and all(cint(f, r) == 0 for r in asgs(f, d)) and asgs(f, d): out.add(d)
    return out

def advblocks(f, key):
    out = set()
    for i, n in enumerate(f.nodes):
        if n['k'] == 'asg' and n['op'] == '=' and ekey(f, n['c'][0]) == key:
            r = f.nodes[strip(f, n['c'][1])]
            if r['k'] == 'mem' and r['f'] == 'next' and ekey(f, r['c'][0]) == key: out.add(owner(f, i))
    return out

def patchconts(P, S, f, key, depth=0):
    out = []
    for i, c in patches(P, f, key):
        if c is None: out.append((i, None)); continue
        g = P.fns[c[0]]; n = f.nodes[i]
        def cont(env, g=g, n=n, c=c):
            e = S.sub(f, n, g, env)
            if depth > 3: return True, True
            return S.status(g, patchconts(P, S, g, parmkey(g, c[1]), depth + 1), e, {g.exit})
        out.append((i, cont))
    return out

def boundaries(P, ops, shifters, movers, dirs, dflag, bad):
    """a jump is lengthened exactly when the changed instruction lies on its way"""
    S = Sim(P, dflag); ob = 0
    for g, key, r in shifters:
        adv = advblocks(g, key)
        tk = [parmkey(g, i) for i, p in enumerate(g.params) if isinsn(p)]
        tk = [k for k in tk if k != key and k is not None]
        if not adv or len(tk) != 1: continue
        tk = tk[0]
        cs = counters(S, g, key, adv)
        hits = patchconts(P, S, g, key)
        tgt = ('m', 'jumpTo', key)
        seen = set()
        for v in sorted(r & set(dirs)):
            if dirs[v] is None: continue
            for I in range(4):
                for Px in range(4):
                    if I == Px: continue
                    for T in range(4):
                        if (T > I) != (dirs[v] > 0): continue
                        env = {('op', key): v, ('ptr', key): 100 + I, ('ptr', tgt): 100 + T, ('ptr', tk): 100 + Px, ('idx', key): I, ('idx', tgt): T, ('idx', tk): Px}
                        for d in cs: env['n', ('v', d)] = I
                        may, must = S.status(g, hits, env, adv)
                        need = I < Px < T if dirs[v] > 0 else T <= Px < I
                        ob += 1
                        how = 'to just behind' if dirs[v] > 0 and T == Px + 1 else 'to' if T == Px else 'across' if need else 'not across'
                        if need and not may and (v, how) not in seen:
                            seen.add((v, how)); bad('%s %s not lengthened' % (g.key, ops[v]), g.loc(), '%s doesn\'t adjust %s when it jumps %s the instruction that changes' % (g.key, ops[v], how))
                        if not need and must and (v, 'no') not in seen:
                            seen.add((v, 'no')); bad('%s %s adjusted' % (g.key, ops[v]), g.loc(), '%s adjusts %s, though it jumps %s the instruction that changes' % (g.key, ops[v], how))
        # the position of the changed instruction: words of those before it
        for i, n in enumerate(g.nodes):
            if n['k'] != 'asg' or n['op'] != '+=': continue
            l = g.nodes[strip(g, n['c'][0])]
            if l['k'] != 'ref' or l.get('dk') != 'local' or not any(m['k'] == 'mem' and m['f'] == 'numOperands' and ekey(g, m['c'][0]) == key for m in desc(g, n['c'][1])): continue
            for I in range(3):
                for Px in range(3):
                    env = {('ptr', key): 100 + I, ('ptr', tk): 100 + Px, ('idx', key): I, ('idx', tk): Px}
                    for d in cs: env['n', ('v', d)] = I
                    may, must = S.status(g, [(i, None)], env, adv)
                    ob += 1
                    if I < Px and not may or I >= Px and must:
                        bad('%s start of the instruction' % g.key, g.loc(i), '%s %s the words of an instruction %s the one that changes' % (g.key, 'counts' if must else 'leaves out', 'before' if I < Px else 'behind' if I > Px else 'that is'))
                        break
    return ob

def desc(f, x):
    st = [x]
    while st:
        y = st.pop()
        if y is None or y < 0: continue
        n = f.nodes[y]; yield n
        st += n['c']

def guards(f, b):
    """(condition, truth) that hold whenever block b is reached"""
    out = []
    for a in (dominators(f).get(b) or ()):
        B = f.blocks[a]; c = B.get('cond')
        if c is None or len(B['s']) != 2 or (B.get('t') or '').startswith('Switch') or a == b: continue
        y = strip(f, c)
        while f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] in ('&&', '||'): y = strip(f, f.nodes[y]['c'][1])
        for s, t, o in ((B['s'][0], True, B['s'][1]), (B['s'][1], False, B['s'][0])):
            if s is None: continue
            # the other way doesn't lead here without passing the condition again
            if o is None: out.append((y, t)); continue
            if o != b and not reach(f, o, {a}, b): out.append((y, t))
    return out

def positions(P, fns, fields, dflag, bad):
    """a kept position moves exactly when it lies behind the start of the changed instruction"""
    S = Sim(P, dflag); ob = 0
    for k in sorted(fns):
        f = P.fns[k]
        for i, n in enumerate(f.nodes):
            site = None
            if n['k'] == 'asg' and n['op'] in ('+=', '-=', '='):
                lx = strip(f, n['c'][0]); l = f.nodes[lx]
                isf = (lhs_field(f, lx) or (0, 0))[:2] in fields
                isp = l['k'] == 'un' and l['op'] == '*' and f.nodes[strip(f, l['c'][0])].get('dk') == 'parm' and 'int' in l.get('cty', l.get('ty', ''))
                if isp or isf: site = lx
            mod = site is not None
            if not mod and n['k'] == 'call':
                for a in n['c'][1:]:
                    m = f.nodes[strip(f, a)]
                    if m['k'] == 'un' and m['op'] == '&' and (lhs_field(f, m['c'][0]) or (0, 0))[:2] in fields: site = strip(f, m['c'][0])
            if site is None: continue
            gs = guards(f, owner(f, i))
            for y, t in gs:
                c = f.nodes[y]
                if c['k'] == 'bin' and c['op'] in ('==', '!=', '>', '>='):
                    for p, q in (c['c'], c['c'][::-1]):
                        m = f.nodes[strip(f, p)]
                        if m['k'] == 'ref' and m.get('d') in bumped(f) and cint(f, q) is not None:
                            ob += 1
                            if c['op'] in ('==', '!=') : bad('%s some only' % k, f.loc(i), '%s moves the position only of some of the entries' % k)
            if not mod: continue
            key = ekey(f, site)
            others = set()
            rel = [(y, t) for y, t in gs if any(ekey(f, z) == key for z in descids(f, y))]
            if not rel:
                continue
            ok = True
            for p in range(3):
                for a in range(3):
                    env = {('n', key): p}
                    for y, t in rel:
                        for z in descids(f, y):
                            m = f.nodes[z]
                            if m['k'] == 'ref' and ekey(f, z) != key and subkey(key, ekey(f, z), None) == key and cint(f, z) is None and '*' not in m.get('ty', ''): env['n', ekey(f, z)] = a
                    vs = [S.val(f, y, env) for y, t in rel]
                    if any(v is None for v in vs): continue
                    r = all(bool(v) == t for v, (y, t) in zip(vs, rel))
                    ob += 1
                    if r != (p > a): ok = False
            if not ok: bad('%s which positions' % k, f.loc(i), '%s doesn\'t move exactly the positions that lie behind the start of the changed instruction' % k)
    return ob

def descids(f, x):
    st = [x]
    while st:
        y = st.pop()
        if y is None or y < 0: continue
        yield y
        st += f.nodes[y]['c']

def labels(P, ops, dirs, f0, dflag, bad, ev=None, skeys=(), roots=()):
    """jump targets are known before anything is removed, and handed on when the target is removed"""
    S = Sim(P, dflag); ob = 0
    fwd = {v for v, d in dirs.items() if d == 1}
    # (a) marked
    marked = {}; wh = None
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        for key in advances(f):
            hits = [(i, None) for i, n in enumerate(f.nodes) if n['k'] == 'asg' and n['op'] == '=' and marks(S, f, n, ('m', 'jumpTo', key))]
            if not hits: continue
            wh = wh or f
            for v in fwd:
                st = S.status(f, hits, {('op', key): v, ('ptr', key): 1, ('ptr', ('m', 'jumpTo', key)): 2}, advblocks(f, key))
                if st[0]: marked[v] = True
    if wh is not None:
        for v in sorted(fwd):
            ob += 1
            if v not in marked: bad('%s %s target' % (wh.key, ops[v]), wh.loc(), 'the target of %s isn\'t marked before instructions are removed' % ops[v])
    # (b) of catch tables: the position the interpreter continues at
    vmf = set()
    for f in P.fns.values():
        for n in f.nodes:
            if n['k'] == 'asg' and n['op'] == '=':
                for m in desc(f, n['c'][1]):
                    if m['k'] == 'bin' and m['op'] == '+':
                        d = list(desc(f, f.nodes.index(m) if False else m['c'][0])) + list(desc(f, m['c'][1]))
                        if any(y['k'] == 'mem' and y['f'] == 'code' and y.get('rec') == 'Chunk' for y in d):
                            vmf |= {y['f'] for y in d if y['k'] == 'mem' and y.get('rec') == 'CatchTable'}
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        for i, n in enumerate(f.nodes):
            if n['k'] == 'asg' and n['op'] == '=' and (lhs_field(f, n['c'][0]) or (0, 0))[:2] == ('Insn', 'isLabel') and cint(f, n['c'][1]) == 1:
                # the walk before it stops at a position of a row
                fl = set()
                for m in f.nodes:
                    if m['k'] == 'bin' and m['op'] in ('<', '<=', '==', '!=', '>', '>='):
                        for y in m['c']:
                            z = f.nodes[strip(f, y)]
                            if z['k'] == 'mem' and z.get('rec') == 'CatchTable': fl.add(z['f'])
                if fl and vmf:
                    ob += 1
                    if not fl & vmf: bad('%s catch target' % f.key, f.loc(i), '%s marks %s of a row as a target, the interpreter continues at %s' % (f.key, ' and '.join(sorted(fl)), ' and '.join(sorted(vmf)))); break
    # (c) handed on
    vr = set()
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        for key in advances(f):
            for i, n in enumerate(f.nodes):
                if n['k'] != 'asg' or n['op'] != '=': continue
                l = lhs_field(f, n['c'][0])
                if not l or l[0] != 'Insn' or l[1] != 'jumpTo' or ekey(f, l[2]) != key: continue
                r = f.nodes[strip(f, n['c'][1])]
                if r['k'] != 'mem' or r['f'] != 'next': continue
                pk = ekey(f, r['c'][0])
                if pk not in {parmkey(f, j) for j in range(len(f.params))}: continue
                for v in sorted(fwd):
                    ob += 1
                    env = {('op', key): v, ('ptr', key): 1, ('ptr', ('m', 'jumpTo', key)): 2, ('ptr', pk): 2}
                    if not S.status(f, [(i, None)], env, advblocks(f, key))[0]:
                        bad('%s %s retarget' % (f.key, ops[v]), f.loc(i), '%s leaves %s pointing to the removed instruction' % (f.key, ops[v])); break
                # the label too
                ob += 1; vr.add(f.key)
                if not handson(P, S, f, pk):
                    bad('%s label' % f.key, f.loc(i), '%s lets the next instruction be jumped to without marking it as a target' % f.key)
    for k in sorted(roots):
        rm = any(w == 'removes' for _, _, w in (ev or {}).get(k, ())) or any(w == 'removes' for _, x, _ in P.calls[k] for _, _, w in (ev or {}).get(x, ()))
        if not rm: continue
        cl = {k}
        for _ in range(2): cl |= {x for y in cl for _, x, _ in P.calls[y] if x}
        ob += 1
        if not cl & vr: bad('%s retarget' % k, P.fns[k].loc(), '%s removes an instruction without sending the jumps to it on to the next one' % k)
    return ob

def handson(P, S, f, pk, depth=0):
    nx = ('m', 'next', pk)
    env = {('lab', pk): 1, ('ptr', pk): 2, ('ptr', nx): 3, ('lab', nx): 0}
    hits = [(i, None) for i, n in enumerate(f.nodes) if n['k'] == 'asg' and n['op'] in ('=', '|=') and marks(S, f, n, nx, lab=pk)]
    if hits and S.status(f, hits, env, {f.exit})[0]: return True
    if depth < 3:
        for i, n in enumerate(f.nodes):
            if n['k'] == 'call' and 'fn' in n:
                k = P.resolve(n['fn'], f)
                if k:
                    g = P.fns[k]
                    for j, a in enumerate(n['c'][1:]):
                        if j < len(g.params) and isinsn(g.params[j]):
                            ka = S.canon(f, a, {pk, nx})
                            if ka == pk and handson(P, S, g, parmkey(g, j), depth + 1): return True
                            if ka == nx and owner(f, i) in S.may(f, env):
                                gk = parmkey(g, j)
                                hh = [m for m in g.nodes if m['k'] == 'asg' and marks(S, g, m, gk)]
                                if hh: return True
    return False

def marks(S, f, n, key, lab=None):
    """n sets isLabel of the instruction `key`"""
    x = strip(f, n['c'][0])
    m = f.nodes[x]
    if m['k'] != 'mem' or m['f'] != 'isLabel': return False
    base = S.canon(f, m['c'][0], {key} | ({key[2]} if len(key) > 2 else set()))
    if base != key: return False
    r = f.nodes[strip(f, n['c'][1])]
    if cint(f, n['c'][1]) is not None: return cint(f, n['c'][1]) != 0
    return True

def windows(P, OE, ops, tr, ev, skeys, roots, dflag, lastv, bad):
    """what is concluded from neighbours holds only when control can't enter between them"""
    S = Sim(P, dflag); ob = 0
    for O, (kc, kp) in tr:
        kpp = None; kn = None
        for n in O.nodes:
            if n['k'] == 'asg' and n['op'] == '=':
                r = O.nodes[strip(O, n['c'][1])]
                l = O.nodes[strip(O, n['c'][0])]
                if r['k'] == 'mem' and r['f'] == 'prev' and ekey(O, r['c'][0]) == kp and l['k'] == 'ref': kpp = ekey(O, n['c'][0])
        kns = {('m', 'next', kc)}
        for n in O.nodes:
            prs = [(('v', v['d']), v['init']) for v in n['vars'] if v['init'] >= 0] if n['k'] == 'decl' else []
            for k, r in prs:
                r = O.nodes[strip(O, r)]
                if r['k'] == 'mem' and r['f'] == 'next' and ekey(O, r['c'][0]) == kc: kns.add(k)
        base = {('ptr', kc): 1, ('ptr', kp): 2}
        if kpp: base['ptr', kpp] = 3
        for nid, c, name in P.calls[O.key]:
            if c is None or c in skeys and c not in ev and c not in roots: continue
            if c not in roots and not any(x in roots for _, x, _ in P.calls[c]) and c not in ev: continue
            n = O.nodes[nid]; b = owner(O, nid); g = P.fns[c]
            tgt = [ekey(O, y) for y in n['c'][1:]]
            if not (set(tgt) & {kc, kp, kpp}): continue
            def changes(env, g=g, n=n, c=c):
                """may it change an instruction under these conditions"""
                sub = S.sub(O, n, g, env)
                bl = S.may(g, sub)
                for m, cc, _ in P.calls[c]:
                    if (cc in roots or cc in ev) and owner(g, m) in bl: return True
                return any(owner(g, i) in bl for i, _, _ in ev.get(c, ()))
            combos = []
            for vc in ops:
                env = dict(base); env['op', kc] = vc
                per = set()
                for vp in ops:
                    e2 = dict(env); e2['op', kp] = vp
                    if b in S.may(O, e2): per.add(vp)
                if not per or len(per) == len(ops): continue
                vp = min(per)
                e2 = dict(env); e2['op', kp] = vp
                if not changes(e2): continue
                combos.append((vc, vp, e2, per))
            done = False
            for vc, vp, env, per in combos:
                e = dict(env); e['lab', kc] = 1
                ob += 1
                if b in S.may(O, e) and changes(e):
                    bad('%s %s target' % (O.key, g.key), O.loc(nid), '%s changes %s after %s even when it is the target of a jump' % (O.key, ops[vc], ops[vp])); break
                if kpp:
                    dep = {w for w in ops if b in S.may(O, dict(env, **{}) | {('op', kpp): w})}
                    if dep and len(dep) < len(ops):
                        ob += 1
                        e = dict(env); e['lab', kp] = 1; e['op', kpp] = min(dep)
                        if b in S.may(O, e) and changes(e):
                            bad('%s %s target' % (O.key, g.key), O.loc(nid), '%s changes %s and the two constants before it even when the second is the target of a jump' % (O.key, ops[vc])); break
            # what takes the value popped last needs the one before it
            rm = lambda k: any(w == 'removes' for _, _, w in ev.get(k, ()))
            if kc in tgt and (rm(c) or any(rm(x) for _, x, _ in P.calls[c] if x)):
                for vc, vp, env, per in combos:
                    if ops[vc] != 'OP_POP': continue
                    for w in lastv:
                        e = dict(env)
                        for k in kns: e['op', k] = w; e['ptr', k] = 4
                        ob += 1
                        if b in S.may(O, e): bad('%s before %s' % (O.key, ops[w]), O.loc(nid), '%s removes the value that %s takes' % (O.key, ops[w])); break
                    else: continue
                    break
        ob += merged(P, S, O, kc, kp, base, ops, ev, skeys, roots, bad)
    return ob

def merged(P, S, O, kc, kp, base, ops, ev, skeys, roots, bad):
    """pops taken together pop as many"""
    code = {n: v for v, n in ops.items()}
    if 'OP_POP' not in code or 'OP_POP_N' not in code: return 0
    one, many = code['OP_POP'], code['OP_POP_N']
    ob = 0
    for nid, c, name in P.calls[O.key]:
        if c not in roots: continue
        tgt = [ekey(O, y) for y in O.nodes[nid]['c'][1:]]
        if kp not in tgt or kc in tgt: continue
        b = owner(O, nid)
        for vp, np in ((one, 1), (many, 3)):
            for vc, nc in ((one, 1), (many, 5)):
                env = dict(base); env['op', kc] = vc; env['op', kp] = vp; env['lab', kc] = env['lab', kp] = 0
                if b not in S.may(O, env): continue
                # only where these two are what it's about
                if any(b in S.may(O, dict(env) | {('op', kp): w}) for w in ops if w not in (one, many) and ops[w] != 'OP_POP_DEBUG'): continue
                # follow the straight way from the removal
                cd, num = vc, (nc if vc == many else None)
                x = b; started = False; steps = 0; lost = False
                env2 = dict(env)
                def val(e):
                    v = S.val(O, e, envn(env2))
                    return v if isinstance(v, (int, float)) else None
                def envn(e):
                    e = dict(e)
                    return e
                opnd = {('o', kp): np if vp == many else None, ('o', kc): nc if vc == many else None}
                def num_of(e, depth=0):
                    y = strip(O, e)
                    v = cint(O, y)
                    if v is not None: return v
                    m = O.nodes[y]
                    if m['k'] == 'idx':
                        l = lhs_field(O, m['c'][0])
                        if l and l[1] == 'operands' and cint(O, m['c'][1]) == 0: return opnd.get(('o', ekey(O, l[2])))
                        return None
                    if m['k'] == 'bin' and m['op'] in ('+', '-'):
                        p, q = num_of(m['c'][0], depth + 1), num_of(m['c'][1], depth + 1)
                        return None if p is None or q is None else p + q if m['op'] == '+' else p - q
                    if m['k'] == 'cond':
                        t = S.val(O, m['c'][0], env)
                        return None if t is None else num_of(m['c'][1 if t else 2], depth + 1)
                    if m['k'] == 'ref' and 'd' in m and depth < 6:
                        rs = asgs(O, m['d'])
                        if len(rs) == 1: return num_of(rs[0], depth + 1)
                        # chosen between branches before
                        bl = S.may(O, env)
                        rs = [r for r in rs if owner(O, r) in bl and (O.blocks[b]['id'] == owner(O, r) or reach(O, owner(O, r), (), b))]
                        if len(rs) == 1: return num_of(rs[0], depth + 1)
                        return None
                    if m['k'] == 'call' and 'fn' in m:
                        k = P.resolve(m['fn'], O)
                        if k:
                            g = P.fns[k]; sub = S.sub(O, m, g, env); vs = set()
                            for bb in S.may(g, sub):
                                for e2 in g.blocks[bb]['e']:
                                    if g.nodes[e2]['k'] == 'ret' and g.nodes[e2]['c']:
                                        v = S.val(g, g.nodes[e2]['c'][0], sub)
                                        if v is None and any(z['k'] == 'mem' and z['f'] == 'operands' for z in desc(g, g.nodes[e2]['c'][0])):
                                            kk = [ekey(O, a) for a in m['c'][1:] if ('o', ekey(O, a)) in opnd]
                                            v = opnd[('o', kk[0])] if kk else None
                                        vs.add(v)
                            return next(iter(vs)) if len(vs) == 1 else None
                    return None
                seen = set()
                while steps < 40 and not lost:
                    steps += 1
                    if x in seen: break
                    seen.add(x)
                    for e in O.blocks[x]['e']:
                        if x == b and not started:
                            if e == nid or nid in set(descids(O, e)): started = True
                            continue
                        m = O.nodes[e]
                        if m['k'] == 'asg':
                            l = lhs_field(O, m['c'][0])
                            if l and l[1] == 'code' and ekey(O, l[2]) == kc: cd = S.val(O, m['c'][1], env2); env2['op', kc] = cd
                            y = O.nodes[strip(O, m['c'][0])]
                            if y['k'] == 'idx':
                                l = lhs_field(O, y['c'][0])
                                if l and l[1] == 'operands' and ekey(O, l[2]) == kc:
                                    v = num_of(m['c'][1])
                                    if v is None: lost = True
                                    else: num = v if m['op'] == '=' else (num or 0) + v if m['op'] == '+=' else None
                        if m['k'] == 'call' and 'fn' in m:
                            k = P.resolve(m['fn'], O)
                            ks = [ekey(O, a) for a in m['c'][1:]]
                            if k and kc in ks and k in ev and 'changes' in ev[k][0][2]:
                                ints = [a for a in m['c'][1:] if '*' not in O.nodes[strip(O, a)].get('ty', '')]
                                num = num_of(ints[-1]) if ints else None
                                if num is None: lost = True
                            elif k and kc in ks and k in roots: break
                            elif k and kc in ks and not set(ks) & {None} and any(is_list_insn_write(P.fns[k], z) for z in P.fns[k].nodes): lost = True
                    else:
                        ss = S.edges(O, x, env2)
                        # only as far as this rewriting goes
                        ss = [s for s in ss if reach(O, s, (), O.exit)]
                        if len(ss) != 1: break
                        if not started: break
                        # leave when the next step is another rule
                        x = ss[0]
                        continue
                    break
                ob += 1
                if lost or cd not in (one, many): continue
                got = 1 if cd == one else num
                if got is not None and got != np + nc:
                    bad('%s pops' % O.key, O.loc(nid), '%s makes one instruction that pops %d of two that pop %d and %d' % (O.key, got, np, nc)); return ob
    return ob

def lastvalue(P, f, h, stops, ops):
    """instructions that take the value popped last without popping one themselves"""
    out = set()
    for v, s in h.items():
        seen = {s}; todo = [s]
        while todo:
            b = todo.pop(); stop = False
            for e in f.blocks[b]['e']:
                n = f.nodes[e]
                if n['k'] == 'call' and 'pop' in (n.get('fn') or '').lower(): stop = True; break
                if any(m['k'] == 'mem' and m['f'] == 'lastValue' for m in desc(f, e)): out.add(v); stop = True; break
            if stop: continue
            c = f.blocks[b].get('cond')
            if c is not None and any(m['k'] == 'mem' and m['f'] == 'lastValue' for m in desc(f, c)): out.add(v)
            for t in f.succs(b):
                if t not in seen and t not in stops: seen.add(t); todo.append(t)
    return out

def order_of(P, S, f, els, env, bind=None, depth=0):
    """{operator: set of (source of the left number, source of the right)}"""
    out = collections.defaultdict(set)
    def src(x):
        s = numsource(f, x)
        if s is not None and s[0] == 'parm' and bind is not None: return bind.get(s[1])
        return s
    for e in els:
        for y in descids(f, e):
            n = f.nodes[y]
            if n['k'] == 'bin' and n['op'] in ('-', '/', '%', '<<', '>>'):
                a, b = src(n['c'][0]), src(n['c'][1])
                if a is not None and b is not None: out[n['op']].add((a, b))
            if n['k'] == 'call' and 'fn' in n and depth < 2:
                k = P.resolve(n['fn'], f)
                if k and len(n['c']) > 2:
                    g = P.fns[k]
                    bd = {i: src(a) for i, a in enumerate(n['c'][1:])}
                    if sum(v is not None for v in bd.values()) >= 2:
                        sub = S.sub(f, n, g, env)
                        for o, s in order_of(P, S, g, [e2 for b in S.may(g, sub) for e2 in g.blocks[b]['e']], sub, bd, depth + 1).items(): out[o] |= s
    return out

def zero(P, S, g, env, op, depth=0):
    """may the operator be computed"""
    bl = S.may(g, env)
    for b in bl:
        for e in g.blocks[b]['e']:
            for y in descids(g, e):
                n = g.nodes[y]
                if owner(g, y) not in bl: continue
                if n['k'] == 'bin' and n['op'] == op and numsource(g, n['c'][0]) is not None and numsource(g, n['c'][1]) is not None: return y
                if n['k'] == 'call' and 'fn' in n and depth < 2:
                    k = P.resolve(n['fn'], g)
                    if k:
                        sub = S.sub(g, n, P.fns[k], env)
                        if sum(kd == 'n' for kd, _ in sub) >= 2 and zero(P, S, P.fns[k], sub, op, depth + 1) is not None: return y
    return None

def folding2(P, OE, ops, g, vals, f, h, stops, tr, dflag, bad):
    """operands in the same order, and nothing computed that would trap or be an error"""
    from .vmcode import handler_nodes, arith_of
    S = Sim(P, dflag); ob = 0
    # which parameter is the constant before which
    chain = {g.key}
    ranks = {}
    for O, (kc, kp) in tr:
        kpp = None
        for n in O.nodes:
            if n['k'] == 'asg' and n['op'] == '=':
                r = O.nodes[strip(O, n['c'][1])]
                if r['k'] == 'mem' and r['f'] == 'prev' and ekey(O, r['c'][0]) == kp: kpp = ekey(O, n['c'][0])
        for nid, c, _ in P.calls[O.key]:
            if c != g.key: continue
            for i, a in enumerate(O.nodes[nid]['c'][1:]):
                k = ekey(O, a)
                if k == kp: ranks[('parm', i)] = 1
                elif kpp is not None and k == kpp: ranks[('parm', i)] = 0
    if len(ranks) < 2: return 0
    rp = next(k for k, r in ranks.items() if r == 1); lp = next(k for k, r in ranks.items() if r == 0)
    keyc = next((parmkey(g, i) for i, p in enumerate(g.params) if isinsn(p) and ('parm', i) not in ranks), None)
    for v, s in sorted(vals.items()):
        env = {('op', keyc): v} if keyc else {}
        els = [e for b in S.may(g, env) for e in g.blocks[b]['e']]
        mine = order_of(P, S, g, els, env)
        theirs = collections.defaultdict(set)
        if v in h: theirs = order_of(P, S, f, [e for _, e in handler_nodes(f, h[v], stops)], {})
        for o, prs in mine.items():
            for a, b in prs:
                if a not in ranks or b not in ranks: continue
                for x, y in theirs.get(o, ()):
                    if x[0] != 'peek' or y[0] != 'peek': continue
                    ob += 1
                    if (ranks[a] < ranks[b]) != (x[1] > y[1]):
                        bad('%s %s order' % (g.key, ops[v]), g.loc(), '%s takes the operands of %s the other way round than the interpreter' % (g.key, ops[v]))
            if o in ('/', '%'):
                for bv in ([0, 0.5] if o == '%' else [0]) + ([-1] if o == '%' else []):
                    for av in (0, 1, -1, 7):
                        e = dict(env); e['num', rp] = bv; e['num', lp] = av
                        ob += 1
                        z = zero(P, S, g, e, o)
                        if z is not None:
                            bad('%s %s of %s' % (g.key, ops[v], 'zero' if bv != -1 else 'minus one'), g.loc(z), '%s computes %g %s %g ahead, %s' % (g.key, av, o, bv, 'which the interpreter reports as an error' if bv != -1 else 'which traps for the lowest number')); break
                    else: continue
                    break
    return ob
