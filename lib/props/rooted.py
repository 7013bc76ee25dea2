"""G05: objects made during a built-in, and results of calls it makes, stay on the thread's list until it returns."""
from program import AnalysisError
from .vmcode import strip, cint, Consts

LIST = 'stackObjects'; DEPTH = 'inCCall'; INC = 'isCCall'; NATIVE_ERR = 'returnedFromNativeErr'

def walk(f, x):
    st = [x]; seen = set()
    while st:
        y = st.pop()
        if y is None or y < 0 or y in seen: continue
        seen.add(y); yield y
        st += f.nodes[y]['c']

def has(f, x, name):
    return any(f.nodes[y]['k'] == 'mem' and f.nodes[y]['f'] == name for y in walk(f, x))

def atom(f, c, pol):
    """(innermost operand, truth) of the condition of an edge"""
    y = c
    while True:
        n = f.nodes[y]
        if n['k'] == 'bin' and n['op'] in ('&&', '||'): y = n['c'][1]; continue
        if n['k'] in ('paren', 'cast'): y = n['c'][0]; continue
        if n['k'] == 'un' and n['op'] == '!': y = n['c'][0]; pol = not pol; continue
        if n['k'] == 'un' and n['op'] == '__extension__': y = n['c'][0]; continue
        if n['k'] == 'call' and n.get('fn') == '__builtin_expect': y = n['c'][1]; continue
        if n['k'] == 'bin' and n['op'] in ('==', '!=') and cint(f, n['c'][1]) == 0 and not has(f, n['c'][0], DEPTH) and f.nodes[strip(f, n['c'][0])].get('cty', f.nodes[strip(f, n['c'][0])].get('ty')) in ('int', '_Bool', 'bool'):
            if n['op'] == '==': pol = not pol
            y = n['c'][0]; continue
        return y, pol

class Rooted:
    def __init__(self, P, W):
        self.P = P; self.W = W; self.n = 0; self.vs = []; self.sites = {}
        self.fns = [f for f in P.fns.values() if f.entry is not None]
        self.allocs = self.reach({'getNewObject', 'collectGarbage', 'collectYoungGarbage', 'vm_run'})
    def reach(self, names):
        out = {k for k, f in self.P.fns.items() if f.name in names}
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f.key in out: continue
                if f.name in ('reallocate',): continue     # collects only when memory is used up
                if any(c in out for _, c, _ in self.P.calls[f.key]): out.add(f.key); ch = True
        return out
    def bad(self, f, x, msg):
        key = '%s %s' % (f.key, msg[:70])
        self.vs.append(dict(key=key, loc=f.loc(x), msg='%s: %s' % (f.name, msg)))
    def ob(self, what):
        self.n += 1; self.sites[what] = self.sites.get(what, 0) + 1
    # ---- recognisers
    def pushes(self, f, e):
        """the value put on the list by this element, or None"""
        n = f.nodes[e]
        if n['k'] == 'asg' and n['op'] == '=':
            l = f.nodes[strip(f, n['c'][0])]
            if l['k'] in ('idx', 'un') and has(f, n['c'][0], LIST) and has(f, n['c'][0], 'data'): return n['c'][1]
        if n['k'] == 'call' and 'fn' in n:
            k = self.P.resolve(n['fn'], f)
            i = self.keeps().get(k)
            if i is not None and i + 1 < len(n['c']): return n['c'][i + 1]
        return None
    def keeps(self):
        """helpers that put a parameter on the list on every path on which it is an object"""
        if hasattr(self, '_keeps'): return self._keeps
        self._keeps = {}
        for f in self.fns:
            if len(f.nodes) > 120 or not f.params: continue
            for e, n in enumerate(f.nodes):
                if n['k'] != 'asg': continue
                v = self.pushes(f, e)
                if v is None: continue
                for y in walk(f, v):
                    m = f.nodes[y]
                    if m['k'] == 'ref' and m.get('dk') == 'parm':
                        pi = m['pi']
                        if not self.escape(f, f.entry, 0, lambda e: self.pushes(f, e) is not None, lambda y, p: self.noobj(f, y, p) or self.outside(f, y, p)): self._keeps[f.key] = pi
        return self._keeps
    def noobj(self, f, y, p):
        """the edge on which the value is known not to be an object"""
        n = f.nodes[y]
        if n['k'] == 'bin' and n['op'] in ('==', '!=') and (n['op'] == '==') != p and any(f.nodes[z]['k'] == 'bin' and f.nodes[z]['op'] == '&' for z in walk(f, y)) and any('IS_OBJ' in (f.nodes[z].get('mac') or ()) or 'IS_OBJ' in str(f.nodes[z].get('mac', '')) for z in walk(f, y)): return True
        if n['k'] == 'call' and n.get('fn') in ('is_obj_p',) and not p: return True
        if n['k'] == 'ref' and not p and '*' in n.get('cty', n.get('ty', '')): return True
        return False
    def num(self, f, y, p, field):
        """the edge on which field <= 0"""
        n = f.nodes[y]
        if n['k'] == 'mem' and n['f'] == field: return not p
        if n['k'] == 'bin' and n['op'] in ('<', '<=', '>', '>=', '==', '!='):
            a, b = n['c']; op = n['op']
            if cint(f, a) is not None: a, b = b, a; op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
            m = f.nodes[strip(f, a)]; c = cint(f, b)
            if m['k'] == 'un' and m.get('op') == '--' and not m.get('post'): m = f.nodes[strip(f, m['c'][0])]
            if m['k'] != 'mem' or m['f'] != field or c is None: return False
            if not p: op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
            return op == '<' and c <= 1 or op == '<=' and c <= 0 or op == '==' and c <= 0
        return False
    def outside(self, f, y, p):
        """the edge on which no built-in is running"""
        n = f.nodes[y]
        if self.num(f, y, p, DEPTH) or self.num(f, y, p, 'frameCount'): return True
        if n['k'] == 'mem' and n['f'] in (INC, 'inited') and not p: return True
        if n['k'] == 'mem' and n['f'] == 'curThread' and not p: return True
        if n['k'] == 'bin' and n['op'] in ('==', '!=') and (n['op'] == '==') == p and any(f.nodes[strip(f, c)]['k'] == 'mem' and f.nodes[strip(f, c)]['f'] == 'curThread' for c in n['c']) and any(cint(f, c) == 0 for c in n['c']): return True
        if (n['k'] == 'bin' and n['op'] in ('==', '!=') and (n['op'] == '==') == p and any(cint(f, c) == 0 for c in n['c'])) or (n['k'] == 'ref' and not p):
            for c in (n['c'] if n['k'] == 'bin' else [y]):  # the thread in a variable
                m = f.nodes[strip(f, c)]
                if m['k'] == 'ref' and m.get('dk') == 'local' and 'd' in m:
                    rs = [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == m['d']]
                    if rs and all(self.thread(f, r) for r in rs): return True
        if n['k'] == 'call' and 'fn' in n and not p:       # a predicate that asks one of these
            k = self.P.resolve(n['fn'], f)
            if k:
                g = self.P.fns[k]; rs = [m['c'][0] for m in g.nodes if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0]
                return len(rs) == 1 and any(self.outside(g, *atom(g, z, False)) for z in walk(g, rs[0]) if g.nodes[z]['k'] in ('mem', 'bin'))
        if n['k'] == 'ref' and n.get('dk') == 'local':     # a condition put in a variable
            for r in [r for l, r in Consts.assigns(type('X', (), {'f': f})()) if l == n.get('d')]:
                if self.outside(f, *atom(f, r, p)): return True
        return False
    def thread(self, f, r):
        n = f.nodes[strip(f, r)]
        if n['k'] == 'cond': return any(self.thread(f, c) for c in n['c'][1:])
        return n['k'] == 'mem' and n['f'] == 'curThread' or n['k'] == 'call' and n.get('fn') in ('THREAD', 'FIND_THREAD') 
    def oom(self, f, y, p):
        """the edge on which the list could not grow"""
        n = f.nodes[y]
        if n['k'] == 'bin' and n['op'] in ('==', '!=') and cint(f, n['c'][1]) == 0:
            if n['op'] == '==': p = not p
            y = n['c'][0]; n = f.nodes[y]
        return n['k'] == 'call' and n.get('fn') == 'vec_expand_' and p
    # ---- paths
    def escape(self, f, b0, i0, done, exempt, stop=None, must_exit=True):
        """an element (or the end of the function) reached from (b0, i0) before done; None if there is none"""
        work = [(b0, i0)]; seen = set()
        while work:
            b, i = work.pop()
            B = f.blocks[b]; hit = False
            for e in B['e'][i:]:
                if done(e): hit = True; break
                if stop and stop(e): return e
                n = f.nodes[e]
                if n['k'] == 'call' and n.get('fn') and (self.P.resolve(n['fn'], f) in self.W.noreturn or n['fn'] in self.W.noreturn): hit = True; break
            if hit or B.get('nr'): continue
            ss = B['s']
            if not any(s is not None for s in ss) or all(s == f.exit if hasattr(f, 'exit') else False for s in ss if s is not None):
                if must_exit: return B['e'][-1] if B['e'] else 0
                continue
            for k, s in enumerate(ss):
                if s is None: continue
                if B.get('cond') is not None and len(ss) == 2 and not (B.get('t') or '').startswith('Switch'):
                    y, p = atom(f, B['cond'], k == 0)
                    if self.oom(f, y, p): continue
                    c = cint(f, y)
                    if c is not None and bool(c) != p: continue
                    if exempt(y, p): continue
                if (s, 0) not in seen: seen.add((s, 0)); work.append((s, 0))
        return None
    def before(self, f, target, done, exempt=lambda y, p: False):
        """target can be reached from the entry without done"""
        r = self.escape(f, f.entry, 0, done, exempt, stop=lambda e: e == target, must_exit=False)
        return r is not None
    def pos(self, f, e):
        for b, B in f.blocks.items() if isinstance(f.blocks, dict) else enumerate(f.blocks):
            if e in B['e']: return b, B['e'].index(e)
        return None
    # ---- the rules
    def run(self):
        self.allocations(); self.shortened(); self.natives()
    def allocations(self):
        P = self.P
        for f in self.fns:
            for nid, c, name in P.calls[f.key]:
                if name != 'getNewObject': continue
                p = self.pos(f, nid)
                if p is None: continue
                self.ob('allocations')
                e = self.escape(f, p[0], p[1] + 1, lambda e: self.pushes(f, e) is not None, lambda y, q: self.outside(f, y, q), stop=lambda e: f.nodes[e]['k'] == 'ret')
                if e is not None: self.bad(f, nid, 'an object made while a built-in runs is not put on the list of objects kept for it on every path (line %d is reached without)' % f.nodes[e]['line'])
    def shortened(self):
        P = self.P; restores = 0
        for f in self.fns:
            for e, n in enumerate(f.nodes):
                tgt = None
                if n['k'] == 'asg' and (n['op'] == '=' or n['op'] == '-='): tgt = n['c'][0]
                elif n.get('incdec') and '-' in str(n.get('op', n['incdec'])): tgt = n['c'][0]
                elif n['k'] == 'call' and n.get('fn') in ('vec_splice_', 'vec_swapsplice_') and has(f, n['c'][1], LIST): tgt = -1
                if tgt is None: continue
                if tgt != -1:
                    l = f.nodes[strip(f, tgt)]
                    if l['k'] != 'mem' or l['f'] != 'length': continue
                    b = f.nodes[strip(f, l['c'][0])]
                    if not has(f, l['c'][0], LIST): continue
                p = self.pos(f, e)
                if p is None: continue
                self.ob('places that shorten the list')
                ok = not self.before(f, e, lambda x: False, lambda y, q: self.num(f, y, q, DEPTH) or f.nodes[y]['k'] == 'mem' and f.nodes[y]['f'] == NATIVE_ERR and q)
                if ok: continue
                # set back to the length it had before a call
                r = f.nodes[strip(f, n['c'][1])] if n['k'] == 'asg' and n['op'] == '=' else None
                if r is not None and r['k'] == 'cond':      # the smaller of its length and a saved one
                    arms = [f.nodes[strip(f, c)] for c in r['c'][1:]]
                    rest = [a for a in arms if not (a['k'] == 'mem' and a['f'] == 'length')]
                    if len(rest) == 1: r = rest[0]
                if r is not None and r['k'] == 'ref' and r.get('dk') == 'local' and 'd' in r:
                    ds = [x for l, x in Consts.assigns(type('X', (), {'f': f})()) if l == r['d']]
                    if len(ds) == 1 and has(f, ds[0], LIST) and has(f, ds[0], 'length') and all(f.nodes[z].get('op') not in ('-', '+', '/', '*') for z in walk(f, ds[0])):
                        restores += 1
                        self.ob('results of calls')
                        x = self.escape(f, p[0], p[1] + 1, lambda x: self.istop(f, self.pushes(f, x)), lambda y, q: self.outside(f, y, q) or self.noobj(f, y, q), stop=lambda x: f.nodes[x]['k'] == 'ret')
                        if x is not None: self.bad(f, e, 'the result of a call is taken off the list of objects kept for the built-in that made the call (line %d is reached without putting it back)' % f.nodes[x]['line'])
                        continue
                self.bad(f, e, 'the list of objects kept for running built-ins is shortened while one may be running')
        if not restores and not self.vs and not any(self.sites.get('places that shorten the list', 0) for _ in [0]): raise AnalysisError('the list of kept objects is never shortened')
    def istop(self, f, v):
        """v is the value on top of the stack"""
        if v is None: return False
        st = [v]; seen = set()
        while st:
            y = st.pop()
            if y is None or y < 0 or y in seen: continue
            seen.add(y); n = f.nodes[y]
            if n['k'] == 'call' and n.get('fn') in ('peek', 'vm_peek') and (cint(f, n['c'][-1]) == 0): return True
            if n['k'] == 'mem' and n['f'] == 'stackTop': return True
            if n['k'] == 'ref' and n.get('dk') == 'local' and 'd' in n: st += [x for l, x in Consts.assigns(type('X', (), {'f': f})()) if l == n['d']]
            st += n['c']
        return False
    def entering(self, f, e):
        """this element counts a built-in as running"""
        n = f.nodes[e]
        if n.get('incdec') and '+' in str(n.get('op', n['incdec'])) or n['k'] == 'asg' and n['op'] == '+=':
            l = f.nodes[strip(f, n['c'][0])]
            return l['k'] == 'mem' and l['f'] == DEPTH
        if n['k'] == 'asg' and n['op'] == '=' and f.nodes[strip(f, n['c'][0])]['k'] == 'mem' and f.nodes[strip(f, n['c'][0])]['f'] == DEPTH: return any(f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] == '+' for y in walk(f, n['c'][1]))
        if n['k'] == 'call' and n.get('fn'):
            k = self.P.resolve(n['fn'], f)
            return k in self.enters()
        return False
    def enters(self):
        if not hasattr(self, '_enters'):
            self._enters = set(); ch = True
            while ch:
                ch = False
                for f in self.fns:
                    if f.key in self._enters or not (any(m['k'] == 'mem' and m['f'] == DEPTH for m in f.nodes) or any(c in self._enters for _, c, _ in self.P.calls[f.key])): continue
                    if self.escape(f, f.entry, 0, lambda e: self.entering(f, e), lambda y, q: False) is None and len(f.nodes) < 250: self._enters.add(f.key); ch = True
        return self._enters
    def natives(self):
        P = self.P; found = 0
        todo = []
        for f in self.fns:
            for e, n in enumerate(f.nodes):
                if n['k'] != 'call' or 'fn' in n: continue
                m = f.nodes[strip(f, n['c'][0])]
                if m['k'] == 'un' and m['op'] == '*': m = f.nodes[strip(f, m['c'][0])]
                if m['k'] == 'ref' and m.get('dk') == 'local' and 'd' in m:
                    ds = [x for l, x in Consts.assigns(type('X', (), {'f': f})()) if l == m['d']]
                    if len(ds) == 1: m = f.nodes[strip(f, ds[0])]
                if m['k'] == 'mem' and m['f'] == 'function' and m.get('rec') == 'ObjNative': found += 1; todo.append((f, e, 0))
        if not found: raise AnalysisError('no call of a native function found')
        seen = set()
        while todo:
            f, e, d = todo.pop()
            if (f.key, e) in seen or d > 4: continue
            seen.add((f.key, e))
            if self.pos(f, e) is None: continue
            self.ob('calls of built-ins')
            if not self.before(f, e, lambda x: self.entering(f, x)): self.after(f, e); continue
            cs = [(P.fns[k], nid) for k in P.callers.get(f.key, ()) for nid, c, _ in P.calls[k] if c == f.key]
            if not cs or f.key in P.addr_fns: self.bad(f, e, 'a built-in is called without being counted as running, so what it makes is not kept'); continue
            todo += [(g, x, d + 1) for g, x in cs]
        for f in self.fns:      # taken back only for the frame of a built-in
            for e, n in enumerate(f.nodes):
                dec = n.get('incdec') and '-' in str(n.get('op', n['incdec'])) or n['k'] == 'asg' and n['op'] == '-='
                zero = n['k'] == 'asg' and n['op'] == '='
                if not dec and not zero: continue
                l = f.nodes[strip(f, n['c'][0])]
                if l['k'] != 'mem' or l['f'] != DEPTH or self.pos(f, e) is None: continue
                self.ob('places that count built-ins as ended')
                if zero and f.file == 'thread.c': continue     # a new thread, or the only one in a new process
                if zero and any(f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] == '+' for y in walk(f, n['c'][1])): continue
                want = INC if dec else NATIVE_ERR
                if zero and any(f.nodes[y]['k'] == 'bin' and f.nodes[y]['op'] == '-' for y in walk(f, n['c'][1])): want = INC
                if self.before(f, e, lambda x: False, lambda y, q: f.nodes[y]['k'] == 'mem' and f.nodes[y]['f'] == want and q): self.bad(f, e, 'a built-in is counted as ended that has not ended, so what running ones made is not kept')
    def after(self, f, e):
        """the result of the built-in, from its return to its place on the stack"""
        P = self.P
        p = self.pos(f, e)
        pops = {k for k, g in P.fns.items() if g.name == 'popFrame'}
        may = lambda x: f.nodes[x]['k'] == 'call' and f.nodes[x].get('fn') and P.resolve(f.nodes[x]['fn'], f) in self.allocs
        keeps = lambda x: f.nodes[x]['k'] == 'call' and (f.nodes[x].get('fn') in ('hideFromGC', 'push', 'vm_push', 'throwError') or self.pushes(f, x) is not None) or f.nodes[x]['k'] == 'asg' and f.nodes[strip(f, f.nodes[x]['c'][0])]['k'] in ('un', 'idx') and has(f, f.nodes[x]['c'][0], 'stackTop')
        self.ob('results of built-ins')
        x = self.escape(f, p[0], p[1] + 1, keeps, lambda y, q: f.nodes[y]['k'] == 'mem' and f.nodes[y]['f'] == NATIVE_ERR and q or self.noobj(f, y, q), stop=may, must_exit=False)
        if x is not None: self.bad(f, x, 'the result of a built-in is not kept when something is called that may collect it')

def run(ctx):
    R = Rooted(ctx.P, ctx.W)
    R.run()
    return dict(violations=R.vs, obligations=R.n, coverage=dict(R.sites))
