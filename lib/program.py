"""Merged whole-program view over the extractor's facts."""
import collections
import facts as _f
from facts import AnalysisError

class Fn:
    __slots__ = ('name', 'file', 'line', 'endline', 'static', 'noreturn', 'ret', 'params', 'entry', 'exit',
                 'blocks', 'nodes', 'src', 'variadic', 'preds', 'rpo', 'heads', 'addrtaken', 'key', 'parent',
                 'owner_block', 'cross', 'logel', 'defs', '_x', 'consumes', 'live')
    def __init__(self, d, src):
        self.name = d['name']; self.file = d['file']; self.line = d['line']; self.endline = d['endline']
        self.static = d['static']; self.noreturn = d['noreturn']; self.ret = d['ret']; self.params = d['params']
        self.variadic = d['variadic']
        self.entry = d.get('entry'); self.exit = d.get('exit')
        self.blocks = {b['id']: b for b in d.get('blocks', [])}
        self.nodes = d.get('nodes', [])
        self.src = src
        self.key = self.name
        self._x = {}
        self.prep()
    def prep(self):
        preds = collections.defaultdict(list)
        for b in self.blocks.values():
            for i, s in enumerate(b['s']):
                if s is not None and not b.get('nr'):
                    preds[s].append((b['id'], i))
        self.preds = preds
        # reverse post order + loop heads (targets of back edges)
        order, state, heads = [], {}, set()
        if self.entry is None:
            self.rpo = []; self.heads = set(); return
        stack = [(self.entry, iter(self.succs(self.entry)))]
        state[self.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
                elif state[s] == 1:
                    heads.add(s)
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.heads = heads
        # parents, element ownership
        par = {}
        for i, n in enumerate(self.nodes):
            for c in n['c']:
                if c is not None and c >= 0:
                    par.setdefault(c, i)
            if n['k'] == 'decl':
                for v in n['vars']:
                    if v['init'] >= 0:
                        par.setdefault(v['init'], i)
        self.parent = par
        own = {}
        for b in self.blocks.values():
            for e in b['e']:
                own[e] = b['id']
        self.owner_block = own
        cross = set()
        for e, b in own.items():
            p = par.get(e)
            # a condition's value is consumed by the block terminator
            while p is not None and p not in own:
                p = par.get(p)
            if p is not None and own.get(p) != b:
                cross.add(e)
        self.cross = cross
        cons = {}
        for e in list(cross):
            p = par.get(e)
            while p is not None and p not in own: p = par.get(p)
            cons.setdefault(p, []).append(e)
        self.consumes = cons
        # addresses of locals taken
        adr = set()
        for n in self.nodes:
            if n['k'] == 'un' and n['op'] == '&':
                m = self.nodes[n['c'][0]] if n['c'][0] >= 0 else None
                while m is not None and m['k'] in ('mem', 'idx') and not (m['k'] == 'mem' and m['arrow']):
                    if m['k'] == 'idx':
                        bt = self.nodes[m['c'][0]]
                        if not bt.get('cty', bt.get('ty', '')).endswith(']'):
                            m = None; break
                    m = self.nodes[m['c'][0]] if m['c'][0] >= 0 else None
                if m is not None and m['k'] == 'ref' and 'd' in m:
                    adr.add(m['d'])
        self.addrtaken = adr
        # logical operators whose value is consumed as an element
        le = set()
        for e in own:
            n = self.nodes[e]
            if n['k'] == 'bin' and n['op'] in ('&&', '||'):
                q = e
                while q >= 0 and self.nodes[q]['k'] == 'bin' and self.nodes[q]['op'] in ('&&', '||'):
                    le.add(q); q = self.nodes[q]['c'][1]
            elif n['k'] == 'cond':
                le.add(e)
        self.logel = le
        self.liveness()
    def liveness(self):
        use, defs = {}, {}
        for b in self.blocks.values():
            u, d = set(), set()
            asgl = set()
            for e in b['e']:
                n = self.nodes[e]
                if n['k'] == 'asg' and n['op'] == '=': asgl.add(n['c'][0])
            def walk(x, seen):
                if x is None or x < 0 or x in seen: return
                seen.add(x)
                n = self.nodes[x]
                if n['k'] == 'ref' and 'd' in n and x not in asgl and n['d'] not in d: u.add(n['d'])
                for c in n['c']:
                    if c not in self.owner_block or True: walk(c, seen)
            for e in b['e']:
                n = self.nodes[e]
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if v['init'] >= 0: walk(v['init'], set())
                        d.add(v['d'])
                elif n['k'] == 'asg' and n['op'] == '=':
                    walk(n['c'][1], set())
                    l = self.nodes[n['c'][0]]
                    if l['k'] == 'ref' and 'd' in l: d.add(l['d'])
                    else: walk(n['c'][0], set())
                elif n['k'] == 'ref':
                    if e not in asgl and 'd' in n and n['d'] not in d: u.add(n['d'])
                else: walk(e, set())
            if 'cond' in b: walk(b['cond'], set())
            use[b['id']] = u; defs[b['id']] = d
        live = {b: set(use[b]) for b in self.blocks}
        ch = True
        order = self.rpo[::-1]
        while ch:
            ch = False
            for b in order:
                l = set(use[b])
                for s in self.succs(b): l |= live[s] - defs[b]
                if l != live[b]: live[b] = l; ch = True
        self.live = live
    def loop(self, h):
        """blocks of the natural loop(s) headed by h"""
        c = self._x.setdefault('loops', {})
        if h in c: return c[h]
        order = {b: i for i, b in enumerate(self.rpo)}
        body = {h}
        st = [p for p, _ in self.preds[h] if p in order and order[p] >= order[h]]
        while st:
            b = st.pop()
            if b in body or b not in order: continue
            body.add(b)
            st += [p for p, _ in self.preds[b]]
        c[h] = body
        return body
    def loopvars(self, h):
        """scalar locals assigned inside the loop headed by h"""
        c = self._x.setdefault('loopvars', {})
        if h in c: return c[h]
        r = set()
        for b in self.loop(h):
            for e in self.blocks[b]['e']:
                n = self.nodes[e]
                if n['k'] == 'asg' or n.get('incdec'):
                    l = self.nodes[n['c'][0]]
                    if l['k'] == 'ref' and 'd' in l and l.get('dk') in ('local', 'parm'): r.add(l['d'])
        c[h] = r
        return r
    def succs(self, b):
        bl = self.blocks[b]
        if bl.get('nr'):
            return []
        return [s for s in bl['s'] if s is not None]
    def loc(self, nid=None):
        if nid is None:
            return '%s:%d' % (self.file, self.line)
        return '%s:%d' % (self.file, self.nodes[nid]['line'])

class Program:
    def __init__(self, raw):
        self.fns = {}
        self.recs = {}; self.enums = {}; self.enumconst = {}; self.typedefs = {}; self.globals = {}
        dup = collections.defaultdict(list)
        for src, d in raw.items():
            for f in d['fns']:
                dup[f['name']].append((f, src))
            for r in d['recs']:
                self.recs.setdefault(r['name'], r)
                if r.get('typedef'): self.recs.setdefault(r['typedef'], r)
            for e in d['enums']:
                n = e['name'] or e.get('typedef') or ''
                if n: self.enums.setdefault(n, e)
                if e.get('typedef'): self.enums.setdefault(e['typedef'], e)
                for c in e['consts']:
                    self.enumconst[c['name']] = int(c['v'])
            for t in d['typedefs']:
                self.typedefs.setdefault(t['name'], t)
            for g in d['globals']:
                if g['name'] not in self.globals or g['def']:
                    if not (g['static'] and g['name'] in self.globals and self.globals[g['name']]['def']):
                        self.globals[g['name']] = g
        self.byfile = {}
        for name, l in dup.items():
            locs = {(f['file'], f['line']) for f, s in l}
            if len(locs) == 1:
                self.fns[name] = Fn(l[0][0], l[0][1])
            else:
                seen = set()
                for f, s in l:
                    k = (f['file'], f['line'])
                    if k in seen: continue
                    seen.add(k)
                    fn = Fn(f, s)
                    fn.key = name + '@' + s
                    self.fns[fn.key] = fn
        self.multi = {n for n, l in dup.items() if len({(f['file'], f['line']) for f, s in l}) > 1}
        self.addr_fns = collections.defaultdict(list)   # function name -> [(fn, nid)]
        self.calls = {}      # key -> [(nid, calleekey or None)]
        self.callers = collections.defaultdict(set)
        for f in self.fns.values():
            cl = []
            callee_nodes = set()
            for i, n in enumerate(f.nodes):
                if n['k'] == 'call':
                    if 'fn' in n:
                        callee_nodes.add(n['c'][0])
                        k = self.resolve(n['fn'], f)
                        cl.append((i, k, n['fn']))
                        if k: self.callers[k].add(f.key)
                    else:
                        cl.append((i, None, None))
            for i, n in enumerate(f.nodes):
                if n['k'] == 'ref' and n.get('dk') == 'fn' and i not in callee_nodes:
                    k = self.resolve(n['name'], f)
                    if k: self.addr_fns[k].append((f, i))
            self.calls[f.key] = cl
        for g in self.globals.values():
            for n in g.get('nodes', []):
                if n['k'] == 'ref' and n.get('dk') == 'fn' and n['name'] in self.fns:
                    self.addr_fns[n['name']].append((None, -1))
    def resolve(self, name, fromfn):
        if name in self.multi:
            k = name + '@' + fromfn.src
            return k if k in self.fns else None
        return name if name in self.fns else None
    def macro(self, name, depth=0):
        """integer value of an object-like macro or enum constant"""
        if self._macros is None: self._macros = _f.macros()
        if name in self.enumconst: return self.enumconst[name]
        t = self._macros.get(name)
        if t is None or depth > 8: raise AnalysisError('macro %s not found' % name)
        import re
        t = re.sub(r'\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b', r'\1', t)
        t = re.sub(r'\b[A-Za-z_]\w*\b(?!\s*\()', lambda m: m.group(0) if re.match(r'0[xX]', m.group(0)) else str(self.macro(m.group(0), depth + 1)), t)
        try: return int(eval(t, {'__builtins__': {}}))
        except Exception: raise AnalysisError('macro %s is not an integer' % name)
    _macros = None
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            raise AnalysisError('anchor function %s not found' % name)
        return f
    def rec(self, name):
        r = self.recs.get(name)
        if r is None:
            raise AnalysisError('anchor record %s not found' % name)
        return r
    def enum(self, name):
        e = self.enums.get(name)
        if e is None:
            raise AnalysisError('anchor enum %s not found' % name)
        return e

def load(config='release'):
    import pickle, os
    raw = None
    p = os.environ.get('CLOX_PICKLE')     # development aid only
    if p and os.path.exists(p):
        raw = pickle.load(open(p, 'rb'))
    else:
        raw = _f.extract(config)
    return Program(raw)
