"""What a built-in acquires for the time of a call it releases again, whatever way the call ends."""
import collections
import cg
from world import sig
from program import AnalysisError

# calls that acquire: name -> (kind, where the resource is: 'ret' or argument index, what failure looks like)
ACQ = {n: ('mem', 'ret', 'null') for n in ('malloc', 'calloc', 'strdup', 'strndup', 'realpath', 'get_current_dir_name')}
ACQ.update({n: ('stream', 'ret', 'null') for n in ('fopen', 'fdopen', 'popen', 'tmpfile', 'opendir', 'fdopendir')})
ACQ.update({n: ('descriptor', 'ret', 'neg') for n in ('open', 'openat', 'creat', 'socket', 'accept', 'accept4', 'dup', 'epoll_create', 'eventfd', 'mkstemp')})
ACQ.update({'pipe': ('descriptor', 0, 'nonzero'), 'pipe2': ('descriptor', 0, 'nonzero'), 'socketpair': ('descriptor', 3, 'nonzero'), 'getaddrinfo': ('addrinfo', 1 + 2, 'nonzero'), 'glob': ('glob', 1 + 2, 'nonzero')})
REL = {n: 0 for n in ('free', 'fclose', 'pclose', 'closedir', 'close', 'freeaddrinfo', 'globfree')}
KIND = {'free': 'mem', 'fclose': 'stream', 'pclose': 'stream', 'closedir': 'stream', 'close': 'descriptor', 'freeaddrinfo': 'addrinfo', 'globfree': 'glob'}
# external functions that keep what they are given
KEEPS = {'pthread_create', 'fdopen', 'fdopendir', 'setvbuf', 'pthread_setspecific', 'atexit', 'putenv'}

def strip(f, x):
    while x is not None and x >= 0 and f.nodes[x]['k'] in ('cast', 'paren') and f.nodes[x]['c']: x = f.nodes[x]['c'][0]
    return x

# the front end keeps what it builds as long as the program runs, or owns it through its trees
FRONT = ('nodes.c', 'parser.c', 'compiler.c', 'debug.c', 'scanner.c', 'main.c', 'repl.c', 'options.c', 'regex_lib.c', 'debugger.c')
GROW = {'vec_expand_', 'vec_reserve_', 'vec_reserve_po2_'}      # fail only when memory is used up

class Release:
    def __init__(self, P, W):
        self.P = P; self.W = W
        cut = {k for k in P.fns if P.fns[k].name in ('getNewObject', 'collectGarbage', 'collectYoungGarbage', 'reallocate', 'acquireGVL', 'releaseGVL', 'grayObject', 'freeObject', 'hideFromGC', 'unhideFromGC')}
        # of the calls into the tables only those on a map's can get to a script's hash or comparison:
        # the machine's own tables are keyed by strings and numbers
        tables = {f.name for f in P.fns.values() if f.file == 'table.c'}
        quiet = {k for k, f in P.fns.items() if f.name in ('thread_debug', 'vm_debug', 'vm_warn', 'die', 'diePrintCBacktrace', 'printCBacktrace')}
        self.tables = tables; self.frozen = {}
        mk = set()
        # makers call the built-in init of what they make, which cannot raise
        while True:
            rev = collections.defaultdict(set)
            for f in P.fns.values():
                for nid, k, name in P.calls[f.key]:
                    t = k or name
                    if name in tables and f.name not in tables and self.owntable(f, nid): continue
                    if k in self.frozen and self.onfresh(f, nid, k): continue
                    if t: rev[t].add(f.key)
                    else:
                        for t in W.addr_by_sig.get(sig(f.nodes[f.nodes[nid]['c'][0]]), []): rev[t].add(f.key)
            old = len(self.throws) if hasattr(self, 'throws') else -1
            self.throws = {'throwError', 'throwErrorFmt'}; st = list(self.throws)
            while st:
                for c in rev.get(st.pop(), ()):
                    if c in self.throws or c in cut or c in mk or c in quiet: continue
                    self.throws.add(c); st.append(c)
            new = {k for k in self.throws & set(P.fns) if P.fns[k].name in self.makers() and all((t or nm) not in self.throws or nm == 'callVMMethod' or t == k for _, t, nm in P.calls[k])}
            mk |= new
            self.frozenonly()
            if not new and len(self.throws) == old: break
        self.fresh = {}                 # function -> kind of what it returns
        self.frees = collections.defaultdict(set)    # function -> parameters it releases
        self.keeps = collections.defaultdict(set)    # function -> parameters it keeps
        self.viol = {}; self.sites = set(); self.fnseen = set(); self.early = {}
        for it in range(12):
            ch = False
            for k in sorted(P.fns):
                f = P.fns[k]
                if f.entry is None: continue
                ch |= self.params(f)
            if not ch: break
        for it in range(6):
            ch = False
            for k in sorted(P.fns):
                f = P.fns[k]
                if f.entry is None or not self.interesting(f): continue
                ch |= self.flow(f, False)
            if not ch: break
        # functions that raise before what they keep is kept
        for it in range(6):
            ch = False
            for k in sorted(P.fns):
                f = P.fns[k]
                if f.entry is None or k not in self.throws: continue
                for p in sorted(self.keeps[k] | self.frees[k]):
                    if (k, p) in self.early or p >= len(f.params): continue
                    d = f.params[p].get('d')
                    if d is None or '*' not in f.params[p]['ty'] and f.params[p]['ty'] != 'int': continue
                    self.flow(f, 'early', (('parm', p), 'thing', frozenset([d]), 'none', None))
                    if (k, p) in self.early: ch = True
            if not ch: break
        for k in sorted(P.fns):
            f = P.fns[k]
            if f.entry is None or not self.interesting(f): continue
            if f.file in FRONT or f.file.startswith('vendor'): continue
            self.fnseen.add(k)
            self.flow(f, True)
    def frozenonly(self):
        """functions that raise only when the object they are given is frozen: parameter -> not for one just made"""
        for k in self.throws & set(self.P.fns):
            f = self.P.fns[k]
            if f.entry is None: continue
            on = set()
            ok = True
            for i, n in enumerate(f.nodes):
                if n['k'] != 'call': continue
                nm = n.get('fn'); key = self.P.resolve(nm, f) if nm else None
                if not ((key or nm) in self.throws or nm is None): continue
                g = self.guard(f, i)
                if g is None: ok = False; break
                on.add(g)
            if ok and len(on) == 1: self.frozen[k] = on.pop()
    def owntable(self, f, i):
        """a table call on one of the machine's tables: embedded in a structure, or a field of one that is no map"""
        a = f.nodes[i]['c'][1:]
        if not a: return False
        x = strip(f, a[0]); n = f.nodes[x]
        if n['k'] == 'un' and n['op'] == '&': return f.nodes[strip(f, n['c'][0])]['k'] == 'mem' or f.nodes[strip(f, n['c'][0])].get('dk') == 'global'
        return n['k'] == 'mem' and n.get('rec') != 'ObjMap'
    def onfresh(self, f, i, k):
        p = self.frozen[k]; a = f.nodes[i]['c'][1:]
        return p == 'dead' or p < len(a) and self.justmade(f, a[p])
    def guard(self, f, i):
        """the parameter whose frozenness is the reason for reaching a call"""
        b = f.owner_block.get(i)
        if b is None: return 'dead'
        seen = set()
        while b is not None and b not in seen:
            seen.add(b)
            ps = f.preds.get(b, []) if isinstance(f.preds, dict) else f.preds[b]
            if len(ps) != 1: return None
            p = ps[0][0] if isinstance(ps[0], tuple) else ps[0]; B = f.blocks[p]
            c = B.get('cond')
            if c is not None and len(B['s']) == 2 and B['s'][0] == b:
                x = strip(f, c)
                if f.nodes[x]['k'] == 'call' and f.nodes[x].get('fn') == '__builtin_expect': x = strip(f, f.nodes[x]['c'][1])
                while f.nodes[x]['k'] == 'un' and f.nodes[x]['op'] == '!' : 
                    y = strip(f, f.nodes[x]['c'][0])
                    if f.nodes[y]['k'] == 'un' and f.nodes[y]['op'] == '!': x = strip(f, f.nodes[y]['c'][0])
                    else: break
                if f.nodes[x]['k'] == 'call' and f.nodes[x].get('fn') == 'isFrozen':
                    ds = self.roots(f, f.nodes[x]['c'][1], 0)
                    if len(ds) == 1: return next(iter(ds))
            b = p
        return None
    def roots(self, f, x, depth):
        """the parameters an expression is made of"""
        out = set(); st = [x]
        while st:
            y = st.pop()
            if y is None or y < 0: continue
            n = f.nodes[y]
            if n['k'] == 'ref' and n.get('dk') == 'parm': out.add(n.get('pi'))
            elif n['k'] == 'ref' and n.get('dk') == 'local' and depth < 4:
                for m in f.nodes:
                    if m['k'] == 'decl':
                        for v in m['vars']:
                            if v['d'] == n['d'] and v['init'] >= 0: out |= self.roots(f, v['init'], depth + 1)
            st += n['c'] if n['k'] != 'call' else n['c'][1:]
        return out
    def justmade(self, f, x, depth=0):
        """an expression that is an object made in this function"""
        ls = set(); st = [x]
        while st:
            y = st.pop()
            if y is None or y < 0: continue
            n = f.nodes[y]
            if n['k'] == 'ref' and n.get('dk') in ('local', 'parm'): ls.add((n.get('dk'), n.get('d')))
            if n['k'] == 'mem' or n['k'] == 'idx': return False
            st += n['c'] if n['k'] != 'call' else n['c'][1:]
        if len(ls) != 1: return False
        dk, d = ls.pop()
        if dk != 'local': return False
        ini = []
        for m in f.nodes:
            if m['k'] == 'decl': ini += [v['init'] for v in m['vars'] if v['d'] == d and v['init'] >= 0]
            elif m['k'] == 'asg' and f.nodes[strip(f, m['c'][0])].get('d') == d and f.nodes[strip(f, m['c'][0])]['k'] == 'ref': ini.append(m['c'][1])
        return bool(ini) and all(self.makes(f, y) or depth < 3 and self.justmade(f, y, depth + 1) for y in ini)
    def makes(self, f, x):
        st = [x]
        while st:
            y = st.pop(); n = f.nodes[y]
            if n['k'] == 'call' and n.get('fn') in self.makers(): return True
            st += [c for c in n['c'] if c is not None and c >= 0]
        return False
    def popped(self, f, x):
        """made, and initialized by a built-in init that leaves it on the stack"""
        return f.nodes[strip(f, x)].get('fn') == 'pop' and any(n['k'] == 'call' and n.get('fn') in self._mk for n in f.nodes)
    def makers(self):
        if not hasattr(self, '_mk'):
            P = self.P
            self._mk = {f.name for f in P.fns.values() if f.name in ('getNewObject',)}
            # functions that return what they made
            ch = True
            while ch:
                ch = False
                for f in P.fns.values():
                    if f.name in self._mk or f.entry is None: continue
                    rs = [n for n in f.nodes if n['k'] == 'ret' and n['c']]
                    if rs and f.ret != 'void' and all(self.makes(f, n['c'][0]) or self.justmade(f, n['c'][0]) or self.popped(f, n['c'][0]) for n in rs): self._mk.add(f.name); ch = True
        return self._mk
    # -- what happens to parameters
    def parm(self, f, x):
        x = strip(f, x)
        if x is None or x < 0: return None
        n = f.nodes[x]
        return n.get('pi') if n['k'] == 'ref' and n.get('dk') == 'parm' else None
    def params(self, f):
        fr = self.frees[f.key]; kp = self.keeps[f.key]; a = (len(fr), len(kp))
        for i, n in enumerate(f.nodes):
            k = n['k']
            if k == 'call':
                args = n['c'][1:]
                for j, x in enumerate(args):
                    p = self.parm(f, x)
                    if p is None: continue
                    w = self.callarg(f, n, j)
                    if w == 'free': fr.add(p)
                    elif w == 'keep': kp.add(p)
            elif k == 'asg':
                p = self.parm(f, n['c'][1])
                if p is not None: self.alias(f, p, kp, fr)
            elif k == 'decl':
                for v in n['vars']:
                    p = self.parm(f, v['init']) if v['init'] >= 0 else None
                    if p is not None: self.alias(f, p, kp, fr)
            elif k == 'ret' and n['c']:
                p = self.parm(f, n['c'][0])
                if p is not None: kp.add(p)
            elif k == 'un' and n['op'] == '&':
                p = self.parm(f, n['c'][0])
                if p is not None: kp.add(p)
            elif k == 'expr':
                for c in n['c']:
                    p = self.parm(f, c)
                    if p is not None: kp.add(p)
        return (len(fr), len(kp)) != a
    def alias(self, f, p, kp, fr):
        """a parameter that is copied: follow the copies"""
        if p in kp or p >= len(f.params) or f.params[p].get('d') is None: kp.add(p); return
        if '*' not in f.params[p]['ty'] and f.params[p]['ty'] != 'int': kp.add(p); return
        self.ends = set()
        try: self.flow(f, 'param', (('parm', p), 'thing', frozenset([f.params[p]['d']]), 'none', None))
        except AnalysisError: kp.add(p); return
        if 'keep' in self.ends: kp.add(p)
        if 'free' in self.ends: fr.add(p)
    def callarg(self, f, n, j):
        """what a call does with its j-th argument: 'free', 'keep' or None"""
        nm = n.get('fn'); k = self.P.resolve(nm, f) if nm else None
        if nm == 'reallocate':
            return 'free' if j == 0 and len(n['c']) > 3 else None
        if k in self.P.fns:
            if self.P.fns[k].entry is None: return 'keep'
            if j in self.frees[k]: return 'free'
            if j in self.keeps[k]: return 'keep'
            if j >= len(self.P.fns[k].params): return None
            return None
        if nm is None: return 'keep'
        if nm in REL and REL[nm] == j: return 'free'
        if nm == 'realloc' and j == 0: return 'free'
        if nm in KEEPS: return 'keep'
        return None
    def acq(self, f, n):
        nm = n.get('fn')
        if not nm: return None
        k = self.P.resolve(nm, f)
        if nm == 'reallocate':
            a = n['c'][1:]
            if len(a) == 3 and f.nodes[strip(f, a[0])].get('cv') == '0' and f.nodes[a[2]].get('cv') != '0': return ('mem', 'ret', 'null')
            return None
        if k in self.P.fns:
            return self.fresh.get(k) if nm not in self.makers() else None
        return ACQ.get(nm)
    def interesting(self, f):
        return any(n['k'] == 'call' and self.acq(f, n) for n in f.nodes)
    # -- one function
    def flow(self, f, report, given=None):
        # state: frozenset of resources; a resource is (site, kind, holders, fail, result variable)
        S = {f.entry: {frozenset([given] if given else [])}}
        work = [f.entry]; rets = set(); esc_ret = {}
        self.f = f; self.mode = report; guard = 0; ch = False
        while work:
            b = work.pop(); B = f.blocks[b]
            guard += 1
            if guard > 6000: raise AnalysisError('release analysis of %s does not settle' % f.key)
            outs = set()
            for st in S[b]:
                cur = set(st); dead = False
                self.tmp = {}
                for e in B['e']:
                    if self.step(f, e, cur, report if report != 'param' else False): dead = True; break
                if dead: continue
                outs.add(frozenset(cur))
            if B.get('nr'): continue
            for st in outs:
                if b == f.exit:
                    if report is True:
                        for r in st: self.leak(f, r, None, None)
                    continue
                for si, s in enumerate(B['s']):
                    if s is None: continue
                    s2 = self.edge(f, B, si, st)
                    if s2 is None: continue
                    T = S.setdefault(s, set())
                    if s2 not in T:
                        T.add(s2)
                        if len(T) > 200: raise AnalysisError('too many states in %s' % f.key)
                        work.append(s)
        return self.newfresh(f)
    def newfresh(self, f):
        k = getattr(self, 'retfresh', {}).pop(f.key, None)
        if k and self.fresh.get(f.key) != k:
            self.fresh[f.key] = k; return True
        return False
    def holder(self, f, x):
        x = strip(f, x)
        if x is None or x < 0: return None
        n = f.nodes[x]
        if n['k'] == 'idx':
            d = self.holder(f, n['c'][0]); cv = f.nodes[strip(f, n['c'][1])].get('cv')
            return (d, cv if cv is not None else '*') if isinstance(d, str) or isinstance(d, int) else None
        if n['k'] == 'ref' and n.get('dk') in ('local', 'parm') and not n.get('static'): return n['d']
        if n['k'] == 'asg' and n['op'] == '=': return self.holder(f, n['c'][0])
        return None
    def held(self, f, x, cur):
        """the resources an expression is: through a variable, or the call itself"""
        x = strip(f, x)
        if x is None or x < 0: return []
        n = f.nodes[x]
        if n['k'] == 'cond': return self.held(f, n['c'][1], cur) + self.held(f, n['c'][2], cur)
        if n['k'] == 'call': return [r for r in cur if r[0] == x and not r[2]]
        if n['k'] == 'un' and n['op'] == '&':
            d = self.holder(f, n['c'][0])
            return [r for r in cur if d is not None and d in r[2]]
        d = self.holder(f, x)
        if isinstance(d, tuple) and d[1] == '*': return [r for r in cur if any(isinstance(h, tuple) and h[0] == d[0] for h in r[2])]
        return [r for r in cur if d is not None and d in r[2]]
    def bind(self, f, d, x, cur, report, e):
        rs = self.held(f, x, cur)
        # the variable held something else before
        for r in list(cur):
            if d in r[2] and r not in rs:
                cur.discard(r); h = r[2] - {d}
                if h: cur.add(r[:2] + (h,) + r[3:])
                elif report is True: self.leak(f, r, e, 'lost')
        for r in rs:
            cur.discard(r); cur.add(r[:2] + (r[2] | {d},) + r[3:])
        # result of an acquisition through a parameter
        y = strip(f, x)
        for r in list(cur):
            if r[4] == ('call', y): cur.discard(r); cur.add(r[:4] + (d,))
    def step(self, f, e, cur, report):
        n = f.nodes[e]; k = n['k']
        if k == 'decl':
            for v in n['vars']:
                if v['init'] >= 0: self.bind(f, v['d'], v['init'], cur, report, e)
        elif k == 'asg':
            l = strip(f, n['c'][0]); m = f.nodes[l]
            if n['op'] != '=': return False
            if m['k'] == 'ref' and m.get('dk') in ('local', 'parm') and not m.get('static'):
                self.bind(f, m['d'], n['c'][1], cur, report, e)
            else:
                for r in self.held(f, n['c'][1], cur): cur.discard(r); self.end(r, 'keep')
        elif k == 'ret':
            if n['c']:
                for r in self.held(f, n['c'][0], cur):
                    cur.discard(r); self.end(r, 'keep')
                    if r[3] in ('null', 'neg') and not isinstance(r[0], tuple): self.__dict__.setdefault('retfresh', {})[f.key] = (r[1], 'ret', r[3])
        elif k == 'call':
            args = n['c'][1:]
            for j, x in enumerate(args):
                rs = self.held(f, x, cur)
                if not rs: continue
                w = self.callarg(f, n, j)
                if w:
                    early = [t for t in self.targets(f, n) if (t, j) in self.early]
                    for r in rs:
                        cur.discard(r); self.end(r, w)
                        if report and early: self.leak(f, r, e, 'raise', self.early[(early[0], j)])
            nm = n.get('fn'); key = self.P.resolve(nm, f) if nm else None
            if key in self.frozen and self.onfresh(f, e, key): pass
            elif nm in self.tables and f.name not in self.tables and self.owntable(f, e): pass
            elif (key or nm) in self.throws or nm is None and self.indirect_throws(f, n):
                if report:
                    for r in cur: self.leak(f, r, e, 'raise')
            if n.get('nr') or key in self.W.noreturn or nm in ('exit', '_exit', 'abort', 'longjmp', 'pthread_exit'):
                return True
            a = self.acq(f, n)
            if a:
                if report is True: self.sites.add((f.key, e))
                old = [r for r in cur if r[0] == e]
                if a[1] == 'ret':
                    p = f.parent.get(e)
                    while p is not None and f.nodes[p]['k'] in ('cast', 'paren'): p = f.parent.get(p)
                    q = f.nodes[p] if p is not None else None
                    if q is None or q['k'] in ('decl', 'asg', 'ret', 'call', 'bin', 'un', 'cond'):
                        if q is not None and (q['k'] in ('bin', 'un') or q['k'] == 'cond' and strip(f, q['c'][0]) == e): return False
                        cur.add((e, a[0], frozenset(), a[2], None))
                        if q is None:
                            pass
                elif nm == 'pipe':
                    d = self.holder(f, args[0])
                    # an array walked by a loop is given up on
                    if d is not None and not any(m['k'] == 'idx' and self.holder(f, x) == (d, '*') for x, m in enumerate(f.nodes)):
                        for i in '01': cur.add(((e, i), a[0], frozenset([(d, i)]), a[2], ('call', e)))
                else:
                    d = self.outvar(f, args[a[1]]) if a[1] < len(args) else None
                    if d is not None: cur.add((e, a[0], frozenset([d]), a[2], ('call', e)))
        return False
    def targets(self, f, n):
        nm = n.get('fn'); k = self.P.resolve(nm, f) if nm else None
        return [k] if k else []
    def end(self, r, how):
        if self.mode == 'param' and isinstance(r[0], tuple) and r[0][0] == 'parm': self.ends.add(how)
    def outvar(self, f, x):
        x = strip(f, x); n = f.nodes[x]
        if n['k'] == 'un' and n['op'] == '&': return self.holder(f, n['c'][0])
        return None
    def indirect_throws(self, f, n):
        s = sig(f.nodes[n['c'][0]])
        return any(t in self.throws for t in self.W.addr_by_sig.get(s, []))
    def edge(self, f, B, si, st):
        c = B.get('cond')
        if c is None or len(B['s']) != 2 or not st: return st
        x = c
        while True:
            x = strip(f, x); n = f.nodes[x]
            if n['k'] == 'bin' and n['op'] in ('&&', '||'): x = n['c'][1]
            else: break
        truth = si == 0
        while n['k'] == 'un' and n['op'] == '!': truth = not truth; x = strip(f, n['c'][0]); n = f.nodes[x]
        op, v, e = '!=', 0, x
        if n['k'] == 'call' and n.get('fn') == '__builtin_expect':
            x = strip(f, n['c'][1]); n = f.nodes[x]
            while n['k'] == 'un' and n['op'] == '!': truth = not truth; x = strip(f, n['c'][0]); n = f.nodes[x]
            e = x
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '<=', '>', '>='):
            a, b = n['c']; op = n['op']
            if f.nodes[strip(f, a)].get('cv') is not None: a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            cv = f.nodes[strip(f, b)].get('cv')
            if cv is None: return st
            e, v = strip(f, a), int(cv)
        def holds(val): return {'==': val == v, '!=': val != v, '<': val < v, '<=': val <= v, '>': val > v, '>=': val >= v}[op] == truth
        d = self.holder(f, e)
        if f.nodes[e]['k'] == 'call' and f.nodes[e].get('fn') in GROW and not holds(0): return None
        out = set()
        for r in st:
            if r[4] is not None and (r[4] == d and d is not None or r[4] == ('call', e)):
                # success is 0
                if r[3] == 'nonzero' and not holds(0): continue
            elif d is not None and d in r[2] or f.nodes[e]['k'] == 'call' and r[0] == e and not r[2]:
                if r[3] == 'null' and not holds(1 << 40): continue
                if r[3] == 'neg' and not (holds(3) or holds(1 << 20)): continue
            out.add(r)
        return frozenset(out)
    def leak(self, f, r, e, why, where=None):
        if isinstance(r[0], tuple) and r[0][0] == 'parm':
            if self.mode == 'early' and why == 'raise': self.early.setdefault((f.key, r[0][1]), where or f.loc(e))
            return
        if self.mode is not True: return
        # a call whose result is not used at all
        key = (f.key, r[0], why)
        if key in self.viol: return
        site = r[0][0] if isinstance(r[0], tuple) else r[0]
        nm = f.nodes[site].get('fn')
        how = {'raise': 'when an error is raised at %s' % (where or f.loc(e) if e is not None else ''), 'lost': 'when its only holder is overwritten at %s' % (f.loc(e) if e is not None else ''), None: 'when it returns'}[why]
        self.viol[key] = dict(key='%s %s %s' % (f.key, nm, why or 'return'), loc=f.loc(site), msg='%s does not release the %s it got from %s %s' % (f.key, r[1], nm, how))

def run(ctx):
    R = Release(ctx.P, ctx.W)
    if len(R.sites) < 20: raise AnalysisError('too few acquisitions found')
    return dict(violations=list(R.viol.values()), obligations=len(R.sites), coverage={'acquisitions': len(R.sites), 'functions that hand out what they acquire': {k: v[0] for k, v in R.fresh.items()}})
