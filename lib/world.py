"""Whole-program knowledge the engine consults: effects of calls, pure
functions as expressions, value kinds, non-returning functions."""
import collections
from terms import *
import terms as _t
import engine as _e
from program import AnalysisError

EXT_NOMOD = {'strlen', 'strcmp', 'strncmp', 'memcmp', 'strchr', 'strrchr', 'strstr', 'fprintf', 'printf', 'puts', 'putchar', 'fputs', 'fputc',
             'free', 'malloc', 'calloc', 'abort', 'exit', '_exit', 'isatty', 'isdigit', 'isalpha', 'toupper', 'tolower', 'atoi', 'atof',
             'strtod', 'strerror', 'getenv', 'close', 'open', 'write', 'usleep', 'sleep', 'pow', 'fmod', 'floor', 'perror', 'fflush', 'fclose',
             'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_self', 'kill', 'getpid', 'fork', '__errno_location', 'strdup', 'realloc',
             'clock', 'rand', 'random', 'srand', 'access', 'unlink', 'fileno', 'raise', 'signal', 'atexit', 'labs', 'abs', 'sched_yield',
             'feof', 'ferror', 'fcntl', 'dup', 'dup2', 'isspace', '__ctype_b_loc', 'longjmp', '__builtin_expect', '__builtin_unreachable',
             'listen', 'socket', 'shutdown', 'setsid', 'getppid', 'time', 'assert'}

class World:
    def __init__(self, P):
        self.P = P
        self.kdef = {}
        self.recnames = {r['name'] for r in P.recs.values()} | set(P.recs)
        ot = P.enum('ObjType')
        self.ot = {c['name']: int(c['v']) for c in ot['consts']}
        for need in ('OBJ_T_STRING', 'OBJ_T_ARRAY', 'OBJ_T_MAP', 'OBJ_T_INSTANCE', 'OBJ_T_CLASS', 'OBJ_T_MODULE'):
            if need not in self.ot: raise AnalysisError('object type %s not found' % need)
        K = lambda *n: sum(K_OBJ(self.ot[x]) for x in n if x in self.ot)
        self.K = K
        self.INSTLIKE = K('OBJ_T_INSTANCE', 'OBJ_T_STRING', 'OBJ_T_ARRAY', 'OBJ_T_MAP', 'OBJ_T_REGEX', 'OBJ_T_CLASS', 'OBJ_T_MODULE', 'OBJ_T_ICLASS')
        cls = K('OBJ_T_CLASS', 'OBJ_T_MODULE', 'OBJ_T_ICLASS')
        _t.FLAGKIND.clear(); _t.FLAGKIND[P.macro('OBJ_FLAG_INSTANCE_LIKE')] = self.INSTLIKE & ~K('OBJ_T_ICLASS')
        m = {'ObjString': K('OBJ_T_STRING'), 'ObjArray': K('OBJ_T_ARRAY'), 'ObjMap': K('OBJ_T_MAP'), 'ObjRegex': K('OBJ_T_REGEX'),
             'ObjInstance': self.INSTLIKE, 'ObjClass': cls, 'ObjModule': cls, 'ObjIClass': K('OBJ_T_ICLASS'),
             'ObjFunction': K('OBJ_T_FUNCTION'), 'ObjScope': K('OBJ_T_SCOPE'), 'ObjNative': K('OBJ_T_NATIVE_FUNCTION'),
             'ObjBoundMethod': K('OBJ_T_BOUND_METHOD'), 'ObjUpvalue': K('OBJ_T_UPVALUE'), 'ObjClosure': K('OBJ_T_CLOSURE'),
             'ObjInternal': K('OBJ_T_INTERNAL')}
        self.rec_kinds = m
        self.ptr_kinds = {}
        for k, v in m.items():
            self.ptr_kinds[k + ' *'] = v; self.ptr_kinds['struct %s *' % k] = v
        self.class_kinds = {'lxStringClass': K('OBJ_T_STRING'), 'lxAryClass': K('OBJ_T_ARRAY'), 'lxMapClass': K('OBJ_T_MAP'),
                            'lxRegexClass': K('OBJ_T_REGEX'), 'lxClassClass': K('OBJ_T_CLASS'),
                            'lxModuleClass': K('OBJ_T_MODULE', 'OBJ_T_CLASS')}
        for g in P.globals.values():
            if g['ty'] in ('ObjClass *', 'struct ObjClass *') and g['name'].startswith('lx') and g['name'] not in self.class_kinds \
                    and g['name'] not in ('lxObjClass',):
                self.class_kinds[g['name']] = K('OBJ_T_INSTANCE')
        _t.FIRST.clear()
        for r in P.recs.values():
            if r['fields'] and not r.get('union'):
                f = r['fields'][0]
                if f.get('rec'): _t.FIRST[r['name']] = f['name']
        # class pointers and other globals set once while the VM starts up
        self.prims = {'getNewObject', 'reallocate', 'hideFromGC', 'unhideFromGC', 'GCPromote', 'GCPromoteOnce', 'collectGarbage',
                      'collectYoungGarbage', 'grayObject', 'grayValue', 'pushRememberSet', 'instanceIsA', 'isSubclass',
                      'valueToNumber', 'numberToValue', 'objectToValue', 'diePrintCBacktrace', 'vm_debug', 'thread_debug', 'vm_warn'}
        for p in ('valueToNumber', 'numberToValue', 'objectToValue', 'getNewObject', 'instanceIsA'): P.fn(p)
        self._init_consts()
        self.noreturn = self._noreturn()
        self._inl = {}
        self._inl_active = set()
        self.addr_by_sig = collections.defaultdict(list)
        for k, uses in P.addr_fns.items():
            for f, nid in uses:
                if f is not None:
                    n = f.nodes[nid]
                    self.addr_by_sig[sig(n)].append(k)
        self.addr_by_sig = {s: sorted(set(l)) for s, l in self.addr_by_sig.items()}
        self._mods = self._compute_mods()
        self.natives = self._natives()
    def _init_consts(self):
        for g in self.P.globals.values():
            if g['ty'] in ('ObjClass *', 'ObjModule *', 'struct ObjClass *', 'struct ObjModule *') and g['name'].startswith('lx'):
                _t.CONSTG.add(g['name'])
    # -- functions that never return ---------------------------------------
    def _noreturn(self):
        P = self.P
        nr = {f.key for f in P.fns.values() if f.noreturn}
        changed = True
        while changed:
            changed = False
            for f in P.fns.values():
                if f.key in nr or f.entry is None: continue
                seen = {f.entry}; st = [f.entry]; reach = False
                while st:
                    b = st.pop()
                    if b == f.exit: reach = True; break
                    dead = False
                    for e in f.blocks[b]['e']:
                        n = f.nodes[e]
                        if n['k'] == 'call' and (n.get('nr') or (n.get('fn') and P.resolve(n['fn'], f) in nr)): dead = True; break
                    if dead or f.blocks[b].get('nr'): continue
                    for s in f.succs(b):
                        if s not in seen: seen.add(s); st.append(s)
                if not reach:
                    nr.add(f.key); changed = True
        return nr
    # -- primitives ---------------------------------------------------------
    def primitive(self, name, args):
        if name == 'valueToNumber': return num(args[0])
        if name == 'numberToValue': return boxn(args[0])
        if name == 'objectToValue': return box(args[0])
        if name == 'instanceIsA' and len(args) == 2: return isa(args[0], args[1])
        return None
    def axiom(self, cx, st, name, args, val):
        if name == 'getNewObject' and args and args[0].op == 'int' and 0 <= args[0].a[0] < NOBJ:
            cx.F.assume(st, kind(val, K_OBJ(args[0].a[0])), True)
    # -- pure functions as expressions ---------------------------------------
    def inline(self, key, args, cx):
        r = self._inl.get(key, 0)
        if r == 0:
            if key in self._inl_active: return None
            self._inl_active.add(key)
            r = self._pure(key, cx)
            self._inl_active.discard(key)
            self._inl[key] = r
        if r is None: return None
        m = {mk('arg', i): a for i, a in enumerate(args)}
        return subst(r, m)
    def _pure(self, key, cx):
        P = self.P
        f = P.fns.get(key)
        if f is None or f.entry is None or key in self.noreturn or len(f.nodes) > 400: return None
        if f.name in self.prims: return None
        rets = 0
        for i, n in enumerate(f.nodes):
            k = n['k']
            if k == 'ret': rets += 1
            elif k == 'asg' or n.get('incdec'): return None
            elif k == 'call':
                nm = n.get('fn')
                if nm in ('__builtin_expect', 'valueToNumber', 'numberToValue', 'objectToValue', 'instanceIsA'): continue
                if nm == 'diePrintCBacktrace': continue
                if nm is None:
                    if not self.pure_indirect(f, n): return None
                    continue
                ck = P.resolve(nm, f)
                if ck is None or ck == key: return None
                if self._inl.get(ck, 0) == 0:
                    self.inline(ck, [], cx)
                if self._inl.get(ck, None) in (None, 0): return None
            elif k in ('stmtexpr', 'label'): return None
        if rets != 1: return None
        for b in f.blocks.values():
            if b.get('t') not in (None, 'BinaryOperator', 'ConditionalOperator'): return None
        c2 = _e.FnCtx(cx.E, f, ())
        st = _e.State()
        for i, p in enumerate(f.params):
            a = mk('arg', i); st.env[p['d']] = a
        val = None
        for b in f.rpo:
            for e in f.blocks[b]['e']:
                n = f.nodes[e]
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if v['init'] < 0 or not c2.isscalar({'cty': v['cty']}) or v.get('static'): return None
                        st.env[v['d']] = c2.val(v['init'], st, {})
                elif n['k'] == 'ret' and n['c']:
                    val = c2.val(n['c'][0], st, {})
        if val is None: return None
        for x in subterms(val):
            if x.op in ('ret', 'phi', 'out', 'old', 'opq', 'var', 'uninit', 'addrl', 'deref_tmp'): return None
        if len(list(subterms(val))) > 60: return None
        return val
    def pure_indirect(self, f, nd):
        s = sig(f.nodes[nd['c'][0]])
        return s in ('_Bool (unsigned long)', 'bool (unsigned long)')
    # -- effects ---------------------------------------------------------------
    def mods(self, key): return self._mods.get(key, frozenset())
    def indirect_targets(self, f, nd):
        return self.addr_by_sig.get(sig(f.nodes[nd['c'][0]]), [])
    def indirect_mods(self, f, nd):
        t = self.indirect_targets(f, nd)
        if not t: return frozenset([('ALL', None)])
        r = set()
        for k in t: r |= self._mods.get(k, frozenset())
        return frozenset(r)
    def extern_mods(self, name, f, nd):
        if name in ('_setjmp', 'setjmp', '__sigsetjmp', 'sigsetjmp'): return frozenset([('ALL', None)])
        if name in EXT_NOMOD: return frozenset()
        r = set()
        for i, a in enumerate(nd['c'][1:]):
            n = f.nodes[a] if a >= 0 else None
            if n is None: continue
            cty = n.get('cty', n.get('ty', ''))
            if n['k'] == 'un' and n['op'] == '&':
                m = f.nodes[n['c'][0]]
                if m['k'] == 'mem': r.add((('f', m.get('rec', '?'), m['f']), i))
                for c in self.struct_classes(m.get('cty', m.get('ty', ''))): r.add((c, i))
                r.add((('e', m.get('cty', m.get('ty', ''))), i))
            elif cty.endswith('*') and not cty.startswith('const '):
                r.add((('e', cty[:-1].strip()), i))
                for c in self.struct_classes(cty[:-1].strip()): r.add((c, i))
            elif cty.endswith(']'):
                r.add((('e', cty[:cty.index('[')].strip()), i))
        return frozenset(r)
    def struct_classes(self, cty):
        rn = _e.rec_of(cty)
        r = self.P.recs.get(rn)
        out = []
        if r and not cty.endswith('*'):
            for fd in r['fields']:
                out.append(('f', r['name'], fd['name']))
                if fd.get('rec') and fd['rec'] != rn: out += self.struct_classes(fd['rec'])
        return out
    def live_nodes(self, f):
        """nodes in blocks from which the function can still return"""
        dead = set()
        for b in f.blocks.values():
            if b.get('nr'): dead.add(b['id']); continue
            for e in b['e']:
                n = f.nodes[e]
                if n['k'] == 'call' and (n.get('nr') or (n.get('fn') and self.P.resolve(n['fn'], f) in self.noreturn)):
                    dead.add(b['id']); break
        ok = set(); st = [f.exit]
        rp = collections.defaultdict(list)
        for b in f.blocks.values():
            for s in b['s']:
                if s is not None: rp[s].append(b['id'])
        while st:
            b = st.pop()
            if b in ok or b in dead: continue
            ok.add(b); st += rp[b]
        return {e for b in ok for e in f.blocks[b]['e']}
    def _compute_mods(self):
        P = self.P
        direct = {}
        calls = {}
        for f in P.fns.values():
            pd = {p['d']: i for i, p in enumerate(f.params)}
            # locals bound once to a parameter-derived pointer
            alias = dict(pd)
            assigned = collections.Counter()
            inits = {}
            for n in f.nodes:
                if n['k'] == 'asg' or n.get('incdec'):
                    l = f.nodes[n['c'][0]]
                    if l['k'] == 'ref' and 'd' in l: assigned[l['d']] += 1
                elif n['k'] == 'decl':
                    for v in n['vars']:
                        if v['init'] >= 0: inits[v['d']] = v['init']
            for d in list(alias):
                if assigned[d]: del alias[d]
            def strip(x):
                while x >= 0 and f.nodes[x]['k'] == 'cast': x = f.nodes[x]['c'][0]
                return x
            def rootof(x):
                """parameter index the pointer expression equals, 'L' for a local object, else None"""
                x = strip(x)
                if x < 0: return None
                n = f.nodes[x]
                if n['k'] == 'ref' and 'd' in n:
                    if n['d'] in alias: return alias[n['d']]
                    if n['d'] in inits and not assigned[n['d']] and n['d'] not in busy:
                        busy.add(n['d'])
                        r = rootof(inits[n['d']])
                        busy.discard(n['d'])
                        return r
                    return None
                if n['k'] == 'un' and n['op'] == '&':
                    return lroot(n['c'][0])
                return None
            busy = set()
            def lroot(x):
                n = f.nodes[x]
                if n['k'] == 'ref': return 'L' if n.get('dk') in ('local', 'parm') else None
                if n['k'] == 'mem':
                    if n['arrow']: return 'F' if rootof(n['c'][0]) is None else None
                    return lroot(n['c'][0])
                if n['k'] == 'idx':
                    b = f.nodes[n['c'][0]]
                    if b.get('cty', b.get('ty', '')).endswith(']'): return lroot(n['c'][0])
                return None
            def lval(x, out):
                n = f.nodes[x]
                k = n['k']
                if k == 'cast': return lval(n['c'][0], out)
                if k == 'ref':
                    if n.get('dk') in ('global', 'slocal'): out.add((('g', n['name']), None))
                    return
                if k == 'mem':
                    cls = ('f', n.get('rec', '?'), n['f'])
                    if n['arrow']: r = rootof(n['c'][0])
                    else: r = lroot(n['c'][0])
                    if r == 'L': return
                    if r == 'F': r = None
                    out.add((cls, r))
                    for c in self.struct_classes(n.get('cty', n.get('ty', ''))): out.add((c, r))
                    return
                if k == 'idx' or (k == 'un' and n['op'] == '*'):
                    ety = n['ty'] if n.get('ty') == 'Value' else n.get('cty', n.get('ty', ''))
                    b = f.nodes[strip(n['c'][0])]
                    if k == 'idx' and b.get('cty', b.get('ty', '')).endswith(']') and lroot(strip(n['c'][0])) == 'L': return
                    r = rootof(n['c'][0])
                    if r == 'L': return
                    if r == 'F': r = None
                    out.add((('e', ety), r))
                    for c in self.struct_classes(ety): out.add((c, r))
            out = set(); cl = []
            live = self.live_nodes(f)
            for i, n in enumerate(f.nodes):
                if i not in live: continue
                if n['k'] == 'asg' or n.get('incdec'): lval(n['c'][0], out)
                elif n['k'] == 'call':
                    roots = [rootof(a) if a >= 0 else None for a in n['c'][1:]]
                    cl.append((i, n, roots))
            direct[f.key] = out; calls[f.key] = cl
        mods = {k: set(v) for k, v in direct.items()}
        for p in self.prims:
            if p in mods: mods[p] = set()
        def mapped(ms, roots):
            r = set()
            for (c, rt) in ms:
                if rt is None or c == 'ALL': r.add((c, None)); continue
                x = roots[rt] if rt < len(roots) else None
                if x == 'L': continue
                if x == 'F': x = None
                r.add((c, x))
            return r
        changed = True
        while changed:
            changed = False
            for f in P.fns.values():
                if f.name in self.prims: continue
                m = mods[f.key]; n0 = len(m)
                if ('ALL', None) in m: continue
                for (i, n, roots) in calls[f.key]:
                    nm = n.get('fn')
                    if nm:
                        k = P.resolve(nm, f)
                        if n.get('nr') or k in self.noreturn: continue
                        if k: m |= mapped(mods[k], roots)
                        elif nm in ('setjmp', '_setjmp'): pass
                        else: m |= mapped(self.extern_mods(nm, f, n), roots)
                    else:
                        s = sig(f.nodes[n['c'][0]])
                        if s.endswith('(int, unsigned long *)') or s.endswith('(int, Value *)'):
                            m.add(('ALL', None)); continue
                        for k in self.addr_by_sig.get(s, []): m |= mapped(mods[k], roots)
                if ('ALL', None) in m: m.clear(); m.add(('ALL', None))
                if len(m) != n0: changed = True
        return {k: frozenset(v) for k, v in mods.items()}
    # -- native entry points ---------------------------------------------------
    def _natives(self):
        """key -> list of (registrar, fn, call node, owner)"""
        P = self.P
        out = collections.defaultdict(list)
        for f in P.fns.values():
            for i, n in enumerate(f.nodes):
                if n['k'] == 'call' and n.get('fn') in ('addNativeMethod', 'addNativeGetter', 'addNativeSetter', 'addGlobalFunction'):
                    a = n['c'][-1]
                    while f.nodes[a]['k'] == 'cast': a = f.nodes[a]['c'][0]
                    r = f.nodes[a]
                    if r['k'] == 'ref' and r.get('dk') == 'fn':
                        k = P.resolve(r['name'], f)
                        if k:
                            nm = f.nodes[n['c'][-2]].get('v')
                            owner = n['c'][1] if n['fn'] != 'addGlobalFunction' else None
                            out[k].append((n['fn'], f, i, owner, nm))
        if len(out) < 100: raise AnalysisError('only %d registered native functions found' % len(out))
        return dict(out)

def sig(n):
    s = n.get('cty', n.get('ty', ''))
    return s.replace(' (*)', ' ').replace('(*)', '').replace('*const', '*')
