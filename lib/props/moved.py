"""U01: a pointer into the characters of a string, the elements of an array or the slots of a table is not used
after that storage may have been moved or freed."""
import collections
from program import AnalysisError
from .vmcode import strip, cint, Consts

STORE = {('ObjString', 'chars'): 'characters', ('ValueArray', 'values'): 'elements', ('Table', 'entries'): 'slots', ('LocalsTable', 'tbl'): 'variables'}
SIZE = {('ObjString', 'length'): 'characters', ('ValueArray', 'count'): 'elements', ('Table', 'capacityMask'): 'slots', ('LocalsTable', 'size'): 'variables'}
SCRIPT = 'may run script code'
INNER = {'valAry', 'localsTable'}          # parts of the object itself
FREES = {'reallocate': 0, 'realloc': 0, 'free': 0}
GIVES = {'strchr', 'strrchr', 'strstr', 'memchr', 'strpbrk', 'index', 'rindex', 'strcasestr'}
CUT = {'getNewObject', 'collectGarbage', 'collectYoungGarbage', 'reallocate', 'acquireGVL', 'releaseGVL', 'grayObject', 'freeObject', 'hideFromGC', 'unhideFromGC'}
FRESHFN = {'copyString', 'takeString', 'internedString', 'newStringInstance', 'emptyString', 'newArray', 'newMap', 'newInstance', 'newError', 'createArray', 'newArrayConstant', 'newMapConstant', 'hexDigest', 'dupString', 'dupStringInstance'}

class Moved:
    def __init__(self, P, W):
        self.P = P; self.W = W
        self.fns = [f for f in P.fns.values() if f.entry is not None and f.file not in ('debug.c', 'parser.c', 'scanner.c', 'nodes.c', 'compiler.c', 'repl.c', 'debugger.c', 'options.c', 'main.c', 'memory.c') and f.name != 'vm_run']
        self.stores = 0; self.events = 0; self.uses = 0
        self.fresh = self.makers()
        self.script = self.runs()
        self.sum = {f.key: (frozenset(), frozenset(), frozenset()) for f in P.fns.values()}     # moved, used after, pointers returned
    # ---- what runs script code
    def mapstable(self, f, nid):
        a = f.nodes[nid]['c'][1:]
        if not a: return False
        st = [a[0]]; seen = set()
        while st:
            x = st.pop()
            if x is None or x < 0 or x in seen: continue
            seen.add(x); n = f.nodes[x]
            if n['k'] == 'mem' and n.get('rec') == 'ObjMap': return True
            if n['k'] == 'ref' and n.get('dk') == 'local' and 'd' in n: st += self.defs(f, n['d'])
            st += n['c']
        return False
    def defs(self, f, d):
        c = f._x.get('u_defs')
        if c is None:
            c = collections.defaultdict(list)
            for l, r in Consts.assigns(type('X', (), {'f': f})()): c[l].append(r)
            f._x['u_defs'] = c
        return c.get(d, [])
    def runs(self):
        P = self.P
        out = {'vm_run'}; cut = {k for k, f in P.fns.items() if f.name in CUT or f.name in FRESHFN or f.file == 'memory.c'} | set(self.W.noreturn)
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.key in out or f.key in cut: continue
                for nid, c, name in P.calls[f.key]:
                    if c not in out:
                        # a function of ours that it will call
                        given = [P.resolve(m['name'], f) for a in f.nodes[nid]['c'][1:] for m in [f.nodes[strip(f, a)]] if m['k'] == 'ref' and m.get('dk') in ('fn', 'func', 'function')]
                        if any(g in out for g in given):
                            out.add(f.key); ch = True; break
                        continue
                    if P.fns[c].file == 'table.c' and f.file != 'table.c' and not self.mapstable(f, nid): continue
                    out.add(f.key); ch = True; break
        return out
    # ---- functions that give a new object
    def makers(self):
        P = self.P
        out = {k for k, f in P.fns.items() if f.name in ('allocateObject', 'getNewObject', 'newStringInstance', 'copyString', 'takeString', 'INTERNED', 'INTERN') or f.name in FRESHFN}
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.key in out or f.entry is None: continue
                rs = [n['c'][0] for n in f.nodes if n['k'] == 'ret' and n['c'] and n['c'][0] >= 0]
                if rs and all(self.isfresh(f, r, out) for r in rs): out.add(f.key); ch = True
        return out
    def isfresh(self, f, x, out=None, depth=0):
        out = self.fresh if out is None else out
        o = self.own(f, x)
        return self.freshown(f, o, out, depth)
    def freshown(self, f, o, out=None, depth=0):
        out = self.fresh if out is None else out
        if o is None: return False
        if o[0] == 'call':
            return (o[2] in out or (o[3] or '') in FRESHFN or (o[3] or '').startswith(('dup', 'lxArrayDup', 'arrayDup')) or 'ntern' in (o[3] or ''))
        if o[0] == 'v' and depth < 4:
            ds = self.defs(f, o[1])
            return bool(ds) and all(cint(f, r) == 0 or self.isfresh(f, r, out, depth + 1) for r in ds)
        return False
    # ---- the object a piece of storage belongs to
    def own(self, f, x, depth=0):
        x = strip(f, x)
        if x is None or x < 0 or depth > 14: return None
        n = f.nodes[x]
        k = n['k']
        if k == 'ref':
            if n.get('dk') == 'parm': return ('p', n['pi']) if not self.reassigned(f, n) else ('v', n.get('d'))
            if 'd' in n and n.get('dk') == 'local':
                ds = self.defs(f, n['d'])
                if len(ds) == 1: return self.own(f, ds[0], depth + 1)
                return ('v', n['d'])
            return ('g', n.get('name'))
        if k == 'mem':
            b = self.own(f, n['c'][0], depth + 1)
            if n['f'] in INNER: return b
            return ('m', n.get('rec'), n['f'], b)
        if k == 'un' and n['op'] in ('&', '*', '__extension__'): return self.own(f, n['c'][0], depth + 1) if n['op'] != '*' else ('d', self.own(f, n['c'][0], depth + 1))
        if k == 'bin' and n['op'] in ('&', '|'):
            for c in n['c']:
                if cint(f, c) is None: return self.own(f, c, depth + 1)
        if k == 'bin' and n['op'] == '+': return self.own(f, n['c'][0], depth + 1)
        if k == 'idx': return ('i', self.own(f, n['c'][0], depth + 1), cint(f, n['c'][1]) if cint(f, n['c'][1]) is not None else ('x', x))
        if k == 'call':
            kk = self.P.resolve(n['fn'], f) if 'fn' in n else None
            if n.get('fn') == '__builtin_expect': return self.own(f, n['c'][1], depth + 1)
            if kk and len(n['c']) == 2:     # unboxing helpers
                g = self.P.fns[kk]
                rs = [m['c'][0] for m in g.nodes if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0]
                if len(rs) == 1 and len(g.nodes) < 40 and depth < 8:
                    o = self.own(g, rs[0], depth + 6)
                    if o == ('p', 0): return self.own(f, n['c'][1], depth + 1)
            return ('call', x, kk, n.get('fn'))
        return ('n', x)
    def reassigned(self, f, n): return bool(self.defs(f, n.get('d'))) if n.get('d') is not None else False
    def internal(self, o):
        """kept by the machine itself, out of reach of scripts"""
        while o is not None:
            if o[0] == 'g': return True
            if o[0] == 'm':
                if o[2] in ('name', 'hash', 'source', 'fileName', 'className', 'message') or o[1] in ('ClassInfo', 'CallFrame', 'VM', 'Chunk', 'Iseq', 'Token', 'LxThread'): return True
                o = o[3]; continue
            if o[0] in ('d', 'i'): o = o[1]; continue
            return False
        return False
    def mayalias(self, f, a, b):
        (ka, oa), (kb, ob) = a, b
        if ka != kb: return False
        if oa == ob: return True
        if oa is None or ob is None: return True
        if self.freshown(f, oa) or self.freshown(f, ob): return False
        if self.internal(oa) != self.internal(ob): return False
        if oa[0] == 'm' and ob[0] == 'm' and (oa[1], oa[2]) != (ob[1], ob[2]): return False
        if oa[0] == 'm' and oa[2] != 'table' and ob[0] != 'm' or ob[0] == 'm' and ob[2] != 'table' and oa[0] != 'm':
            if ka == 'slots': return False
        return True
    # ---- pointers
    def orig(self, f, x, st, depth=0):
        x = strip(f, x)
        if x is None or x < 0 or depth > 20: return frozenset()
        n = f.nodes[x]; k = n['k']
        if k == 'ref': return st.get(n.get('d', ('pi', n.get('pi'))), frozenset()) if n.get('dk') in ('local', 'parm') else frozenset()
        if k == 'mem':
            s = STORE.get((n.get('rec'), n['f']))
            if s: return frozenset([('o', s, self.own(f, n['c'][0]))])
            return frozenset()
        if k == 'bin' and n['op'] in ('+', '-'):
            if n['op'] == '-' and self.ptr(f, n['c'][0]) and self.ptr(f, n['c'][1]): return frozenset()
            return self.orig(f, n['c'][0], st, depth + 1) | self.orig(f, n['c'][1], st, depth + 1) if self.ptr(f, x) else frozenset()
        if k == 'bin' and n['op'] == ',': return self.orig(f, n['c'][1], st, depth + 1)
        if k == 'un' and n['op'] == '&':
            m = f.nodes[strip(f, n['c'][0])]
            if m['k'] == 'idx': return self.orig(f, m['c'][0], st, depth + 1)
            if m['k'] == 'un' and m['op'] == '*': return self.orig(f, m['c'][0], st, depth + 1)
            if m['k'] == 'mem' and m.get('arrow'): return self.orig(f, m['c'][0], st, depth + 1)
            return frozenset()
        if k == 'un' and n.get('incdec'): return self.orig(f, n['c'][0], st, depth + 1)
        if n.get('incdec'): return self.orig(f, n['c'][0], st, depth + 1)
        if k == 'cond': return self.orig(f, n['c'][1], st, depth + 1) | self.orig(f, n['c'][2], st, depth + 1)
        if k == 'asg': return self.orig(f, n['c'][1], st, depth + 1) if n['op'] == '=' else self.orig(f, n['c'][0], st, depth + 1)
        if k == 'call' and 'fn' in n:
            if n['fn'] in GIVES: return self.orig(f, n['c'][1], st, depth + 1)
            if n['fn'] == '__builtin_expect': return self.orig(f, n['c'][1], st, depth + 1)
            kk = self.P.resolve(n['fn'], f)
            if kk:
                out = set()
                for kind, i in self.sum[kk][2]:
                    if i + 1 < len(n['c']):
                        if kind == 'param': out |= self.orig(f, n['c'][i + 1], st, depth + 1)
                        else: out.add(('o', kind, self.own(f, n['c'][i + 1])))
                return frozenset(out)
        return frozenset()
    def size(self, f, x, st, depth=0):
        """the storages a whole number is the length of, or is known to be below the length of"""
        x = strip(f, x)
        if x is None or x < 0 or depth > 12: return frozenset()
        n = f.nodes[x]; k = n['k']
        if k == 'ref' and n.get('dk') in ('local', 'parm'): return st.get(('z', n.get('d', ('pi', n.get('pi')))), frozenset())
        if k == 'mem':
            s = SIZE.get((n.get('rec'), n['f']))
            return frozenset([('o', s, self.own(f, n['c'][0]))]) if s else frozenset()
        if k == 'bin' and n['op'] in ('+', '-') and not self.ptr(f, x):
            a, b = n['c']
            if n['op'] == '-' and cint(f, b) is None: return frozenset()
            return self.size(f, a, st, depth + 1) if cint(f, b) is not None else self.size(f, b, st, depth + 1) if cint(f, a) is not None else frozenset()
        if k == 'call' and n.get('fn') == 'strlen': return frozenset(o for o in self.orig(f, n['c'][1], st) if o[0] == 'o' and o[1] == 'characters')
        if k == 'call' and n.get('fn') == '__builtin_expect': return self.size(f, n['c'][1], st, depth + 1)
        return frozenset()
    def below(self, f, x, st):
        x = strip(f, x)
        n = f.nodes[x]
        if n['k'] == 'ref' and n.get('dk') in ('local', 'parm'): return st.get(('b', n.get('d', ('pi', n.get('pi')))), frozenset())
        if n['k'] == 'bin' and n['op'] in ('+', '-') and cint(f, n['c'][1]) is not None: return self.below(f, n['c'][0], st) | self.size(f, n['c'][0], st)
        return frozenset()
    def old(self, zs, os):
        """zs is a length of the storage of os taken before script code ran"""
        s = [z for z in zs if z[0] == 's' and z[2] == SCRIPT]
        if s and any(o in zs for o in os if o[0] == 'o' and o[1] != 'param'): return s[0]
    def ptr(self, f, x):
        n = f.nodes[strip(f, x)]
        return '*' in n.get('cty', n.get('ty', '')) or '[' in n.get('ty', '')
    def kill(self, f, st, what, line, why):
        """what: (kind, owner), ('param', i), or 'any'"""
        out = {}
        for d, fs in st.items():
            new = set(fs)
            for o in fs:
                if o[0] != 'o': continue
                if o[1] == 'param':
                    if what == 'any': new.add(('sc', o[2], 'any', None, line, why))
                    elif what[0] == 'param':
                        if what[1] == o[2]: new.add(('s', line, why))
                    elif what[1] is not None and what[1][0] == 'p' and what[0] in self.pkinds(f, o[2]): new.add(('sc', o[2], what[0], what[1][1], line, why))
                elif what == 'any':
                    if not self.freshown(f, o[2]) and not self.internal(o[2]): new.add(('s', line, why))
                elif what[0] != 'param' and self.mayalias(f, (o[1], o[2]), what): new.add(('s', line, why))
            out[d] = frozenset(new)
        return out
    def edge(self, f, B, i, st):
        """the pointer was compared with the storage as it is now, and is equal"""
        c = B.get('cond')
        if c is None or len(B['s']) != 2 or (B.get('t') or '').startswith('Switch'): return st
        y = c; pol = (i == 0)
        while True:
            n = f.nodes[y]
            if n['k'] == 'bin' and n['op'] in ('&&', '||'): y = n['c'][1]; continue
            if n['k'] in ('paren', 'cast'): y = n['c'][0]; continue
            if n['k'] == 'un' and n['op'] == '!': y = n['c'][0]; pol = not pol; continue
            if n['k'] == 'call' and n.get('fn') == '__builtin_expect': y = n['c'][1]; continue
            break
        if n['k'] == 'bin' and n['op'] in ('<', '<=', '>', '>='):
            for i, (a, b) in enumerate((n['c'], n['c'][::-1])):
                if ((n['op'][0] == '<') == (i == 0)) != pol: continue
                l = f.nodes[strip(f, a)]
                z = self.size(f, b, st)
                if z and l['k'] == 'ref' and l.get('dk') in ('local', 'parm'): st = dict(st); st[('b', l.get('d', ('pi', l.get('pi'))))] = z
            return st
        if n['k'] != 'bin' or n['op'] not in ('==', '!=') or (n['op'] == '==') != pol: return st
        for a, b in (n['c'], n['c'][::-1]):
            l = f.nodes[strip(f, a)]; m = f.nodes[strip(f, b)]
            if l['k'] == 'ref' and l.get('dk') in ('local', 'parm') and m['k'] == 'mem' and (m.get('rec'), m['f']) in STORE:
                d = l.get('d', ('pi', l.get('pi'))); st = dict(st)
                st[d] = self.orig(f, b, st)
            elif l['k'] == 'ref' and l.get('dk') in ('local', 'parm') and m['k'] == 'ref':      # a copy of it read since
                d = l.get('d', ('pi', l.get('pi')))
                x, y = self.orig(f, a, st), self.orig(f, b, st)
                if y and not any(o[0] == 's' for o in y) and {o for o in x if o[0] == 'o'} == {o for o in y if o[0] == 'o'}: st = dict(st); st[d] = y
        return st
    def pkinds(self, f, i):
        t = f.params[i].get('cty', f.params[i].get('ty', ''))
        if 'char' in t: return ('characters',)
        if 'Entry' in t: return ('slots',)
        return ('elements', 'variables')
    def analyse(self, f, report=None):
        P = self.P
        st0 = {}
        pidx = {}
        for n in f.nodes:
            if n['k'] == 'ref' and n.get('dk') == 'parm': pidx[n.get('d', ('pi', n['pi']))] = n['pi']
        for d, i in pidx.items():
            t = f.params[i].get('cty', f.params[i].get('ty', '')).replace('const ', '').strip()
            if t in ('char *', 'Value *', 'Entry *', 'uint64_t *', 'unsigned long *', 'struct Entry *'): st0[d] = frozenset([('o', 'param', i)])
        ins = {f.entry: st0}; work = [f.entry]; rounds = collections.Counter()
        moves = set(); used = set(); rets = set()
        first = report is not None
        while work:
            b = work.pop()
            rounds[b] += 1
            if rounds[b] > 30: continue
            st = dict(ins[b]); B = f.blocks[b]
            for e in B['e']:
                n = f.nodes[e]; k = n['k']
                # uses
                tgt = []
                if k == 'idx': tgt = [(n['c'][0], 'reads or writes through')]
                elif k == 'un' and n['op'] == '*': tgt = [(n['c'][0], 'reads or writes through')]
                elif k == 'mem' and n.get('arrow'): tgt = [(n['c'][0], 'reads or writes through')]
                elif k == 'call': tgt = [(a, 'gives %s' % (n.get('fn') or 'a function')) for a in n['c'][1:]]
                for x, how in tgt:
                    if k == 'call' and not self.ptr(f, x): continue
                    fs = self.orig(f, x, st)
                    for o in fs:
                        if o[0] == 's' and report is not None: report(f, e, how, o, x)
                        if o[0] == 'sc': used.add((o[1], o[2], o[3]))
                    if any(o[0] == 'o' for o in fs): self.uses += report is not None
                if report is not None and k in ('call', 'idx'):
                    ps = [n['c'][0]] if k == 'idx' else n['c'][1:]
                    zs = [n['c'][1]] if k == 'idx' else n['c'][1:]
                    for z in zs:
                        sz = frozenset() if self.ptr(f, z) else self.size(f, z, st) | self.below(f, z, st) if k == 'call' else self.below(f, z, st)
                        if not sz: continue
                        for x in ps:
                            if x == z or not self.ptr(f, x): continue
                            t = f.nodes[strip(f, x)].get('ty', '').replace('const ', '').replace('struct ', '').replace('volatile ', '')
                            kind = {'ValueArray *': 'elements', 'ObjArray *': 'elements', 'ObjString *': 'characters', 'LocalsTable *': 'variables'}.get(t)
                            o = self.old(sz, [('o', kind, self.own(f, x))] if kind else self.orig(f, x, st))
                            if o: report(f, e, 'uses', o, z, True)
                if k == 'call':
                    fn = n.get('fn'); kk = P.resolve(fn, f) if fn else None
                    if kk in self.W.noreturn or fn in self.W.noreturn: pass
                    elif fn in FREES:
                        for o in self.orig(f, n['c'][1 + FREES[fn]], st):
                            if o[0] != 'o': continue
                            w = ('param', o[2]) if o[1] == 'param' else (o[1], o[2])
                            self.events += report is not None
                            st = self.kill(f, st, w, n['line'], 'frees or moves them')
                            # the pointer that was freed itself
                            if o[1] == 'param': moves.add(('param', o[2]))
                            elif o[2] is not None and o[2][0] == 'p': moves.add((o[1], o[2][1]))
                    elif kk:
                        g = P.fns[kk]
                        mv, us, rt = self.sum[kk]
                        args = n['c'][1:]
                        if kk in self.script and not (g.file == 'table.c' and f.file != 'table.c' and not self.mapstable(f, e)):
                            self.events += report is not None
                            # the callee's own use of what it was given
                            for i, kind, j in us:
                                if kind != 'any' or i >= len(args): continue
                                for o in self.orig(f, args[i], st):
                                    if o[0] != 'o': continue
                                    if o[1] == 'param': used.add((o[2], 'any', None))
                                    elif report is not None and not self.freshown(f, o[2]) and not self.internal(o[2]): report(f, e, 'gives %s' % g.name, ('s', n['line'], 'runs script code before it uses them'), args[i])
                            st = self.kill(f, st, 'any', n['line'], SCRIPT)
                            moves.add(('any', None))
                        for i, kind, j in us:
                            if kind == 'any' or i >= len(args) or j >= len(args): continue
                            w = (kind, self.own(f, args[j]))
                            for o in self.orig(f, args[i], st):
                                if o[0] != 'o': continue
                                if o[1] == 'param':
                                    if w[1] is not None and w[1][0] == 'p' and kind in self.pkinds(f, o[2]): used.add((o[2], kind, w[1][1]))
                                elif report is not None and self.mayalias(f, (o[1], o[2]), w): report(f, e, 'gives %s' % g.name, ('s', n['line'], 'moves them before it uses what it was given, if both are the same object'), args[i])
                        for kind, j in mv:
                            if kind == 'any' or j is None or j >= len(args): continue
                            self.events += report is not None
                            if kind == 'param':
                                for o in self.orig(f, args[j], st):
                                    if o[0] == 'o':
                                        w = ('param', o[2]) if o[1] == 'param' else (o[1], o[2])
                                        st = self.kill(f, st, w, n['line'], 'frees or moves them')
                                        if o[1] == 'param': moves.add(w)
                                        elif o[2] is not None and o[2][0] == 'p': moves.add((o[1], o[2][1]))
                                continue
                            w = (kind, self.own(f, args[j]))
                            st = self.kill(f, st, w, n['line'], 'may move them')
                            if w[1] is not None and w[1][0] == 'p': moves.add((kind, w[1][1]))
                            elif w[1] is not None and w[1][0] == 'm' and w[1][3] and w[1][3][0] == 'p' and kind == 'slots' and w[1][2] == 'table': moves.add(('slots of', w[1][3][1]))
                elif k == 'asg':
                    l = f.nodes[strip(f, n['c'][0])]
                    if l['k'] == 'ref' and l.get('dk') in ('local', 'parm') and n['op'] == '=' and self.ptr(f, n['c'][0]):
                        st[l.get('d', ('pi', l.get('pi')))] = self.orig(f, n['c'][1], st)
                    elif l['k'] == 'ref' and l.get('dk') in ('local', 'parm'):
                        d = l.get('d', ('pi', l.get('pi')))
                        st[('z', d)] = self.size(f, n['c'][1], st) if n['op'] == '=' else frozenset()
                        st[('b', d)] = self.below(f, n['c'][1], st) if n['op'] == '=' else frozenset()
                elif n.get('incdec'):
                    l = f.nodes[strip(f, n['c'][0])]
                    if l['k'] == 'ref' and l.get('dk') in ('local', 'parm'):
                        d = l.get('d', ('pi', l.get('pi')))
                        st[('z', d)] = st[('b', d)] = frozenset()
                elif k == 'decl':
                    for v in n['vars']:
                        if v['init'] >= 0 and '*' in v.get('cty', v.get('ty', '*')): st[v['d']] = self.orig(f, v['init'], st)
                        else:
                            st.pop(v['d'], None)
                            if v['init'] >= 0: st[('z', v['d'])] = self.size(f, v['init'], st); st[('b', v['d'])] = self.below(f, v['init'], st)
                elif k == 'ret' and n['c'] and n['c'][0] >= 0:
                    for o in self.orig(f, n['c'][0], st):
                        if o[0] == 'o' and o[1] == 'param': rets.add(('param', o[2]))
                        elif o[0] == 'o' and o[2] is not None and o[2][0] == 'p': rets.add((o[1], o[2][1]))
            if B.get('nr'): continue
            out = st
            for si, s in enumerate(B['s']):
                if s is None: continue
                st = self.edge(f, B, si, out)
                old = ins.get(s)
                if old is None: ins[s] = dict(st); work.append(s)
                else:
                    ch = False
                    for d, fs in st.items():
                        o = old.get(d, frozenset())
                        if not fs <= o: old[d] = o | fs; ch = True
                    if ch and s not in work: work.append(s)
        return frozenset(moves), frozenset(used), frozenset(rets)
    def run(self):
        ch = True; rounds = 0
        while ch and rounds < 8:
            ch = False; rounds += 1
            for f in self.fns:
                s = self.analyse(f)
                if s != self.sum[f.key]: self.sum[f.key] = s; ch = True
        vs = {}
        def report(f, e, how, o, x, length=False):
            var = f.nodes[strip(f, x)].get('name') or 'a pointer'
            key = '%s %s' % (f.key, var)
            if key in vs: return
            if length:
                vs[key] = dict(key=key, loc=f.loc(e), msg='%s uses %s, a length or position checked before line %s, with storage that may be shorter since: it %s' % (f.name, var if var != 'a pointer' else 'a number', o[1], o[2]))
                return
            vs[key] = dict(key=key, loc=f.loc(e), msg='%s %s %s, which points into storage that line %s may have moved or freed: it %s' % (f.name, how, var, o[1], o[2]))
        n = 0
        for f in self.fns:
            self.analyse(f, report); n += 1
        return [vs[k] for k in sorted(vs)], n

def run(ctx):
    M = Moved(ctx.P, ctx.W)
    vs, n = M.run()
    if M.events < 20 or M.uses < 50: raise AnalysisError('too few pointers into strings, arrays and tables found (%d, %d)' % (M.events, M.uses))
    return dict(violations=vs, obligations=M.uses + M.events, coverage={'functions': n, 'uses of pointers into storage': M.uses, 'calls that may move or free it': M.events, 'functions that may run script code': len(M.script)})
