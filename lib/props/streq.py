"""Strings: equal exactly when the characters are; the cached hash describes the characters."""
import collections
from program import AnalysisError
from props.text import strip, defs_of

WRITERS = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'sprintf': 0, 'snprintf': 0,
           'vsprintf': 0, 'vsnprintf': 0, 'fgets': 0, 'fread': 0, 'read': 1, 'recv': 1, 'qsort': 0}
COMPARE = {'memcmp': 2, 'bcmp': 2, 'strncmp': 2, 'strcmp': None}
REC = 'ObjString'

def path(f, x, d=0):
    """a name for what the expression denotes; locals given one value are seen through"""
    x = strip(f, x)
    if x is None or x < 0 or d > 12: return ('?',)
    n = f.nodes[x]
    k = n['k']
    if 'cv' in n: return ('k', n['cv'])
    if k == 'ref':
        if 'd' in n:
            ds = defs_of(f, n['d']) if n.get('dk') != 'parm' else None
            if ds and len(ds) == 1: return path(f, ds[0], d + 1)
            return ('v', n['d'])
        return ('g', n['name'])
    if k == 'mem': return ('m', path(f, n['c'][0], d + 1), n.get('rec'), n['f'])
    if k == 'idx': return ('i', path(f, n['c'][0], d + 1), path(f, n['c'][1], d + 1))
    if k == 'call': return ('c', n.get('fn')) + tuple(path(f, a, d + 1) for a in n['c'][1:])
    if k in ('un', 'bin'): return (k, n.get('op')) + tuple(path(f, a, d + 1) for a in n['c'])
    return ('n', x)

def within(f, x, d=0):
    """the string whose characters the pointer leads to"""
    x = strip(f, x)
    if x is None or x < 0 or d > 12: return None
    n = f.nodes[x]
    if n['k'] == 'mem': return path(f, n['c'][0]) if n.get('rec') == REC and n['f'] == 'chars' else None
    if n['k'] == 'bin' and n['op'] in '+-': return within(f, n['c'][0], d + 1)
    if n['k'] == 'un' and n['op'] == '&':
        y = strip(f, n['c'][0])
        return within(f, f.nodes[y]['c'][0], d + 1) if f.nodes[y]['k'] == 'idx' else None
    if n['k'] == 'ref' and 'd' in n:
        for y in defs_of(f, n['d']) or []:
            o = within(f, y, d + 1)
            if o: return o
        # a cursor that is stepped along
        for m in f.nodes:
            if m['k'] == 'decl':
                for v in m['vars']:
                    if v['d'] == n['d'] and v['init'] >= 0 and d < 6:
                        o = within(f, v['init'], d + 4)
                        if o: return o
    return None

def mem_of(f, x, field):
    x = strip(f, x)
    n = f.nodes[x] if x is not None and x >= 0 else None
    if n is not None and n['k'] == 'mem' and n.get('rec') == REC and n['f'] == field: return path(f, n['c'][0])
    return None

def atom(f, c):
    """the comparison a block really branches on, and whether its sense is turned"""
    neg = False
    while True:
        n = f.nodes[c]
        if n['k'] == 'cast': c = n['c'][0]
        elif n['k'] == 'un' and n['op'] == '!': c = n['c'][0]; neg = not neg
        elif n['k'] == 'bin' and n['op'] in ('&&', '||'): c = n['c'][1]
        elif n['k'] == 'call' and n.get('fn') == '__builtin_expect': c = n['c'][1]
        else: return c, neg

class Hashes:
    """which strings a function leaves with characters their cached hash may not describe"""
    def __init__(self, P, W):
        self.P = P; self.W = W
        self.dirty_params = {}     # function -> {param: line}
        self.computes = set()      # functions that may give a string a non-zero hash
        self.resets = {}           # function -> params whose hash is set to zero on every way out
        self.nwrites = 0
    def prepare(self):
        P = self.P
        direct = set()
        for k, f in P.fns.items():
            for n in f.nodes:
                if n['k'] == 'asg' and mem_of(f, n['c'][0], 'hash') is not None and f.nodes[strip(f, n['c'][1])].get('cv') != '0': direct.add(k)
        self.computes = set(direct)
        ch = True
        while ch:
            ch = False
            for k in P.fns:
                if k in self.computes: continue
                for nid, key, nm in P.calls[k]:
                    if key in self.computes or (key is None and nm is None): self.computes.add(k); ch = True; break
    def run(self):
        self.prepare()
        P = self.P
        out = []
        ch = True; rounds = 0
        while ch and rounds < 8:
            ch = False; rounds += 1; out = []; self.nwrites = 0; self.sites = []
            for k in sorted(P.fns):
                f = P.fns[k]
                d, left = self.function(f)
                pd = {('v', p['d']): i for i, p in enumerate(f.params)}
                dp = {pd[o]: l for o, l in left.items() if o in pd}
                if dp != self.dirty_params.get(k, {}): self.dirty_params[k] = dp; ch = True
                for o, l in left.items():
                    if o not in pd or k in self.W.natives or (not P.callers.get(k) if hasattr(P, 'callers') else False): out.append((k, o, l))
        return out
    def function(self, f):
        P = self.P
        ev = self.events(f)
        if not any(e[0] == 'w' for b in ev.values() for e in b): return {}, {}
        ent = max(f.blocks)
        IN = {ent: (frozenset(), frozenset())}
        work = [ent]; EX = {}; left = {}
        n = 0
        while work and n < 20000:
            n += 1
            b = work.pop()
            dirty, zero = dict(IN[b][0]), set(IN[b][1])
            for e in ev.get(b, ()):
                if e[0] == 'w':
                    if e[1] not in zero: dirty[e[1]] = e[2:]
                elif e[0] == 'z': dirty.pop(e[1], None); zero.add(e[1])
                elif e[0] == 'h': dirty.pop(e[1], None); zero.discard(e[1])
                elif e[0] == 'c': zero.discard(e[1])     # given the string, it may compute its hash
            bl = f.blocks[b]
            if bl.get('nr'): left.update({o: l[0] for o, l in dirty.items()}); continue
            for i, s in enumerate(bl['s']):
                if s is None or s < 0: continue
                d2 = dict(dirty)
                if 'cond' in bl and len(bl['s']) == 2 and bl.get('t') != 'SwitchStmt':
                    c, neg = atom(f, bl['cond'])
                    cn = f.nodes[c]
                    if cn['k'] == 'bin' and cn['op'] in ('==', '!='):
                        same = (cn['op'] == '==') != neg
                        if (i == 0) == same:
                            pr = {path(f, x) for x in cn['c']}
                            for o, l in list(d2.items()):
                                # what was written is what was there before
                                if len(l) > 2 and l[1] in pr and any(p == l[2] for p in pr): del d2[o]
                new = (frozenset(d2.items()), frozenset(zero))
                old = IN.get(s)
                if old is None: IN[s] = new; work.append(s)
                else:
                    m = dict(old[0]); ks = set(m)
                    for o, l in new[0]: m.setdefault(o, l)
                    j = (frozenset(m.items()), old[1] & new[1])
                    if j != old: IN[s] = j; work.append(s)
            if not [s for s in bl['s'] if s is not None and s >= 0]:
                left.update({o: l[0] for o, l in dirty.items()})
        return EX, left
    def events(self, f):
        P = self.P; r = {}
        fresh = set()
        for n in f.nodes:
            if n['k'] == 'asg' and n['op'] == '=':
                o = mem_of(f, n['c'][0], 'chars')
                if o: fresh.add(o)
        haslen = set()
        for n in f.nodes:
            if n['k'] == 'asg' or n.get('incdec'):
                o = mem_of(f, n['c'][0], 'length')
                if o: haslen.add(o)
        for b, bl in f.blocks.items():
            ev = []
            for x in bl['e']:
                n = f.nodes[x]
                if n['k'] == 'asg' or n.get('incdec'):
                    l = strip(f, n['c'][0]); ln = f.nodes[l]
                    o = mem_of(f, l, 'hash')
                    if o:
                        z = n['k'] == 'asg' and (f.nodes[strip(f, n['c'][1])].get('cv') == '0' or mem_of(f, n['c'][1], 'hash') is not None)   # reset, or copied along with the characters
                        ev.append(('z' if z else 'h', o)); continue
                    o = mem_of(f, l, 'length')
                    if o: ev.append(('w', o, n['line'])); self.nwrites += 1; continue
                    if ln['k'] == 'idx' or ln['k'] == 'un' and ln['op'] == '*':
                        o = within(f, ln['c'][0])
                        if o:
                            self.nwrites += 1
                            old = path(f, l)
                            ev.append(('w', o, n['line'], path(f, n['c'][1]), old) if n['k'] == 'asg' and n['op'] == '=' else ('w', o, n['line']))
                elif n['k'] == 'call':
                    name = n.get('fn'); key = P.resolve(name, f) if name else None
                    if key in P.fns:
                        if key in self.computes: ev += [('c', path(f, a)) for a in n['c'][1:]]
                        for i, l in self.dirty_params.get(key, {}).items():
                            if i + 1 < len(n['c']): ev.append(('w', path(f, n['c'][i + 1]), n['line'])); self.nwrites += 1
                    elif name in WRITERS and len(n['c']) > WRITERS[name] + 1:
                        o = within(f, n['c'][WRITERS[name] + 1])
                        # a copy into storage just given to the string, as long as it was before
                        if o and not (o in fresh and o not in haslen): ev.append(('w', o, n['line'])); self.nwrites += 1
            if ev: r[b] = ev
        return r

class Equality:
    def __init__(self, P, W): self.P = P; self.W = W; self.n = 0
    def functions(self):
        """the functions that decide whether two strings are the same"""
        P = self.P
        out = set()
        for k, f in P.fns.items():
            for n in f.nodes:
                if n['k'] == 'bin' and n['op'] in ('==', '!='):
                    ps = [self.hashish(f, c) for c in n['c']]
                    if any(p == 'field' for p in ps) and all(ps): out.add(k)
        work = ['valEqual', 'tableFindString', 'objStringEquals', 'stringEquals']
        for o in work:
            if o in P.fns: out.add(o)
        return out
    def hashish(self, f, x, d=0):
        x = strip(f, x)
        if mem_of(f, x, 'hash') is not None: return 'field'
        n = f.nodes[x]
        if 'cv' in n: return None
        if n['k'] == 'ref' and n.get('dk') == 'parm': return 'value'
        if n['k'] == 'ref' and 'd' in n:
            ds = defs_of(f, n['d']) or []
            r = {self.hashish(f, y, d + 1) for y in ds} if d < 5 else set()
            return 'field' if 'field' in r else 'value' if 'value' in r else None
        if n['k'] == 'call': return 'field' if d < 5 and self.giveshash(self.P.resolve(n['fn'], f) if n.get('fn') else None) else 'value'
        return None
    def giveshash(self, k):
        """a function that answers with the hash of a string"""
        if k not in self.P.fns: return False
        g = self.P.fns[k]
        if '_giveshash' not in g._x:
            g._x['_giveshash'] = False
            g._x['_giveshash'] = any(n['k'] == 'ret' and n['c'] and n['c'][0] >= 0 and self.hashish(g, n['c'][0], 3) == 'field' for n in g.nodes)
        return g._x['_giveshash']
    def compares(self, f, x, depth=0):
        """the expression compares characters itself"""
        n = f.nodes[x]
        if n['k'] != 'call': return False
        if n.get('fn') in COMPARE: return True
        key = self.P.resolve(n['fn'], f) if n.get('fn') else None
        if key in self.P.fns and depth < 3:
            g = self.P.fns[key]
            return any(self.compares(g, i, depth + 1) for i, m in enumerate(g.nodes) if m['k'] == 'call')
        return False
    def charcmp(self, f, x):
        """a comparison of single characters of a string"""
        n = f.nodes[x]
        if n['k'] != 'bin' or n['op'] not in ('==', '!='): return False
        def ch(y):
            y = strip(f, y); m = f.nodes[y]
            return (m['k'] == 'idx' or m['k'] == 'un' and m['op'] == '*') and within(f, m['c'][0]) is not None
        return any(ch(c) for c in n['c'])
    def outcome(self, f, b, want):
        """a block after which the function answers without comparing characters; None if there's none"""
        seen = set(); work = [b]
        while work:
            b = work.pop()
            if b in seen: continue
            seen.add(b)
            bl = f.blocks[b]; stop = False
            for x in bl['e']:
                n = f.nodes[x]
                if self.compares(f, x) or self.charcmp(f, x): stop = True; break
                if n['k'] == 'ret':
                    v = f.nodes[strip(f, n['c'][0])] if n['c'] else {}
                    truth = None
                    if 'cv' in v: truth = v['cv'] != '0'
                    elif v.get('k') == 'bin' and v.get('op') in ('==', '!='): truth = None
                    elif v.get('k') in ('ref', 'mem'): truth = True if v.get('ty', '').endswith('*') else None
                    if truth is None or truth == want: return n['line']
                    stop = True; break
            if stop or bl.get('nr'): continue
            work += [s for s in bl['s'] if s is not None and s >= 0]
        return None
    def run(self):
        P = self.P; vs = []
        self.fns = self.functions()
        for k in sorted(self.fns):
            f = P.fns[k]
            conds = {}
            for b, bl in f.blocks.items():
                if 'cond' in bl and len(bl['s']) == 2 and bl.get('t') != 'SwitchStmt': conds[atom(f, bl['cond'])[0]] = b
            tested = None
            for x, n in enumerate(f.nodes):
                if n['k'] != 'bin' or n['op'] not in ('==', '!='): continue
                ps = [self.hashish(f, c) for c in n['c']]
                if not (any(p == 'field' for p in ps) and all(ps)): continue
                self.n += 1
                if x not in conds:
                    vs.append(dict(key='%s hash used' % k, loc='%s:%s' % (f.file, n['line']), msg='%s: whether the hashes are equal is taken for whether the strings are' % k)); continue
                b = conds[x]; bl = f.blocks[b]
                _, neg = atom(f, bl['cond'])
                eqi = 0 if (n['op'] == '==') != neg else 1
                for i, want in ((eqi, True), (1 - eqi, False)):
                    if bl['s'][i] is None or bl['s'][i] < 0: continue
                    l = self.outcome(f, bl['s'][i], want)
                    if l is None: continue
                    if want: vs.append(dict(key='%s equal hashes' % k, loc='%s:%s' % (f.file, n['line']), msg='%s: strings with equal hashes are taken to be equal (line %s)' % (k, l)))
                    else:
                        if tested is None: tested = self.nonzero(f)
                        for c in n['c']:
                            o = mem_of(f, c, 'hash')
                            if o is not None and o not in tested.get(b, ()):
                                vs.append(dict(key='%s unset hash' % k, loc='%s:%s' % (f.file, n['line']), msg='%s: strings are taken to differ because of a hash that may not have been computed (line %s)' % (k, l)))
            # a comparison of so many characters says nothing about strings of different lengths
            eqlen = None
            for x, n in enumerate(f.nodes):
                if n['k'] != 'call' or n.get('fn') not in COMPARE or len(n['c']) < 3: continue
                if not (within(f, n['c'][1]) or within(f, n['c'][2])): continue
                self.n += 1
                if n['fn'] in ('strcmp', 'strncmp'):
                    vs.append(dict(key='%s terminator' % k, loc='%s:%s' % (f.file, n['line']), msg='%s: characters after a zero byte are not compared' % k)); continue
                cnt = path(f, n['c'][3])
                if not self.counted(f, cnt):
                    vs.append(dict(key='%s part' % k, loc='%s:%s' % (f.file, n['line']), msg='%s: only some of the characters are compared' % k)); continue
                if eqlen is None: eqlen = self.lengths(f)
                b = next((b for b, bl in f.blocks.items() if x in bl['e']), None)
                if b is not None and not eqlen.get(b, False):
                    vs.append(dict(key='%s lengths' % k, loc='%s:%s' % (f.file, n['line']), msg='%s: characters are compared without the lengths being known to be equal' % k))
        vs += self.elsewhere()
        return vs
    def whole(self, f, x, d=0):
        """the first character of a string a script can see"""
        x = strip(f, x)
        if x is None or x < 0 or d > 6: return False
        n = f.nodes[x]
        if n['k'] == 'mem': return n.get('rec') == REC and n['f'] == 'chars'
        if n['k'] == 'ref' and 'd' in n and n.get('dk') != 'parm':
            ds = defs_of(f, n['d'])
            return bool(ds) and all(self.whole(f, y, d + 1) for y in ds)
        return False
    def elsewhere(self):
        """whole strings compared up to the first zero byte, to see whether they are equal"""
        vs = []
        for k, f in self.P.fns.items():
            if k in self.fns or f.entry is None: continue
            calls = [x for x, n in enumerate(f.nodes) if n['k'] == 'call' and n.get('fn') == 'strcmp' and len(n['c']) == 3 and self.whole(f, n['c'][1]) and self.whole(f, n['c'][2])]
            if not calls: continue
            self.n += len(calls)
            used = {atom(f, bl['cond'])[0] for bl in f.blocks.values() if bl.get('cond') is not None and len(bl['s']) == 2}
            for n in f.nodes:
                if n['k'] == 'bin' and n['op'] in ('==', '!=') and any(f.nodes[strip(f, c)].get('cv') == '0' for c in n['c']): used |= {strip(f, c) for c in n['c']}
                if n['k'] == 'un' and n['op'] == '!': used.add(strip(f, n['c'][0]))
            for x in calls:
                if x in used: vs.append(dict(key='%s terminator' % k, loc='%s:%s' % (f.file, f.nodes[x]['line']), msg='%s: strings are taken to be equal whatever follows a zero byte in them' % k))
        return vs
    def counted(self, f, cnt):
        if cnt[0] == 'm' and cnt[2:] == (REC, 'length'): return True
        for n in f.nodes:
            if n['k'] == 'bin' and n['op'] in ('==', '!=') and any(mem_of(f, x, 'length') is not None for x in n['c']) and cnt in [path(f, x) for x in n['c']] and cnt[0] != 'k': return True
        return False
    def flow(self, f, edge):
        ent = max(f.blocks); IN = {ent: frozenset()}; work = [ent]
        while work:
            b = work.pop(); bl = f.blocks[b]
            for i, s in enumerate(bl['s']):
                if s is None or s < 0: continue
                g = IN[b]
                if 'cond' in bl and len(bl['s']) == 2 and bl.get('t') != 'SwitchStmt': g = g | edge(bl, i)
                if s not in IN: IN[s] = g; work.append(s)
                elif IN[s] & g != IN[s]: IN[s] = IN[s] & g; work.append(s)
        return IN
    def nonzero(self, f):
        def edge(bl, i):
            c, neg = atom(f, bl['cond']); n = f.nodes[c]
            t = (i == 0) != neg
            if n['k'] == 'bin' and n['op'] in ('>', '!=', '<'):
                y = n['c'][0] if n['op'] != '<' else n['c'][1]; z = n['c'][1] if n['op'] != '<' else n['c'][0]
                o = mem_of(f, y, 'hash')
                if o is not None and f.nodes[strip(f, z)].get('cv') == '0' and t: return {o}
            if n['k'] == 'bin' and n['op'] == '==':
                o = mem_of(f, n['c'][0], 'hash')
                if o is not None and f.nodes[strip(f, n['c'][1])].get('cv') == '0' and not t: return {o}
            o = mem_of(f, c, 'hash')
            return {o} if o is not None and t else set()
        return self.flow(f, edge)
    def lengths(self, f):
        def edge(bl, i):
            c, neg = atom(f, bl['cond']); n = f.nodes[c]
            t = (i == 0) != neg
            if n['k'] == 'bin' and n['op'] in ('==', '!='):
                if any(mem_of(f, x, 'length') is not None for x in n['c']) and not any('cv' in f.nodes[strip(f, x)] for x in n['c']) and (n['op'] == '==') == t: return {True}
            return set()
        return {b: bool(g) for b, g in self.flow(f, edge).items()}

def run(ctx):
    P, W = ctx.P, ctx.W
    h = Hashes(P, W); left = h.run()
    vs = []
    for k, o, l in left:
        f = P.fns[k]
        vs.append(dict(key='%s hash' % k, loc='%s:%s' % (f.file, l), msg='%s changes the characters of a string and can leave it with the hash of the old ones' % k))
    e = Equality(P, W); vs += e.run()
    return dict(violations=vs, obligations=h.nwrites + e.n, coverage={'changes of characters': h.nwrites, 'functions deciding equality': sorted(e.fns), 'comparisons': e.n})
