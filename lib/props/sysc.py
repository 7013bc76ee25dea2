"""System calls: a failure is noticed, and the error that is raised describes it."""
import collections
from program import AnalysisError
from props.text import strip

NULLF, NEG, NONZ = ('null',), ('neg',), ('nonz',)
# call -> (values it returns when it fails, some values it returns when it succeeds, sets errno)
OBJ = 'obj'          # a non-null pointer
CALLS = {}
for n in 'open socket accept fcntl mkstemp'.split(): CALLS[n] = ([-1], [0, 3], True)
for n in 'stat lstat fstat mkdir chdir rename unlink symlink chmod chown lchown bind listen connect pipe setenv unsetenv sigaction kill close fclose closedir clock_gettime rmdir link ftruncate fsync dup2 utimes access setsockopt shutdown'.split():
    CALLS[n] = ([-1], [0], True)
for n in 'read write recv send recvfrom sendto lseek readlink select poll waitpid fork dup'.split(): CALLS[n] = ([-1], [7], True)
for n in 'fopen fdopen opendir getcwd realpath'.split(): CALLS[n] = ([0], [OBJ], True)
for n in 'getpwuid getpwnam getgrgid getgrnam'.split(): CALLS[n] = ([0], [OBJ], True)
for n in 'dlopen dlsym'.split(): CALLS[n] = ([0], [OBJ], False)
for n in 'pthread_create pthread_join'.split(): CALLS[n] = ([11], [0], False)
CALLS['getaddrinfo'] = ([-2, -11], [0], True)
CALLS['glob'] = ([1, 2], [0], True)
CALLS['system'] = ([-1, 9, 256], [0], True)
INBAND = {'fread', 'fgets', 'getline', 'fgetc', 'getc'}    # the result is the same at the end of the file: ferror() must be asked
for n in INBAND: CALLS[n] = ([0], [], True)
CALLS['ferror'] = ([1], [0], False)
CALLS['execvp'] = ([-1], [], True)
CALLS['inet_pton'] = ([0, -1], [1], True)
# failures of these only ever concern clean-up or need no answer
CLEANUP = {
    'fclose': 'closing a stream that was only read', 'closedir': 'closing a directory',
}
# these leave errno as it is
KEEP = set('''strlen strcmp strncmp strchr strrchr strstr index rindex memcmp memchr memcpy memmove memset strcpy strcat strncpy strncat
pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_cond_timedwait pthread_self pthread_mutex_init pthread_mutex_destroy
pthread_cond_init pthread_cond_destroy pthread_create pthread_join pthread_detach
__builtin_expect __builtin_va_start __builtin_va_end __errno_location __builtin_unreachable free getpid getppid strerror gai_strerror fileno ferror feof
htons ntohs htonl ntohl __sync_fetch_and_add_4 __sync_fetch_and_sub_4 __sync_fetch_and_or_4 __sync_fetch_and_and_4 __sync_synchronize sigemptyset
_setjmp setjmp longjmp __ctype_b_loc tolower toupper abs __assert_fail'''.split())
SETERR = {n for n, v in CALLS.items() if v[2]} | set('fread fwrite fgets fputs strtol strtod readdir nanosleep usleep sleep sched_yield gettimeofday'.split())

# functions of the program that are taken to leave errno alone
KEEPFN = {'xfree': 'only calls free()', 'sysErrClass': 'looks a number up in a table: numbers are hashed and compared without calling anything'}
ENTRY = ('entry',)

def outparm(f, x):
    """the parameter whose target an assignment changes"""
    n = f.nodes[strip(f, x)]
    if n['k'] != 'un' or n['op'] != '*': return None
    m = f.nodes[strip(f, n['c'][0])]
    return m.get('pi') if m['k'] == 'ref' and m.get('dk') == 'parm' else None

def outlocal(f, n, p):
    """the local whose address a call is given in place p"""
    if p is None or len(n['c']) <= p + 1: return None
    m = f.nodes[strip(f, n['c'][p + 1])]
    if m['k'] != 'un' or m['op'] != '&': return None
    m = f.nodes[strip(f, m['c'][0])]
    return m.get('d') if m['k'] == 'ref' else None

def last_cond(f, x):
    """the part of a condition that the block it ends has just evaluated"""
    while x is not None:
        n = f.nodes[strip(f, x)]
        if n['k'] == 'bin' and n['op'] in ('&&', '||'): x = n['c'][1]
        else: return x
    return x

class Errno:
    """what errno, and each local copy of it, may have been set by last"""
    def __init__(self, P, W):
        self.P = P; self.W = W
        self.sum = {}       # key -> frozenset of tags errno may carry at return
        self.outerr = {}      # functions that store an error number where a parameter points -> {the store: the parameter}
        self.reterr = {}      # functions that return an error number -> their return statements
        self.reports = collections.defaultdict(set)   # key -> parameters that are used as an error number
        self.order()
        q = collections.deque(self.work); inq = {f.key for f in self.work}; n = 0
        while q:
            f = q.popleft(); inq.discard(f.key); n += 1
            if n > 40 * len(self.work): raise AnalysisError('errno summaries do not settle')
            r0 = len(self.reports[f.key])
            if self.flow(f, False) or len(self.reports[f.key]) != r0:
                for c in P.callers.get(f.key, ()):
                    if c not in inq and c in P.fns and P.fns[c].entry is not None: q.append(P.fns[c]); inq.add(c)
    def order(self):
        # functions that may change errno
        seen = set(); out = []
        for r in self.P.fns:
            st = [(r, iter(()))] if r not in seen else []
            if st: seen.add(r); st = [(r, iter([k for _, k, _ in self.P.calls[r] if k]))]
            while st:
                x, it = st[-1]
                for k in it:
                    if k not in seen:
                        seen.add(k); st.append((k, iter([c for _, c, _ in self.P.calls[k] if c]))); break
                else:
                    out.append(x); st.pop()
        self.work = [self.P.fns[k] for k in out if self.P.fns[k].entry is not None]
    def is_errno(self, f, x):
        x = strip(f, x)
        if x is None or x < 0: return False
        n = f.nodes[x]
        if n['k'] == 'un' and n['op'] == '*':
            c = f.nodes[strip(f, n['c'][0])]
            return c['k'] == 'call' and c.get('fn') == '__errno_location'
        return False
    def discarded(self, f, nid):
        if f.nodes[nid].get('fn') == 'execvp': return False    # it returns only when it failed
        p = f.parent.get(nid)
        while p is not None and f.nodes[p]['k'] == 'cast': 
            nid = p; p = f.parent.get(nid)
        if p is not None: return False
        for b in f.blocks.values():
            if b.get('cond') is not None and b.get('cond') == nid: return False
        return True
    def flow(self, f, collect):
        inn = {f.entry: {(): {'': frozenset([ENTRY])}}}
        for p in f.params:
            if 'd' in p: inn[f.entry][()][p['d']] = frozenset([('parm', p.get('pi'))])
        trk = self.tracked(f)
        work = [(f.entry, ())]; outs = {}; changed = False
        self.obl = 0; self.bad = []
        guard = 0
        while work:
            guard += 1
            if guard > 20000: raise AnalysisError('errno flow of %s does not settle' % f.key)
            b, vk = work.pop(0)
            st = dict(inn[b][vk]); vals = dict(vk)
            ret = None
            for e in f.blocks[b]['e']:
                self.step(f, e, st, collect)
                if trk: self.consts(f, e, trk, vals)
                if f.nodes[e]['k'] == 'asg' and f.nodes[e]['op'] == '=':
                    p = outparm(f, f.nodes[e]['c'][0])
                    if p is not None and any(t[0] in ('call', 'clob', 'set') for t in self.tags(f, f.nodes[e]['c'][1], st)): self.outerr.setdefault(f.key, {})[e] = p
                if f.nodes[e]['k'] == 'ret':
                    ret = e
                    if f.nodes[e]['c'] and f.ret in ('int', 'long', 'int32_t') and any(t[0] in ('call', 'clob', 'set') for t in self.tags(f, f.nodes[e]['c'][0], st)): self.reterr.setdefault(f.key, set()).add(e)
            bl = f.blocks[b]
            if not bl.get('nr') and f.exit in f.succs(b):
                c = f.nodes[strip(f, f.nodes[ret]['c'][0])].get('cv') if ret is not None and f.nodes[ret]['c'] else None
                outs[c] = outs.get(c, frozenset()) | st['']
            if b == f.exit or not f.succs(b):
                continue
            for si, s in enumerate(bl['s']):
                if s is None or bl.get('nr'): continue
                if vals and len(bl['s']) == 2 and self.decided(f, bl, vals) == (si == 1): continue
                s2 = self.branch(f, bl, si, st)
                k = tuple(sorted(vals.items()))
                at = inn.setdefault(s, {})
                if k not in at and len(at) >= 12: k = ()
                if k not in at: at[k] = dict(s2); work.append((s, k))
                else:
                    j = self.join(at[k], s2)
                    if j != at[k]: at[k] = j; work.append((s, k))
        if collect: return
        o = {c: frozenset(t if t == ENTRY else (t[0],) for t in ts) for c, ts in outs.items()}
        if o != self.sum.get(f.key): self.sum[f.key] = o; changed = True
        return changed
    def tracked(self, f):
        """locals that are given constants, and compared with constants to decide where to go"""
        if not hasattr(self, '_trk'): self._trk = {}
        if len(f.blocks) > 300: return ()
        if f.key not in self._trk:
            giv = set(); cmp = set(); no = set()
            for n in f.nodes:
                if n['k'] == 'decl':
                    giv |= {v['d'] for v in n['vars'] if v['init'] >= 0 and 'cv' in f.nodes[strip(f, v['init'])]}
                elif n['k'] == 'asg' and n['op'] == '=':
                    m = f.nodes[strip(f, n['c'][0])]
                    if m['k'] == 'ref' and m.get('dk') == 'local' and 'cv' in f.nodes[strip(f, n['c'][1])]: giv.add(m['d'])
                elif n['k'] == 'un' and n['op'] == '&':
                    m = f.nodes[strip(f, n['c'][0])]
                    if m['k'] == 'ref': no.add(m.get('d'))
            for b in f.blocks.values():
                t = self.test(f, last_cond(f, b.get('cond')))
                if t: cmp.add(t[0])
            self._trk[f.key] = giv & cmp - no
        return self._trk[f.key]
    def test(self, f, c):
        """a comparison of a local with a constant: (local, operator, constant, negated)"""
        if c is None: return None
        n = f.nodes[strip(f, c)]; neg = False
        while n['k'] == 'un' and n['op'] == '!': neg = not neg; n = f.nodes[strip(f, n['c'][0])]
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
            x = f.nodes[strip(f, n['c'][0])]; y = f.nodes[strip(f, n['c'][1])]; op = n['op']
            if x['k'] == 'asg' and x['op'] == '=': x = f.nodes[strip(f, x['c'][0])]
            if x.get('cv') is not None: x, y = y, x; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if x['k'] == 'ref' and x.get('dk') == 'local' and y.get('cv') is not None: return x['d'], op, int(y['cv']), neg
        elif n['k'] == 'ref' and n.get('dk') == 'local': return n['d'], '!=', 0, neg
        return None
    def decided(self, f, bl, vals):
        t = self.test(f, last_cond(f, bl.get('cond')))
        if t is None or t[0] not in vals: return None
        v = vals[t[0]]; cv = t[2]
        return {'==': v == cv, '!=': v != cv, '<': v < cv, '>': v > cv, '<=': v <= cv, '>=': v >= cv}[t[1]] != t[3]
    def consts(self, f, e, trk, vals):
        n = f.nodes[e]
        def put(d, x):
            if d not in trk: return
            v = f.nodes[strip(f, x)].get('cv') if x is not None else None
            if v is None: vals.pop(d, None)
            else: vals[d] = int(v)
        if n['k'] == 'decl':
            for v in n['vars']: put(v['d'], v['init'] if v['init'] >= 0 else None)
        elif n['k'] == 'asg' or n['k'] == 'un' and n.get('incdec'):
            m = f.nodes[strip(f, n['c'][0])]
            if m['k'] == 'ref': put(m.get('d'), n['c'][1] if n['k'] == 'asg' and n['op'] == '=' else None)
    def branch(self, f, bl, si, st):
        """an edge on which the result of the call that last set errno is known narrows what errno can be"""
        c = last_cond(f, bl.get('cond'))
        if c is None or len(bl['s']) != 2: return st
        n = f.nodes[strip(f, c)]; neg = False
        while n['k'] == 'un' and n['op'] == '!': neg = not neg; n = f.nodes[strip(f, n['c'][0])]
        truth = (si == 0) != neg
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
            x = f.nodes[strip(f, n['c'][0])]; cv = f.nodes[strip(f, n['c'][1])].get('cv'); op = n['op']
            if cv is None: return st
            cv = int(cv)
        elif n['k'] in ('ref', 'call'): x = n; op = '!='; cv = 0
        else: return st
        if x['k'] == 'ref': alt = st.get(('alt', x.get('d')))
        elif x['k'] == 'call': alt = st.get('altc')
        else: return st
        if not alt or alt[2] != st[''] or x['k'] == 'call' and f.nodes[alt[0]] is not x: return st
        m = alt[1]
        o = frozenset()
        for k, ts in m:
            if k is None or k == '?': o |= ts; continue
            v = int(k)
            r = {'==': v == cv, '!=': v != cv, '<': v < cv, '>': v > cv, '<=': v <= cv, '>=': v >= cv}[op]
            if r == truth: o |= ts
        st = dict(st); st[''] = o
        return st
    def join(self, a, b):
        r = {}
        for k in set(a) | set(b):
            if k == 'altc' or isinstance(k, tuple):
                if a.get(k) == b.get(k): r[k] = a[k]
                elif k not in a and a.get('') == frozenset(): r[k] = b[k]
            else: r[k] = a.get(k, frozenset()) | b.get(k, frozenset())
        return r
    def tags(self, f, x, st):
        x = strip(f, x)
        if x is None or x < 0: return frozenset()
        n = f.nodes[x]
        if self.is_errno(f, x): return st['']
        if n['k'] == 'ref' and 'd' in n:
            if n.get('dk') == 'parm' and n['d'] not in st: return frozenset([('parm', n['pi'])])
            return st.get(n['d'], frozenset())
        if n['k'] == 'cond': return self.tags(f, n['c'][1], st) | self.tags(f, n['c'][2], st)
        return frozenset()
    def setalt(self, f, st, d, x):
        a = st.get('altc')
        if a and a[0] == strip(f, x): st[('alt', d)] = a
        else: st.pop(('alt', d), None)
    def step(self, f, e, st, collect):
        n = f.nodes[e]
        if n['k'] == 'decl':
            for v in n['vars']:
                if v['init'] >= 0:
                    st[v['d']] = self.tags(f, v['init'], st)
                    self.setalt(f, st, v['d'], v['init'])
                else: st[v['d']] = frozenset()
        elif n['k'] == 'asg' and n['op'] == '=':
            l = n['c'][0]; t = self.tags(f, n['c'][1], st)
            if self.is_errno(f, l):
                st[''] = t if t else frozenset([('set', e)])
            else:
                m = f.nodes[l]
                if m['k'] == 'ref' and 'd' in m:
                    st[m['d']] = t
                    self.setalt(f, st, m['d'], n['c'][1])
        elif n["k"] == "call":
            nm = n.get('fn'); k = self.P.resolve(nm, f) if nm else None
            self.use(f, e, n, nm, k, st)
            for p in set(self.outerr.get(k, {}).values()):
                d = outlocal(f, n, p)
                if d is not None: st[d] = frozenset([('call', e)])
            if nm and k is None:
                if nm in KEEP: return
                if nm in SETERR:
                    st[''] = frozenset([('clob', e) if self.discarded(f, e) else ('call', e)])
                else: st[''] = frozenset([('clob', e)])
            elif k is not None:
                if nm == 'reallocate' and f.nodes[n['c'][-1]].get('cv') == '0': return
                if nm in KEEPFN: return
                m = []
                for c, s in self.sum.get(k, {}).items():
                    o = set()
                    for t in s:
                        if t == ENTRY: o |= st['']
                        else: o.add(('clob', e) if t[0] in ('clob', 'set') or self.discarded(f, e) and t[0] == 'call' else (t[0], e))
                    m.append((c, frozenset(o)))
                u = frozenset().union(*[o for _, o in m]) if m else frozenset()
                st[''] = u
                if len(m) > 1: st['altc'] = (e, tuple(sorted(m, key=str)), u)
                else: st.pop('altc', None)
            else:
                if nm is None: st[''] = frozenset([('clob', e)])
    def use(self, f, e, n, nm, k, st):
        idx = []
        if k is None and nm == 'strerror': idx = [0]
        elif nm == 'sysErrClass': idx = [0]
        elif k is not None: idx = sorted(self.reports.get(k, ()), key=str)
        if 'errno' in idx:
            idx.remove('errno'); self.obl += 1
            self.check(f, e, st[''])
        for i in idx:
            if len(n['c']) <= i + 1: continue
            self.obl += 1
            self.check(f, e, self.tags(f, n['c'][i + 1], st))
    def check(self, f, e, tags):
        for t in tags:
            if t[0] == 'parm':
                if t[1] is not None: self.reports[f.key].add(t[1])
            elif t[0] == 'entry':
                # the caller's errno: the caller has the obligation
                if f.key in self.P.addr_fns or not self.P.callers.get(f.key): self.bad.append((e, t))
                else: self.reports[f.key].add('errno')
            elif t[0] in ('clob', 'set'): self.bad.append((e, t))

def run_errno(ctx):
    P, W = ctx.P, ctx.W
    for f in P.fns.values():
        # parameter declarations carry no id of their own; take it from the references
        for n in f.nodes:
            if n['k'] == 'ref' and n.get('dk') == 'parm':
                for i, p in enumerate(f.params):
                    if i == n['pi']: p['d'] = n['d']; p['pi'] = i
    E = Errno(P, W)
    vs = []; ob = 0; fns = 0; calls = 0
    R = noticed(P, W)
    pend = collections.defaultdict(set)         # functions that report the errno of their caller
    order = sorted(E.work, key=lambda f: f.key)
    entry = {}
    def analyse(f):
        nonlocal calls
        uses = {}
        for nid, k, name in P.calls[f.key]:
            if nid not in f.owner_block: continue
            if k in R['derived']: fails = R['derived'][k][0]
            elif k is None and name in CALLS and name in SETERR: fails = CALLS[name][0]
            elif k is None and name in SETERR: fails = [0, -1]
            elif k in E.reterr: fails = [2]
            elif k in E.outerr: fails = []
            else: continue
            fails = list(fails) + [('out', p, 5) for p in sorted(set(E.outerr.get(k, {}).values()))]
            calls += 1
            for v in fails:
                S = Sim(P, W, f, None, E)
                if S.run(nid, v, True) is None: raise AnalysisError('%s is too complex to follow from the call of %s' % (f.key, name))
                for e, ts in S.uses.items(): uses.setdefault(e, set()).update(ts)
        return uses
    for f in order:
        if f.file.startswith('vendor') or f.file in SKIPFILES: continue
        sites = use_sites(P, E, f)
        if not sites: continue
        fns += 1
        uses = analyse(f)
        for e, direct in sites.items():
            ob += 1
            ts = uses.get(e)
            if ts is None:
                # no failed call of this function leads here: it is the caller's
                if direct == 'parm' or 'errno' in E.reports.get(f.key, ()) : continue
                vs.append(dict(key='%s no-call' % f.key, loc=f.loc(e), msg='%s reports an error number that no failed call has set' % f.key))
                continue
            for t in ts:
                if t is None: continue
                m = f.nodes[t]
                vs.append(dict(key='%s %s' % (f.key, m.get('fn')), loc=f.loc(e),
                               msg='%s reports an error number that may have been changed since by the call of %s in line %d' % (f.key, m.get('fn') or 'a function', m['line'])))
    if ob == 0: raise AnalysisError('no error report found')
    return dict(violations=vs, obligations=ob, coverage={'error numbers reported': ob, 'functions that report one': fns, 'failing calls followed': calls})

def use_sites(P, E, f):
    out = {}
    for nid, k, nm in P.calls[f.key]:
        n = f.nodes[nid]
        idx = [0] if (k is None and nm == 'strerror' or nm == 'sysErrClass') else list(E.reports.get(k, ())) if k else []
        if not idx or nid not in f.owner_block: continue
        kind = None
        for i in idx:
            if i == 'errno' or len(n['c']) <= i + 1: continue
            x = strip(f, n['c'][i + 1])
            m = f.nodes[x]
            if m['k'] == 'ref' and m.get('dk') == 'parm': kind = 'parm'
            if m.get('cv') is not None: kind = 'parm'     # a fixed error number
        out[nid] = kind
    for e in E.reterr.get(f.key, ()): out[e] = None
    for e in E.outerr.get(f.key, ()): out[e] = None
    return out

def raises_on(P, W, k, j):
    """a function that raises in one outcome of a test of its j-th parameter"""
    g = P.fns.get(k)
    if g is None or g.entry is None: return False
    c = P.__dict__.setdefault('_raises_on', {})
    if (k, j) not in c:
        r = False
        for b in g.blocks.values():
            x = last_cond(g, b.get('cond'))
            if x is None or len(b['s']) != 2: continue
            st = [x]; hit = False
            while st:
                n = g.nodes[strip(g, st.pop())]
                if n['k'] == 'ref' and n.get('dk') == 'parm' and n.get('pi') == j: hit = True
                st += [y for y in n['c'] if y is not None and y >= 0]
            if hit and any(s is not None and (g.blocks[s].get('nr') or any(g.nodes[e]['k'] == 'call' and P.resolve(g.nodes[e].get('fn'), g) in W.noreturn for e in g.blocks[s]['e'] if g.nodes[e].get('fn'))) for s in b['s']): r = True; break
        c[(k, j)] = r
    return c[(k, j)]

class Sim:
    """follows a function from one call on, with one result of that call: where does it end up?"""
    def __init__(self, P, W, f, inband=None, errs=None):
        self.P = P; self.W = W; self.f = f; self.inband = inband; self.errs = errs
        self.outs = set()   # parameters through which an error number is handed out
        self.errval = 5     # EIO, unless something else is tried
        self.uses = {}      # place an error number is reported -> what it may have been changed by (None: still that of the failed call)
    def ev(self, x, env):
        f = self.f
        x = strip(f, x)
        if x is None or x < 0: return None
        if ('n', x) in env: return env[('n', x)]
        n = f.nodes[x]
        if n.get('cv') is not None: return int(n['cv'])
        k = n['k']
        if k == 'ref' and 'd' in n: return env.get(n['d'])
        if k == 'asg':
            return self.ev(n['c'][1], env) if n['op'] == '=' else self.ev(n['c'][0], env)
        if k == 'call' and n.get('fn') == '__builtin_expect': return self.ev(n['c'][1], env)
        if k == 'un' and n['op'] == '*':
            c = f.nodes[strip(f, n['c'][0])]
            return env.get('errno') if c['k'] == 'call' and c.get('fn') == '__errno_location' else None
        if k == 'un':
            v = self.ev(n['c'][0], env)
            if n['op'] == '!': return None if v is None else 0 if v == OBJ or v else 1
            if isinstance(v, int):
                return {'-': -v, '~': ~v, '+': v}.get(n['op'])
            return None
        if k == 'bin':
            if n['op'] == ',': return self.ev(n['c'][1], env)
            a, b = self.ev(n['c'][0], env), self.ev(n['c'][1], env)
            if n['op'] == '&&':
                if a == 0 or b == 0: return 0
                return None if a is None or b is None else 1
            if n['op'] == '||':
                if a not in (None, 0) or b not in (None, 0): return 1
                return None if a is None or b is None else 0
            if OBJ in (a, b):
                if a == 0 or b == 0: return {'==': 0, '!=': 1}.get(n['op'])
                return None
            if a is None or b is None: return None
            try:
                op = n['op']
                if 'unsigned' in str(f.nodes[strip(f, n['c'][0])].get('cty') or f.nodes[strip(f, n['c'][0])].get('ty')) and op in ('<', '>', '<=', '>='):
                    a &= 2**64 - 1; b &= 2**64 - 1
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b),
                        '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
                        '>>': lambda: a >> b, '<<': lambda: a << b, '^': lambda: a ^ b}[op]()
            except (KeyError, ValueError): return None
        if k == 'cond':
            c = self.ev(n['c'][0], env)
            if c is None:
                a, b = self.ev(n['c'][1], env), self.ev(n['c'][2], env)
                return a if a == b else None
            return self.ev(n['c'][1] if c == OBJ or c else n['c'][2], env)
        return None
    def mentions(self, x, env, val):
        f = self.f; st = [x]; seen = set()
        while st:
            x = strip(f, st.pop())
            if x is None or x < 0 or x in seen: continue
            seen.add(x); n = f.nodes[x]
            if ('n', x) in env: return True
            if n['k'] == 'ref' and 'd' in n and n['d'] in env and env.get(('t', n['d'])): return True
            st += [c for c in n['c'] if c is not None]
        return False
    def tainted(self, x, env):
        return self.mentions(x, env, None)
    def run(self, nid, val, failing=False):
        f = self.f; out = []
        b = f.owner_block[nid]; pos = f.blocks[b]['e'].index(nid) + 1
        env0 = self.dominating(b); env0['E'] = 'fresh'
        if isinstance(val, tuple):
            d = outlocal(f, f.nodes[nid], val[1]); val = val[2]
            if d is None: return []
            env0[d] = val
            if failing: env0[('t', d)] = True; env0[('e', d)] = 'fresh'
        else: env0[('n', nid)] = val
        if val in (-1, 0) and failing: env0['errno'] = self.errval
        work = [(b, pos, env0, False)]
        seen = set(); self.steps = 0
        while work:
            b, pos, env, warned = work.pop()
            key = (b, pos, tuple(sorted(((str(k), v) for k, v in env.items()), key=str)), warned)
            if key in seen: continue
            seen.add(key); self.steps += 1
            if self.steps > 6000: return None
            bl = f.blocks[b]; ended = False; ret = None
            for e in bl['e'][pos:]:
                n = f.nodes[e]; k = n['k']
                if k == 'call':
                    if e == nid: out.append(('retry',)); ended = True; break
                    if self.errs is not None: env = self.errcall(e, n, env)
                    nm = n.get('fn'); ck = self.P.resolve(nm, f) if nm else None
                    if nm in CALLS and 'errno' in env: env = dict(env); del env['errno']
                    if n.get('nr') or ck in self.W.noreturn: out.append(('throw', e)); ended = True; break
                    if self.inband is not None and (nm == 'ferror' or ck in self.inband): warned = True
                    if self.inband is None and nm in ('fprintf', 'fputs', 'perror', 'vm_warn', 'warn') : warned = True
                    if failing and self.errs is None and ck is not None and not warned:
                        # a helper that raises if what it is told says so
                        if any(self.tainted(a, env) and raises_on(self.P, self.W, ck, j) for j, a in enumerate(n['c'][1:])): warned = True
                    if f.addrtaken:
                        env = dict(env)
                        for a in n['c'][1:]:
                            m = f.nodes[strip(f, a)]
                            if m['k'] == 'un' and m['op'] == '&':
                                q = f.nodes[strip(f, m['c'][0])]
                                if q['k'] == 'ref': env.pop(q.get('d'), None); env.pop(('t', q.get('d')), None); env.pop(('e', q.get('d')), None)
                        if self.errs is not None:
                            for p in set(self.errs.outerr.get(ck, {}).values()):
                                d = outlocal(f, n, p)
                                if d is not None: env[('e', d)] = 'other'
                elif k == 'decl':
                    env = dict(env)
                    for v in n['vars']:
                        self.put(env, v['d'], v['init'] if v['init'] >= 0 else None)
                elif k == 'asg':
                    l = f.nodes[n['c'][0]]
                    p = outparm(f, n['c'][0]) if n['op'] == '=' else None
                    if p is not None:
                        if self.errs is not None and e in self.errs.outerr.get(f.key, ()):
                            self.use(e, self.etag(n['c'][1], env))
                        elif self.errs is None and failing and (self.iserr(n['c'][1]) or self.tainted(n['c'][1], env)):
                            warned = True; self.outs.add(p)
                    if self.errs is not None and self.errs.is_errno(f, n['c'][0]):
                        env = dict(env); t = self.etag(n['c'][1], env)
                        env['E'] = t if t is not None else ('clob', e)
                    if l['k'] == 'ref' and 'd' in l:
                        env = dict(env)
                        if n['op'] == '=': self.put(env, l['d'], n['c'][1])
                        else: self.put(env, l['d'], None)
                elif n.get('incdec'):
                    l = f.nodes[n['c'][0]]
                    if l['k'] == 'ref' and 'd' in l: env = dict(env); self.put(env, l['d'], None)
                elif k == 'ret':
                    ret = e
                    if self.errs is not None and e in self.errs.reterr.get(f.key, ()) and n['c']:
                        self.use(e, self.etag(n['c'][0], env))
            if ended: continue
            if bl.get('nr'): out.append(('throw', None)); continue
            ss = bl['s']
            c = last_cond(f, bl.get('cond'))
            v = self.ev(c, env) if c is not None and len(ss) == 2 else None
            ck = self.shape(c) if v is None and c is not None and len(ss) == 2 else None
            if ck is not None and ('c', ck) in env: v = env[('c', ck)]
            if v is not None: ss = [ss[0] if v == OBJ or v else ss[1]]
            for i, s in enumerate(ss):
                if s is None: continue
                if s == f.exit:
                    rn = f.nodes[ret] if ret is not None else None
                    x = rn['c'][0] if rn and rn['c'] else None
                    out.append(('ret', ret, self.ev(x, env) if x is not None else None, warned, x is not None and self.tainted(x, env)))
                    continue
                e2 = env
                if ck is not None and len(ss) == 2: e2 = dict(env); e2[('c', ck)] = 1 - i
                work.append((s, 0, e2, warned))
        return out
    def use(self, e, t):
        if t == 'fresh': self.uses.setdefault(e, set()).add(None)
        elif isinstance(t, tuple): self.uses.setdefault(e, set()).add(t[1])
        elif t == 'other': self.uses.setdefault(e, set())
    def iserr(self, x):
        """errno, or a local that is given errno"""
        f = self.f; x = strip(f, x); n = f.nodes[x]
        if n['k'] == 'un' and n['op'] == '*':
            c = f.nodes[strip(f, n['c'][0])]
            return c['k'] == 'call' and c.get('fn') == '__errno_location'
        if n['k'] == 'ref' and n.get('dk') == 'local':
            for m in f.nodes:
                if m['k'] == 'decl':
                    if any(v['d'] == n['d'] and v['init'] >= 0 and f.nodes[strip(f, v['init'])]['k'] == 'un' and self.iserr(v['init']) for v in m['vars']): return True
                elif m['k'] == 'asg' and m['op'] == '=':
                    l = f.nodes[strip(f, m['c'][0])]
                    if l['k'] == 'ref' and l.get('d') == n['d'] and f.nodes[strip(f, m['c'][1])]['k'] == 'un' and self.iserr(m['c'][1]): return True
        return False
    def tested(self):
        """the error numbers the function tells apart"""
        f = self.f; out = set()
        for n in f.nodes:
            if n['k'] == 'bin' and n['op'] in ('==', '!='):
                for a, b in (n['c'], n['c'][::-1]):
                    v = f.nodes[strip(f, b)].get('cv')
                    if v is not None and self.iserr(a) and int(v) > 0: out.add(int(v))
        for b in f.blocks.values():
            if b.get('cond') is not None and len(b['s']) > 2 and self.iserr(b['cond']):
                for t in b['s']:
                    v = f.blocks[t].get('case') if t is not None else None
                    if isinstance(v, int) and v > 0: out.add(v)
        return sorted(out)
    def etag(self, x, env):
        f = self.f; x = strip(f, x)
        if x is None or x < 0: return None
        if self.errs.is_errno(f, x): return env.get('E')
        n = f.nodes[x]
        if n['k'] == 'ref' and 'd' in n: return env.get(('e', n['d']))
        if n['k'] == 'call' and n.get('fn') and self.P.resolve(n['fn'], f) in self.errs.reterr: return 'fresh' if ('n', x) in env else 'other'
        if n['k'] == 'cond':
            v = self.ev(n['c'][0], env)
            if v is None: return self.etag(n['c'][1], env) or self.etag(n['c'][2], env)
            return self.etag(n['c'][1] if v == OBJ or v else n['c'][2], env)
        if n["k"] == "asg" and n["op"] == "=": return self.etag(n['c'][1], env)
        return None
    def errcall(self, e, n, env):
        f = self.f; E = self.errs; nm = n.get('fn'); k = self.P.resolve(nm, f) if nm else None
        idx = [0] if (k is None and nm == 'strerror' or nm == 'sysErrClass') else list(E.reports.get(k, ())) if k else []
        for i in idx:
            t = env.get('E') if i == 'errno' else self.etag(n['c'][i + 1], env) if len(n['c']) > i + 1 else None
            self.use(e, t)
        new = None
        if nm and k is None:
            if nm in KEEP: return env
            new = ('clob', e) if nm not in SETERR or E.discarded(f, e) else 'other'
        elif k is not None:
            if nm == 'reallocate' and f.nodes[n['c'][-1]].get('cv') == '0' or nm in KEEPFN: return env
            ts = {t[0] for s in E.sum.get(k, {}).values() for t in s}
            if 'clob' in ts or 'set' in ts: new = ('clob', e)
            elif 'call' in ts: new = ('clob', e) if E.discarded(f, e) else 'other'
            else: return env
        else: new = ('clob', e)
        env = dict(env); env['E'] = new
        return env
    def shape(self, x):
        """a pure expression over locals and constants, as a comparable value"""
        f = self.f; x = strip(f, x); n = f.nodes[x]
        if n.get('cv') is not None: return ('i', n['cv'])
        if n['k'] == 'ref' and 'd' in n and n.get('dk') in ('local', 'parm') and n['d'] not in f.addrtaken: return ('v', n['d'])
        if n['k'] in ('bin', 'un') and not n.get('incdec') and n['op'] not in ('*', '&') or n['k'] == 'bin':
            cs = [self.shape(c) for c in n['c']]
            return None if None in cs else (n['k'], n['op']) + tuple(cs)
        return None
    def has(self, k, d):
        return isinstance(k, tuple) and (k == ('v', d) or any(self.has(y, d) for y in k))
    def dominating(self, b):
        """outcomes of the conditions that must have been evaluated just before block b"""
        f = self.f; env = {}; seen = set()
        asg = set()
        while b not in seen:
            seen.add(b)
            ps = [p for p in f.preds[b]]
            if len(ps) != 1: break
            p, i = ps[0]
            bl = f.blocks[p]
            c = last_cond(f, bl.get('cond'))
            if c is not None and len(bl['s']) == 2:
                k = self.shape(c)
                if k is not None and not any(self.has(k, d) for d in asg): env.setdefault(('c', k), 1 - i)
            for e in bl['e']:
                n = f.nodes[e]
                if n['k'] == 'asg' or n.get('incdec'):
                    l = f.nodes[n['c'][0]]
                    if l['k'] == 'ref' and 'd' in l: asg.add(l['d'])
            b = p
        return env
    def put(self, env, d, x):
        for k in [k for k in env if isinstance(k, tuple) and k[0] == 'c' and self.has(k[1], d)]: del env[k]
        if self.errs is not None:
            et = self.etag(x, env) if x is not None else None
            if et is None: env.pop(('e', d), None)
            else: env[('e', d)] = et
        v = self.ev(x, env) if x is not None else None
        t = x is not None and self.tainted(x, env)
        if v is None: env.pop(d, None)
        else: env[d] = v
        if t and v is not None: env[('t', d)] = True
        else: env.pop(('t', d), None)

SKIPFILES = {'main.c': 'the command line', 'debug.c': 'printing of bytecode', 'debugger.c': 'the debugger', 'compiler.c': None, 'repl.c': 'the prompt', 'regex_lib.c': None}

def anychild(f, nid):
    """waits for whatever child there is: that there is none (any more) is an answer"""
    n = f.nodes[strip(f, f.nodes[nid]['c'][1])]
    if n.get('cv') is not None: return int(n['cv']) == -1
    for m in f.nodes:
        if m['k'] == 'decl' and n['k'] == 'ref':
            for v in m['vars']:
                if v['d'] == n.get('d') and v['init'] >= 0: return str(f.nodes[strip(f, v['init'])].get('cv')) == '-1'
    return False

def judge(P, W, f, nid, fails, succ):
    """reason, or None; and the values f returns on failure and on success"""
    inb = None
    if f.nodes[nid].get('fn') in INBAND:
        import cg
        inb = P.__dict__.setdefault('_ferror', None) or cg.reaches(P, W, {'ferror'})
        P._ferror = inb
    S = Sim(P, W, f, inb)
    good = []
    for v in succ:
        o = S.run(nid, v)
        if o is None: return 'too complex to follow', None, None, ()
        good += [x for x in o if x[0] == 'ret']
    bad = []; why = None
    name = f.nodes[nid].get('fn')
    tries = [(v, 5) for v in fails]
    if name in CALLS and CALLS[name][2] and P.resolve(name, f) is None:
        tries += [(v, e) for v in fails if v in (-1, 0) for e in S.tested() if not (name == 'waitpid' and e == 10 and anychild(f, nid))]
    for v, S.errval in tries:
        o = S.run(nid, v, True)
        if o is None: return 'too complex to follow', None, None, ()
        for x in o:
            if x[0] != 'ret': continue
            bad.append(x)
            if x[3] or x[4]: continue      # a warning was printed, or the result itself is handed on
            if inb is not None:
                why = 'it is taken for the end of the file when it failed (line %d)' % f.nodes[x[1]]['line'] if x[1] else 'it is taken for the end of the file when it failed'; continue
            if f.ret == 'void' or x[1] is None:
                why = 'when it fails (result %s) the function goes on as if it had worked' % v; continue
            if x[2] is None:
                def shp(r):
                    c = f.nodes[r]['c']
                    return S.shape(c[0]) if c else None
                if any(g[2] is None and (g[1] == x[1] or g[1] is not None and shp(x[1]) is not None and shp(g[1]) == shp(x[1])) for g in good):
                    why = 'when it fails (result %s) the function returns as if it had worked (line %d)' % (v, f.nodes[x[1]]['line'])
            elif any(g[2] == x[2] for g in good):
                why = 'when it fails (result %s) the function returns what it returns when it works (line %d)' % (v, f.nodes[x[1]]['line'])
    return why, bad, good, S.outs

def noticed(P, W):
    r = P.__dict__.get('_noticed')
    if r is None: r = P._noticed = noticed0(P, W)
    return r

def run_noticed(ctx):
    r = noticed(ctx.P, ctx.W)
    return dict(violations=r['violations'], obligations=r['obligations'], coverage=r['coverage'])

def noticed0(P, W):
    table = {n: (v[0], v[1]) for n, v in CALLS.items()}
    vs = {}; handed = set(); ob = 0; sites = collections.Counter(); derived = {}
    todo = [(f, nid, k, name) for f in P.fns.values() if not f.file.startswith('vendor') and f.file not in SKIPFILES
            for nid, k, name in P.calls[f.key] if k is None and name in table and name not in CLEANUP and nid in f.owner_block]
    done = set()
    while todo:
        f, nid, k, name = todo.pop()
        if (f.key, nid) in done: continue
        done.add((f.key, nid))
        ob += 1; sites[name] += 1
        fails, succ = derived[k] if k in derived else table[name]
        why, bad, good, outs = judge(P, W, f, nid, fails, succ)
        key = '%s %s' % (f.key, name)
        if why and not exempt(P, f, nid, name):
            vs[key] = dict(key=key, loc=f.loc(nid), msg='%s calls %s: %s' % (f.key, name, why)); continue
        # a helper that hands the error number out through a pointer
        for p in outs:
            for c in P.callers.get(f.key, ()):
                g = P.fns.get(c)
                if g is None or g.file in SKIPFILES or g.file.startswith('vendor'): continue
                for n2, k2, nm2 in P.calls[c]:
                    if k2 == f.key and n2 in g.owner_block and (c, n2, p) not in handed:
                        handed.add((c, n2, p)); ob += 1
                        w2 = judge(P, W, g, n2, [('out', p, 5)], [('out', p, 0)])[0]
                        key = '%s %s' % (c, f.name)
                        if w2: vs[key] = dict(key=key, loc=g.loc(n2), msg='%s calls %s: %s' % (c, f.name, w2))
        # a helper that hands the failure to its caller as a fixed value
        if bad and f.key not in W.natives and not why:
            fv = {b[2] for b in bad if b[2] is not None}; gv = {g[2] for g in good if g[2] is not None}
            if any(b[2] is None and not b[4] for b in bad) and 0 in gv: fv.add(2)
            for b in bad:
                if b[4] and b[2] is None: fv |= set(v for v in fails if isinstance(v, int)); gv |= set(v for v in succ if isinstance(v, int))
            fv -= gv
            if fv and f.ret not in ('void', 'bool', '_Bool'):
                of, og = derived.get(f.key, ([], []))
                derived[f.key] = (sorted(set(of) | fv), sorted(set(og) | (gv or {7}), key=str))
                for c in P.callers.get(f.key, ()):
                    g = P.fns.get(c)
                    if g is None or g.file in SKIPFILES or g.file.startswith('vendor'): continue
                    for n2, k2, nm2 in P.calls[c]:
                        if k2 == f.key and n2 in g.owner_block: done.discard((c, n2)); todo.append((g, n2, k2, nm2))
    return dict(violations=list(vs.values()), obligations=ob, derived=derived,
                coverage={'calls': dict(sites), 'helpers that hand a failure on': {k: [list(map(str, a)), list(map(str, b))] for k, (a, b) in derived.items()}})

def exempt(P, f, nid, name):
    n = f.nodes[nid]
    if name == 'clock_gettime' and f.nodes[strip(f, n['c'][1])].get('cv') in ('0', '1'): return True   # reading the standard clocks cannot fail
    # a thread that only waits for a process nobody else waits for has no one to tell
    if name == 'waitpid' and any(g is not None and any(m['k'] == 'call' and m.get('fn') == 'pthread_create' for m in g.nodes) for g, _ in P.addr_fns.get(f.key, ())): return True
    return False
