"""Interpreter-lock (GVL) discipline, pthread locks, signal handlers."""
import collections
from terms import *
import engine as E
import cg, par
from program import AnalysisError

BLOCKING = {'read', 'readv', 'recv', 'recvfrom', 'recvmsg', 'send', 'sendto', 'sendmsg', 'write', 'writev', 'accept', 'accept4', 'connect',
            'select', 'pselect', 'poll', 'ppoll', 'epoll_wait', 'wait', 'waitpid', 'wait4', 'waitid', 'sleep', 'usleep', 'nanosleep',
            'clock_nanosleep', 'pthread_join', 'pthread_cond_wait', 'pthread_cond_timedwait', 'getaddrinfo', 'gethostbyname', 'system',
            'pclose', 'flock', 'lockf', 'fgets', 'getline', 'fread', 'fgetc', 'getc', 'getchar', 'fopen', 'open', 'pause', 'sigwait', 'sem_wait'}
# the lock itself, the interpreter loop and the loading of scripts are analysed on their own or are not natives
PRIMS = ('acquireGVL', 'releaseGVL')
HEAPSTRUCT = {'ValueArray', 'Table', 'Entry', 'CallFrame', 'VMExecContext', 'ClassInfo'}

def callback(P, name, arg):
    """functions passed as argument number `arg` of an external function"""
    out = set()
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if n['k'] == 'call' and n.get('fn') == name and len(n['c']) > arg + 1:
                a = n['c'][arg + 1]
                while f.nodes[a]['k'] == 'cast' or (f.nodes[a]['k'] == 'un' and f.nodes[a]['op'] == '&'): a = f.nodes[a]['c'][0]
                r = f.nodes[a]
                if r['k'] == 'ref' and r.get('dk') == 'fn':
                    k = P.resolve(r['name'], f)
                    if k: out.add(k)
    return out

class Gvl(E.Client):
    """typestate: H held, N given up, Z ended; plus whether the descriptor was made non-blocking"""
    def __init__(self, P, W, R, unsafe, throws, threads, exempt_block):
        self.P = P; self.W = W; self.R = R; self.unsafe = unsafe; self.throws = throws
        self.threads = threads
        self.exits = collections.defaultdict(set)      # (fn, entry) -> exit states
        self.v = {}; self.n = collections.Counter(); self.entry = {}
        self.exempt_block = exempt_block
        self.zombie = P.macro('THREAD_ZOMBIE'); self.nonblock = 0o4000
        self.heap = set(W.rec_kinds) | HEAPSTRUCT | {'Obj'}
        # the lock's own state
        self.lockvars = {n['f'] for f in PRIMS for n in P.fns[f].nodes if n['k'] == 'mem' and n.get('rec') == 'VM'}
    def entry_props(self, fn):
        return ('N' if fn.key in self.threads else 'H', False)
    def relevant(self, fn): return fn.key in self.R and fn.name not in PRIMS and fn.name != 'freeVM'
    def viol(self, kind, cx, nid, msg, **kw):
        loc = cx.fn.loc(nid) if nid is not None else cx.fn.loc()
        self.v.setdefault((kind, cx.fn.key, msg), dict(kind=kind, loc=loc, key='%s:%s' % (cx.fn.name, kw.get('k', '')), msg=msg))
    def on_exit(self, cx, st):
        self.exits[(cx.fn.key, cx.props[0])].add(st.props[0])
    def on_edge(self, cx, st, b, s):
        if not st.props[1]:
            # the descriptor turned out to be non-blocking, or not to be a descriptor
            for f, v in st.rel.items():
                if f.op != '==': continue
                a, b = f.a
                if (not v and b is I(0) and a.op == '&' and a.a[1] is I(self.nonblock)) or \
                   (v and b is I(-1) and a.op == 'ret' and a.a[0] == 'fcntl'):
                    st.props = (st.props[0], True)
    def leave_props(self, cx, st, outprops, args=(), ret=None, nid=None):
        return outprops
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn') or '*'
        s, nb = st.props
        if name == 'acquireGVL':
            if s != 'Z': st.props = ('H', False)
            self.n['pairing'] += 1
            return
        if name == 'freeVM':         # only called when the process or the interpreter as a whole is about to end
            st.props = ('E', nb); return
        if name == 'releaseGVL':
            st.props = ('Z' if args and args[0] is I(self.zombie) else 'N', nb)
            self.n['pairing'] += 1
            return
        if s == 'N':
            self.n['released'] += 1
            if callee in self.throws:
                self.viol('throw', cx, nid, '%s can raise (through %s) while the interpreter lock is given up' % (cx.fn.name, name), k=name)
            if callee in self.unsafe:
                self.viol('heap', cx, nid, '%s creates or changes objects (through %s) while the interpreter lock is given up' % (cx.fn.name, name), k=name)
            elif n.get('fn') is None:
                f = cx.fn
                from world import sig
                for t in self.W.addr_by_sig.get(sig(f.nodes[n['c'][0]]), []):
                    if t in self.unsafe or t in self.throws:
                        self.viol('heap', cx, nid, '%s calls script-visible code while the interpreter lock is given up' % cx.fn.name, k='*'); break
        if name in BLOCKING and cx.fn.name not in self.exempt_block:
            self.n['blocking'] += 1
            if s == 'H' and not (nb and name in ('read', 'recv', 'write', 'send', 'accept', 'connect', 'recvfrom')):
                self.viol('block', cx, nid, '%s can block in %s() while it holds the interpreter lock' % (cx.fn.name, name), k=name)
        if name == 'fcntl' and len(args) >= 3 and args[1] is I(4): st.props = (st.props[0], True)
    def on_noreturn(self, cx, st, nid, n, callee): pass
    def on_store(self, cx, st, nid, n, place, val):
        if st.props[0] not in ('N', 'Z') or isinstance(place, tuple): return
        p = place
        if p.op == 'fld' and p.a[1] == 'VM' and p.a[2] not in self.lockvars and not n.get('fn'):
            self.n['released'] += 1
            self.viol('heap', cx, nid, "%s changes the interpreter's %s while the interpreter lock is given up" % (cx.fn.name, p.a[2]), k=p.a[2])
        if st.props[0] != 'N': return
        self.n['released'] += 1
        x = p; hit = None
        while x.op in ('fld', 'idx'):
            if x.op == 'fld' and x.a[1] in self.heap: hit = x.a[1]
            if x.op == 'idx' and x.a[2] == 'Value': hit = 'Value'
            x = x.a[0]
            if x.op == 'addr': x = x.a[0]
        r = E.root(p)
        if hit and not (r is not None and r.op == 'var'):
            self.viol('heap', cx, nid, '%s changes a %s while the interpreter lock is given up' % (cx.fn.name, hit), k=hit)

_memo = {}
def gvl(ctx):
    if 'gvl' in _memo: return _memo['gvl']
    P, W = ctx.P, ctx.W
    for f in PRIMS + ('vm_run', 'throwError', 'getNewObject', 'reallocate'): P.fn(f)
    throwbase = {'throwError', 'throwErrorFmt', 'longjmp', '_longjmp', 'siglongjmp'}
    cutp = set(PRIMS)
    throws = cg.reaches(P, W, throwbase, cut=cutp, indirect=True) | {k for k in throwbase if k in P.fns}
    # the parser recovers from its own jumps
    heapbase = {'getNewObject', 'reallocate', 'collectGarbage', 'collectYoungGarbage', 'push', 'pop', 'hideFromGC', 'unhideFromGC', 'objWrite',
                'pushRememberSet', 'vm_run', 'tableSet', 'tableDelete', 'writeValueArrayEnd'}
    heapbase = {k for k in heapbase if k in P.fns}
    unsafe = cg.reaches(P, W, heapbase, cut=cutp, indirect=True) | heapbase
    diag = {k for k, f in P.fns.items() if f.name in ('thread_debug', 'vm_debug', 'vm_warn', 'die', 'diePrintCBacktrace', 'printCBacktrace', 'THREAD', 'threadStatusName')}
    throws -= cutp | diag; unsafe -= cutp | diag
    direct = {f.key for f in P.fns.values() for _, k, nm in P.calls[f.key] if nm in PRIMS or nm in BLOCKING or nm == 'fcntl'}
    cut = {'vm_run', 'acquireGVL', 'releaseGVL'}
    # files that load scripts or talk to a terminal run before or outside of script code
    exempt_files = {'main.c', 'compiler.c', 'debugger.c', 'repl.c', 'debug.c', 'vendor/linenoise.c'}
    exempt = {f.name for f in P.fns.values() if f.file in exempt_files} | {'vm_run', 'initVM'}
    direct = {k for k in direct if P.fns[k].file not in exempt_files or any(nm in PRIMS for _, _, nm in P.calls[k])}
    # loading scripts and ending the process are neutral
    cut |= {k for k in P.fns if P.fns[k].file in exempt_files}
    threads = callback(P, 'pthread_create', 2)
    # functions needed: those with direct events, plus callers of any whose exit state can differ from their entry state or that
    # block in the caller's state
    R = set(direct)
    while True:
        need_ctx = set()
        c = Gvl(P, W, R, unsafe, throws, threads, exempt)
        eng = E.Engine(P, c, W)
        roots = cg.roots_of(P, R)
        tops = [k for k in R if k in roots or not (P.callers.get(k, set()) & R)]
        for k in sorted(tops): eng.summary(k)
        grow = set()
        for k in R:
            f = P.fns[k]
            if f.name in PRIMS: continue
            changes = any(s - {e, 'Z'} for (fk, e), s in c.exits.items() if fk == k)
            blocks = any(v['kind'] == 'block' and kk[1] == k for kk, v in c.v.items())
            if (changes or blocks) and k not in roots and k not in W.natives:
                grow |= {q for q in P.callers.get(k, ()) if q not in cut}
        if grow <= R: break
        R |= grow
    # a function that is only ever called is judged in its callers' states
    for (k, e), s in c.exits.items():
        f = P.fns[k]
        bad = s - {e, 'Z'}
        if k in roots or k in W.natives:
            if k in threads: continue
            if bad and e == 'H':
                c.v.setdefault(('pair', k, ''), dict(kind='pair', loc=f.loc(), key='%s:return' % f.name,
                                                    msg='%s can return without holding the interpreter lock it was called with' % f.name))
    c.n['functions'] = len(c.exits)
    c.n['entry points'] = len([k for k in roots])
    # contexts: 'block' violations only count when the function is entered held from somewhere
    _memo['gvl'] = c
    return c

def pick(c, kinds, ob):
    v = [dict(key=x['key'], loc=x['loc'], msg=x['msg']) for x in c.v.values() if x['kind'] in kinds]
    return dict(violations=v, obligations=ob, coverage={'events': dict(c.n), 'functions analysed': sorted({k for k, _ in c.exits})[:200]})

def run_pairing(ctx):
    c = gvl(ctx)
    return pick(c, {'pair', 'throw'}, c.n['pairing'] + c.n['functions'] + c.n['released'])
def run_heap(ctx):
    c = gvl(ctx)
    return pick(c, {'heap'}, c.n['released'])
def run_block(ctx):
    c = gvl(ctx)
    return pick(c, {'block'}, c.n['blocking'])

# ---------------------------------------------------------------- mutexes and condition variables
LOCKS = ('pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock')
WAITS = ('pthread_cond_wait', 'pthread_cond_timedwait')

def member(t):
    """(record, field) the address term names"""
    x = t
    while isinstance(x, T) and x.op == 'addr': x = x.a[0]
    if isinstance(x, T) and x.op == 'fld': return (x.a[1], x.a[2])
    if isinstance(x, T) and x.op == 'g': return ('', x.a[0])
    return None

class Locks(E.Client):
    """typestate: set of native locks held, and resources given up whose waiters have not been woken"""
    def __init__(self, P, W, R, throws, tops):
        self.P = P; self.W = W; self.R = R; self.throws = throws; self.tops = tops
        self.v = {}; self.n = collections.Counter(); self.bad = set(); self.fns = set()
        # an exclusive resource: the member that records who has it, the lock that guards it, the condition its waiters sleep on
        self.res = {('LxMutex', 'owner'): (('LxMutex', 'lock'), ('LxMutex', 'cond'), ('LxMutex', 'waiting')),
                    ('VM', 'GVLockStatus'): (('VM', 'GVLock'), ('VM', 'GVLCond'), ('VM', 'GVLWaiters'))}
        for (r, f), o in self.res.items():
            for rr, ff in ((r, f),) + o:
                if not any(x['name'] == ff for x in P.recs[rr]['fields']): raise AnalysisError('no member %s.%s' % (rr, ff))
        self.guard = {}
        for k, (l, c, w) in self.res.items(): self.guard[k] = l; self.guard[w] = l
        self.classes = {('f',) + k for k in list(self.res) + [o[2] for o in self.res.values()]}
    def entry_props(self, fn): return (frozenset(), frozenset())
    def relevant(self, fn): return fn.key in self.R
    def viol(self, cx, nid, k, msg):
        self.v.setdefault((cx.fn.key, k, msg), dict(key='%s:%s' % (cx.fn.name, k), loc=cx.fn.loc(nid) if nid is not None else cx.fn.loc(), msg=msg))
        self.bad.add(cx.fn.key)
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn') or '*'
        held, pend = st.props
        if name in LOCKS:
            self.n['lock'] += 1
            m = member(args[0])
            if m is None: raise AnalysisError('%s: lock of an unnamed mutex' % cx.fn.loc(nid))
            if m in held: self.viol(cx, nid, 'relock', '%s locks %s.%s which it already holds' % ((cx.fn.name,) + m))
            st.props = (held | {m}, pend)
            cx.kill(st, self.classes, nid)
        elif name == 'pthread_mutex_unlock':
            self.n['unlock'] += 1
            m = member(args[0])
            if m not in held: self.viol(cx, nid, 'unlock', '%s unlocks %s.%s without holding it' % ((cx.fn.name,) + (m or ('?', '?'))))
            st.props = (held - {m}, pend)
        elif name in WAITS:
            self.n['wait'] += 1
            m = member(args[1])
            if m not in held: self.viol(cx, nid, 'wait', '%s waits on a condition without holding its mutex' % cx.fn.name)
            if held - {m}: self.viol(cx, nid, 'wait', '%s waits while it holds another lock' % cx.fn.name)
            if name == 'pthread_cond_wait' and not self.inloop(cx.fn, nid):
                self.viol(cx, nid, 'wait', '%s does not test its condition again after waiting' % cx.fn.name)
        elif name in ('pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_init'):
            m = member(args[0])
            st.props = (held, frozenset(p for p in pend if self.res[p][1] != m))
        elif held:
            if callee in self.throws or name in ('longjmp', 'siglongjmp'):
                self.viol(cx, nid, name, '%s can raise (through %s) while it holds %s' % (cx.fn.name, name, self.names(held)))
            elif name in PRIMS or (name in BLOCKING and name not in WAITS) or name == 'vm_run':
                self.viol(cx, nid, name, '%s calls %s while it holds %s' % (cx.fn.name, name, self.names(held)))
    def names(self, held): return ', '.join('%s.%s' % h for h in sorted(held))
    def post_call(self, cx, st, nid, n, callee, args, ret):
        if n.get('fn') in WAITS: cx.kill(st, self.classes, nid)
    def inloop(self, f, nid):
        return nid in loops(f)
    def on_store(self, cx, st, nid, n, place, val):
        if isinstance(place, tuple) or place.op not in ('fld', 'g'): return
        k = (place.a[1], place.a[2]) if place.op == 'fld' else ('', place.a[0])
        if k == ('', 'GVLOwner'):       # who has the interpreter lock
            if not self.P.callers.get(cx.fn.key) and cx.fn.key not in self.P.addr_fns: return
            self.n['guarded'] += 1
            if ('VM', 'GVLock') not in st.props[0]:
                self.viol(cx, nid, 'GVLOwner', '%s changes who owns the interpreter lock without holding VM.GVLock' % cx.fn.name)
            return
        if k not in self.guard: return
        if cx.fn.name == 'initVM' or self.fresh(cx, st): return
        self.n['guarded'] += 1
        held, pend = st.props
        if self.guard[k] not in held:
            self.viol(cx, nid, k[1], '%s changes %s.%s without holding %s.%s' % ((cx.fn.name,) + k + self.guard[k]))
        if k in self.res:
            if cx.F.entails(st, eq(val, I(0))):
                st.props = (held, pend | {k})
            else:
                ty = place
                if not cx.F.entails(st, eq(place, I(0))) and not cx.F.entails(st, le(place, I(0))):
                    self.viol(cx, nid, k[1], '%s takes %s.%s without knowing that nobody has it' % ((cx.fn.name,) + k))
    def fresh(self, cx, st):
        # set-up code: the condition variable of the same record is initialised in the same function
        return any(nm in ('pthread_mutex_init', 'pthread_cond_init', 'pthread_cond_destroy') for _, _, nm in self.P.calls[cx.fn.key])
    def on_exit(self, cx, st):
        self.fns.add(cx.fn.key)
        held, pend = st.props
        eh, ep = cx.props
        if cx.fn.key in self.tops:
            for h in held - eh: self.viol(cx, None, 'return', '%s can return holding %s.%s' % ((cx.fn.name,) + h))
            for h in eh - held: self.viol(cx, None, 'return', '%s can return having given up %s.%s' % ((cx.fn.name,) + h))
            for p in pend - ep:
                self.viol(cx, None, p[1], '%s can give up %s.%s without waking a waiter' % ((cx.fn.name,) + p))
    def on_edge(self, cx, st, b, s):
        held, pend = st.props
        for p in pend:
            # nobody waits
            w = self.res[p][2]
            for f, v in st.rel.items():
                if f.op in ('<', '<=', '=='):
                    for x in subterms(f):
                        if x.op == 'fld' and (x.a[1], x.a[2]) == w and cx.F.entails(st, le(x, I(0))):
                            st.props = (held, pend - {p}); return

def loops(f):
    """nodes in a block that can reach itself"""
    if 'loopnodes' not in f._x:
        out = set()
        for b in f.blocks.values():
            seen = set(); st = [x for x in b['s'] if x is not None]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st += [y for y in f.blocks[x]['s'] if y is not None]
            if b['id'] in seen: out |= set(b['e'])
        f._x['loopnodes'] = out
    return f._x['loopnodes']

def run_locks(ctx):
    P, W = ctx.P, ctx.W
    throws = cg.reaches(P, W, {'throwError', 'throwErrorFmt'}, indirect=True) | {'throwError', 'throwErrorFmt'}
    ev = set(LOCKS) | set(WAITS) | {'pthread_mutex_unlock', 'pthread_cond_signal', 'pthread_cond_broadcast'}
    R = {f.key for f in P.fns.values() if any(nm in ev for _, _, nm in P.calls[f.key])}
    # writers of the guarded members
    names = {'owner', 'GVLockStatus', 'waiting', 'GVLWaiters'}
    for f in P.fns.values():
        if any(n['k'] == 'mem' and n.get('f') in names or n['k'] == 'ref' and n.get('name') == 'GVLOwner' and n.get('dk') != 'parm' for n in f.nodes): R.add(f.key)
    core = set(R)
    for _ in range(6):
        tops = {k for k in R if k in P.addr_fns or not (P.callers.get(k, set()) & R) or k in core and not P.fns[k].static}
        c = Locks(P, W, R, throws, tops)
        eng = E.Engine(P, c, W)
        for k in sorted(tops): eng.summary(k)
        grow = set()
        for k in c.bad:
            if k in P.addr_fns: continue
            cl = P.callers.get(k, set())
            # a helper that locks or unlocks for its callers is judged in each of them
            if 0 < len(cl) <= 4: grow |= {q for q in cl if q not in R}
        if not grow: break
        R |= grow
    v = [dict(key=x['key'], loc=x['loc'], msg=x['msg']) for x in c.v.values()]
    return dict(violations=v, obligations=sum(c.n.values()) + len(c.fns), coverage={'events': dict(c.n), 'functions analysed': sorted(c.fns)})

# ---------------------------------------------------------------- the end of a thread, output before the process ends
class Must(E.Client):
    """typestate: set of things done on every path"""
    must_props = True
    def __init__(self, P, W, R, cl):
        self.P = P; self.W = W; self.R = R; self.v = {}; self.n = collections.Counter(); self.bad = set(); self.fns = set()
        self.force = False
    def entry_props(self, fn): return frozenset()
    def relevant(self, fn): return fn.key in self.R
    def viol(self, cx, nid, k, msg):
        self.v.setdefault((cx.fn.key, k, msg), dict(key='%s:%s' % (cx.fn.name, k), loc=cx.fn.loc(nid) if nid is not None else cx.fn.loc(), msg=msg))
        self.bad.add(cx.fn.key)
    def on_exit(self, cx, st): self.fns.add(cx.fn.key)

class ThreadEnd(Must):
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn')
        if name == 'forceUnlockMutexes':
            if 'forgotten' not in st.props: st.props |= {'mutexes'}
        elif name == 'memset' and args and member(args[0]) == ('LxThread', 'lockedMutexes'):
            if 'mutexes' not in st.props: st.props |= {'forgotten'}
        elif name == 'releaseGVL':
            if 'mutexes' in st.props or cx.F.entails(st, FALSE): st.props |= {'gvl'}
            elif self.nomutex(cx, st): st.props |= {'gvl', 'mutexes'}
        elif name == 'pthread_exit':
            self.n['thread ends'] += 1
            if not ({'gvl'} & st.props) and self.notowner(cx, st): st.props |= {'gvl'}
            if 'mutexes' not in st.props and self.nomutex(cx, st): st.props |= {'mutexes'}
            for k, m in (('status', 'recording that the thread ended'), ('count', 'taking the thread off the number of living threads'),
                         ('mutexes', 'giving back the mutexes it holds'), ('gvl', 'giving up the interpreter lock')):
                if k not in st.props: self.viol(cx, nid, k, '%s can end a thread without %s first' % (cx.fn.name, m))
    def nomutex(self, cx, st):
        for f in st.rel:
            for x in subterms(f):
                if x.op == 'fld' and x.a[2] == 'mutexCounter' and cx.F.entails(st, le(x, I(0))): return True
        # a thread that has not run any script code yet has locked nothing
        return 'new' in st.props
    def notowner(self, cx, st):
        return any(f.op == '==' and not v and any(x.op == 'g' and x.a[0] == 'GVLOwner' for x in subterms(f)) for f, v in st.rel.items())
    def on_store(self, cx, st, nid, n, place, val):
        if isinstance(place, tuple): return
        if place.op == 'fld' and place.a[1:] == ('LxThread', 'status'):
            st.props = (st.props | {'status'}) if val is I(self.zombie) else st.props - {'status'}
        if place.op == 'fld' and place.a[1:] == ('VM', 'numLivingThreads') and n['k'] in ('un', 'asg', 'bin'):
            dec = n.get('op') in ('--', '-=') or n.get('op') == '=' and self.minus(cx, st, place, val)
            if dec: st.props |= {'count'}
    def minus(self, cx, st, place, val):
        return val.op == '+' and val.a[1].op == 'int' and val.a[1].a[0] < 0

PRINTS = {'printf', 'vprintf', 'puts', 'putchar', 'putc', 'fputc', 'fputs', 'fwrite', 'fprintf', 'vfprintf', 'putchar_unlocked'}
class Flush(Must):
    prints = frozenset()
    def isstdout(self, cx, t):
        return any(x.op == 'g' and x.a[0] == 'stdout' for x in subterms(t))
    def on_call(self, cx, st, nid, n, callee, args):
        name = n.get('fn')
        if name in ('fflush', 'fclose'):
            if args and (args[0] is I(0) or self.isstdout(cx, args[0])): st.props |= {'flushed'}
        elif name in ('_exit', '_Exit', 'fork', 'execvp', 'execv', 'execve', 'execl', 'execlp', 'vfork', 'posix_spawn', 'posix_spawnp'):
            if name in ('_exit', '_Exit') and (args and args[0].op == 'int' and args[0].a[0] != 0 or cx.fn.key in self.fatal): return
            self.n['ends'] += 1
            if 'flushed' not in st.props:
                self.viol(cx, nid, name, '%s reaches %s() without writing out what was printed before' % (cx.fn.name, name))
        elif name in PRINTS:
            stream = {'fputc': -1, 'putc': -1, 'fputs': -1, 'fwrite': -1, 'fprintf': 0, 'vfprintf': 0}.get(name)
            if stream is None or self.isstdout(cx, args[stream]) : st.props -= {'flushed'}
        elif (callee or name) in self.prints or name is None:
            st.props -= {'flushed'}

def fixpoint(P, W, R, make, callers=3):
    core = set(R)
    for _ in range(6):
        tops = sorted(k for k in R if k in P.addr_fns or not (P.callers.get(k, set()) & R) or k in W.natives or not P.fns[k].static)
        c = make(R)
        eng = E.Engine(P, c, W)
        for k in tops: eng.summary(k)
        grow = set()
        for k in c.bad:
            cl = P.callers.get(k, set())
            if k not in P.addr_fns and P.fns[k].static and 0 < len(cl) <= callers: grow |= {q for q in cl if q not in R}
        if not grow: break
        R = R | grow
    return c

def result(c):
    v = [dict(key=x['key'], loc=x['loc'], msg=x['msg']) for x in c.v.values()]
    return dict(violations=v, obligations=sum(c.n.values()), coverage={'events': dict(c.n), 'functions analysed': sorted(c.fns)})

def run_end(ctx):
    P, W = ctx.P, ctx.W
    P.fn('forceUnlockMutexes'); P.fn('releaseGVL')
    R = {f.key for f in P.fns.values() if f.file != 'debugger.c' and any(nm == 'pthread_exit' for _, _, nm in P.calls[f.key])}
    # helpers of these functions that do part of the work
    sub = cg.reaches(P, W, {'pthread_exit', 'releaseGVL', 'forceUnlockMutexes'}) | R
    acc = [f for f in P.fns.values() if any(n['k'] == 'mem' and n.get('f') in ('lockedMutexes', 'numLivingThreads', 'status') and n.get('rec') in ('LxThread', 'VM') for n in f.nodes)]
    grown = True
    while grown:
        grown = False
        for f in acc:
            if f.key not in sub and P.callers.get(f.key, set()) & (R | sub): sub.add(f.key); grown = True
    H = set(R); level = set(R)
    for _ in range(3):
        nxt = set()
        for k in level:
            for _, c, nm in P.calls[k]:
                if c and c in sub and c not in H and c not in ('releaseGVL', 'forceUnlockMutexes', 'acquireGVL', 'vm_run') and len(P.callers.get(c, ())) <= 4: nxt.add(c)
        H |= nxt; level = nxt
    starts = callback(P, 'pthread_create', 2)
    def make(R):
        c = ThreadEnd(P, W, R, None); c.zombie = P.macro('THREAD_ZOMBIE')
        c.entry_props = lambda fn: frozenset({'new'}) if fn.key in starts else frozenset()
        return c
    # code that calls script code is no longer new
    base = ThreadEnd.on_call
    runs = cg.reaches(P, W, {'vm_run'}, cut={'acquireGVL'} | set(W.noreturn) | {k for k, f in P.fns.items() if f.file == 'memory.c'}, indirect=True)
    def on_call(self, cx, st, nid, n, callee, args):
        base(self, cx, st, nid, n, callee, args)
        if callee in runs and callee not in ('acquireGVL', 'releaseGVL'): st.props -= {'new'}
    ThreadEnd2 = type('ThreadEnd2', (ThreadEnd,), {'on_call': on_call})
    def make(R):
        c = ThreadEnd2(P, W, R, None); c.zombie = P.macro('THREAD_ZOMBIE')
        c.entry_props = lambda fn: frozenset({'new'}) if fn.key in starts else frozenset()
        return c
    res = result(fixpoint(P, W, H, make))
    # and giving them back leaves none
    c = AllGiven(P, W, {'forceUnlockMutexes'}, None)
    E.Engine(P, c, W).summary('forceUnlockMutexes')
    if not c.fns: raise AnalysisError('forceUnlockMutexes never returns')
    r2 = result(c)
    res['violations'] += r2['violations']; res['obligations'] += r2['obligations'] + 1
    return res

class AllGiven(Must):
    """after giving back the Mutexes of a thread it has none left"""
    def on_edge(self, cx, st, b, s):
        F = cx.F
        for f, v in st.rel.items():
            for x in subterms(f):
                if x.op == 'fld' and x.a[2] in ('mutexCounter', 'length') and F.entails(st, le(x, I(0))) \
                   or x.op in ('idx', 'phi') and f.op == '==' and v and f.a[1].op == 'int' and f.a[1].a[0] == 0 \
                   or x.op == 'phi' and F.entails(st, lt(x, I(0))):        # walked from the last to the first
                    st.props |= {'none'}; return
    def on_call(self, cx, st, nid, n, callee, args):
        if n.get('fn') == 'threadForceUnlockMutex': st.props -= {'none'}
    def on_exit(self, cx, st):
        self.fns.add(cx.fn.key)
        if cx.fn.name != 'forceUnlockMutexes': return
        self.n['returns'] += 1
        if 'none' not in st.props: self.viol(cx, None, 'left', 'giving back the Mutexes of a thread can end before all of them are given back')

def run_flush(ctx):
    P, W = ctx.P, ctx.W
    ends = {'_exit', '_Exit', 'fork', 'execvp', 'execv', 'execve', 'execl', 'execlp', 'vfork', 'posix_spawn', 'posix_spawnp'}
    R = {f.key for f in P.fns.values() if any(nm in ends for _, _, nm in P.calls[f.key])}
    for k in list(R):
        for _, c, nm in P.calls[k]:
            if c and any(x == 'fflush' for _, _, x in P.calls[c]): R.add(c)
    prints = cg.reaches(P, W, PRINTS - {'fprintf', 'vfprintf'} | {'vm_run'}, indirect=True)
    fatal = {k for k, f in P.fns.items() if f.file == 'debug.c'}
    def make(R):
        c = Flush(P, W, R, None); c.prints = prints; c.fatal = fatal
        return c
    return result(fixpoint(P, W, R, make))

# ---------------------------------------------------------------- signal handlers
ASYNC_SAFE = {'_exit', '_Exit', 'abort', 'accept', 'access', 'alarm', 'chdir', 'close', 'dup', 'dup2', 'execve', 'fcntl', 'fork', 'getpid', 'getppid',
              'kill', 'lseek', 'open', 'pause', 'pipe', 'poll', 'pthread_kill', 'pthread_self', 'pthread_sigmask', 'raise', 'read', 'recv', 'select',
              'sem_post', 'send', 'sigaction', 'sigaddset', 'sigdelset', 'sigemptyset', 'sigfillset', 'sigismember', 'signal', 'sigprocmask', 'sleep',
              'time', 'unlink', 'wait', 'waitpid', 'write', 'memcpy', 'memset', 'memmove', 'strlen', 'strcmp', 'strcpy'}
FATAL = {11, 7, 4, 8, 6}      # SEGV BUS ILL FPE ABRT: the process is lost anyway

def handlers(P):
    """(function, where installed, signals or None) of every installed signal handler"""
    out = []
    for f in P.fns.values():
        inst = set()
        for n in f.nodes:
            if n['k'] == 'call' and n.get('fn') in ('sigaction', 'signal'):
                v = f.nodes[strip(f, n['c'][1])]
                inst.add(int(v['cv']) if 'cv' in v else None)
        for i, n in enumerate(f.nodes):
            tgt = None
            if n['k'] == 'asg' and n.get('op') == '=':
                l = f.nodes[strip(f, n['c'][0])]
                if l['k'] == 'mem' and l.get('f') in ('sa_sigaction', 'sa_handler', '__sigaction_handler'): tgt = n['c'][1]
            elif n['k'] == 'call' and n.get('fn') == 'signal': tgt = n['c'][2]
            if tgt is None: continue
            r = f.nodes[strip(f, tgt)]
            if r['k'] == 'ref' and r.get('dk') == 'fn':
                k = P.resolve(r['name'], f)
                if k: out.append((k, f, i, inst))
    return out

def strip(f, a):
    while f.nodes[a]['k'] == 'cast' or (f.nodes[a]['k'] == 'un' and f.nodes[a]['op'] == '&'): a = f.nodes[a]['c'][0]
    return a

def shared_place(P, f, x, d=0):
    """the field or global variable that a place belongs to; None for what is local"""
    through = d > 0
    while True:
        n = f.nodes[x]
        if n['k'] == 'mem': return '%s.%s' % (n.get('rec'), n['f'])
        if n['k'] == 'ref':
            if n.get('dk') == 'global': return n['name']
            from props.text import defs_of
            ds = defs_of(f, n['d']) if through and 'd' in n and n.get('dk') != 'parm' and d < 4 else None
            return shared_place(P, f, ds[0], d + 1) if ds and len(ds) == 1 and ds[0] is not None and ds[0] >= 0 else None
        if n['k'] in ('idx', 'cast') or n['k'] == 'un' and n.get('op') in ('&', '*'):
            if n['k'] == 'idx' or n['k'] == 'un': through = True
            x = n['c'][0]
        else: return None

def stored_at(f, x):
    """the place is only written here"""
    for i, n in enumerate(f.nodes):
        if n['k'] == 'asg' and n.get('op') == '=' and n['c'][0] == x: return True
        if n['k'] in ('idx', 'cast', 'un', 'mem') and n['c'] and n['c'][0] == x and (n['k'] != 'un' or n.get('op') in ('&', '*')):
            return stored_at(f, i)
    return False

def of_global(f, x):
    while f.nodes[x]['k'] in ('mem', 'idx', 'cast', 'un'): x = f.nodes[x]['c'][0]
    return f.nodes[x].get('dk') == 'global'

def in_test_of_const(f, n):
    return 'cv' in f.nodes[strip(f, n['c'][1])]

def combined(P):
    """places that are counted or combined in place somewhere"""
    out = set()
    for f in P.fns.values():
        for n in f.nodes:
            t = None
            if n['k'] == 'un' and n.get('incdec') or n['k'] == 'asg' and n.get('op') != '=': t = n['c'][0]
            elif n['k'] == 'call' and (n.get('fn') or '').startswith(('__sync_fetch', '__sync_add', '__sync_sub', '__sync_or', '__sync_and', '__atomic_fetch', '__atomic_add', '__atomic_sub', '__atomic_or')) and len(n['c']) > 1: t = n['c'][1]
            if t is not None:
                w = shared_place(P, f, t)
                if w: out.add(w)
    return out

def run_sig(ctx):
    P, W = ctx.P, ctx.W
    counted = combined(P)
    v = []; ob = 0; seen = {}
    for k, f, i, inst in handlers(P):
        if inst and None not in inst and all(s in FATAL for s in inst): continue
        ob += 1
        q = [(k, ())]; done = {k}
        for key, path in q:
            g = P.fns[key]
            for nid, c, name in P.calls[key]:
                ob += 1
                chain = ' -> '.join([P.fns[x].name for x in path + (key,)] + [name or 'a function pointer'])
                if c:
                    if c not in done: done.add(c); q.append((c, path + (key,)))
                elif name is None or not (name in ASYNC_SAFE or name.startswith(('__sync_', '__atomic_', '__builtin_', '__errno_location'))):
                    v.append(dict(key='%s:%s' % (P.fns[k].name, name), loc=g.loc(nid),
                                  msg='a signal handler calls something that is not safe in one: ' + chain))
            # plain read-modify-write of shared counters loses signals
            lv = W.live_nodes(g)
            for nid, n in enumerate(g.nodes):
                if nid not in lv: continue
                if n['k'] == 'asg' and n.get('op') == '=':
                    w = shared_place(P, g, n['c'][0])
                    if w is None: continue
                    ob += 1
                    if w in counted:
                        v.append(dict(key='%s:store %s' % (P.fns[k].name, w), loc=g.loc(nid), msg='a signal handler overwrites shared data that is counted or combined elsewhere, so that what happened meanwhile is lost: ' +
                                      ' -> '.join([P.fns[x].name for x in path + (key,)])))
                    elif any(m != n['c'][0] and m in lv and shared_place(P, g, m) == w and g.nodes[m]['k'] in ('mem', 'idx', 'ref') and not stored_at(g, m) and not in_test_of_const(g, n) for m in range(len(g.nodes))):
                        v.append(dict(key='%s:rmw %s' % (P.fns[k].name, w), loc=g.loc(nid), msg='a signal handler reads shared data and stores it again without an atomic operation: ' +
                                      ' -> '.join([P.fns[x].name for x in path + (key,)])))
                    continue
                if not (n['k'] == 'un' and n.get('op') in ('++', '--', '++post', '--post', 'post++', 'post--') or n['k'] == 'asg'): continue
                ob += 1
                t = g.nodes[strip(g, n['c'][0])]
                loc = n['c'][0]
                x = loc
                while True:
                    m = g.nodes[x]
                    if m['k'] in ('mem', 'idx', 'cast') or m['k'] == 'un' and m.get('op') in ('&', '*'): x = m['c'][0]
                    else: break
                m = g.nodes[x]
                if m['k'] == 'ref' and m.get('dk') in ('local', 'lvar', 'var', 'parm') and not m.get('global', False) and m['name'] not in P.globals and t['k'] == 'ref': continue
                v.append(dict(key='%s:rmw' % P.fns[k].name, loc=g.loc(nid), msg='a signal handler changes shared data in place without an atomic operation: ' +
                              ' -> '.join([P.fns[x].name for x in path + (key,)])))
        seen[k] = sorted(done)
    if not seen: raise AnalysisError('no signal handler is installed')
    # the other side: what a handler changes may change in the middle of any change made outside
    reach = {k for d in seen.values() for k in d}; mine = {}
    for k in reach:
        g = P.fns[k]; lv = W.live_nodes(g)
        for nid, n in enumerate(g.nodes):
            t = None
            if nid not in lv: continue
            if n['k'] == 'un' and n.get('incdec') or n['k'] == 'asg': t = n['c'][0]
            elif n['k'] == 'call' and (n.get('fn') or '').startswith(('__sync_', '__atomic_')) and len(n['c']) > 1: t = n['c'][1]
            w = shared_place(P, g, t) if t is not None else None
            if w: mine[w] = P.fns[k].name
    for k, g in P.fns.items():
        if k in reach or g.entry is None: continue
        lv = None
        for nid, n in enumerate(g.nodes):
            if not (n['k'] == 'un' and n.get('incdec') or n['k'] == 'asg'): continue
            w = shared_place(P, g, n['c'][0])
            if w not in mine: continue
            if lv is None: lv = W.live_nodes(g)
            if nid not in lv: continue
            ob += 1
            if n['k'] == 'asg' and n.get('op') == '=' and in_test_of_const(g, n) and not of_global(g, n['c'][0]): continue  # sets up a new one
            if w not in counted: continue
            v.append(dict(key='%s:%s' % (g.name, w), loc=g.loc(nid), msg='%s changes without an atomic operation what a signal handler (%s) changes too' % (g.name, mine[w])))
    return dict(violations=v, obligations=ob, coverage={'handlers': seen})
