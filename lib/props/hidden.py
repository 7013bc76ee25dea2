"""Native records behind script objects: set up before they are used."""
import engine, natives
from terms import *
from program import AnalysisError
from props.nat import Origin, setup

HID = {('ObjInstance', 'internal'), ('ObjInternal', 'data'), ('ObjRegex', 'regex')}
FIRST_HID = {('ObjInstance', 'internal'), ('ObjRegex', 'regex')}

def bare(t):
    while t.op in ('old', 'cast', 'addr') and t.a: t = t.a[1] if t.op == 'old' else t.a[0]
    return t

def root(t):
    """the object a native record belongs to"""
    for s in subterms(t):
        if s.op == 'fld' and (s.a[1], s.a[2]) in FIRST_HID: return bare(s.a[0])
    return None

def vms(r):
    """one of the VM's own threads: lxNewThread and initVM set them up before they are listed"""
    return r.op != 'phi' and any(x.op == 'g' and x.a[0] == 'vm' for x in subterms(r))

def kept(P):
    """the records that are kept as native data"""
    def strip(f, x):
        while f.nodes[x]['k'] in ('cast', 'paren'): x = f.nodes[x]['c'][0]
        return f.nodes[x]
    def data(f, x, deep=True):
        n = strip(f, x)
        if n['k'] == 'mem': return (n.get('rec'), n['f']) in HID and n['f'] == 'data'
        if n['k'] == 'cond': return any(data(f, x, deep) for x in n['c'][1:])
        if n['k'] == 'call' and deep:
            g = P.fns.get(P.resolve(n.get('fn'), f) if n.get('fn') else None)
            return bool(g) and any(data(g, m['c'][0], False) for m in g.nodes if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0)
        return False
    r = set()
    for f in P.fns.values():
        for n in f.nodes:
            if n['k'] == 'cast' and data(f, n['c'][0]): ty = n.get('cty') or n.get('ty', '')
            elif n['k'] == 'decl':
                for v in n['vars']:
                    if v['init'] >= 0 and data(f, v['init']): r.add(recname(v['cty']))
                continue
            else: continue
            r.add(recname(ty))
    got = {f.key for f in P.fns.values() if any(data(f, m['c'][0]) for m in f.nodes if m['k'] == 'ret' and m['c'] and m['c'][0] >= 0)}
    return {x for x in r if x in P.recs} - {'LxThread', 'CallInfo', 'Table'}, got     # also reached without an object

def recname(ty): return ty.replace('const ', '').replace('volatile ', '').replace('struct ', '').rstrip(' *')

def vms_free(args): return not any(vms(bare(a)) for a in args)

class Hidden(natives.NativeClient):
    FREES = {'reallocate', 'xfree', 'free'}
    def __init__(self, *a):
        super().__init__(*a)
        self.kept, self.getters = kept(self.P)
    def on_node(self, cx, st, nid, n, t):
        if n['k'] != 'mem' or not n.get('arrow'): return
        self.needs(cx, st, nid, cx.val(n['c'][0], st, cx.memo))
    def post_call(self, cx, st, nid, n, callee, args, v):
        # the record, or perhaps nothing
        if callee in self.getters and bare(v).op in ('ret', 'phi') and vms_free(args): st.props = st.props | {('got', bare(v))}
    def needs(self, cx, st, nid, base):
        b = bare(base)
        if b is NULL:
            if cx.fn.nodes[nid].get('rec') not in self.kept: return
            self.counts['set'] += 1
            cx.require(st, FALSE, 'null', nid)
            return
        if b.op == '?:' and any((x.a[1], x.a[2]) in HID for y in b.a[1:] for x in [bare(y)] if x.op == 'fld'):
            c, x, y = b.a[0], bare(b.a[1]), bare(b.a[2])
            self.counts['set'] += 1
            if y is NULL: cx.require(st, c, 'null', nid)
            elif x is NULL: cx.require(st, neg(c), 'null', nid)
            if x is not NULL: self.needs(cx, st, nid, x)
            if y is not NULL: self.needs(cx, st, nid, y)
            return
        if ('got', b) in st.props and b.op in ('ret', 'phi'):
            self.counts['set'] += 1
            cx.require(st, neg(eq(b, NULL)), 'null', nid)
            return
        if b.op != 'fld' or (b.a[1], b.a[2]) not in HID: return
        if b.a[1] == 'ObjRegex' and bare(b.a[0]).op == 'fld': return     # kept by another native record: in use already
        r = root(b)
        if r is None or vms(r): return
        self.counts['set'] += 1
        cx.require(st, neg(eq(base, NULL)), 'set', nid)
    def on_call(self, cx, st, nid, n, callee, args):
        # handed on
        if n.get('fn') in self.FREES: return
        args = [a for a in args if bare(a) is not NULL]
        for a in args: self.needs(cx, st, nid, a)

def run_setup(ctx):
    P, W, ow = setup(ctx)
    for r, f in HID:
        if not any(x['name'] == f for x in P.recs.get(r, {}).get('fields', ())): raise AnalysisError('%s.%s not found' % (r, f))
    c = Hidden(P, W, ow)
    eng = engine.Engine(P, c, W)
    for k in sorted(W.natives): eng.summary(k)
    vs = []; trusted = 0
    for k, v in sorted(eng.violations.items(), key=str):
        r = root(v['term'])
        if v.get('what') == 'null' and r is None:
            vs.append(dict(key='%s %s' % (v['fn'], v['at']), loc=v['at'], msg='%s uses the native data of an object though there may be none (used at %s)' % (v['fn'], v['site'])))
            continue
        o = Origin(P, W, v['fn'], v['phin'])
        if r is None or vms(r) or r.op == 'ret' and not o.script(r): trusted += 1; continue
        vs.append(dict(key='%s %s' % (v['fn'], show(r)), loc=v['at'],
                       msg='%s uses the native data of an object whose init may not have made it: %s is not established (used at %s)' % (v['fn'], v['formula'], v['site'])))
    uses = sum(1 for f in P.fns.values() for n in f.nodes if n['k'] == 'mem' and (n.get('rec'), n['f']) in HID)
    return dict(violations=vs, obligations=c.counts['set'] + uses, coverage={'native functions analysed': len(W.natives), 'uses checked': c.counts['set'], 'uses of objects the interpreter made itself': trusted})

# -- open and closed ----------------------------------------------------------
# functions that act on a descriptor or a directory stream, and which argument that is
ACTS = {n: 0 for n in ('read', 'write', 'pread', 'pwrite', 'readv', 'writev', 'lseek', 'fcntl', 'ioctl', 'connect', 'bind', 'listen', 'accept', 'accept4',
                       'fdopen', 'close', 'fstat', 'ftruncate', 'fsync', 'fdatasync', 'flock', 'fchmod', 'fchown', 'recv', 'recvfrom', 'recvmsg', 'send',
                       'sendto', 'sendmsg', 'shutdown', 'getsockopt', 'setsockopt', 'getsockname', 'getpeername', 'dup', 'dup2', 'isatty',
                       'readdir', 'rewinddir', 'seekdir', 'telldir', 'closedir', 'dirfd')}
CLOSES = {'close', 'closedir'}
SETS = {'FD_SET', 'FD_CLR'}

class Uses:
    """where a descriptor kept in a native record is handed to something that acts on it"""
    def __init__(self, P):
        self.P = P
        self.sink = {}          # function -> parameters that reach an acting function
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                for i, p in enumerate(f.params):
                    if 'd' not in p: p = dict(p)
                    if i in self.sink.get(f.key, ()): continue
                    if any(self.isparm(f, x, i) for x in self.acted(f)):
                        self.sink.setdefault(f.key, set()).add(i); ch = True
        self.at = {}            # function -> {member node}
        self.closing = {}       # the same, of those closed in the function itself
        self.fields = set()
        for f in P.fns.values():
            got = set()
            for x in self.acted(f): got |= self.members(f, x)
            for i, n in enumerate(f.nodes):
                if n['k'] == 'mem' and n.get('mac') and any(m in SETS for m in n['mac']): got.add(i)
            got = {m for m in got if f.nodes[m].get('rec') in P.recs and self.flag(f.nodes[m]['rec'])}
            if got:
                self.at[f.key] = got
                self.fields |= {(f.nodes[m]['rec'], f.nodes[m]['f']) for m in got}
            cl = set()
            for n in f.nodes:
                if n['k'] == 'call' and n.get('fn') in CLOSES and P.resolve(n['fn'], f) not in P.fns and len(n['c']) > 1: cl |= self.members(f, n['c'][1])
            if cl & got: self.closing[f.key] = cl & got
        self.flags = {(r, self.flag(r)) for r, _ in self.fields}
    def flag(self, rec):
        bs = [x['name'] for x in self.P.recs[rec]['fields'] if x['cty'] in ('_Bool', 'bool')]
        op = [b for b in bs if 'open' in b.lower()] or (bs if len(bs) == 1 else [])
        return op[0] if len(op) == 1 else None
    def strip(self, f, x):
        while x is not None and x >= 0 and f.nodes[x]['k'] in ('cast', 'paren'): x = f.nodes[x]['c'][0]
        return x
    def acted(self, f):
        """expressions handed to something that acts on them"""
        for i, n in enumerate(f.nodes):
            if n['k'] != 'call': continue
            a = n['c'][1:]
            g = self.P.resolve(n.get('fn'), f) if n.get('fn') else None
            if g in self.P.fns:
                for j in self.sink.get(g, ()):
                    if j < len(a): yield a[j]
            elif n.get('fn') in ACTS and ACTS[n['fn']] < len(a): yield a[ACTS[n['fn']]]
    def isparm(self, f, x, i):
        x = self.strip(f, x)
        n = f.nodes[x]
        if n['k'] != 'ref': return False
        if n.get('pi') == i: return True
        return n.get('dk') == 'local' and any(self.isparm(f, y, i) for y in self.inits(f, n['d']) if y != x)
    def inits(self, f, d):
        for n in f.nodes:
            if n['k'] == 'decl':
                for v in n['vars']:
                    if v['d'] == d and v['init'] >= 0: yield v['init']
            elif n['k'] == 'asg' and n['op'] == '=':
                m = f.nodes[self.strip(f, n['c'][0])]
                if m['k'] == 'ref' and m.get('d') == d: yield n['c'][1]
    def members(self, f, x, seen=()):
        x = self.strip(f, x)
        if x is None or x < 0 or x in seen: return set()
        n = f.nodes[x]
        if n['k'] == 'mem': return {x}
        if n['k'] == 'cond': return self.members(f, n['c'][1], seen + (x,)) | self.members(f, n['c'][2], seen + (x,))
        if n['k'] == 'ref' and n.get('dk') == 'local':
            r = set()
            for y in self.inits(f, n['d']): r |= self.members(f, y, seen + (x,))
            return r
        return set()

class Open(natives.NativeClient):
    def __init__(self, P, W, ow, uses):
        super().__init__(P, W, ow); self.uses = uses
        self.alone = {k for k in uses.at if not P.callers.get(k)}
    def is_entry(self, fn): return fn.key in self.native or fn.key in self.alone
    def on_node(self, cx, st, nid, n, t):
        if n['k'] != 'mem' or nid not in self.uses.at.get(cx.fn.key, ()): return
        base = cx.place(nid, st, cx.memo)
        if isinstance(base, tuple) or base.op != 'fld': return
        pl = fld(base.a[0], n['rec'], self.uses.flag(n['rec']))
        v = cx.load(pl, {'ty': 'bool', 'cty': '_Bool'}, st)
        if v is I(0) and pl in st.mem and nid in self.uses.closing.get(cx.fn.key, ()): return     # marked just before: judged there
        self.counts['open'] += 1
        cx.require(st, truth(v), 'open', nid)
    def on_store(self, cx, st, nid, n, place, val):
        # marking it closed before it is closed
        if isinstance(place, tuple) or place.op != 'fld' or val is not I(0) or not self.uses.closing.get(cx.fn.key): return
        if (place.a[1], place.a[2]) not in self.uses.flags: return
        self.counts['open'] += 1
        cx.require(st, truth(cx.load(place, {'ty': 'bool', 'cty': '_Bool'}, st)), 'open', nid)
    def on_call(self, cx, st, nid, n, callee, args): pass

def run_open(ctx):
    P, W, ow = setup(ctx)
    U = Uses(P)
    if len(U.fields) < 2: raise AnalysisError('no descriptors kept in native records found')
    c = Open(P, W, ow, U)
    eng = engine.Engine(P, c, W)
    for k in sorted(set(W.natives) | c.alone): eng.summary(k)
    vs = []
    for k, v in sorted(eng.violations.items(), key=str):
        vs.append(dict(key='%s uses %s' % (v['fn'], v['site'].split(':')[0]), loc=v['at'],
                       msg='%s acts on a descriptor that may be closed: %s is not established (used at %s)' % (v['fn'], v['formula'], v['site'])))
    pv, po = pairing(P, W, U)
    return dict(violations=vs + pv, obligations=sum(len(x) for x in U.at.values()) + po,
                coverage={'records': sorted('%s.%s' % x for x in U.fields), 'uses': {k: len(v) for k, v in sorted(U.at.items())}, 'functions that close': po})

def pairing(P, W, U):
    """a record is marked closed exactly on the ways its descriptor is closed"""
    frees = set()
    for f in P.fns.values():
        for n in f.nodes:
            if n['k'] == 'call' and n.get('fn') == 'newInternalObject':
                for x in n['c'][1:]:
                    m = f.nodes[U.strip(f, x)]
                    if m['k'] == 'ref' and m.get('dk') == 'fn': frees.add(P.resolve(m['name'], f))
    viol = []; no = 0
    flags = {(r, U.flag(r)) for r, _ in U.fields}
    for f in P.fns.values():
        if f.entry is None or f.key in frees: continue
        ev = {}
        for i, n in enumerate(f.nodes):
            if n['k'] == 'call' and n.get('fn') in CLOSES and P.resolve(n['fn'], f) not in P.fns:
                if any((f.nodes[m].get('rec'), f.nodes[m]['f']) in U.fields for m in U.members(f, n['c'][1])): ev[i] = 1
            elif n['k'] == 'asg' and n['op'] == '=':
                m = f.nodes[U.strip(f, n['c'][0])]
                if m['k'] == 'mem' and (m.get('rec'), m['f']) in flags and f.nodes[U.strip(f, n['c'][1])].get('cv') == '0': ev[i] = 2
        if not ev: continue
        no += 1
        S = {f.entry: {0}}; work = [f.entry]; seen = {}
        while work:
            b = work.pop(); B = f.blocks[b]
            cur = {s: w for s, w in ((s, None) for s in S[b])}
            st = set(S[b])
            for e in B['e']:
                if e in ev:
                    st = {s | ev[e] for s in st}; seen.setdefault(ev[e], e)
                n = f.nodes[e]
                if n['k'] == 'call':
                    g = P.resolve(n.get('fn'), f) if n.get('fn') else None
                    if g in W.noreturn or B.get('nr') and e == B['e'][-1]:
                        for s in st:
                            if s in (1, 2): viol.append(bad(f, seen, s, e))
                        if g in W.noreturn: st = set(); break
            if B.get('nr'): continue
            if b == f.exit:
                for s in st:
                    if s in (1, 2): viol.append(bad(f, seen, s, None))
                continue
            for s in B['s']:
                if s is not None and not st <= S.get(s, set()):
                    S[s] = S.get(s, set()) | st; work.append(s)
    u = {(v['key'], v['msg']): v for v in viol}
    return list(u.values()), no

def bad(f, seen, s, e):
    how = 'closes a descriptor without marking it closed: it can be used or closed again after the system has given it to another file' if s == 1 else \
          'marks a descriptor closed without closing it: it stays open for good'
    return dict(key='%s %s' % (f.key, 'close' if s == 1 else 'mark'), loc=f.loc(seen.get(s, e if e is not None else 0)),
                msg='%s %s%s' % (f.key, how, '' if e is None else ' (when it raises an error at %s)' % f.loc(e)))
