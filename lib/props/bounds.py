"""Positions in arrays and strings."""
import re
import engine, linear, natives
from terms import *
from program import AnalysisError
from props import hidden
from props.nat import Origin, setup

BUF = {('ValueArray', 'values'): 'count', ('ObjString', 'chars'): 'length', ('LocalsTable', 'tbl'): 'size'}
# (pointer argument, length argument) of functions that read or write that many bytes
SPAN = {'memcpy': ((0, 2), (1, 2)), 'memmove': ((0, 2), (1, 2)), 'memset': ((0, 2),), 'copyString': ((0, 1),),
        'pushCString': ((1, 2),), 'insertCString': ((1, 2),)}

def bare(t):
    while t.op in ('old', 'cast') and t.a: t = t.a[1] if t.op == 'old' else t.a[0]
    return t

def direct(t):
    """does an ordering rest on a number or on a whole number handed in?"""
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if x.op == 'num' or x.op == 'arg' and x in INTT: return True
        if x.op in ('+', '-', 'f2i', '*', '/', '%'): todo += [y for y in x.a if isinstance(y, T)]
    return False

def isfd(t): return t.op == 'fld' and t.a[2] == 'fd'

def about(t):
    """does it rest on a number a script holds, or a descriptor's number?"""
    return any(x.op == 'num' for x in subterms(t)) or t.op == '<' and isfd(t.a[0])

def numbers(t):
    """does the term rest on a number a script holds?"""
    return any(x.op == 'num' for x in subterms(t))

def stored(f, native):
    """a position kept in a native record between calls"""
    return f.op in ('<', '<=') and any(x.op == 'fld' and x.a[1] in native for x in subterms(f.a[0]))

def given(t):
    """only numbers the machine itself put into its tables?"""
    ns = [x for x in subterms(t) if x.op == 'num']
    return bool(ns) and all(x.a[0].op == 'out' or any(y.op == 'fld' and y.a[1] == 'Entry' for y in subterms(x.a[0])) for x in ns)

class Bounds(natives.NativeClient):
    def __init__(self, *a):
        super().__init__(*a)
        self.enabled = set()
        self.numargs = {}       # (function, parameter) -> True, or the callers' parameters it may come from
        self.growers = {}; self.notgrown = set()
        for k, f in self.P.fns.items():
            if f.entry is None or not any(m['k'] == 'mem' and m.get('rec') == 'LocalsTable' and m['f'] == 'size' for m in f.nodes): continue
            so = [i for i, t in enumerate(f.params) if t['cty'] == 'struct ObjScope *']; it = [i for i, t in enumerate(f.params) if t['cty'] == 'int']
            if len(so) == 1 and len(it) == 1: self.growers[k] = (so[0], it[0])
    def room(self, owner, n): return le(n, fld(mk('addr', fld(owner, 'ObjScope', 'localsTable')), 'LocalsTable', 'size'))
    def on_exit(self, cx, st):
        g = self.growers.get(cx.fn.key)
        if g and cx.fn.key not in self.notgrown:
            f = self.room(mk('arg', g[0]), mk('arg', g[1]))
            if f.a and f.op in ('<', '<='): f = mk(f.op, f.a[0], st.mem.get(f.a[1], f.a[1])) if f.a[0] is not st.mem.get(f.a[1]) else I(1)
            if not (cx.F.entails(st, f, True) or linear.proves(st, cx.F, f)): self.notgrown.add(cx.fn.key)
    def post_call(self, cx, st, nid, n, callee, args, ret):
        super().post_call(cx, st, nid, n, callee, args, ret)
        g = self.growers.get(callee)
        if g and callee not in self.notgrown and max(g) < len(args): cx.F.assume(st, self.room(args[g[0]], args[g[1]]))
    def also(self, cx, st, formula): return linear.proves(st, cx.F, formula)
    def ask(self, cx, st, f, what, nid): cx.require(st, f, (what, f), nid)
    def on_node(self, cx, st, nid, n, t):
        k = n['k']
        if k == 'idx' or k == 'bin' and n['op'] in ('+', '-') and n.get('ty', '').endswith('*'):
            b = cx.val(n['c'][0], st, cx.memo); i = cx.val(n['c'][1], st, cx.memo)
            if k == 'bin' and n['op'] == '-': i = sub(I(0), i)
            m = re.search(r'\[(\d+)\]$', cx.fn.nodes[n['c'][0]].get('cty') or cx.fn.nodes[n['c'][0]].get('ty', ''))
            if m: self.fixed(cx, st, nid, int(m.group(1)), i, k == 'idx')
            else: self.bound(cx, st, nid, b, i, k == 'idx')
        elif k == 'un' and n['op'] == '*':
            p = cx.val(n['c'][0], st, cx.memo)
            if p.op == '+' : self.bound(cx, st, nid, p.a[0], p.a[1], True)
    def fixed(self, cx, st, nid, size, i, access):
        if i.op == 'int' or i.op == 'phi': return
        self.counts['fixed'] += 1
        j, s = i, size if access else size + 1
        if i.op == '/' and i.a[1].op == 'int' and i.a[1].a[0] > 0: j, s = i.a[0], s * i.a[1].a[0]
        if not isfd(j): self.ask(cx, st, le(I(0), j), 'low', nid)
        self.ask(cx, st, lt(j, I(s)), 'high', nid)
    def split(self, b):
        q = bare(b)
        off = I(0)
        while q.op == '+':
            off = add(off, q.a[1]); q = bare(q.a[0])
        if q.op != 'fld' or (q.a[1], q.a[2]) not in BUF: return None
        return q, off
    def bound(self, cx, st, nid, b, i, access):
        s = self.split(b)
        if not s: return
        q, off = s
        i = add(off, i)
        if i.op == 'int':
            if access and q.a[1] == 'ValueArray':
                self.counts['pos'] += 1
                self.ask(cx, st, lt(i, fld(q.a[0], q.a[1], BUF[(q.a[1], q.a[2])])), 'first', nid)
            return
        lim = fld(q.a[0], q.a[1], BUF[(q.a[1], q.a[2])])
        self.counts['pos'] += 1
        if about(i): self.counts['num'] += 1
        if not given(i): self.ask(cx, st, le(I(0), i), 'low', nid)
        if access and q.a[1] != 'ObjString': self.ask(cx, st, lt(i, lim), 'high', nid)
        elif q.a[1] == 'ObjString':
            if access and self.writes(cx.fn, nid): i = add(i, I(1))       # the end mark stays
            self.ask(cx, st, self.within(i, q), 'high', nid)
        else: self.ask(cx, st, le(i, lim), 'high', nid)
    def writes(self, fn, nid):
        """is something other than the end mark written there?"""
        for m in fn.nodes:
            if m['k'] == 'asg' and m['c'][0] == nid:
                v = fn.nodes[m['c'][1]]
                while v['k'] == 'cast': v = fn.nodes[v['c'][0]]
                return str(v.get('cv', '')) != '0'
        return False
    def within(self, i, q):
        """up to the end of the text, or of the room for it"""
        return lor(le(i, fld(q.a[0], q.a[1], 'length')), le(i, fld(q.a[0], q.a[1], 'capacity')))
    def numeric(self, fn, f, seen=()):
        """does it rest on a parameter that is given a number a script holds?"""
        def par(k, i, seen):
            if (k, i) in seen: return False
            return any(v is True or par(*v, seen | {(k, i)}) for v in self.numargs.get((k, i), ()))
        for x in f.a if f.op in ('<', '<=') else ():
            while x.op in ('+', '-') and isinstance(x.a[0], T): x = x.a[0] if x.a[1].op == 'int' else x.a[1] if x.a[0].op == 'int' else I(0)
            if x.op == 'arg' and isinstance(x.a[0], int) and par(fn, x.a[0], frozenset()): return True
        return False
    def on_call(self, cx, st, nid, n, callee, args):
        if callee in self.P.fns:
            for i, a in enumerate(args):
                for x in subterms(a):
                    if x.op == 'num': self.numargs.setdefault((callee, i), set()).add(True)
                    elif x.op == 'arg' and isinstance(x.a[0], int) and a.op in ('arg', '+', '-', 'f2i'): self.numargs.setdefault((callee, i), set()).add((cx.fn.key, x.a[0]))
        for (p, l) in SPAN.get(n.get('fn'), ()):
            if l >= len(args): continue
            s = self.split(args[p])
            if not s or args[l].op == 'int' and s[1].op == 'int': continue
            q, off = s
            if q.a[1] != 'ObjString': continue
            self.counts['span'] += 1
            self.ask(cx, st, le(I(0), args[l]), 'span', nid)
            self.ask(cx, st, self.within(add(off, args[l]), q), 'span', nid)
    def tested(self, cx, st, nid):
        """the condition whose failing led to this point"""
        fn = cx.fn
        for bi, b in fn.blocks.items() if isinstance(fn.blocks, dict) else enumerate(fn.blocks):
            if nid not in b['e']: continue
            f = None
            for (p, e) in fn.preds[bi]:
                pb = fn.blocks[p]
                if pb.get('cond') is None or len(pb['s']) != 2: return None
                t = truth(cx.val(pb['cond'], st, {}))
                t = t if pb['s'][0] != bi else neg(t)
                if not any(x.op in ('<', '<=') and direct(x) for x in subterms(t)): continue
                f = t if f is None else lor(f, t)
            return f
        return None
    def on_noreturn(self, cx, st, nid, n, callee):
        if n.get('fn') != 'diePrintCBacktrace': return
        f = self.tested(cx, st, nid)
        if f is None: return
        self.counts['die'] += 1
        self.ask(cx, st, f, 'die', nid)

WHY = {'low': 'a position may lie before the first element', 'high': 'a position may lie behind the last element',
       'span': 'more is read or written than there is', 'die': 'a number ends the interpreter through an assertion'}

def run(ctx):
    P, W, ow = setup(ctx)
    c = Bounds(P, W, ow)
    eng = engine.Engine(P, c, W)
    for k in sorted(c.growers): eng.summary(k)
    for k in sorted(W.natives): eng.summary(k)
    vs = []; native = hidden.kept(P)[0]
    for k, v in sorted(eng.violations.items(), key=str):
        what, f = v['what']
        if what == 'first' or what == 'high' and f.op == '<' and f.a[0].op == 'int':
            u = [x for x in subterms(f) if x.op == 'unbox']
            if not u or not Origin(P, W, v['fn'], v['phin']).script(u[-1].a[0]): continue
            vs.append(dict(key='%s %s %s' % (v['fn'], what, show(f)), loc=v['at'], msg='%s: an array may have no such element: %s is not established (used at %s)' % (v['fn'], show(f), v['site'])))
            continue
        if what == 'high' and stored(f, native): 
            vs.append(dict(key='%s %s %s' % (v['fn'], what, show(f)), loc=v['at'],
                       msg='%s: a position kept from an earlier call may lie behind the last element by now: %s is not established (used at %s)' % (v['fn'], show(f), v['site'])))
            continue
        if not about(f) and not (v['fn'] not in W.natives and c.numeric(v['fn'], f)): continue
        vs.append(dict(key='%s %s %s' % (v['fn'], what, show(f)), loc=v['at'],
                       msg='%s: %s: %s is not established (used at %s)' % (v['fn'], WHY[what], show(f), v['site'])))
    n = c.counts
    if n['num'] < 5: raise AnalysisError('only %d positions that rest on a number found' % n['num'])
    return dict(violations=vs, obligations=n['pos'] + n['span'] + n['fixed'] + n['die'],
                coverage={'native functions analysed': len(W.natives), 'positions in arrays, strings and tables': n['pos'],
                          'of these resting on a number of the script': n['num'], 'positions in arrays of fixed size': n['fixed'],
                          'lengths of text copied': n['span'], 'assertions on whole numbers': n['die']})
