"""Hash-consed symbolic terms."""
class T:
    __slots__ = ('op', 'a', 'cls', 'depth', 'n', '_h', 'expr', '_s')
    def __repr__(self): return show(self)

_tab = {}
PLACE = {'fld', 'idx', 'g', 'var'}
OPAQUE = {'ret', 'phi', 'out', 'old', 'opq', 'retd'}
MAXD = 14

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op; t.a = a
    cls = set(); d = 0; expr = True
    for x in a:
        if isinstance(x, T):
            cls |= x.cls
            if x.depth > d: d = x.depth
            if not x.expr: expr = False
    if op == 'fld':
        cls.add(('f', a[1], a[2]))
    elif op == 'g':
        if a[0] not in CONSTG: cls.add(('g', a[0]))
    elif op == 'idx':
        b = a[0]
        if not (b.op == 'arg' and a[2] == 'Value'):
            cls.add(('e', a[2]))
    elif op == 'var':
        cls.add(('v', a[0])); expr = False
    elif op == 'addr':
        p = a[0]
        cls = set()
        for x in p.a:
            if isinstance(x, T): cls |= x.cls
        if p.op == 'var': expr = False
    elif op in OPAQUE:
        expr = False
        if op in ('old',): cls = set()
    t.cls = frozenset(cls); t.depth = d + 1; t.expr = expr
    t.n = len(_tab)
    t._h = hash(k); t._s = None
    _tab[k] = t
    return t

CONSTG = set()     # globals treated as immutable after initialisation

def I(n): return mk('int', n)
TRUE = I(1); FALSE = I(0); NULL = I(0)

def show(t):
    if not isinstance(t, T): return str(t)
    o = t.op; a = t.a
    if o == 'int': return str(a[0]) if abs(a[0]) < 10**9 else hex(a[0])
    if o == 'str': return repr(a[0])
    if o == 'flt': return str(a[0])
    if o == 'arg': return 'arg%d' % a[0]
    if o == 'g': return a[0]
    if o == 'fn': return '&' + a[0]
    if o == 'var': return 'var:%s' % a[1]
    if o == 'addr': return '&(%s)' % show(a[0])
    if o == 'fld': return '%s->%s' % (show(a[0]), a[2])
    if o == 'idx': return '%s[%s]' % (show(a[0]), show(a[1]))
    if o == 'ret': return '%s()#%s' % (a[0], a[1])
    if o == 'kind': return 'kind(%s)in%x' % (show(a[0]), a[1])
    if o in ('+', '-', '*', '/', '%', '==', '<', '<=', '&&', '||', '&', '|', '<<', '>>', '^') and len(a) == 2:
        return '(%s %s %s)' % (show(a[0]), o, show(a[1]))
    return '%s(%s)' % (o, ', '.join(show(x) for x in a))

def subst(t, m, memo=None):
    """replace sub-terms per mapping m (T->T)"""
    if not isinstance(t, T): return t
    if t in m: return m[t]
    if not t.a: return t
    if memo is None:
        memo = {}
        if len(m) < 12:
            ss = subterms(t)
            for x in m:
                if x in ss: break
            else: return t
        elif not any(x in m for x in subterms(t)): return t
    r = memo.get(t)
    if r is not None: return r
    ch = False; na = []
    for x in t.a:
        if isinstance(x, T):
            y = subst(x, m, memo)
            if y is not x: ch = True
            na.append(y)
        else: na.append(x)
    r = build(t.op, na) if ch else t
    memo[t] = r
    return r

# -- value tags (NaN boxing constants are read off the expressions)
SIGN = 1 << 63
QNAN = 0x7ffc000000000000
OBJM = SIGN | QNAN
UNBOX = ((1 << 64) - 1) & ~OBJM
VNIL, VFALSE, VTRUE, VUNDEF = QNAN | 1, QNAN | 2, QNAN | 3, QNAN | 4
K_NUM, K_NIL, K_FALSE, K_TRUE, K_UNDEF = 1, 2, 4, 8, 16
KCONST = {VNIL: K_NIL, VFALSE: K_FALSE, VTRUE: K_TRUE, VUNDEF: K_UNDEF}
K_BOOL = K_FALSE | K_TRUE
def K_OBJ(t): return 32 << t
NOBJ = 17
K_ALLOBJ = sum(K_OBJ(i) for i in range(NOBJ))
K_ALL = 31 | K_ALLOBJ
TYPEFIELD = ('Obj', 'type')
FLAGKIND = {}    # object flag -> the kinds of objects that carry it, set once by their constructors

def unbox(v):
    if v.op == 'box': return v.a[0]
    if v.op == 'int' and v.a[0] >= OBJM: return I(v.a[0] & UNBOX)
    return mk('unbox', v)
def box(o):
    if o.op == 'unbox' : return o.a[0]
    return mk('box', o)

def kind(key, mask):
    """boolean: the value/pointer `key` has one of the kinds in mask"""
    mask &= K_ALL
    if mask == K_ALL: return TRUE
    if mask == 0: return FALSE
    if key.op == 'unbox':
        v = key.a[0]
        if v.op == 'boxn': return TRUE if mask & K_NUM else FALSE
        if v.op == 'int' and v.a[0] in KCONST: return TRUE if mask & KCONST[v.a[0]] else FALSE
    else:
        if mask & K_ALLOBJ == K_ALLOBJ: return TRUE
        if not mask & K_ALLOBJ: return FALSE
    return mk('kind', key, mask)

def neg(t):
    if t.op == '!': return t.a[0]
    if t.op == 'int': return FALSE if t.a[0] else TRUE
    if t.op == 'kind': return kind(t.a[0], K_ALL & ~t.a[1])
    return mk('!', t)

def add(a, b):
    if a.op == 'int' and b.op == 'int': return I(a.a[0] + b.a[0])
    if a.op == 'int': a, b = b, a
    if b.op == 'int':
        if b.a[0] == 0: return a
        if a.op == '+' and a.a[1].op == 'int':
            return add(a.a[0], I(a.a[1].a[0] + b.a[0]))
    elif a.op == '+' and a.a[1].op == 'int':       # (x+c)+y -> (x+y)+c
        return add(add(a.a[0], b), a.a[1])
    elif b.op == '+' and b.a[1].op == 'int':
        return add(add(a, b.a[0]), b.a[1])
    return mk('+', a, b)

def sub(a, b):
    if b.op == 'int': return add(a, I(-b.a[0]))
    if a is b: return I(0)
    if a.op == '+' and a.a[0] is b: return a.a[1]
    if a.op == '+' and a.a[1] is b: return a.a[0]
    if a.op == '+' and a.a[1].op == 'int': return add(sub(a.a[0], b), a.a[1])
    return mk('-', a, b)

def eq(a, b):
    if a is b: return TRUE
    if a.op == 'int' and b.op == 'int': return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == 'int': a, b = b, a
    if b.op == 'int':
        c = b.a[0]
        if a.op == '&':
            x, y = a.a
            if x.op == 'int': x, y = y, x
            if y.op == 'int' and y.a[0] in FLAGKIND and x.op == 'fld' and x.a[1:] == ('Obj', 'flags') and c in (0, y.a[0]):
                k = kind(x.a[0], FLAGKIND[y.a[0]])
                return neg(k) if c == 0 else k
            if y.op == 'int':
                if y.a[0] == OBJM and c == OBJM: return kind(unbox(x), K_ALLOBJ)
                if y.a[0] == QNAN and c == QNAN: return kind(unbox(x), K_ALL & ~K_NUM)
        if c in KCONST: return kind(unbox(a), KCONST[c])
        if a.op == 'fld' and (a.a[1], a.a[2]) == TYPEFIELD and 0 <= c < NOBJ:
            # reading the type presumes an object
            return kind(a.a[0], K_OBJ(c))
        if a.op in ('!', '==', '<', '<=', 'kind', '&&', '||', 'isa', 'nf'):
            return neg(a) if c == 0 else (a if c == 1 else FALSE)
        if a.op == '?:':
            x, y = a.a[1], a.a[2]
            if x.op == 'int' and y.op == 'int':
                if x.a[0] == c and y.a[0] != c: return truth(a.a[0])
                if x.a[0] != c and y.a[0] == c: return neg(truth(a.a[0]))
        if a.op == '+' and a.a[1].op == 'int' : return eq(a.a[0], I(c - a.a[1].a[0]))
        if a.op == 'addr' and c == 0: return FALSE
        if a.op in ('str', 'fn') and c == 0: return FALSE
        return mk('==', a, b)
    if a.n > b.n: a, b = b, a
    return mk('==', a, b)

def truth(t):
    """boolean view of an int/pointer term"""
    if t.op == 'int': return TRUE if t.a[0] else FALSE
    if t.op in ('!', '==', '<', '<=', 'kind', '&&', '||', 'isa', 'nf'): return t
    if t.op == '?:':
        x, y = truth(t.a[1]), truth(t.a[2])
        if x is TRUE and y is FALSE: return truth(t.a[0])
        if x is FALSE and y is TRUE: return neg(truth(t.a[0]))
    return neg(eq(t, NULL))

def land(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a.op == 'kind' and b.op == 'kind' and a.a[0] is b.a[0]: return kind(a.a[0], a.a[1] & b.a[1])
    if a is b: return a
    return mk('&&', a, b)
def lor(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a.op == 'kind' and b.op == 'kind' and a.a[0] is b.a[0]: return kind(a.a[0], a.a[1] | b.a[1])
    if a is b: return a
    return mk('||', a, b)

def lt(a, b):
    if a is b: return FALSE
    if a.op == 'int' and b.op == 'int': return TRUE if a.a[0] < b.a[0] else FALSE
    return mk('<', a, b)
def le(a, b):
    if a is b: return TRUE
    if a.op == 'int' and b.op == 'int': return TRUE if a.a[0] <= b.a[0] else FALSE
    return mk('<=', a, b)

def fld(base, rec, f):
    return mk('fld', base, rec, f)
FIRST = {}   # rec -> first field name when that field is itself a record (offset 0)
def addr(place):
    if place.op == 'fld' and FIRST.get(place.a[1]) == place.a[2]:
        return place.a[0]
    if place.op == 'idx':
        return add(place.a[0], place.a[1])
    return mk('addr', place)
def idx(p, i, ety):
    if p.op == '+' and p.a[1].op == 'int' and i.op == 'int':
        return idx(p.a[0], I(p.a[1].a[0] + i.a[0]), ety)
    if p.op == 'addr' and i.op == 'int' and i.a[0] == 0 and p.a[0].op in PLACE:
        return p.a[0]
    return mk('idx', p, i, ety)

def build(op, a):
    if op == '+': return add(*a)
    if op == '-' and len(a) == 2: return sub(*a)
    if op == '==': return eq(*a)
    if op == '<': return lt(*a)
    if op == '<=': return le(*a)
    if op == '!': return neg(truth(a[0]))
    if op == '&&': return land(truth(a[0]), truth(a[1]))
    if op == '||': return lor(truth(a[0]), truth(a[1]))
    if op == 'kind': return kind(*a)
    if op == 'unbox': return unbox(a[0])
    if op == 'box': return box(a[0])
    if op == 'num': return num(a[0])
    if op == 'boxn': return boxn(a[0])
    if op == 'addr': return addr(a[0])
    if op == 'idx': return idx(*a)
    if op == 'fld': return fld(*a)
    if op == '?:': return ite(*a)
    if op == 'f2i': return f2i(*a)
    if op == 'isa': return isa(*a)
    if op in ('&', '|', '*', '<<', '>>', '^', '/', '%'): return arith(op, *a)
    return mk(op, *a)

def isa(p, k): return mk('isa', p, k)
def num(v):
    if v.op == 'boxn': return v.a[0]
    return mk('num', v)
def boxn(x):
    if x.op == 'num': return x.a[0]
    return mk('boxn', x)
def ite(c, a, b):
    c = truth(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return mk('?:', c, a, b)
def f2i(ty, x):
    if x.op == 'int': return x
    if x.op == 'flt': return I(int(x.a[0])) if abs(x.a[0]) < 2**62 else mk('f2i', ty, x)
    if is_int(x): return x
    return mk('f2i', ty, x)
def is_int(t):
    if t.op in ('int', 'f2i'): return True
    if t.op in ('+', '-', '*'): return all(is_int(x) for x in t.a)
    return t in INTT
INTT = set()      # terms of integer type
UNS = set()       # terms of unsigned type
FLT = set()

def arith(op, a, b):
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        try:
            if op == '&': return I(x & y)
            if op == '|': return I(x | y)
            if op == '^': return I(x ^ y)
            if op == '*': return I(x * y)
            if op == '<<' and 0 <= y < 64: return I(x << y)
            if op == '>>' and 0 <= y < 64: return I(x >> y)
            if op == '/' and y: return I(int(x / y)) if abs(x) < 2**50 else mk(op, a, b)
            if op == '%' and y: return I(x - y * int(x / y)) if abs(x) < 2**50 else mk(op, a, b)
        except OverflowError:
            pass
    if op == '&':
        if a.op == 'int': a, b = b, a
        if b.op == 'int' and b.a[0] == UNBOX: return unbox(a)
    if op == '*':
        if a.op == 'int': a, b = b, a
        if b.op == 'int' and b.a[0] == 1: return a
    if op == '|' and b.op == 'int' and a.op != 'int' or op == '|' and a.op == 'int':
        if a.op == 'int': a, b = b, a
        if b.op == 'int' and b.a[0] == OBJM: return box(a)
    return mk(op, a, b)

def subterms(t):
    r = t._s
    if r is None:
        acc = {t}
        for y in t.a:
            if isinstance(y, T): acc |= subterms(y)
        r = t._s = frozenset(acc)
    return r

def opaques(t):
    return [x for x in subterms(t) if x.op in OPAQUE or x.op in ('uninit', 'var', 'deref_tmp', 'addrl')]
