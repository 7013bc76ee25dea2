"""Text handling: formats, buffers."""
import re
from program import AnalysisError
import engine

LIBFMT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1, 'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1,
          'vsnprintf': 2, 'vdprintf': 1, 'vasprintf': 1, 'syslog': 1, 'vsyslog': 1, 'err': 1, 'errx': 1, 'warn': 0, 'warnx': 0, 'strftime': 2,
          'scanf': 0, 'sscanf': 1, 'fscanf': 1}
SCAN = {'scanf', 'sscanf', 'fscanf'}
VLIB = {'vprintf', 'vfprintf', 'vsprintf', 'vsnprintf', 'vdprintf', 'vasprintf', 'vsyslog'}

def strip(f, x):
    while x is not None and x >= 0 and f.nodes[x]['k'] == 'cast': x = f.nodes[x]['c'][0]
    return x

def defs_of(f, d):
    """every value a local variable may be given; None when its address escapes or it is a parameter"""
    out = []
    if d in f.addrtaken: return None
    for n in f.nodes:
        if n['k'] == 'decl':
            for v in n['vars']:
                if v['d'] == d and v['init'] >= 0: out.append(v['init'])
        elif n['k'] == 'asg':
            l = f.nodes[n['c'][0]]
            if l['k'] == 'ref' and l.get('d') == d:
                if n['op'] != '=': return None
                out.append(n['c'][1])
        elif n.get('incdec'):
            l = f.nodes[n['c'][0]]
            if l['k'] == 'ref' and l.get('d') == d: return None
    return out

def parms_assigned(f, d):
    r = defs_of(f, d)
    return r is None or bool(r)

class Formats:
    def __init__(self, P):
        self.P = P
        # functions that hand their own parameter on as a format: key -> index of it
        self.fmtfn = {}
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                if f.key in self.fmtfn: continue
                for nid, n, i in self.sites(f):
                    a = strip(f, n['c'][1 + i]) if len(n['c']) > 1 + i else None
                    if a is None or a < 0: continue
                    m = f.nodes[a]
                    if m['k'] == 'ref' and m.get('dk') == 'parm' and not parms_assigned(f, m['d']):
                        self.fmtfn[f.key] = m['pi']; ch = True; break
    def sites(self, f):
        for nid, k, name in self.P.calls[f.key]:
            n = f.nodes[nid]
            if k in self.fmtfn: yield nid, n, self.fmtfn[k]
            elif k is None and name in LIBFMT: yield nid, n, LIBFMT[name]
    def texts(self, f, x, seen):
        """literal texts a format expression can be, or None when it is not only literals"""
        x = strip(f, x)
        if x is None or x < 0 or x in seen: return None
        seen = seen | {x}
        n = f.nodes[x]
        if n['k'] == 'str': return [n.get('v', '')]
        if n['k'] == 'cond':
            a = self.texts(f, n['c'][1], seen); b = self.texts(f, n['c'][2], seen)
            return None if a is None or b is None else a + b
        if n['k'] == 'ref' and n.get('dk') in ('local', 'slocal'):
            ds = defs_of(f, n['d'])
            if not ds: return None
            out = []
            for d in ds:
                r = self.texts(f, d, seen)
                if r is None: return None
                out += r
            return out
        if n['k'] == 'ref' and n.get('dk') == 'global':
            g = self.P.globals.get(n['name'])
            if g and g.get('nodes') and 'const' in g.get('ty', ''):
                ss = [m.get('v', '') for m in g['nodes'] if m['k'] == 'str']
                return ss or None
        if n['k'] == 'idx':
            b = f.nodes[strip(f, n['c'][0])]
            if b['k'] == 'ref' and b.get('dk') == 'global':
                return self.texts(f, strip(f, n['c'][0]), seen)
        return None

CONV = re.compile(r'%(?P<flags>[-+ #0\']*)(?P<w>\*|\d*)(?:\.(?P<p>\*|\d*))?(?P<len>hh|h|ll|l|q|j|z|t|L)?(?P<c>[diouxXeEfFgGaAcspnm%])|%(?P<bad>.|$)')

def classof(n, f, x, P=None):
    t = n.get('cty') or n.get('ty') or ''
    t = t.replace('const ', '').replace('volatile ', '').replace('unsigned char', 'uchar').strip()
    if t.endswith(']') and ('char' in t): return 'str'
    if t.endswith('*') or t.endswith(']'):
        b = t.rstrip('*] ').strip()
        return 'str' if t.count('*') == 1 and b in ('char', 'uchar', 'signed char') else 'ptr'
    if t in ('double', 'float', 'long double'): return 'dbl'
    if t in ('_Bool', 'bool') or 'char' in t or 'short' in t: return 'int'
    if t.startswith('enum') or P is not None and t in P.enums: return 'int'
    if t in ('int', 'unsigned int'): return 'int'
    if 'long' in t: return 'long'
    if n.get('cv') is not None: return 'int'
    if n['k'] == 'ref' and n.get('dk') == 'fn' or '(*)' in t or '(' in t: return 'ptr'
    return 'other:' + t

def run_formats(ctx):
    P = ctx.P
    F = Formats(P)
    if 'throwErrorFmt' not in F.fmtfn and not any(P.fns[k].variadic for k in F.fmtfn):
        raise AnalysisError('no formatting function recognised')
    vs = []; ob = 0; argob = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.file.startswith('vendor'): continue
        for nid, n, i in F.sites(f):
            ob += 1
            name = n.get('fn')
            if len(n['c']) <= 1 + i:
                vs.append(dict(key='%s %s no-format' % (f.key, name), loc=f.loc(nid), msg='%s calls %s without a format' % (f.key, name))); continue
            x = strip(f, n['c'][1 + i])
            m = f.nodes[x]
            if m['k'] == 'ref' and m.get('dk') == 'parm' and F.fmtfn.get(f.key) == m['pi']: continue
            tx = F.texts(f, x, frozenset())
            if tx is None:
                vs.append(dict(key='%s %s format-not-literal' % (f.key, name), loc=f.loc(nid),
                               msg='%s calls %s with a format that is not a fixed text of the program' % (f.key, name)))
                continue
            vform = name in VLIB or (n.get('fn') and P.resolve(name, f) in P.fns and not P.fns[P.resolve(name, f)].variadic)
            if name == 'strftime' or vform: continue
            if name in SCAN: continue
            for t in tx:
                argob += 1
                e = check_args(f, n, i, t, P)
                if e:
                    vs.append(dict(key='%s %s args %s' % (f.key, name, e), loc=f.loc(nid),
                                   msg='%s calls %s with the format "%s": %s' % (f.key, name, t.replace('\n', '\\n'), e)))
    return dict(violations=vs, obligations=ob + argob,
                coverage={'formatting calls': ob, 'formats matched against their arguments': argob, 'functions that pass a format on': sorted(F.fmtfn)})

def check_args(f, n, i, t, P=None):
    args = n['c'][2 + i:]
    want = []
    for m in CONV.finditer(t):
        if m.group('bad') is not None: return 'unknown conversion %%%s' % m.group('bad')
        if m.group('c') in '%m': continue
        if m.group('w') == '*': want.append('*i')
        if m.group('p') == '*': want.append('*i')
        want.append((m.group('len') or '') + m.group('c'))
    if len(want) > len(args): return 'needs %d values, given %d' % (len(want), len(args))
    for w, a in zip(want, args):
        x = strip(f, a) if f.nodes[a]['k'] == 'cast' and f.nodes[a].get('impl') else a
        c = classof(f.nodes[x], f, x, P)
        k = w[-1]
        if k == 'n': return 'the conversion %n'
        if c.startswith('other'): return 'a value of type %s for %%%s' % (c[6:], w)
        if w == '*i' and c in ('int', 'long'): continue
        ok = {'s': c == 'str', 'p': c in ('ptr', 'str'), 'c': c == 'int'}.get(k)
        if ok is None:
            if k in 'diouxX':
                long_ = w[:-1] in ('l', 'll', 'q', 'j', 'z', 't')
                ok = c == ('long' if long_ else 'int') or c == 'int' and f.nodes[x].get('cv') is not None and False
            else: ok = c == 'dbl'
        if not ok: return 'a value of class %s for %%%s' % (c, w)
    return None
