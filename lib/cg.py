"""Call-graph helpers."""
import collections
from world import sig

def callees(P, W, key, indirect=True):
    """keys called from key; indirect calls resolve by signature"""
    out = set()
    f = P.fns[key]
    for nid, k, name in P.calls[key]:
        if k: out.add(k)
        elif name is None and indirect:
            s = sig(f.nodes[f.nodes[nid]['c'][0]])
            for t in W.addr_by_sig.get(s, []): out.add(t)
    return out

def reaches(P, W, base, cut=(), indirect=False, live=False):
    """functions that can reach (call, transitively) a function in base (keys or external names); `cut` functions do not propagate"""
    rev = collections.defaultdict(set)
    for f in P.fns.values():
        lv = W.live_nodes(f) if live else None
        for nid, k, name in P.calls[f.key]:
            if lv is not None and nid not in lv: continue
            t = k or name
            if t: rev[t].add(f.key)
            elif indirect:
                s = sig(f.nodes[f.nodes[nid]['c'][0]])
                for t in W.addr_by_sig.get(s, []): rev[t].add(f.key)
    seen = set(); st = list(base)
    while st:
        x = st.pop()
        for c in rev.get(x, ()):
            if c not in seen:
                seen.add(c)
                if c not in cut: st.append(c)
    return seen

def roots_of(P, R):
    """functions of R without a caller in the program, or whose address is taken"""
    out = []
    for k in sorted(R):
        if k in P.addr_fns or not [c for c in P.callers.get(k, ()) if c != k]: out.append(k)
    return out

def path_to(P, W, src, base, cut=()):
    """a call chain from src to a function in base"""
    prev = {src: None}; q = [src]
    for x in q:
        if x in base and x != src:
            r = []
            while x is not None: r.append(x); x = prev[x]
            return r[::-1]
        if x not in P.fns or x in cut: continue
        for nid, k, name in P.calls[x]:
            t = k or name
            if t and t not in prev: prev[t] = x; q.append(t)
    return []
