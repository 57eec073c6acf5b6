"""Numeric abstract domain: linear forms over non-negative integer atoms, with halving (floor x/2) kept in a
normal form, and a conjunctive polyhedral constraint store (own Fourier-Motzkin projection with integer
tightening; no external solver)."""
from math import gcd

_ids = {}
def _aid(a):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_ids)
    return i

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c, t=()):
        self.c = c
        self.t = t              # sorted tuple of (atom, coef), coef != 0
        self._h = hash((c, t))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self == o
    def isconst(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return mk(self.c + o.c, d)
    def __neg__(self): return Lin(-self.c, tuple((a, -k) for a, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)
    def scale(self, k):
        if k == 0: return Lin(0)
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))
    def atoms(self): return [a for a, _ in self.t]
    def __repr__(self):
        if not self.t: return str(self.c)
        s = ''
        for a, k in self.t:
            n = aname(a)
            if k == 1: p = '+' + n
            elif k == -1: p = '-' + n
            else: p = '%+d*%s' % (k, n)
            s += p
        if s[0] == '+': s = s[1:]
        if self.c: s += '%+d' % self.c
        return s

def aname(a):
    if isinstance(a, tuple):
        if a[0] == 'half': return '(%r)/2' % (a[1],)
        if a[0] == 'sz': return 'SZ' if a[1] == 1 else 'SZ*' + aname(a[1])
        return '.'.join(str(x) for x in a)
    return str(a)

def mk(c, d):
    return Lin(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda p: _aid(p[0]))))
def const(n): return Lin(n)
def atom(a): 
    _aid(a)
    return Lin(0, ((a, 1),))

def half(l):
    """floor(l / 2)"""
    q, r = {}, {}
    for a, k in l.t:
        q[a] = k // 2
        if k % 2: r[a] = 1
    qc, rc = l.c // 2, l.c % 2
    res = mk(qc, q)
    if not r: return res
    x = mk(0, r)
    h = atom(('half', x))
    if rc: return res + x - h        # floor((x+1)/2) = x - floor(x/2)
    return res + h
def low_bit(l): return l - half(l).scale(2)

U64 = 1 << 64
BIG = 1 << 60

class Facts:
    """Conjunction of linear constraints l >= 0 over non-negative atoms, plus truth values of opaque booleans."""
    __slots__ = ('cs', 'ne', 'bools', '_memo')
    def __init__(self, cs=frozenset(), ne=frozenset(), bools=None):
        self.cs, self.ne, self.bools = cs, ne, bools or {}
        self._memo = {}
    def ge0(self, l):
        """Is l >= 0 entailed?  True / False(definitely negative) / None."""
        if l.isconst(): return l.c >= 0
        m = self._memo.get(l)
        if m is None:
            if infeasible(self.cs, [(-l) - 1]): m = 1
            elif infeasible(self.cs, [l]): m = 0
            else: m = 2
            self._memo[l] = m
        return True if m == 1 else False if m == 0 else None
    def eq0(self, l):
        if l.isconst(): return l.c == 0
        if l in self.ne or (-l) in self.ne: return False
        a = self.ge0(l)
        if a is False: return False
        b = self.ge0(-l)
        if b is False: return False
        if a and b: return True
        return None
    def add_ge0(self, l):
        r = self.ge0(l)
        if r is True: return self
        if r is False: return None
        f = Facts(self.cs | {l}, self.ne, self.bools)
        for n in f.ne:
            if f.ge0(n) and f.ge0(-n): return None
        return f.resharpen()
    def resharpen(self):
        f = self
        for n in f.ne:
            if f.ge0(n) and f.ge0(n - 1) is None:
                f = Facts(f.cs | {n - 1}, f.ne - {n}, f.bools)
                return f.resharpen()
            if f.ge0(-n) and f.ge0(-n - 1) is None:
                f = Facts(f.cs | {-n - 1}, f.ne - {n}, f.bools)
                return f.resharpen()
        return f
    def add_eq0(self, l):
        f = self.add_ge0(l)
        return f.add_ge0(-l) if f else None
    def add_ne0(self, l):
        r = self.eq0(l)
        if r is True: return None
        if r is False: return self
        if self.ge0(l): return self.add_ge0(l - 1)
        if self.ge0(-l): return self.add_ge0(-l - 1)
        return Facts(self.cs, self.ne | {l}, self.bools)
    def with_bool(self, k, v):
        if k in self.bools: return self if self.bools[k] == v else None
        b = dict(self.bools); b[k] = v
        return Facts(self.cs, self.ne, b)
    def __repr__(self): return ' & '.join(sorted('%r>=0' % c for c in self.cs) + ['%r!=0' % n for n in self.ne] + ['%s=%s' % kv for kv in self.bools.items()])

def _norm(l):
    if not l.t: return l
    g = 0
    for _, k in l.t: g = gcd(g, abs(k))
    if g > 1: return Lin(l.c // g, tuple((a, k // g) for a, k in l.t))   # floor: integer tightening
    return l

def _axioms(atoms):
    out, seen, todo = [], set(), list(atoms)
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        out.append(Lin(0, ((a, 1),)))
        if isinstance(a, tuple) and a[0] == 'half':
            x = a[1]; h = atom(a)
            out.append(x - h.scale(2)); out.append(h.scale(2) + 1 - x)
            todo += x.atoms()
        elif isinstance(a, tuple) and (a[0] in ('paddr', 'addr') or a[0] == 'sz' and a[1] == 1) or a in ('align', 'dangling'):
            out.append(Lin(-1, ((a, 1),)))
    return out, seen

_clo = {}
def _closure(l):
    r = _clo.get(l.t)
    if r is None:
        out = set(); todo = [a for a, _ in l.t]
        while todo:
            a = todo.pop()
            if a in out: continue
            out.add(a)
            if isinstance(a, tuple) and a[0] == 'half': todo += a[1].atoms()
        r = _clo[l.t] = frozenset(out)
    return r
_memo = {}
def infeasible(cs, extra):
    # keep only constraints connected to the query
    rel, seen = list(extra), set()
    for e in extra: seen.update(e.atoms())
    ax, seen = _axioms(seen)
    pending = cs
    while True:
        rest = []; n0 = len(rel)
        for c in pending:
            t = c.t
            if not t: rel.append(c); continue
            cl = _closure(c)
            if cl.isdisjoint(seen): rest.append(c); continue
            rel.append(c)
            new = [a for a, _ in t if a not in seen]
            if new:
                ax2, s2 = _axioms(new)
                ax += ax2; seen |= s2
        pending = rest
        if len(rel) == n0 or not rest: break
    if any(c.c > BIG or c.c < -BIG for c in rel):
        # machine integers: lengths and indices fit in 64 bits
        rel = rel + [Lin(U64 - 1, ((a, -1),)) for a in seen if isinstance(a, tuple) and a[0] in ('len', 'cap', 'off', 'n', 'arg')]
    key = frozenset(rel)
    r = _memo.get(key)
    if r is None:
        if len(_memo) > 400000: _memo.clear()
        r = _memo[key] = fm(_subst(rel + ax))
    return r

def _subst(cons):
    """eliminate equalities (l >= 0 and -l >= 0) by substitution"""
    cur = set()
    for c in cons:
        c = _norm(c)
        if not c.t:
            if c.c < 0: return [Lin(-1)]
            continue
        cur.add(c)
    for _ in range(60):
        eq = None
        for c in cur:
            if (-c) in cur:
                for a, k in c.t:
                    if k in (1, -1): eq = (c, a, k); break
                if eq: break
        if eq is None: break
        c, a, k = eq
        # a = -(c - k*a)/k
        r = (Lin(0, ((a, k),)) - c).scale(k)      # value of a
        new = set()
        for d in cur:
            for b, m in d.t:
                if b == a:
                    d = _norm(d - Lin(0, ((a, m),)) + r.scale(m)); break
            if not d.t:
                if d.c < 0: return [Lin(-1)]
                continue
            new.add(d)
        cur = new
    return list(cur)

def fm(cons, cap=4000):
    cur = set()
    for c in cons:
        c = _norm(c)
        if not c.t:
            if c.c < 0: return True
            continue
        cur.add(c)
    cur = _prune(cur)
    while True:
        pos, neg = {}, {}
        for c in cur:
            for a, k in c.t:
                if k > 0: pos[a] = pos.get(a, 0) + 1
                else: neg[a] = neg.get(a, 0) + 1
        if not cur: return False
        best, cost = None, None
        for a in set(pos) | set(neg):
            p, n = pos.get(a, 0), neg.get(a, 0)
            k = p * n - p - n
            if cost is None or k < cost: best, cost = a, k
        P, N, R = [], [], set()
        for c in cur:
            k = 0
            for a, x in c.t:
                if a == best: k = x; break
            if k > 0: P.append((k, c))
            elif k < 0: N.append((-k, c))
            else: R.add(c)
        for kp, p in P:
            for kn, n in N:
                g = gcd(kp, kn)
                s = _norm(p.scale(kn // g) + n.scale(kp // g))
                if not s.t:
                    if s.c < 0: return True
                    continue
                R.add(s)
        if len(R) > cap: return False       # give up: report "not shown infeasible"
        cur = _prune(R)

def _prune(s):
    best = {}
    for c in s:
        o = best.get(c.t)
        if o is None or c.c < o: best[c.t] = c.c
    out = set()
    for t, c in best.items():
        neg = tuple((a, -k) for a, k in t)
        if neg in best and best[neg] + c < 0:
            return {Lin(-1, ((('contradiction',), 0),))} if False else {Lin(c, t), Lin(best[neg], neg)}
        out.add(Lin(c, t))
    return out
