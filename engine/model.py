"""Small-model search: a concrete witness for a conjunction of facts.  Used only to confirm that an entailment the
analysis could not establish really fails, before anything is reported (never to establish that something holds)."""
from dom import Lin, infeasible, const

def base_atoms(l, out):
    for a, _ in l.t:
        if isinstance(a, tuple) and a[0] == 'half': base_atoms(a[1], out)
        elif isinstance(a, tuple) and a[0] == 'sz' and a[1] != 1: out.add(('sz', 1)); base_atoms(Lin(0, ((a[1], 1),)), out)
        else: out.add(a)
def ev(l, m):
    r = l.c
    for a, k in l.t: r += k * val(a, m)
    return r
def val(a, m):
    if isinstance(a, tuple):
        if a[0] == 'half': return ev(a[1], m) // 2
        if a[0] == 'sz' and a[1] != 1: return m[('sz', 1)] * val(a[1], m)
    return m[a]

def domain(a, big=()):
    if isinstance(a, tuple):
        if a[0] in ('len', 'cap', 'n', 'arg'): return (2, 3, 1, 0, 5, 4, 6, 7, 8, 9, 12, 16, 64) + big
        if a[0] == 'off': return (0, 1, 2, 3, 4, 5, 6, 8)
        if a[0] == 'sz': return (1, 4)
        if a[0] in ('addr', 'paddr'): return (4096,)
    if a in ('align', 'dangling'): return (4,)
    return (0, 1, 2, 3, 4, 5)

def find(facts, extra=(), budget=60000, want=None, whole=True, imps=()):
    """search component by component"""
    cons = [(c, False) for c in list(facts.cs) + list(extra)] + [(c, True) for c in facts.ne]
    comps = []          # (atoms, [cons])
    def add(s, item):
        nonlocal comps
        hit = [c for c in comps if c[0] & s]; rest = [c for c in comps if not (c[0] & s)]
        a = set(s); l = list(item)
        for h in hit: a |= h[0]; l += h[1]
        comps = rest + [(a, l)]
    for c in cons:
        s = set(); base_atoms(c[0], s)
        if not s:
            if (c[0].c < 0) if not c[1] else c[0].c == 0: return None
            continue
        add(s, [c])
    used = set()
    for a, l in comps: used |= a
    for a, r in imps:            # a = 0 implies r = 0
        if r in used: add({a, r}, [((a, r), 'imp')])
    q = set()
    for e in extra: base_atoms(e, q)
    if want is not None: q |= set(want.atoms); add(q, []) if q else None
    out = {}
    for a, l in comps:
        isq = bool(a & q)
        if not isq and not whole: continue
        m = find1([c for c, ne in l if ne is False], [c for c, ne in l if ne is True], a, budget, want if isq and want is not None else None, [c for c, ne in l if ne == 'imp'])
        if m is None: return None
        out.update(m)
    return out
def find1(cons, nes, atoms, budget, want, imps=()):
    # order: atoms in the smallest constraints first, keeping constraints closed early
    deps = []
    for c in cons:
        s = set(); base_atoms(c, s); deps.append((c, s, False))
    for c in nes:
        s = set(); base_atoms(c, s); deps.append((c, s, True))
    for c in imps: deps.append((c, set(c), 'imp'))
    order = []; left = set(atoms)
    while left:
        best = None
        for c, s, ne in deps:
            r = s & left
            if r and (best is None or len(r) < len(best)): best = r
        if best is None: best = left
        for a in sorted(best, key=lambda a: (0 if isinstance(a, tuple) and a[0] in ('len', 'cap') else 1, str(a))):
            order.append(a); left.discard(a)
    pos = {a: i for i, a in enumerate(order)}
    chk = [[] for _ in order]
    for c, s, ne in deps:
        if not s:
            if (c.c < 0) if not ne else (c.c == 0): return None
            continue
        chk[max(pos[a] for a in s)].append((c, ne))
    m = {}; n = [budget]
    big = tuple(sorted({abs(c.c) + d for c, s, ne in deps if ne is False and 12 < abs(c.c) < (1 << 59) for d in (0, 1, 2, 3)}))
    def rec(i):
        if i == len(order): return want is None or want(m)
        a = order[i]
        for v in domain(a, big):
            n[0] -= 1
            if n[0] < 0: return False
            m[a] = v
            for c, ne in chk[i]:
                if ne == 'imp':
                    if m[c[0]] == 0 and m[c[1]] != 0: break
                    continue
                e = ev(c, m)
                if (e == 0) if ne else (e < 0): break
            else:
                if rec(i + 1): return True
        m.pop(a, None)
        return False
    return dict(m) if rec(0) else None

class Want:
    def __init__(self, atoms, f): self.atoms = atoms; self.f = f
    def __call__(self, m): return self.f(m)
def show(m): return ', '.join('%s=%s' % (nm(a), v) for a, v in sorted(m.items(), key=lambda p: str(p[0])) if not (isinstance(a, tuple) and a[0] in ('paddr', 'addr')))
def nm(a): return '.'.join(str(x) for x in a) if isinstance(a, tuple) else str(a)
