"""Abstract entry states (the representation invariant of the slice tree) and the environment's behaviour
(interference by other threads, contracts for subtrees outside the analysed neighbourhood)."""
from vals import *
from dom import Lin, const, atom, half, Facts
from interp import Interp, State, TRANSPARENT, ZERO, ONE
from models import NONE, some, acquires, releases

ROLES = {'RcSliceData': 'D', 'ArcSliceData': 'D', 'IntoMutGuard': 'IG', 'GetMutGuard': 'MG', 'DataGuard': 'G', 'SliceAlloc': 'A'}
HANDLES = {'RcSlice': 'shared', 'ArcSlice': 'shared', 'WeakSlice': 'weak', 'RcSliceMut': 'mut', 'ArcSliceMut': 'mut'}
MAXITEMS = 5      # items looked at one by one
CNT = {'RcSlice': 'r', 'WeakSlice': 'w', 'IG': 'a', 'MG': 'b'}

def at(k, n): return atom((k, n))

class Spec:
    def __init__(self, prog):
        self.pr = prog
        self._kind = {}; self._formula = {}
        self.exported = set(r['key'] for r in prog.roots if r.get('exported'))
        self.probing = False
        self.updepth = {'arc': 1, 'rc': 4}
        self.roles = self.find_roles()
    # ------------------------------------------------------------------ types
    def role(self, ty):
        t = self.pr.t(ty)
        return self.roles.get(t['n']) if t['k'] == 'adt' and t.get('local') else None
    def canonical(self, ty):
        """name under which reports mention a type, whatever it is called at the moment"""
        r = self.role(ty); arc = '::arc::' in self.pr.t(ty).get('n', '')
        return {'D': 'ArcSliceData' if arc else 'RcSliceData', 'IG': 'IntoMutGuard', 'MG': 'GetMutGuard', 'G': 'DataGuard', 'A': 'SliceAlloc'}.get(r)
    def find_roles(self):
        """which type plays which part, from what the public handle types refer to (their private names do not matter)"""
        pr = self.pr; cand = {}
        adts = [(i, t) for i, t in enumerate(pr.T) if t['k'] == 'adt' and t.get('local') and t['ak'] == 'struct' and t.get('vs')]
        for i, t in adts:
            h = HANDLES.get(t['n'].rsplit('::', 1)[-1]); arc = '::arc::' in t['n']
            if h is None: continue
            for x in [y for f, ft in pr.fields(i) for y in self.strong_fields(ft)]:
                xt = pr.t(x)
                if xt['k'] != 'adt' or not xt.get('local'): continue
                g = bool(xt.get('args'))
                r = {('shared', True): 'D', ('mut', True): 'A', ('shared', False): 'G' if arc else 'IG', ('weak', False): None if arc else 'MG'}.get((h, g))
                if r: cand.setdefault((r, arc), set()).add(xt['n'])
        out = {}
        for i, t in adts:
            r = ROLES.get(t['n'].rsplit('::', 1)[-1])
            if r: out[t['n']] = r
        for (r, arc), ns in sorted(cand.items()):
            if len(ns) != 1 or r in [out.get(n) for n in ns]: continue
            if list(cand.values()).count(ns) > (2 if r == 'A' else 1): continue
            n = next(iter(ns))
            if out.get(n) is None: out[n] = r
        return out
    def kind(self, ty):
        if ty in self._kind: return self._kind[ty]
        k = self._kind[ty] = self._kind0(ty)
        return k
    def _kind0(self, ty):
        pr = self.pr; t = pr.t(ty); k = t['k']
        if k == 'int': return ('int',)
        if k == 'bool': return ('bool',)
        if k == 'param': return ('item',)
        if k == 'tuple' and not t['ts']: return ('unit',)
        if k == 'pat': return self.kind(t['t'])
        if k == 'ptr' or k == 'ref' or (k == 'adt' and pr.name(ty) in ('NonNull', 'Unique')):
            p = pr.pointee(ty); pt = pr.t(p)
            if pt['k'] == 'param': return ('items',)
            if pt['k'] == 'tuple' and not pt['ts']: return ('raw',)
            return ('ptr', self.kind(p), p)
        if k == 'adt':
            n = pr.name(ty); s = t['s']
            if t.get('pd'): return ('pd',)
            if n == 'Option': return ('opt', self.kind(t['args'][0]), t['args'][0])
            if n in ('Rc', 'Arc'): return ('strong', 'rc' if n == 'Rc' else 'arc', t['args'][0])
            if n == 'Weak': return ('weak', 'rc' if '::rc' in s.split('<')[0] else 'arc', t['args'][0])
            if t.get('box'):
                if pr.t(t['args'][0])['k'] == 'slice': return ('boxslice',)
                return ('box', t['args'][0])
            if n == 'Vec': return ('vec',)
            if n in TRANSPARENT: return self.kind(t['args'][0])
            if t.get('local'): return ('struct' if t['ak'] == 'struct' else 'enum', ty)
        return ('?', t['s'])
    def strong_fields(self, ty, depth=0):
        """types X with a strong Rc<X>/Arc<X> inside a value of type ty"""
        out = []
        k = self.kind(ty)
        if k[0] == 'opt': return self.strong_fields(k[2], depth)
        if k[0] == 'strong': return [k[2]]
        if k[0] == 'struct' and depth < 4:
            for f, ft in self.pr.fields(k[1]): out += self.strong_fields(ft, depth + 1)
        return out
    def find(self, short, mod=None):
        for i, t in enumerate(self.pr.T):
            if t['k'] == 'adt' and t.get('local') and t['n'].rsplit('::', 1)[-1] == short and t['ak'] != 'union':
                if mod and ('::%s::' % mod) not in t['n']: continue
                a = t.get('args', [])
                if all(self.pr.t(x)['k'] != 'param' or self.pr.t(x)['s'] == 'T' for x in a): return i
        return None
    def find_role(self, role):
        for i, t in enumerate(self.pr.T):
            if t['k'] == 'adt' and t.get('vs') and self.role(i) == role: return i
    def holders(self, role):
        """how many strong references to the role's object at node n exist, by kind of holder"""
        if role in self._formula: return self._formula[role]
        out = []
        for short, c in CNT.items():
            for mod in ('rc',):
                ty = self.find(short, mod) if short not in ('IG', 'MG') else self.find_role(short)
                if ty is None: continue
                for x in [y for f, ft in self.pr.fields(ty) for y in self.strong_fields(ft)]:
                    r = self.role(x)
                    if r == role: out.append((c, short == role))
        if role == 'D': out.append(('s', False))
        self._formula[role] = out
        return out
    def formula(self, st, role, n):
        l = ZERO
        for c, kids in self.holders(role):
            if kids: l = l + at(c, self.child(st, n, 'L')) + at(c, self.child(st, n, 'R'))
            else: l = l + at(c, n)
        return l
    # ------------------------------------------------------------------ nodes
    def node(self, st, n): return st.x[('node', n)]
    def mknode(self, st, n, fam, buf, off, ln, parent=None, side=None, depth=0, root=None):
        st.x[('node', n)] = (fam, buf, off, ln, parent, side, depth)
        if root: st.x[('root', n)] = True
        if parent is not None: st.x[('child', parent, side)] = n
        self.axioms(st, n)
    def child(self, st, n, side): return st.x.get(('child', n, side), n + side)
    def mkchild(self, st, n, side):
        c = self.child(st, n, side)
        if ('node', c) in st.x: return c
        fam, buf, off, ln, p, s, d = self.node(st, n)
        h = half(ln)
        if side == 'L': self.mknode(st, c, fam, buf, off, h, n, side, d + 1)
        else: self.mknode(st, c, fam, buf, off if self.it.zst else off + h, ln - h, n, side, d + 1)
        if fam == 'rc':
            st.assume_ge0(at('a', n) - at('a', c)); st.assume_ge0(at('b', n) - at('b', c))
        return c
    def axioms(self, st, n):
        if st.x[('node', n)][0] != 'rc': return
        for k in 'abs': st.assume_ge0(ONE - at(k, n))
        st.assume_ge0(at('b', n) - at('a', n))
        st.assume_ge0(self.formula(st, 'IG', n) - at('a', n))
        st.assume_ge0(self.formula(st, 'MG', n) - at('b', n))
    def parent_alts(self, st, n):
        """possible parents of node n: [(refine|None, parent|None)]"""
        rec = self.node(st, n)
        if rec[4] is not None: return [(None, rec[4])]
        if st.x.get(('root', n)): return [(None, None)]
        d = st.x.get(('up', n), 0)
        def isroot(s): s.x[('root', n)] = True; return True
        if d >= st.x.get('updepth', self.updepth.get(rec[0], 2)): return [(isroot, None)]
        p = n + 'P'
        def mk(side):
            def f(s):
                fam, buf, off, ln, _, _, dep = self.node(s, n)
                pl, po = at('len', p), (at('off', p) if not self.it.zst else ZERO)
                s.x[('node', n)] = (fam, buf, off, ln, p, side, dep)
                s.x[('up', p)] = d + 1
                s.x[('child', p, side)] = n
                self.mknode(s, p, fam, buf, po, pl, None, None, dep - 1)
                s.x[('child', p, side)] = n
                if not s.assume_ge0(pl - (1 if side == 'L' else 2)): return False
                h = half(pl)
                okk = s.assume_eq0(ln - (h if side == 'L' else pl - h))
                if not self.it.zst: okk = okk and s.assume_eq0(off - (po if side == 'L' else po + h)) and s.assume_ge0(s.bufs[buf]['cap'] - po - pl)
                if not okk: return False
                if fam == 'rc':
                    return s.assume_ge0(at('a', p) - at('a', n)) and s.assume_ge0(at('b', p) - at('b', n))
                return True
            return f
        return [(isroot, None), (mk('L'), p), (mk('R'), p)]
    # ------------------------------------------------------------------ objects
    def ensure(self, st, role, n, ty, fam):
        o = (role, n)
        if o in st.meta: return o
        strong = None; weak = None
        if role == 'A':
            buf = n
            if fam == 'rc': strong = at('k', buf)
        elif fam == 'rc':
            strong = self.formula(st, role, n)
            weak = at('w', n) if role == 'D' else None
        st.meta[o] = M('rc', fam, ty, strong, 0, weak, 0, 'live', o, False, fam == 'arc', '')
        st.mem[o] = Agg(0, tuple(self.build(st, ft, role, n, fn, ty) for fn, ft in self.pr.fields(ty)))
        return o
    def link(self, st, role, n, ty, fam):
        o = self.ensure(st, role, n, ty, fam)
        m = st.meta[o]
        if m.status == 'dead': raise Undecided('link to dead')
        if role == 'A' and m.strong is not None: m = m._replace(strong=m.strong + 1)
        st.meta[o] = m._replace(lb=m.lb + 1)
        if m.strong is not None and not st.assume_ge0(m.strong - m.lb - 1): raise Dead()
        return H(fam, 'strong', o)
    def weaklink(self, st, role, n, ty, fam):
        o = self.ensure(st, role, n, ty, fam)
        st.meta[o] = st.meta[o]._replace(wlb=st.meta[o].wlb + 1)
        if fam == 'rc' and role == 'D': st.assume_ge0(at('w', n) - st.meta[o].wlb)
        return H(fam, 'weak', o)
    def side_of(self, fname):
        f = fname.lower()
        if 'left' in f: return 'L'
        if 'right' in f: return 'R'
        raise Undecided('field %s' % fname)
    def build(self, st, ty, role, n, fname, owner):
        """value of a field of type ty inside an object of the given role at node n"""
        k = self.kind(ty)
        fam, buf, off, ln = (self.node(st, n)[:4] if role != 'A' else (None, n, ZERO, st.bufs[n]['cap']))
        c = k[0]
        if c == 'pd' or c == 'unit': return UNIT
        if c == 'int':
            if role in ('D', 'A', 'C', 'H'): return ln
            raise Undecided('integer field %s' % fname)
        if c == 'bool': return ZERO
        if c == 'items': return IP(buf, off)
        if c == 'raw': return Lazy('slot', (n, self.side_of(fname), False, owner))
        if c == 'opt':
            j = k[1]
            if j[0] == 'raw': return Lazy('slot', (n, self.side_of(fname), True, owner))
            if j[0] == 'strong':
                r = self.role(j[2])
                if r == 'A': return Lazy('alloc', (n, j[1], j[2]))
                if r is not None and r == role: return Lazy('up', (r, n, j[2], j[1]))
                raise Undecided('field %s' % fname)
            if j[0] == 'struct':
                sf = self.strong_fields(k[2])
                if len(sf) == 1 and self.role(sf[0]) == role: return Lazy('upstruct', (role, n, k[2]))
            raise Undecided('field %s' % fname)
        if c == 'strong':
            r = self.role(k[2])
            if r == 'A':
                return self.link(st, 'A', buf, k[2], k[1])
            if r is None or r == role: raise Undecided('field %s' % fname)
            return self.link(st, r, n, k[2], k[1])
        if c == 'weak':
            r = self.role(k[2])
            if r is None: raise Undecided('field %s' % fname)
            if r == role:
                f = fname.lower()
                if 'left' in f or 'right' in f: return Lazy('downw', (r, n, self.side_of(fname), k[2], k[1]))
                return Lazy('upw', (r, n, k[2], k[1]))
            if role == 'H':
                if r == 'D': return self.weaklink(st, r, n, k[2], k[1])
                return Lazy('samew', (r, n, k[2], k[1]))
            return Lazy('samew', (r, n, k[2], k[1]))
        if c == 'ptr' and k[1][0] == 'weak':
            return Lazy('gbox', (self.role(k[1][2]), n, k[2], k[1][2]))
        if c == 'struct':
            r = role if role != 'H' else 'H'
            return Agg(0, tuple(self.build(st, ft, r, n, fn, k[1]) for fn, ft in self.pr.fields(k[1])))
        raise Undecided('field %s of type %s' % (fname, self.pr.t(ty)['s']))
    # ------------------------------------------------------------------ lazy parts
    def expand(self, it, st, lz):
        k, a = lz
        f = getattr(self, 'x_' + k)
        return f(st, *a)
    def x_slot(self, st, n, side, opt, owner):
        nul = NONE if opt else ZERO
        fam = self.node(st, n)[0]; c = self.child(st, n, side)
        def rnull(s):
            if fam == 'rc':
                return s.assume_eq0(at('s', c)) and s.assume_eq0(at('r', c)) and s.assume_eq0(at('a', c))
            return True
        def present(s):
            h = self.link(s, 'D', c, owner, fam)
            s.x[('slot0', n, side)] = True
            p = P(h.obj, ())
            return some(p) if opt else p
        def rpres(s):
            if not s.assume_ge0(self.node(s, n)[3] - (1 if side == 'L' else 2)): return False
            if self.node(s, n)[6] >= 1:
                if s.x.get('deep', c) != c: return False      # at most one grandchild at a time
                s.x['deep'] = c
            self.mkchild(s, n, side)
            if fam == 'rc': return s.assume_eq0(at('s', c) - 1)
            return True
        o = ('D', c)
        if o in st.meta and st.meta[o].status == 'live': return [(rpres, present)]
        if self.node(st, n)[6] >= 2 or (fam == 'rc' and st.facts.ge0(-at('s', c)) is True): return [(rnull, lambda s: nul)]
        return [(rnull, lambda s: nul), (rpres, present)]
    def x_alloc(self, st, n, fam, ty):
        _, buf, off, ln = self.node(st, n)[:4]
        def rsome(s):
            if self.node(s, n)[6] > 0 and not s.assume_ge0(ln - 1): return False
            if s.x.get(('noalloc', buf)): return False
            if ('A', buf) in s.meta and s.meta[('A', buf)].status == 'dead': return False
            s.x[('noalloc', buf)] = False
            return True
        def rnone(s): return s.assume_ge0(-ln)
        def rzst(s):
            if s.x.get(('noalloc', buf)) is False: return False
            s.x[('noalloc', buf)] = True
            return s.assume_ge0(ln - 1)
        alts = [(rsome, lambda s: some(self.link(s, 'A', buf, ty, fam))), (rnone, lambda s: NONE)]
        if self.it.zst: alts.append((rzst, lambda s: NONE))
        return alts
    def x_up(self, st, role, n, ty, fam):
        out = []
        for ref, p in self.parent_alts(st, n):
            if p is None: out.append((ref, lambda s: NONE))
            else:
                out.append((ref, (lambda p: lambda s: some(self.link(s, role, p, ty, fam)))(p)))
                if role == 'G':
                    # the guard was created after the enclosing data had gone
                    def gone(s, p=p, ref=ref):
                        if ref is not None and ref(s) is False: return False
                        dty = s.meta.get(('D', n)); o = ('D', p)
                        if o in s.meta:
                            if s.meta[o].status != 'dead': return False
                        s.x[('dgone', p)] = True
                        return True
                    out.append((gone, lambda s: NONE))
        return out
    def x_upw(self, st, role, n, ty, fam):
        out = []
        for ref, p in self.parent_alts(st, n):
            if p is None: out.append((ref, lambda s: H(fam, 'weak', None)))
            else:
                def val(s, p=p):
                    h = self.weaklink(s, role, p, ty, fam)
                    if s.x.get(('dgone', p)) and s.meta[h.obj].lb == 0: s.meta[h.obj] = s.meta[h.obj]._replace(status='dead'); s.x[('extdead', h.obj)] = True
                    return h
                out.append((ref, val))
        return out
    def x_upstruct(self, st, role, n, sty):
        out = []
        for ref, p in self.parent_alts(st, n):
            if p is None: out.append((ref, lambda s: NONE)); continue
            def val(s, p=p):
                side = self.node(s, n)[5]; fs = []
                for fn, ft in self.pr.fields(sty):
                    k = self.kind(ft)
                    if k[0] == 'strong': fs.append(self.link(s, role, p, k[2], k[1]))
                    elif k[0] == 'enum':
                        vs = [i for i, v in enumerate(self.pr.t(ft)['vs']) if ('left' if side == 'L' else 'right') in v['n'].lower()]
                        if len(vs) != 1: raise Undecided('enum %s' % fn)
                        fs.append(Agg(vs[0], ()))
                    elif k[0] == 'bool':
                        raise Undecided('side flag %s' % fn)
                    else: raise Undecided('field %s' % fn)
                return some(Agg(0, tuple(fs)))
            out.append((ref, val))
        return out
    def x_downw(self, st, role, n, side, ty, fam):
        c = self.child(st, n, side); o = (role, c)
        key = {'IG': 'a', 'MG': 'b'}.get(role)
        def ralive(s):
            self.mkchild(s, n, side)
            return s.assume_eq0(at(key, c) - 1) if key else True
        def rdead(s):
            if not key: return True
            self.mkchild(s, n, side)
            r = s.assume_eq0(at(key, c))
            if role == 'IG': r = r and s.assume_eq0(at('r', c))
            return r
        alive = (ralive, lambda s: self.weaklink(s, role, c, ty, fam))
        dead = (rdead, lambda s: H(fam, 'weak', None))
        if o in st.meta: return [alive] if st.meta[o].status == 'live' else [(None, lambda s: H(fam, 'weak', None))]
        if self.node(st, n)[6] >= 2: return [dead]
        return [dead, alive]
    def x_samew(self, st, role, n, ty, fam):
        o = (role, n); key = {'IG': 'a', 'MG': 'b'}.get(role)
        def ralive(s): return s.assume_eq0(at(key, n) - 1) if key else True
        def rdead(s):
            if not key: return True
            r = s.assume_eq0(at(key, n))
            if role == 'IG': r = r and s.assume_eq0(at('r', n)) and s.assume_eq0(at('a', self.child(s, n, 'L'))) and s.assume_eq0(at('a', self.child(s, n, 'R')))
            return r
        alive = (ralive, lambda s: self.weaklink(s, role, n, ty, fam))
        dead = (rdead, lambda s: H(fam, 'weak', None))
        if o in st.meta: return [alive] if st.meta[o].status == 'live' else [(None, lambda s: H(fam, 'weak', None))]
        return [dead, alive]
    def mkgbox(self, s, n, wty, content, tag='GB'):
        o = (tag, n)
        s.meta[o] = M('box', 'arc', wty, None, 1, None, 0, 'live', o, False, True, '')
        s.mem[o] = content
        return o
    def x_gbox(self, st, role, n, wty, gty):
        def alive(s):
            h = self.weaklink(s, role, n, gty, 'arc')
            return P(self.mkgbox(s, n, wty, h), ())
        def dead(s):
            return P(self.mkgbox(s, n, wty, H('arc', 'weak', None)), ())
        o = (role, n)
        if o in st.meta and st.meta[o].status == 'live': return [(None, alive)]
        # a live enclosing data whose guard is needed by a live guard below it
        if st.x.get('sole') is not None and not n.endswith('P'): return [(None, dead)]
        return [(None, alive), (None, dead)]
    # ------------------------------------------------------------------ environment
    def exact(self, st, obj):
        """in a history where the receiver is the only handle left: are all references to obj known?"""
        n0 = st.x.get('sole'); m = st.meta.get(obj)
        if n0 is None or m is None or m.tag is None: return False
        role, n = m.tag
        if role == 'D': return True
        return role == 'G' and isinstance(n, str) and n.startswith(n0) and not n[len(n0):].startswith('P')
    def is_ancestor(self, st, n):
        return isinstance(n, str) and n.endswith('P')
    def force_owners(self, it, st, obj):
        """resolve unmaterialised parts of live objects that may hold a reference to obj, which is about to lose its last known one"""
        role, n = obj
        for o, m in list(st.meta.items()):
            if m.status != 'live' or o not in st.mem or o == obj: continue
            def walk(v, path):
                if isinstance(v, Lazy):
                    hit = False
                    if v.kind == 'alloc' and role == 'A': hit = self.node(st, v.args[0])[1] == n
                    elif v.kind == 'up' and role == v.args[0] and v.args[1] != n: hit = self.node(st, n)[0] == 'arc' and self.node(st, v.args[1])[4] in (n, None)
                    elif v.kind == 'slot' and role == 'D': hit = self.node(st, n)[0] == 'arc' and self.node(st, n)[4] == v.args[0] and self.node(st, n)[5] == v.args[1]
                    if hit: it.force(st, P(o, path), v)
                elif isinstance(v, Agg):
                    for i, x in enumerate(v.fs): walk(x, path + (i,))
            walk(st.mem[o], ())
    def on_release(self, it, st, f, fam, obj):
        m = st.meta[obj]
        if m.tag is not None and not m.new and m.lb == 1 and m.status == 'live' and not self.probing and not st.x.get('calm'): self.force_owners(it, st, m.tag)
        if m.tag is None or m.new or m.tag[0] == 'A': return False
        role, n = m.tag
        entry = st.x.get('entrynode')
        if n == entry: return False
        if not self.is_ancestor(st, n) and role != 'D': return False
        if st.x.get(('mod', obj)) and role == 'D': return False
        if m.lb < 1: raise Violation('overrelease', 'reference to %s released more often than it is held' % it.objname(st, obj), obj=obj)
        lb = m.lb - 1
        if m.strong is not None:
            s = m.strong - 1
            z = False if lb > 0 else it.eq0(st, s)
            st.meta[obj] = m._replace(strong=s, lb=lb)
        else:
            z = False if lb > 0 else True if self.exact(st, obj) else False if st.x.get('calm') else it.choice(st, ('zero', obj), 2) == 1
            st.meta[obj] = m._replace(lb=lb)
        st.ev('dec', obj, z, it.site(st))
        if z:
            st.meta[obj] = st.meta[obj]._replace(status='dead')
            st.x[('absorbed', obj)] = True
            ts = []
            def walk(v):
                if isinstance(v, H) and v.obj is not None: ts.append(('rcdec' if v.kind == 'strong' else 'weakdec', v.fam, v.obj))
                elif isinstance(v, P) and not v.path and v.obj in st.meta:
                    if st.meta[v.obj].kind == 'rc': ts.append(('rcdec', fam, v.obj))
                    elif st.meta[v.obj].kind == 'box': ts.append(('boxfree', v.obj)); walk(st.mem.get(v.obj))
                elif isinstance(v, Agg):
                    for x in v.fs: walk(x)
            walk(st.mem.get(obj))
            it.more(f, ts)
            if role == 'D':
                st.ev('absorb', n, it.site(st))
                if it.maybe_panic(st, 'T::drop'):
                    st.panics += 1; st.ev('panic', 'T::drop', it.site(st)); f.unwinding = True; st.unwinding = True
        return True
    def on_store(self, it, st, p, v, m):
        """remember where a new node is linked into the tree"""
        if isinstance(v, Agg) and len(v.fs) == 1: v = v.fs[0]
        if not isinstance(v, P) or v.path or v.obj not in st.meta or not p.path: return
        c = st.meta[v.obj]
        if not c.new or c.kind != 'rc' or ('kid', v.obj) in st.x: return
        if self.role(c.ty) == 'D' and self.role(m.ty) == 'D':
            fs = self.pr.fields(m.ty)
            k = self.kind(fs[p.path[0]][1])
            if k[0] == 'raw' or k[0] == 'opt' and k[1][0] == 'raw': st.x[('kid', v.obj)] = (p.obj, self.side_of(fs[p.path[0]][0]))
    def on_count(self, st, obj):
        """non-linear part of the invariant: handles need their bookkeeping"""
        m = st.meta[obj]
        if m.fam != 'rc' or m.tag is None or m.new or m.tag[0] not in ('D', 'IG', 'MG'): return
        n = m.tag[1]
        for x in (n, self.child(st, n, 'L'), self.child(st, n, 'R')):
            if ('node', x) not in st.x: continue
            for k, r in (('a', 'r'), ('b', 'w')):
                if st.facts.ge0(-at(k, x)) is True and not st.assume_eq0(at(r, x)): raise Dead()
    def on_exclusive(self, it, st, obj):
        m = st.meta[obj]
        if m.ty is None or self.role(m.ty) != 'D' or obj not in st.mem: return
        def walk(v, path):
            if isinstance(v, Lazy):
                if v.kind in ('slot', 'alloc', 'gbox'): it.force(st, P(obj, path), v)
            elif isinstance(v, Agg):
                for i, x in enumerate(v.fs): walk(x, path + (i,))
        walk(st.mem[obj], ())
    def weak_floor(self, st, obj):
        return 1 if obj[0] == 'G' or (st.meta[obj].ty is not None and self.role(st.meta[obj].ty) == 'G') else 0
    def note(self, it, st, kind, msg):
        st.ev('note', kind, msg, it.site(st))
    def tainted(self, it, st, obj, o):
        self.note(it, st, 'ordering', '%s reached through a pointer read with %s ordering' % (it.objname(st, obj), o))
    def field_role(self, it, st, p):
        """('slot'|'gbox'|'gate'|None) for an atomic cell"""
        m = st.meta[p.obj]
        r = self.role(m.ty) if m.ty is not None else None
        if r == 'D' and len(p.path) >= 1:
            fs = self.pr.fields(m.ty)
            k = self.kind(fs[p.path[0]][1]); nm = fs[p.path[0]][0]
            if k[0] == 'raw': return ('slot', self.side_of(nm))
            if k[0] == 'ptr': return ('gbox', k)
        if r == 'G': return ('gate', p.path)
        return None
    def interfere(self, it, st, p, op):
        fr = self.field_role(it, st, p)
        if fr is None: return
        m = st.meta[p.obj]
        v = it.load(st, p)
        # a public function called by the analysed one is its own obligation: interference inside it is explored there
        nested = any(f.key in self.exported for f in st.frames[1:])
        if fr[0] == 'gate':
            if st.x.get(('held', p)) or self.probing or nested or st.x.get('quiet'): return
            last = st.x.get(('gv', p))
            tries = last[2] if last is not None and last[0] == 1 else 0          # found closed this often in a row
            if tries and tries >= (1 if op == 'load' and last[1] == 'load' else 3):
                val = 0             # asks again and again: it waits, and what it waits for comes
                st.ev('gate', 'waits', p, tuple(k[1] for k in st.x if isinstance(k, tuple) and k[0] == 'held'))
            else: val = it.choice(st, ('gate', p), 2)
            st.x[('gv', p)] = (val, op, tries + 1 if val else 0)
            st.mem[p.obj] = it.set_tree(st.mem[p.obj], p.path, const(val))
            return
        if st.x.get('quiet') or nested or self.probing: return
        if isinstance(v, Lazy): return
        if fr[0] == 'slot':
            if not (isinstance(v, Lin) and v == ZERO): return
            if m.new or m.tag is None or st.x.get(('interf', p)): return
            n = m.tag[1]; side = fr[1]
            if self.node(st, n)[6] >= 2: return
            ln = self.node(st, n)[3]
            if it.choice(st, ('interf', p), 2) == 0: return
            if not st.assume_ge0(ln - (1 if side == 'L' else 2)): raise Dead()
            st.x[('interf', p)] = True
            c = self.mkchild(st, n, side)
            h = self.link(st, 'D', c, m.ty, 'arc')
            st.x[('slot0', n, side)] = True
            st.ev('interf', 'slot', n, side)
            st.mem[p.obj] = it.set_tree(st.mem[p.obj], p.path, P(h.obj, ()))
            return
        if fr[0] == 'gbox':
            if m.tag is not None and m.tag[1] != st.x.get('entrynode') and self.node(st, m.tag[1])[6] <= 0: return
            if not isinstance(v, P): return
            if st.x.get(('interf', p)): return
            bm = st.meta.get(v.obj)
            if bm is None or bm.status == 'dead': return
            w = st.mem.get(v.obj)
            if isinstance(w, H) and w.obj is not None and st.meta[w.obj].status == 'live': return
            if bm.new and not m.new and v.obj != m: pass
            if st.x.get(('ourbox', v.obj)): return
            if it.choice(st, ('interf', p), 2) == 0: return
            st.x[('interf', p)] = True
            # another thread installs its own bookkeeping
            k = fr[1]; n = m.tag[1] if m.tag else str(p.obj)
            gty = k[1][2]
            if m.tag is None:
                n = 'new.' + str(p.obj[1]); st.x.setdefault(('node', n), ('arc', None, ZERO, ZERO, None, None, 5)); st.x[('root', n)] = True
            go = ('G', n)
            if go in st.meta: return
            h = self.weaklink(st, 'G', n, gty, 'arc')
            b = self.mkgbox(st, n, k[2], h, 'GB2')
            st.meta[v.obj] = bm._replace(lb=bm.lb - 1, shared=True)
            st.x[('extleak', v.obj)] = True
            st.ev('interf', 'gbox', n)
            st.mem[p.obj] = it.set_tree(st.mem[p.obj], p.path, P(b, ()))
    def on_publish(self, it, st, obj, p):
        todo = [obj]
        while todo:
            o = todo.pop()
            m = st.meta.get(o)
            if m is None or m.shared or not m.new: continue
            st.meta[o] = m._replace(shared=True, strong=None if m.kind == 'rc' else m.strong)
            def walk(v):
                if isinstance(v, H) and v.obj is not None and v.kind == 'strong': todo.append(v.obj)
                elif isinstance(v, P) and not v.path: todo.append(v.obj)
                elif isinstance(v, Agg):
                    for x in v.fs: walk(x)
            walk(st.mem.get(o))
        st.ev('publish', obj, p)
        fr = self.field_role(it, st, p)
        if fr is not None and fr[0] == 'gbox': st.x[('ourbox', obj)] = True
    def on_atomic(self, it, st, op, p, o, old, new):
        if not isinstance(p, P) or p.obj not in st.meta: return
        fr = self.field_role(it, st, p)
        if fr is None or fr[0] != 'gate': return
        if not (isinstance(old, Lin) and old.isconst() and isinstance(new, Lin) and new.isconst()): return
        sh = st.meta[p.obj].shared
        if op == 'load':
            if old.c == 0 and not st.x.get(('held', p)):
                st.ev('gate', 'passed', p)
                if not acquires(o) and sh: self.note(it, st, 'ordering', 'waits for a lock with a %s load' % o)
            return
        if op in ('swap', 'cas') and new.c == 1:
            if old.c == 0:
                st.x[('held', p)] = True
                st.ev('gate', 'close', p)
                if not acquires(o): self.note(it, st, 'ordering', 'closes a lock with %s ordering' % o)
            else: st.ev('gate', 'refused', p)
            return
        if op in ('store', 'swap', 'cas') and new.c == 0:
            if not st.x.get(('held', p)):
                if sh: self.note(it, st, 'lock', 'opens a lock it did not close')
            else:
                st.x.pop(('held', p)); st.x.pop(('gv', p), None)
                st.ev('gate', 'open', p)
                if not releases(o): self.note(it, st, 'ordering', 'opens a lock with %s ordering' % o)
            return
        if op == 'store' and new.c == 1 and sh and not st.x.get(('held', p)):
            self.note(it, st, 'lock', 'closes a lock without testing whether another thread holds it')
            st.x[('held', p)] = True
    # ------------------------------------------------------------------ opaque shared handles inside deques
    def intercept(self, it, st, c, name, args, dest, rt, tgt, uw):
        for a in args[:1]:
            v = a
            if isinstance(a, P):
                v = st.mem.get(a.obj)
                for i in a.path: v = v.fs[i] if isinstance(v, Agg) and i < len(v.fs) else None
            if isinstance(v, Opq) and v.tag == 'slice':
                short = name.rsplit('::', 1)[-1]
                buf, off, ln = v.args
                h = half(ln); z = it.zst
                L, R = Opq('slice', (buf, off, h)), Opq('slice', (buf, off if z else off + h, ln - h))
                if short == 'split_off_left': it.store(st, a, R); return (L,)
                if short == 'split_off_right': it.store(st, a, L); return (R,)
                if short == 'clone_left': return (L,)
                if short == 'clone_right': return (R,)
                if short == 'clone': return (v,)
                if short in ('deref', 'as_ref', 'borrow'): return (SP(IP(buf, off), ln),)
                if short == 'from' or short == 'into' or short == 'new': return None
        return self.sliceop(it, st, c, name, args, dest, rt, tgt, uw)
    SLICEOPS = {'<slice as core::cmp::PartialEq>::eq': 'eq', '<slice as core::cmp::PartialEq>::ne': 'ne', '<slice as core::cmp::PartialOrd>::partial_cmp': 'partial_cmp',
                '<slice as core::cmp::Ord>::cmp': 'cmp', '<slice as core::hash::Hash>::hash': 'hash', '<slice as core::fmt::Debug>::fmt': 'fmt'}
    ITEMOPS = {'core::cmp::Partial%s::%s' % (t, o): o for t, os in (('Eq', ('eq', 'ne')), ('Ord', ('partial_cmp', 'lt', 'le', 'gt', 'ge'))) for o in os}
    ITEMOPS.update({'core::cmp::Ord::cmp': 'cmp', 'core::hash::Hash::hash': 'hash'})
    def itemop(self, it, st, op, args, uw):
        """an operation of the item type on single items: every outcome is explored"""
        vs = []
        for a in args:
            v = a
            while isinstance(v, P): 
                w = it.load(st, v)
                if not isinstance(w, (P, IP, Lin)): break
                v = w
            vs.append(v)
        if not isinstance(vs[0], IP) and not (it.zst and isinstance(vs[0], Lin)): return None
        if it.maybe_panic(st, op): it.panic(st, 'user code in ' + op, uw); return True
        n = sum(1 for e in st.events() if e[0] == 'itemop')
        if n >= MAXITEMS: raise Undecided('more than %d items one by one' % MAXITEMS)
        if op == 'hash': r = UNIT; st.ev('itemop', op, vs[0], None, None); return (r,)
        k = it.choice(st, ('item', op), {'cmp': 3, 'partial_cmp': 4}.get(op, 2))
        st.ev('itemop', op, vs[0], vs[1], bool(k) if op not in ('cmp', 'partial_cmp') else (-1, 0, 1, None)[k])
        if op == 'cmp': return (Agg(k, ()),)
        if op == 'partial_cmp': return (some(Agg(k, ())) if k < 3 else NONE,)
        return (const(k),)
    def sliceop(self, it, st, c, name, args, dest, rt, tgt, uw):
        op = self.SLICEOPS.get(name)
        if op is None and c.get('kind') in ('unresolved', 'virtual') and c['def'] in self.ITEMOPS: return self.itemop(it, st, self.ITEMOPS[c['def']], args, uw)
        if op is None and c.get('kind') in ('unresolved', 'virtual') and c['def'] == 'core::clone::Clone::clone':
            v = args[0]; n = 0
            while isinstance(v, P) and n < 5:
                w = it.load(st, v); n += 1
                if not isinstance(w, (P, IP, Lin)): break
                v = w
            if isinstance(v, IP) or it.zst and isinstance(v, Lin):
                if it.maybe_panic(st, 'T::clone'): it.panic(st, 'T::clone', uw); return True
                k = sum(1 for e in st.events() if e[0] == 'create' and e[4][0] == 'one')
                if k >= MAXITEMS: raise Undecided('more than %d items one by one' % MAXITEMS)
                b = ('cl', k); st.ev('create', b, ZERO, ONE, ('one', v)); return (It(b, ZERO),)
        if op is None:
            if name in ('core::hash::Hash::hash_slice', 'core::fmt::Debug::fmt', 'core::hash::Hash::hash'): op = name
            else:
                m = name.rsplit('::', 1)[-1]
                if name.startswith('core::cmp::impls::') or name.startswith('<& as core::cmp') : return None
                return None
        vs = []
        for a in args:
            v = a
            # through references to references
            n = 0
            while isinstance(v, P) and n < 4:
                w = it.load(st, v)
                if isinstance(w, (SP, P)): v = w; n += 1
                else: break
            vs.append(v)
        if it.maybe_panic(st, op): it.panic(st, 'user code in ' + op, uw); return True
        if op in ('eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'):
            k = it.choice(st, ('sliceop', op), {'cmp': 3, 'partial_cmp': 4}.get(op, 2))
            st.ev('sliceop', op, tuple(vs), it.site(st), bool(k) if op not in ('cmp', 'partial_cmp') else (-1, 0, 1, None)[k])
            return (Agg(k, ()) if op == 'cmp' else const(k) if op != 'partial_cmp' else some(Agg(k, ())) if k < 3 else NONE,)
        st.ev('sliceop', op, tuple(vs), it.site(st))
        return (Opq('sliceop', (op, tuple(vs))),)
