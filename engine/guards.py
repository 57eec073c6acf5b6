"""Coupling of the data tree and the bookkeeping trees on exit states: every handle carries the bookkeeping of exactly its
own slice, every bookkeeping object holds that of the enclosing slice and is registered where other handles look for it."""
from vals import *

class G:
    def __init__(self, C, s):
        self.C = C; self.s = s; self.pr = C.pr; self.spec = C.spec; self.fam = C.E.fam
    # ---------------------------------------------------------------- node identification
    def role(self, o): return self.C.role(self.s, o)
    def fields(self, o):
        m = self.s.meta[o]; v = self.s.mem.get(o)
        if not isinstance(v, Agg): raise Undecided('bookkeeping object')
        return [(fn, self.spec.kind(ft), ft, v.fs[i]) for i, (fn, ft) in enumerate(self.pr.fields(m.ty))]
    def kid(self, n, side):
        return self.spec.child(self.s, n, side) if isinstance(n, str) else (n, side)
    def D(self, o):
        m = self.s.meta[o]
        if m.tag is not None: return m.tag[1]
        k = self.s.x.get(('kid', o))
        if k: return self.kid(self.D(k[0]), k[1])
        return ('root', o)
    def parentage(self, o):
        """(parent object, side) recorded in a bookkeeping object, None for none, 'lazy' when not looked at"""
        r = self.role(o)
        for fn, k, ft, v in self.fields(o):
            if k[0] != 'opt' or [self.role_ty(x) for x in self.spec.strong_fields(ft)] != [r]: continue
            if isinstance(v, Lazy): return 'lazy'
            if isinstance(v, Agg) and v.v == 0: return None
            w = v.fs[0]
            if isinstance(w, H): return (w.obj, None)
            if isinstance(w, Agg):
                sty = k[2]; p = side = None
                for i, (f2, t2) in enumerate(self.pr.fields(sty)):
                    if isinstance(w.fs[i], H): p = w.fs[i].obj
                    elif isinstance(w.fs[i], Agg) and self.spec.kind(t2)[0] == 'enum':
                        nm = self.pr.t(t2)['vs'][w.fs[i].v]['n'].lower()
                        side = 'L' if 'left' in nm else 'R' if 'right' in nm else None
                if p is not None: return (p, side)
            raise Undecided('parentage')
        return None
    def role_ty(self, ty): return self.spec.role(ty)
    def MG(self, o):
        m = self.s.meta[o]
        if m.tag is not None: return m.tag[1]
        p = self.parentage(o)
        if p == 'lazy': raise Undecided('lazy new object')
        if p is None: return ('fresh', o)
        if p[1] is None: raise Undecided('side of a bookkeeping object')
        return self.kid(self.MG(p[0]), p[1])
    def IG(self, o):
        m = self.s.meta[o]
        if m.tag is not None: return m.tag[1]
        for fn, k, ft, v in self.fields(o):
            if k[0] == 'strong' and self.role_ty(k[2]) == 'MG' and isinstance(v, H): return self.MG(v.obj)
        raise Undecided('bookkeeping of unknown place')
    def box_of(self, d):
        for fn, k, ft, v in self.fields(d):
            if k[0] == 'ptr' and k[1][0] == 'weak':
                return v
        return None
    def registered(self, d):
        """guard a data object points to: object | None | 'lazy'"""
        p = self.box_of(d)
        if isinstance(p, Lazy): return 'lazy'
        if not isinstance(p, P): return None
        w = self.s.mem.get(p.obj)
        if isinstance(w, Lazy): return 'lazy'
        return w.obj if isinstance(w, H) else None
    def Gd(self, o):
        m = self.s.meta[o]
        if m.tag is not None and not str(m.tag[1]).startswith('new.'): return m.tag[1]
        for d, dm in self.s.meta.items():
            if dm.kind == 'rc' and self.role(d) == 'D' and isinstance(self.s.mem.get(d), Agg) and self.registered(d) == o: return self.D(d)
        return ('loose', o)
    def node(self, o):
        return {'D': self.D, 'MG': self.MG, 'IG': self.IG, 'G': self.Gd}[self.role(o)](o)
    def same(self, d, g):
        """node of a data object against node of a bookkeeping object"""
        if d == g: return True
        if isinstance(d, tuple) and d[0] == 'root' and isinstance(g, tuple) and g[0] == 'fresh': return self.pairs.setdefault(d, g) == g and self.rpairs.setdefault(g, d) == d
        if isinstance(d, tuple) and isinstance(g, tuple) and d[0] not in ('root', 'fresh', 'loose') and g[0] not in ('root', 'fresh', 'loose'): return d[1] == g[1] and self.same(d[0], g[0])
        return False
    # ---------------------------------------------------------------- checks
    def bad(self, detail, msg): self.C.bad(self.s, 'guard', detail, msg)
    def handle_parts(self, v):
        out = []
        def w(x):
            if isinstance(x, H): out.append(x)
            elif isinstance(x, Agg):
                for y in x.fs: w(y)
        w(v); return out
    def src_dead(self):
        a = self.C.E.recv
        if a is None or a.kind != 'weak': return False
        v = self.s.mem.get(a.obj) if a.ref else a.val
        if any(isinstance(x, Lazy) for x in v.fs): return False         # nobody looked at it: it may be the current one
        hs = self.handle_parts(v)
        return not any(h.obj is not None and self.role(h.obj) in ('G', 'IG', 'MG') for h in hs)
    def live(self, o): return o is not None and o in self.s.meta and self.s.meta[o].status == 'live'
    def run(self):
        s = self.s; self.pairs = {}; self.rpairs = {}
        for k, ty, v in self.C.conts:
            if k not in ('shared', 'weak'): continue
            if isinstance(v, Opq): continue
            self.C.count('guard')
            hs = self.handle_parts(v)
            d = [h for h in hs if h.obj is not None and self.role(h.obj) == 'D']
            g = [h for h in hs if h.obj is not None and self.role(h.obj) in ('IG', 'MG', 'G')]
            if k == 'shared':
                if len(d) != 1 or len(g) != 1: raise Undecided('shape of a shared handle')
                if d[0].kind != 'strong' or g[0].kind != 'strong': raise Undecided('shape of a shared handle')
            if k == 'weak' and not d: continue
            if len(d) != 1 or len(g) > 1: raise Undecided('shape of a weak handle')
            if not g:
                if isinstance(v, Agg) and any(isinstance(x, Lazy) for x in v.fs): continue         # untouched
                if self.fam == 'arc' and self.src_dead(): continue      # the bookkeeping the source handle refers to is gone
                self.bad('weak-none', 'a weak handle carries no bookkeeping of its slice'); continue
            if self.fam == 'rc' and not self.live(g[0].obj): self.bad('dead', 'a handle carries destroyed bookkeeping'); continue
            nd, ng = self.node(d[0].obj), self.node(g[0].obj)
            if not self.same(nd, ng): self.bad('mismatch-' + k, 'a handle carries the bookkeeping of another slice than the one it shows')
        # every live bookkeeping object
        seen = {}
        for o, m in list(s.meta.items()):
            if m.kind != 'rc' or m.status != 'live' or m.ty is None: continue
            r = self.role(o)
            if r not in ('IG', 'MG', 'G', 'D') or not isinstance(s.mem.get(o), Agg): continue
            if m.new and m.lb == 0: continue
            try: n = self.node(o)
            except Undecided:
                if r == 'D': continue
                raise
            if r != 'D' or m.new is False or ('kid', o) in s.x:
                q = seen.setdefault((r, repr(n)), o)
                if q != o and not (isinstance(n, tuple) and n[0] == 'loose'):
                    if not s.x.get(('extdead', q)) and not s.x.get(('extdead', o)) and s.meta[q].lb > 0 and m.lb > 0:
                        self.bad('duplicate', 'two objects of bookkeeping for one slice are in use at once')
            getattr(self, 'chk_' + r)(o, m, n)
    def slot(self, p, role, side):
        """the registration slot of p for its child of the given role and side: ('none',) when p has no such field"""
        for fn, k, ft, v in self.fields(p):
            if k[0] == 'weak' and self.role_ty(k[2]) == role:
                f = fn.lower()
                if side is None and 'left' not in f and 'right' not in f: return v
                if side == 'L' and 'left' in f or side == 'R' and 'right' in f: return v
        return None
    def check_slot(self, p, role, side, o, what):
        if not self.live(p): return
        v = self.slot(p, role, side)
        if v is None: return                     # this design keeps no such registration
        self.C.count('registered')
        if isinstance(v, Lazy):
            if self.s.meta[o].new: self.bad('unregistered-' + what, 'new bookkeeping (%s) is not registered where other handles look for it' % what)
            return
        if isinstance(v, H) and v.obj != o: self.bad('unregistered-' + what, 'bookkeeping in use (%s) is not registered where other handles look for it' % what)
    def chk_MG(self, o, m, n):
        p = self.parentage(o)
        if p in (None, 'lazy'): return
        self.check_slot(p[0], 'MG', p[1], o, 'get_mut')
        if m.new and isinstance(n, tuple): pass
    def chk_IG(self, o, m, n):
        mg = [v.obj for fn, k, ft, v in self.fields(o) if k[0] == 'strong' and self.role_ty(k[2]) == 'MG' and isinstance(v, H)]
        if len(mg) != 1: return
        mg = mg[0]
        self.check_slot(mg, 'IG', None, o, 'into_mut')
        p = self.parentage(o)
        if m.new:
            mp = self.parentage(mg)
            root = isinstance(n, str) and self.s.x.get(('root', n)) or isinstance(n, tuple) and n[0] == 'fresh'
            if p is None:
                if mp not in (None,) and not (mp == 'lazy' and root): self.bad('no-parent', 'the bookkeeping of a subslice does not hold that of the enclosing slice')
                return
        if p in (None, 'lazy'): return
        # registered in, and child of, the right parent
        side = None
        mp = self.parentage(mg)
        if mp not in (None, 'lazy'):
            side = mp[1]
            if m.new and self.IG(p[0]) != self.MG(mp[0]): self.bad('wrong-parent', 'the bookkeeping of a subslice holds that of a slice which does not enclose it')
            self.check_slot(p[0], 'IG', side, o, 'into_mut child')
        elif m.new and mp is None: self.bad('wrong-parent', 'the bookkeeping of a whole slice claims to be part of another')
        elif m.new:
            t = self.s.meta[mg].tag
            if t is None: raise Undecided('parent of new bookkeeping')
            par, sd = self.spec.node(self.s, t[1])[4:6]
            if par is None: self.bad('wrong-parent', 'the bookkeeping of a whole slice claims to be part of another')
            else:
                if self.IG(p[0]) != par: self.bad('wrong-parent', 'the bookkeeping of a subslice holds that of a slice which does not enclose it')
                self.check_slot(p[0], 'IG', sd, o, 'into_mut child')
    def chk_G(self, o, m, n):
        if not m.new: return
        s = self.s
        if isinstance(n, tuple) and n[0] == 'loose':
            if m.lb: self.bad('unregistered', 'new bookkeeping is not registered with its slice')
            return
        ds = [d for d, dm in s.meta.items() if dm.kind == 'rc' and self.role(d) == 'D' and isinstance(s.mem.get(d), Agg) and self.registered(d) == o]
        if len(ds) > 1: self.bad('two-slices', 'one object of bookkeeping is registered with two slices'); return
        d = ds[0]; p = self.parentage(o)
        up = [v for fn, k, ft, v in self.fields(d) if k[0] == 'weak' and self.role_ty(k[2]) == 'D']
        if len(up) != 1: raise Undecided('link to the enclosing slice')
        up = up[0]
        if isinstance(up, Lazy):
            if p is None and not s.x.get(('root', self.D(d))): self.bad('no-parent', 'the bookkeeping of a subslice does not hold that of the enclosing slice')
            return
        if not isinstance(up, H) or up.obj is None:
            if p not in (None, 'lazy'): self.bad('wrong-parent', 'the bookkeeping of a whole slice claims to be part of another')
            return
        if p is None:
            if s.meta[up.obj].status == 'live': self.bad('no-parent', 'the bookkeeping of a subslice does not hold that of the enclosing slice')
        elif p != 'lazy' and self.Gd(p[0]) != self.D(up.obj): self.bad('wrong-parent', 'the bookkeeping of a subslice holds that of a slice which does not enclose it')
    def chk_D(self, o, m, n):
        s = self.s
        if m.new and self.fam == 'arc':
            k = s.x.get(('kid', o))
            up = [v for fn, kk, ft, v in self.fields(o) if kk[0] == 'weak' and self.role_ty(kk[2]) == 'D']
            if len(up) == 1 and isinstance(up[0], H):
                self.C.count('parent-link')
                if k and up[0].obj != k[0]: self.bad('parent-link', 'a new subslice does not know the slice it is part of')
        if self.fam == 'arc':
            g = self.registered(o)
            if g in ('lazy', None) and not (g is None and self.box_of(o) is not None): return
            e = ('G', n) if isinstance(n, str) else None
            if e in s.meta and s.meta[e].status == 'live' and s.meta[e].lb > 0 and g != e: self.bad('registration-lost', 'bookkeeping still in use is no longer registered with its slice')
def check(C, s):
    if C.E.kind in ('mutiter', 'mutparts') or C.E.kind == 'mut' and C.E.fn not in ('into_immut', 'from', 'try_from'): return
    G(C, s).run()
