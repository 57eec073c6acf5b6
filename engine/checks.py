"""Obligations decided on every exit state of every entry: ownership tokens, the item ledger, buffer ownership,
coupling of data and guard trees, locks, and the contract of the public function."""
from collections import Counter
from vals import *
from dom import Lin, const, atom, half, Facts
from interp import ZERO, ONE, State
from models import NONE
from spec import at
import model, excl, guards, post
from entry import short

class Entry:
    """one obligation family: a public function (or a handle drop) in one configuration"""
    def __init__(self, name, fam, fn, kind, root=None, zst=False, **k):
        self.name = name; self.fam = fam; self.fn = fn; self.kind = kind; self.root = root; self.zst = zst
        self.args = []; self.claims = []; self.recv = None; self.panics_expected = None; self.exp = None
        self.__dict__.update(k)

class Result:
    def __init__(self): self.viol = {}; self.und = set(); self.paths = 0; self.dead = 0; self.funcs = set(); self.checks = Counter(); self.exits = Counter(); self.assumed = set(); self.info = {}

def dview(ctx, s, o):
    """(buf, off, len) an RcSliceData/ArcSliceData object claims"""
    m = s.meta[o]; v = s.mem.get(o); spec = ctx.spec
    if not isinstance(v, Agg): raise Undecided('data value')
    ip = ln = None; n = 0
    for i, (fn, ft) in enumerate(ctx.pr.fields(m.ty)):
        k = spec.kind(ft)
        if k[0] == 'items': ip = v.fs[i]
        elif k[0] == 'int': ln = v.fs[i]; n += 1
    if n != 1: raise Undecided('length field')
    if isinstance(ip, IP): return (ip.buf, ip.off, ln)
    if isinstance(ip, Lin): return ('zst' if ctx.zst else None, ZERO, ln)
    raise Undecided('data view')

class Checker:
    def __init__(self, ctx, E, R):
        self.ctx = ctx; self.E = E; self.R = R; self.pr = ctx.pr; self.spec = ctx.spec; self.it = ctx.it; self.zst = ctx.zst; self.vcache = {}
    # ------------------------------------------------------------------ reporting
    def bad(self, s, kind, detail, msg, extra=(), want=None, facts=None, key=None, obj=None):
        if s is not None and kind not in ('excl', 'ordering', 'lock', 'guard') and excl.lost_upgrade(self, s):
            kind, key = 'excl', excl.LOST_UPGRADE           # consequences of that one
        if kind == 'leak' and s is not None and s.exitk == 'unwind' and s.x.get('userpanic'): return        # what is not freed when user code panics is merely leaked
        key = key or '%s:%s%s' % (self.E.name, kind, (':' + detail) if detail else '')
        tags = set()
        if s is not None:
            evs = s.events()
            if any(e[0] == 'interf' for e in evs): tags.add('interf')
            if s.panics or s.exitk == 'unwind': tags.add('panic')
        if self.zst: tags.add('zst')
        k = (kind, key, frozenset(tags))
        if k in self.R.viol: return
        f = facts or s.facts
        for e in extra:
            f = f.add_ge0(e)
            if f is None: return                # refuted
        m = model.find(facts or s.facts, extra, want=want, imps=self.imps(s))
        if m is None:
            self.R.und.add('%s: %s (%s): not established, no witness found' % (self.E.name, kind, detail or msg)); return
        self.R.viol[k] = msg + ('; e.g. with ' + model.show(m) if m else '')
    def imps(self, s):
        """facts of the invariant that are not linear: no bookkeeping, no handles"""
        out = []
        for k in s.x:
            if isinstance(k, tuple) and k[0] == 'node' and s.x[k][0] == 'rc': out += [(('a', k[1]), ('r', k[1])), (('b', k[1]), ('w', k[1]))]
        return out
    def count(self, what): self.R.checks[what] += 1
    def zero(self, s, l, kind, detail, msg, facts=None):
        self.count(kind)
        f = facts or s.facts
        r = f.eq0(l)
        if r is True: return True
        if l.isconst(): self.bad(s, kind, detail, msg, facts=facts); return False
        # two half-spaces
        n0 = len(self.R.viol)
        for e in ([l - 1], [-l - 1]):
            m = model.find(f, e, imps=self.imps(s))
            if m is not None: self.bad(s, kind, detail, msg, extra=e, facts=facts); return False
        self.R.und.add('%s: %s: could not decide %r = 0' % (self.E.name, kind, l))
        return False
    # ------------------------------------------------------------------ values
    def walk(self, v, ty, out):
        pr = self.pr; t = pr.t(ty)
        if isinstance(v, It): out.append(('item', ty, v)); return out
        if isinstance(v, Opq):
            if v.tag == 'slice': out.append(('oslice', ty, v))
            return out
        if isinstance(v, (BxS, Vc)): out.append(('buf', ty, v)); return out
        k = self.ctx.handle_kind(ty)
        if k: out.append((k, ty, v)); return out
        if isinstance(v, Agg) and t['k'] in ('adt', 'tuple', 'closure'):
            for i, (fn, ft) in enumerate(pr.fields(ty, v.v if t['k'] == 'adt' and t['ak'] == 'enum' else 0)):
                if i < len(v.fs): self.walk(v.fs[i], ft, out)
        return out
    def accessor(self, ty, kind):
        n = self.pr.t(ty)['n']
        names = ('deref',) if kind in ('shared', 'mut') else ('as_slice',)
        for r in self.pr.roots:
            if r.get('self_name') == n and r['name'] in names: return r
        raise Undecided('no accessor for %s' % n)
    def views(self, s, v, ty, kind):
        """[(facts, SP)] what the handle value shows"""
        key = (ty, kind, v, s.facts.cs)
        if key in self.vcache: return self.vcache[key]
        r = self.accessor(ty, kind)
        s2 = s.clone(); o = ('A', 'view'); s2.mem[o] = v
        s2.meta[o] = M('arg', None, ty, None, 1, ZERO, 0, 'live', None, True, False, '')
        outs, viols = self.ctx.sub(s2, r['key'], [P(o, ())])
        if viols:
            k, msg, site, vs, kw = viols[0]
            self.bad(s, 'view', k, 'reading the slice of a surviving handle: %s' % msg, facts=vs.facts)
        res = []
        for x in outs:
            if x.exitk != 'return': continue
            sp = x.result
            if not isinstance(sp, SP): raise Undecided('view %r' % (sp,))
            res.append((x.facts, sp))
        self.vcache[key] = res
        return res
    def eqview(self, s, facts, sp, exp, kind, detail, msg):
        """sp covers exactly exp = (buf, off, len)"""
        buf, off, ln = exp
        n0 = len(self.R.viol) + len(self.R.und)
        self.zero(s, sp.len - ln, kind, detail + ':len', '%s: length %r instead of %r' % (msg, sp.len, ln), facts)
        if self.zst: return
        f = facts.add_ge0(ln - 1)
        if f is None: return
        if not isinstance(sp.ptr, IP): self.bad(s, kind, detail + ':ptr', '%s: dangling pointer to a non-empty range' % msg, facts=f); return
        if sp.ptr.buf != buf: self.bad(s, kind, detail + ':buf', '%s: items live in another buffer' % msg, facts=f); return
        self.zero(s, sp.ptr.off - off, kind, detail + ':start', '%s: starts at %r instead of %r' % (msg, sp.ptr.off, off), f)
    # ------------------------------------------------------------------ interpreted deaths
    def interp_dead(self, s):
        r = set()
        for e in s.events():
            if e[0] == 'dec' and e[2]: r.add(e[1])
            elif e[0] == 'unwrapped': r.add(e[1])
        return set(o for o in r if not s.x.get(('absorbed', o)))
    def role(self, s, o):
        m = s.meta.get(o)
        if m is None or m.ty is None: return None
        if m.kind == 'box': return 'box'
        return self.spec.role(m.ty)
    # ------------------------------------------------------------------ all obligations on one exit
    def exit_safe(self, s):
        try: self.exit(s)
        except Undecided as u: self.R.und.add('%s: %s' % (self.E.name, u))
        except Exception as e:
            import traceback
            self.R.und.add('%s: internal error %r %s' % (self.E.name, e, traceback.format_exc(limit=-3)))
    def finish(self): self.R.funcs |= self.it.funcs
    def exit(self, s):
        E = self.E
        self.R.exits[s.exitk] += 1
        self.E.s = s; self.vcache = {}
        conts = []          # containers owned by the caller after the call
        if s.exitk == 'return' and E.root is not None and s.result is not None: self.walk(s.result, E.root['out_ty'], conts)
        self.reshandles = list(conts)
        for a in E.args:
            if a.ref and a.kind in ('shared', 'weak', 'mut', 'mutiter', 'mutparts', 'parts'):
                v = s.mem.get(a.obj)
                if v is UNINIT or v is None: self.bad(s, 'receiver', '', 'the receiver was moved out and not restored'); return
                self.walk(v, a.base, conts)
        self.conts = conts
        lg = True
        try: lg = excl.check(self, s)
        except Undecided as u: self.R.und.add('%s: exclusive: %s' % (E.name, u)); lg = False
        for what in ((self.tokens,) + ((self.ledger,) if lg else ()) + (self.buffers, self.structure, self.guards, self.locks, self.notes, self.effects)):
            try: what(s)
            except Undecided as u: self.R.und.add('%s: %s: %s' % (E.name, what.__name__, u))
        try: self.post(s)
        except Undecided as u: self.R.und.add('%s: post: %s' % (E.name, u))
    # ------------------------------------------------------------------ tokens
    def scan(self, s):
        st, wk, owner = Counter(), Counter(), {}
        def w(v, heap, own):
            if isinstance(v, H):
                if v.obj is None: return
                (st if v.kind == 'strong' else wk)[v.obj] += 1; owner.setdefault(v.obj, []).append(own)
            elif isinstance(v, Bx): st[v.obj] += 1
            elif isinstance(v, P):
                if heap and not v.path and v.obj in s.meta: st[v.obj] += 1; owner.setdefault(v.obj, []).append(own)
            elif isinstance(v, Agg):
                for x in v.fs: w(x, heap, own)
            elif isinstance(v, Dq):
                for o in v.items: w(s.mem.get(o), heap, own)
        if s.exitk == 'return' and s.result is not None: w(s.result, False, 'result')
        for a in self.E.args:
            if a.ref: w(s.mem.get(a.obj), False, 'arg')
        for o, m in s.meta.items():
            if m.kind in ('rc', 'box') and (m.status == 'live' or s.x.get(('extdead', o))): w(s.mem.get(o), True, o)
        self.owner = owner
        return st, wk
    def tokens(self, s):
        st, wk = self.scan(s)
        for o, m in s.meta.items():
            if m.kind not in ('rc', 'box'): continue
            self.count('tokens')
            nm = self.it.objname(s, o) if m.kind == 'rc' else 'Box'
            fn, wn = st[o], wk[o]
            if m.status == 'dead':
                if fn: self.bad(s, 'dangling', nm, 'a surviving handle or structure still refers to a destroyed %s' % nm)
                if m.wlb > wn and not s.x.get(('extdead', o)): self.bad(s, 'leak', 'weak-' + nm, 'a weak reference to %s is never released' % nm)
                continue
            if m.lb > fn:
                if s.x.get(('extleak', o)): continue
                if m.kind == 'box' and self.replaced(s, o):
                    self.bad(s, 'leak', '', 'the box behind the guard pointer is never freed after being replaced', key='arc:leak:replaced-guard-box'); continue
                self.bad(s, 'leak', nm, 'a reference to %s is never released' % nm)
            elif m.lb < fn:
                self.bad(s, 'dangling', nm, '%d live references to %s but only %d counted' % (fn, nm, m.lb))
            if m.kind == 'rc':
                if m.wlb > wn: self.bad(s, 'leak', 'weak-' + nm, 'a weak reference to %s is never released' % nm)
                elif m.wlb < wn: self.bad(s, 'dangling', 'weak-' + nm, 'more weak references to %s than counted' % nm)
    def replaced(self, s, o):
        return any(e[0] == 'atomic' and e[1] in ('cas', 'swap', 'store') and e[4] == P(o, ()) for e in s.events())
    # ------------------------------------------------------------------ item ledger
    def claims_of(self, s, conts):
        """[(facts, [(buf, off, len)])] of the containers that own items"""
        out = [(s.facts, [])]
        for k, ty, v in conts:
            if k == 'item': out = [(f, l + [(v.buf, v.off, ONE)]) for f, l in out]
            elif k == 'buf':
                if isinstance(v, BxS): out = [(f, l + [(v.buf, ZERO, v.len)]) for f, l in out]
                else: out = [(f, l + [(v.ptr.buf, v.ptr.off, v.len)]) for f, l in out] if isinstance(v.ptr, IP) else out
            elif k in ('mut', 'mutiter', 'mutparts'):
                nxt = []
                for f, l in out:
                    s2 = s.clone(); s2.facts = f
                    for f2, sp in self.views(s2, v, ty, k):
                        nxt.append((f2, l + [(sp.ptr.buf if isinstance(sp.ptr, IP) else None, sp.ptr.off if isinstance(sp.ptr, IP) else ZERO, sp.len)]))
                out = nxt
        return out
    def ledger(self, s):
        E = self.E; self.count('ledger')
        idead = self.interp_dead(s)
        plus = []; minus = []
        for o in idead:
            m = s.meta[o]
            if m.tag is None or m.new or m.tag[0] != 'D': continue
            n = m.tag[1]; fam, buf, off, ln, p = self.spec.node(s, n)[:5]
            if p is not None and ('D', p) in idead: pass
            else: plus.append((buf, off, ln))
            for side in 'LR':
                if s.x.get(('slot0', n, side)):
                    c = self.spec.child(s, n, side)
                    if ('D', c) not in idead:
                        r = self.spec.node(s, c); minus.append((r[1], r[2], r[3]))
        linked = set()
        for o, m in s.meta.items():
            if m.status == 'live' and self.role(s, o) == 'D' and isinstance(s.mem.get(o), Agg):
                def w(v):
                    if isinstance(v, P) and not v.path: linked.add(v.obj)
                    elif isinstance(v, Agg):
                        for x in v.fs: w(x)
                w(s.mem[o])
        for o, m in s.meta.items():
            if m.new and m.tag is None and m.status == 'live' and self.role(s, o) == 'D' and o not in linked:
                minus.append(dview(self.ctx, s, o))
        for e in s.events():
            if e[0] in ('dropitems', 'handed'): minus.append((e[1], e[2], e[3]))
            elif e[0] == 'create': plus.append((e[1], e[2], e[3]))
            elif e[0] == 'moveitems': plus.append((e[3], e[4], e[5])); minus.append((e[1], e[2], e[5]))
            elif e[0] == 'write':
                if isinstance(e[3], It): raise Undecided('item moved within a buffer')
        plus += E.claims
        for facts, cl in self.claims_of(s, [c for c in self.conts]):
            self.balance(s, facts, plus, minus + cl)
    def balance(self, s, facts, plus, minus):
        if self.zst:
            d = ZERO
            for b, o, l in plus: d = d + l
            for b, o, l in minus: d = d - l
            if facts.eq0(d) is True: return
            for e, k, msg in (([-d - 1], 'double', 'items are dropped or handed out more than once'), ([d - 1], 'lost', 'items are neither dropped nor owned any more')):
                if k == 'lost' and s.exitk == 'unwind' and s.x.get('userpanic'): continue
                if facts.add_ge0(e[0]) is not None: self.bad(s, 'items', k, msg, extra=e, facts=facts)
            return
        bufs = {}
        for sg, l in ((1, plus), (-1, minus)):
            for b, o, n in l:
                if facts.eq0(n) is True: continue
                if b is None:
                    if facts.ge0(n - 1) is not True: raise Undecided('dangling range')
                pts = bufs.setdefault(b, {})
                pts[o] = pts.get(o, 0) + sg; pts[o + n] = pts.get(o + n, 0) - sg
        for b, pts in bufs.items():
            r = self.bal(facts, pts, 0)
            if r is True: continue
            if isinstance(r, str): raise Undecided('ledger: ' + r)
            f = r
            atoms = set()
            for x in pts: model.base_atoms(x, atoms)
            P_ = [(o, n) for bb, o, n in plus if bb == b]; N_ = [(o, n) for bb, o, n in minus if bb == b]
            def cover(l, m, i): return sum(1 for o, n in l if model.ev(o, m) <= i < model.ev(o, m) + model.ev(n, m))
            def over(m): 
                hi = max([0] + [model.ev(o, m) + model.ev(n, m) for o, n in P_ + N_])
                return any(cover(N_, m, i) > cover(P_, m, i) for i in range(min(hi, 200)))
            def under(m):
                hi = max([0] + [model.ev(o, m) + model.ev(n, m) for o, n in P_ + N_])
                return any(cover(N_, m, i) < cover(P_, m, i) for i in range(min(hi, 200)))
            m1 = model.find(facts, want=model.Want(atoms, over), imps=self.imps(s))
            m2 = model.find(facts, want=model.Want(atoms, under), imps=self.imps(s))
            if m1 is not None: self.bad(s, 'items', 'double', 'items are dropped or handed out more than once', facts=facts, want=model.Want(atoms, over))
            if m2 is not None and not (s.exitk == 'unwind' and s.x.get('userpanic')): self.bad(s, 'items', 'lost', 'items are neither dropped nor owned any more', facts=facts, want=model.Want(atoms, under))
            if m1 is None and m2 is None: raise Undecided('ledger not balanced symbolically, no witness')
    def bal(self, facts, pts, depth):
        """True when the signed points cancel under facts; else the facts of a branch where they do not"""
        ps = [(p, c) for p, c in pts.items() if c]
        merged = []
        for p, c in ps:
            for i, (q, d) in enumerate(merged):
                if facts.eq0(p - q) is True: merged[i] = (q, d + c); break
            else: merged.append((p, c))
        merged = [(p, c) for p, c in merged if c]
        if not merged: return True
        if depth > 10: return 'too deep'
        cand = None
        for i in range(len(merged)):
            for j in range(i + 1, len(merged)):
                if facts.eq0(merged[i][0] - merged[j][0]) is None:
                    opp = merged[i][1] * merged[j][1] < 0
                    if cand is None or (opp and not cand[2]): cand = (i, j, opp)
        if cand is None: return facts
        d = merged[cand[0]][0] - merged[cand[1]][0]
        for f in (facts.add_eq0(d), facts.add_ge0(d - 1), facts.add_ge0(-d - 1)):
            if f is None: continue
            r = self.bal(f, dict(merged), depth + 1)
            if r is not True: return r
        return True
    # ------------------------------------------------------------------ buffers
    def alloc_objs(self, s):
        out = {}
        for o, m in s.meta.items():
            if m.status == 'live' and m.kind == 'rc' and self.role(s, o) == 'A':
                if m.tag: out[o] = m.tag[1]; continue
                for i, (fn, ft) in enumerate(self.pr.fields(m.ty)):
                    v = s.mem[o].fs[i] if isinstance(s.mem.get(o), Agg) else None
                    if isinstance(v, IP): out[o] = v.buf
        return out
    def buffers(self, s):
        if self.zst: return
        own = self.alloc_objs(s); byb = {}
        for o, b in own.items(): byb.setdefault(b, []).append(o)
        inres = set()
        for k, ty, v in self.conts:
            if k == 'buf': inres.add(v.buf if isinstance(v, BxS) else getattr(v.ptr, 'buf', None))
        for b, d in s.bufs.items():
            self.count('buffers')
            n = len(byb.get(b, []))
            if d['status'] == 'freed':
                if n: self.bad(s, 'buffer', 'freed-while-owned', 'the buffer was freed while an owner of it is alive')
                continue
            ent = ('A', b)
            if not (d.get('new') or d.get('arg')):
                m = s.meta.get(ent)
                if m is not None and m.status == 'dead' and not s.x.get(('absorbed', ent)) and not s.x.get(('extdead', ent)):
                    self.bad(s, 'leak', 'buffer', 'the buffer is not freed although its last owner is gone', extra=[d['cap'] - 1])
                continue
            if n == 0 and b not in inres:
                if s.facts.ge0(-d['cap']) is True: continue
                if d.get('arg') and any(a.ref and a.buf == b for a in self.E.args): continue
                f = s.facts.add_ge0(d['cap'] - 1)
                if f is None: continue
                if s.exitk == 'unwind' and s.x.get('userpanic'): continue
                self.bad(s, 'leak', 'buffer', 'a buffer is neither freed nor owned', extra=[d['cap'] - 1])
            elif n > 1: self.bad(s, 'buffer', 'two-owners', 'two owners would free the same buffer', extra=[d['cap'] - 1])
            for o in byb.get(b, []):
                m = s.meta[o]
                if m.tag: continue
                v = s.mem[o]
                ints = [v.fs[i] for i, (fn, ft) in enumerate(self.pr.fields(m.ty)) if self.spec.kind(ft)[0] == 'int']
                ips = [v.fs[i] for i, (fn, ft) in enumerate(self.pr.fields(m.ty)) if isinstance(v.fs[i], IP)]
                if len(ints) == 1: self.zero(s, ints[0] - d['cap'], 'buffer', 'layout', 'the owner would free the buffer with a layout of %r instead of %r items' % (ints[0], d['cap']))
                if len(ips) == 1: self.zero(s, ips[0].off, 'buffer', 'address', 'the owner would free the buffer at a different address')
    # ------------------------------------------------------------------ structure
    def alloc_of(self, s, v):
        """'lazy' | alloc object | None held inside an owner value"""
        if isinstance(v, Lazy): return 'lazy' if v.kind in ('alloc', 'alloc2') else None
        if isinstance(v, H): return v.obj if v.kind == 'strong' and v.obj is not None and self.role(s, v.obj) == 'A' else None
        if isinstance(v, Agg):
            for x in v.fs:
                r = self.alloc_of(s, x)
                if r is not None: return r
        return None
    def need_alloc(self, s, facts, v, buf, ln, what):
        if self.zst: return
        self.count('alloc')
        a = self.alloc_of(s, v)
        if a == 'lazy': return
        f = facts.add_ge0(ln - 1)
        if f is None: return
        if a is None: self.bad(s, 'alloc', 'missing', '%s with items does not keep the buffer alive' % what, facts=f); return
        b = self.alloc_objs(s).get(a)
        if b is None: self.bad(s, 'alloc', 'dead', '%s keeps a destroyed buffer owner' % what, facts=f); return
        if b != buf: self.bad(s, 'alloc', 'other', '%s keeps another buffer alive' % what, facts=f)
    def slots(self, s, o):
        m = s.meta[o]; v = s.mem.get(o); out = []
        if not isinstance(v, Agg): return out
        for i, (fn, ft) in enumerate(self.pr.fields(m.ty)):
            k = self.spec.kind(ft)
            if k[0] == 'raw' or k[0] == 'opt' and k[1][0] == 'raw': out.append((self.spec.side_of(fn), v.fs[i]))
        return out
    def structure(self, s):
        for o, m in s.meta.items():
            if m.status != 'live' or self.role(s, o) != 'D' or not isinstance(s.mem.get(o), Agg): continue
            v = s.mem[o]
            new = m.tag is None
            if not new and not s.x.get(('mod', o)): continue
            buf, off, ln = dview(self.ctx, s, o)
            if not new:
                r = self.spec.node(s, m.tag[1])
                self.eqview(s, s.facts, SP(IP(buf, off), ln), (r[1], r[2], r[3]), 'shared-range', '', 'a slice that other handles may share changes its range')
            else: self.need_alloc(s, s.facts, v, buf, ln, 'a shared slice')
            for side, sv in self.slots(s, o):
                if isinstance(sv, Agg) and sv.fs: sv = sv.fs[0]
                if not isinstance(sv, P) or sv.obj not in s.meta: continue
                c = sv.obj; cm = s.meta[c]
                if cm.status != 'live': continue            # reported by tokens
                self.count('children')
                h = half(ln)
                exp = (buf, off, h) if side == 'L' else (buf, off if self.zst else off + h, ln - h)
                cb, co, cl = dview(self.ctx, s, c)
                self.eqview(s, s.facts, SP(IP(cb, co), cl), exp, 'child', side, 'the %s child of a slice' % ('left' if side == 'L' else 'right'))
        for k, ty, v in self.conts:
            if k in ('mut', 'mutiter', 'mutparts'):
                for f, sp in self.views(s, v, ty, k):
                    self.need_alloc(s, f, v, sp.ptr.buf if isinstance(sp.ptr, IP) else None, sp.len, self.pr.name(ty))
    # ------------------------------------------------------------------ locks and remarks
    def locks(self, s):
        for k in s.x:
            if isinstance(k, tuple) and k[0] == 'held' and len(k) == 2 and isinstance(k[1], P):
                self.count('locks')
                self.bad(s, 'lock', 'kept', 'an internal lock closed by the call is still closed when it ends')
        for e in s.events():
            if e[0] == 'gate' and e[1] == 'waits':
                self.count('locks')
                if len(e) > 3 and any(isinstance(x, P) for x in e[3]): self.bad(s, 'lock', 'wait', 'waits for a lock while holding another')
    def notes(self, s):
        for e in s.events():
            if e[0] == 'note': self.bad(s, e[1], e[2].split(' with ')[0].replace(' ', '-')[:60], e[2])
    # ------------------------------------------------------------------ effects allowed to the function
    SHARING = {'clone_left', 'clone_right', 'split_off_left', 'split_off_right', 'split_into_parts', 'downgrade', 'upgrade', 'into_mut', 'into_immut',
               'from_boxed_slice', 'try_from', 'deref', 'as_ref', 'borrow', 'get_mut', 'deref_mut', 'as_mut', 'borrow_mut', 'into_iter', 'len', 'size_hint', 'as_slice', 'as_mut_slice',
               'split_off_from', 'split_off_to', 'new'}
    def shares(self):
        E = self.E
        return E.fn in self.SHARING or E.fn == 'clone' and E.kind in ('shared', 'weak', 'parts') or E.fn in ('next', 'next_back') and E.kind in ('mutparts', 'parts') \
            or E.fn == 'from' and bool(E.args) and E.args[0].kind in ('box', 'mut')
    def effects(self, s):
        E = self.E; evs = s.events()
        byref = E.recvref == 'shared'
        share = self.shares()
        for e in evs:
            if e[0] == 'dropitems' and byref and E.kind != 'weak':
                if s.facts.ge0(-e[3]) is True or (s.bufs.get(e[1]) or {}).get('new') or any(c[0] == 'create' and (c[1] == e[1] or self.zst and c[4][0] == 'one') for c in evs): continue        # dropping what the call itself made is fine
                self.count('effects')
                self.bad(s, 'effect', 'drop', 'drops items although it only borrows the handle', extra=[e[3] - 1])
            if share:
                if e[0] in ('read', 'write', 'moveitems') : self.bad(s, 'effect', 'copy', 'reads or writes items (%s)' % e[0])
                elif e[0] in ('create', 'clonefrom'): self.bad(s, 'effect', 'copy', 'clones or creates items')
        if share:
            self.count('effects')
            for b, d in s.bufs.items():
                if d.get('new') and s.facts.ge0(-d['cap']) is not True and not self.zst: self.bad(s, 'effect', 'copy', 'allocates a new item buffer', extra=[d['cap'] - 1])
    # ------------------------------------------------------------------ guards
    def guards(self, s): guards.check(self, s)
    def post(self, s): post.check(self, s)
