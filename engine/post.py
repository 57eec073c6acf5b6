"""Contracts of the public functions, decided on every exit state."""
from vals import *
from dom import Lin, const, half
from interp import ZERO, ONE
from models import NONE
import itertools
import model
import excl
BIG = 256

def is_some(v): return isinstance(v, Agg) and v.v == 1 and len(v.fs) == 1
def is_none(v): return isinstance(v, Agg) and v.v == 0 and not v.fs
def isU(v): return v is UNINIT or v is None
CMP = ('eq', 'ne', 'partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge')
REFS = ('deref', 'as_ref', 'borrow', 'deref_mut', 'as_mut', 'borrow_mut', 'as_slice', 'as_mut_slice')
KEEP = ('clone_left', 'clone_right', 'clone', 'get_mut', 'downgrade', 'upgrade', 'fmt', 'hash', 'len', 'size_hint') + CMP + REFS

class Post:
    def __init__(self, C, s): self.C = C; self.s = s; self.E = C.E; self.spec = C.spec; self.pr = C.pr; self.z = C.zst
    # ---------------------------------------------------------------- helpers
    def bad(self, detail, msg, extra=(), facts=None, kind='post'): self.C.bad(self.s, kind, detail, msg, extra=extra, facts=facts)
    def zero(self, l, detail, msg, facts=None): return self.C.zero(self.s, l, 'post', detail, msg, facts)
    def sp(self, sp, exp, detail, msg, facts=None): self.C.eqview(self.s, facts or self.s.facts, sp, exp, 'post', detail, msg)
    def off(self, o, d): return o if self.z else o + d
    def halves(self, v):
        b, o, n = v; h = half(n)
        return (b, o, h), (b, self.off(o, h), n - h)
    def entry_view(self, i=0):
        a = self.E.args[i]
        if a.kind in ('shared', 'weak'): return self.spec.node(self.E.entry if ('node', a.node) in self.E.entry.x else self.s, a.node)[1:4]
        if a.kind in ('mut', 'mutiter', 'box', 'vec', 'mutparts'):
            k = sum(1 for x in self.E.args[:i] if x.kind in ('mut', 'mutiter', 'mutparts', 'box', 'vec'))
            b, o, n = self.E.claims[k]
            return (b, o, n)
        if a.kind == 'parts': return self.parts_view(self.E.pos)
        raise Undecided('view of a %s argument' % a.kind)
    def handles(self, v, ty): return self.C.walk(v, ty, [])
    def result(self, kind, exp, detail, msg, v=None, ty=None):
        """the result is one handle of the given kind showing exactly exp"""
        hs = self.C.reshandles if v is None else self.handles(v, ty)
        if len(hs) != 1 or hs[0][0] != kind:
            if len(hs) == 1 and hs[0][0] == 'oslice' : return
            raise Undecided('result of %s' % self.E.name)
        k, ty, h = hs[0]
        for f, sp in self.C.views(self.s, h, ty, k): self.sp(sp, exp, detail, msg, f)
        return h
    def rest(self, exp, detail='rest', msg='what the receiver shows afterwards'):
        a = self.E.recv
        for f, sp in self.C.views(self.s, self.s.mem[a.obj], a.base, a.kind): self.sp(sp, exp, detail, msg, f)
    def payload(self):
        """the value inside a Some/Ok result"""
        return self.s.result.fs[0]
    def dobj(self, v):
        ds = [h for h in excl.hs(v) if h.obj is not None and self.C.role(self.s, h.obj) == 'D']
        return ds[0].obj if len(ds) == 1 else None
    def possible(self, extra): 
        f = self.s.facts
        for e in extra:
            f = f.add_ge0(e)
            if f is None: return False
        return True
    # ---------------------------------------------------------------- parts
    def part_list(self):
        v = self.E.view; l = [v]; n = 1
        while n < self.E.N: l = [h for x in l for h in self.halves(x)]; n *= 2
        return l
    def before(self, i):
        """number of items in the first i of the N parts"""
        n = self.E.view[2]; N = self.E.N
        if i >= N: return n
        acc = ZERO
        while N > 1:
            N //= 2; h = half(n)
            if i >= N: acc = acc + h; n = n - h; i -= N
            else: n = h
        return acc
    def part_at(self, i):
        b, o, n = self.E.view; x = self.before(i)
        return (b, self.off(o, x), self.before(i + 1) - x)
    def parts_view(self, pos):
        if self.E.N > BIG:
            f, b = pos; o, n = self.before(f), self.before(self.E.N - b)
            return (self.E.view[0], self.off(self.E.view[1], o), n - o)
        f, b = pos; l = self.part_list()[f:self.E.N - b]
        if not l: return (self.E.view[0], ZERO, ZERO)
        n = ZERO
        for x in l: n = n + x[2]
        return (l[0][0], l[0][1], n)
    # ---------------------------------------------------------------- dispatch
    def run(self):
        E, s = self.E, self.s
        if E.kind is None or E.root is None: return
        if s.exitk == 'unwind': return self.unwound()
        if s.exitk != 'return': return
        a = E.recv
        if a is not None and a.ref and E.fn in KEEP and a.kind in ('shared', 'mut', 'mutiter', 'mutparts'):
            self.rest(self.entry_view(), 'receiver', 'the receiver is not left as it was')
            if a.kind == 'shared' and self.dobj(s.mem[a.obj]) != ('D', a.node): self.bad('receiver', 'the receiver is not left as it was')
        m = getattr(self, '%s_%s' % (E.kind, E.fn), None)
        if m is None and E.fn in CMP: m = self.compare
        if m is None and E.fn in REFS: m = self.ref
        if m is None: m = getattr(self, 'any_' + E.fn, None)
        if m is None: return self.reveals()
        self.C.count('contract')
        m()
    COUNTS = ('cnt', 'a', 'b', 'r', 's', 'w', 'k', 'addr', 'paddr')
    def reveals(self):
        """a function without a contract of its own tells no internal count or address"""
        def ints(v):
            if isinstance(v, Lin): yield v
            elif isinstance(v, Agg):
                for x in v.fs: yield from ints(x)
        self.C.count('reveals')
        for l in ints(self.s.result):
            at = set(); model.base_atoms(l, at)
            at = [a for a in at if isinstance(a, tuple) and a[0] in self.COUNTS]
            if at: self.bad('reveals', '%s tells %s' % (self.E.fn, 'an address' if at[0][0].endswith('addr') else 'an internal count'), kind='reveals')
    def user_panic(self): return bool(self.s.x.get('userpanic'))
    def unwound(self):
        E, s = self.E, self.s
        if self.user_panic(): return
        if E.fn in ('split_off_from', 'split_off_to') and E.kind == 'mutiter':
            n = self.entry_view()[2]; at_ = E.args[1].val
            if self.possible([n - at_]): self.bad('rejects', '%s panics for a position within the slice' % E.fn, extra=[n - at_])
            self.rest(self.entry_view(), 'rejected', 'a rejected call leaves the iterator changed')
            return
        if E.fn == 'split_into_parts':
            if getattr(E, 'expect', None) == 'accepts': self.bad('accepts', 'split_into_parts panics for %r parts' % E.N)
            return
        ev = [e for e in s.events() if e[0] == 'panic']
        self.bad('panics', '%s panics (%s)' % (E.fn, ev[-1][1] if ev else '?'))
    # ---------------------------------------------------------------- construction and conversion
    def from_items(self, kind):
        E, s = self.E, self.s
        a = E.args[0]
        if a.kind in ('box', 'vec'): exp = self.entry_view(0)
        elif a.kind == 'user':
            cs = [e for e in s.events() if e[0] == 'create']
            if any(e[4][0] != 'iter' or e[1] != cs[0][1] for e in cs): raise Undecided('where the items come from')
            n = ZERO; at = -1
            for e in cs:
                if e[2] != n: raise Undecided('order of the items')
                x = e[4][1]
                if len(cs) > 1 or e[3] == ONE:
                    if not (isinstance(x, Opq) and x.tag == 'user' and x.args[0].endswith('Iterator::next') and x.args[-1] == 'some'): raise Undecided('where the items come from')
                    if x.args[2] < at: self.bad('order', 'the items are not in the order the iterator gave them'); return
                    at = x.args[2]
                n = n + e[3]
            if any(e[0] in ('moveitems', 'dropitems') for e in s.events()): raise Undecided('where the items come from')
            exp = (cs[0][1] if cs else None, ZERO, n)
        elif a.kind == 'mut': exp = self.entry_view(0)
        else: raise Undecided('source')
        self.result(kind, exp, 'result', 'the new slice')
    def shared_from(self): self.from_items('shared')
    def shared_from_boxed_slice(self): self.from_items('shared')
    def shared_from_vec(self): self.from_items('shared')
    def shared_from_iter(self): self.from_items('shared')
    def mut_from(self): self.from_items('mut')
    mut_from_boxed_slice = mut_from_vec = mut_from_iter = mut_from
    def mut_into_immut(self): self.result('shared', self.entry_view(), 'result', 'the converted slice')
    def into(self):
        s = self.s; v = self.entry_view(); n = self.E.recv.node
        if excl.is_ok(s.result): self.result('mut', v, 'granted', 'the converted slice')
        else:
            h = self.result('shared', v, 'refused', 'the slice handed back')
            if h is not None and self.dobj(h) != ('D', n): self.bad('refused:slice', 'a refused call does not hand back the slice it was given')
            self.sole('into_mut returns Err')
    shared_into_mut = into
    def mut_try_from(self): self.into()
    def shared_try_from(self): self.into()
    def mut_into_iter(self): self.result('mutiter', self.entry_view(), 'result', 'the iterator')
    # ---------------------------------------------------------------- splitting and cloning
    def half_result(self, kind, side, rest=None):
        l, r = self.halves(self.entry_view())
        self.result(kind, l if side == 'L' else r, 'result', 'the %s half' % ('left' if side == 'L' else 'right'))
        if rest: self.rest(l if rest == 'L' else r)
    def shared_clone_left(self): self.half_result('shared', 'L')
    def shared_clone_right(self): self.half_result('shared', 'R')
    def shared_split_off_left(self): self.half_result('shared', 'L', 'R')
    def shared_split_off_right(self): self.half_result('shared', 'R', 'L')
    def mut_split_off_left(self): self.half_result('mut', 'L', 'R')
    def mut_split_off_right(self): self.half_result('mut', 'R', 'L')
    def shared_clone(self):
        h = self.result('shared', self.entry_view(), 'result', 'the clone')
        if h is not None and self.dobj(h) != ('D', self.E.recv.node): self.bad('slice', 'the clone is not a handle to the same shared slice')
    def shared_clone_from(self):
        a, b = self.E.args[:2]; h = self.s.mem[a.obj]
        for f, sp in self.C.views(self.s, h, a.base, a.kind): self.sp(sp, self.entry_view(1), 'result', 'what the receiver shows afterwards', f)
        d = self.dobj(h)
        if d is not None and d != ('D', b.node): self.bad('slice', 'the receiver of clone_from is not a handle to the slice given')
    def mut_clone_from(self):
        s = self.s; a = self.E.args[0]; h = s.mem[a.obj]; v = self.entry_view(1); old = self.entry_view(0)
        al = self.C.alloc_of(s, h)
        if al not in (None, 'lazy') and s.meta[al].tag is not None and s.meta[al].tag[1] == self.E.args[1].node: self.bad('shares', 'the receiver of clone_from refers to the buffer of the original'); return
        for f, sp in self.C.views(s, h, a.base, 'mut'):
            if not self.zero(sp.len - v[2], 'result', 'after clone_from the receiver has another number of items than the original', f): return
            if isinstance(sp.ptr, IP) and sp.ptr.buf == old[0]: return      # items replaced in place
        self.cloned(v, h, a.base)
    def mut_clone(self):
        hs = self.C.reshandles
        if len(hs) != 1 or hs[0][0] != 'mut': raise Undecided('result of clone')
        self.cloned(self.entry_view(), hs[0][2], hs[0][1])
    def cloned(self, v, h, ty):
        s = self.s; hs = [('mut', ty, h)]
        a = self.C.alloc_of(s, hs[0][2])
        if a == 'lazy' or a is not None and s.meta[a].tag is not None: self.bad('shares', 'the clone refers to the buffer of the original')
        cs = [e for e in s.events() if e[0] == 'create']
        if len(cs) == 1 and cs[0][4][0] == 'reversed': self.bad('order', 'the clone shows the items in the opposite order'); return
        if len(cs) == 1 and cs[0][4][0] == 'clone':
            src = cs[0][4][1]
            self.sp(src, v, 'source', 'the items that were cloned')
            if isinstance(src.ptr, IP) or self.z:
                for f, sp in self.C.views(s, h, ty, 'mut'): self.sp(sp, cs[0][1:4], 'result', 'the clone', f)
            return
        if any(e[4][0] == 'one' for e in cs) and all(e[4][0] == 'one' for e in cs): return self.one_by_one(cs, v, hs[0][2], hs[0][1])
        # no item was cloned: what the result shows, if anything, is not a copy
        for f, sp in self.C.views(s, hs[0][2], hs[0][1], 'mut'):
            if not cs and not any(e[0] in ('read', 'write', 'user') for e in s.events()):
                f2 = f.add_ge0(v[2] - 1)
                if f2 is not None: self.bad('not-cloned', 'the clone of a slice with items was made without cloning them', extra=[v[2] - 1], facts=f)
            else: raise Undecided('how the items are cloned')
    def one_by_one(self, cs, v, h, ty):
        """items cloned one at a time: the result shows one clone of each, in order"""
        s = self.s; src = {e[1]: e[4][1] for e in cs}; at = {(b, 0): b for b in src}
        for e in s.events():
            if e[0] == 'moveitems' and not self.z:
                if not (e[2].isconst() and e[4].isconst() and e[5].isconst()): raise Undecided('how the items are cloned')
                got = [at.pop((e[1], e[2].c + i), None) for i in range(e[5].c)]
                for i, x in enumerate(got): at[(e[3], e[4].c + i)] = x
        for f, sp in self.C.views(s, h, ty, 'mut'):
            if not self.z and not isinstance(sp.ptr, IP): raise Undecided('how the items are cloned')
            self.zero(sp.len - v[2], 'result', 'the clone has another number of items', f)
            self.zero(v[2] - len(cs), 'source', '%d items are cloned for a slice of another length' % len(cs), f)
            if self.z: continue
            if not sp.ptr.off.isconst(): raise Undecided('how the items are cloned')
            for i in range(len(cs)):
                x = src.get(at.get((sp.ptr.buf, sp.ptr.off.c + i)))
                if x is None: raise Undecided('how the items are cloned')
                if x.buf != v[0]: self.bad('source', 'an item of another buffer is cloned'); return
                self.zero(x.off - v[1] - i, 'order', 'item %d of the clone is a clone of another item' % i, f)
    # ---------------------------------------------------------------- references and exclusive access
    def ref(self):
        v = self.entry_view(); sp = self.s.result
        if not isinstance(sp, SP): raise Undecided('result %r' % (sp,))
        self.sp(sp, v, 'result', 'the reference returned by %s' % self.E.fn)
    def shared_get_mut(self):
        if is_some(self.s.result):
            sp = self.payload()
            if not isinstance(sp, SP): raise Undecided('result')
            self.sp(sp, self.entry_view(), 'result', 'the reference returned by get_mut')
        else: self.sole('get_mut returns None')
    def sole(self, msg):
        if getattr(self.E, 'sole', None): self.bad('sole-owner', '%s although %s' % (msg, self.E.sole), kind='sole')
    # ---------------------------------------------------------------- weak handles
    def wobj(self, v):
        ds = [h for h in excl.hs(v) if h.obj is not None and self.C.role(self.s, h.obj) == 'D']
        return ds[0].obj if ds else None
    def shared_downgrade(self): self.same_weak(('D', self.E.recv.node), 'downgrade')
    def weak_clone(self): self.same_weak(('D', self.E.recv.node), 'the clone')
    def same_weak(self, o, what):
        hs = self.C.reshandles
        if len(hs) != 1 or hs[0][0] != 'weak': raise Undecided('result of %s' % what)
        w = self.wobj(hs[0][2])
        if w is None: self.bad('never', 'the weak handle made by %s can never be upgraded' % what)
        elif w != o: self.bad('other', 'the weak handle made by %s is one to another slice' % what)
    def weak_new(self):
        hs = self.C.reshandles
        if len(hs) == 1 and hs[0][0] == 'weak' and self.wobj(hs[0][2]) is not None: self.bad('live', 'WeakSlice::new can be upgraded')
    weak_default = weak_new
    def weak_upgrade(self):
        s = self.s; n = self.E.recv.node; o = ('D', n)
        if is_some(s.result):
            h = self.result('shared', self.entry_view(), 'result', 'the upgraded handle', v=self.payload(), ty=self.pr.args(self.E.root['out_ty'])[0])
            if h is not None and self.dobj(h) != o: self.bad('other', 'upgrade gives a handle to another slice')
        else:
            m = s.meta.get(o)
            if m is None: return
            if m.status == 'live' and not s.x.get(('extdead', o)):
                ex = [m.strong - 1] if m.strong is not None else []
                if not ex or self.possible(ex): self.bad('refused', 'upgrade gives None although the slice is alive', extra=ex)
    # ---------------------------------------------------------------- item iterators
    def item(self, off):
        v = self.payload()
        if not isinstance(v, It): raise Undecided('item %r' % (v,))
        b, o, n = self.entry_view()
        if self.z: return
        if v.buf != b: self.bad('item', '%s yields an item of another buffer' % self.E.fn); return
        self.zero(v.off - off, 'item', '%s yields the item at %r instead of the one at %r' % (self.E.fn, v.off, off))
    def none_left(self):
        b, o, n = self.entry_view()
        if self.possible([n - 1]): self.bad('none', '%s gives None although items are left' % self.E.fn, extra=[n - 1])
    def mutiter_next(self): self.step(True)
    def mutiter_next_back(self): self.step(False)
    def step(self, front):
        b, o, n = self.entry_view()
        if is_none(self.s.result): self.none_left(); self.rest((b, o, n)); return
        if not is_some(self.s.result): raise Undecided('result')
        if self.possible([-n]): self.bad('some', '%s yields an item although none is left' % self.E.fn, extra=[-n])
        self.item(o if front else o + n - 1)
        self.rest((b, self.off(o, ONE) if front else o, n - 1))
    def mutiter_nth(self): self.skip(True)
    def mutiter_nth_back(self): self.skip(False)
    def skip(self, front):
        b, o, n = self.entry_view(); k = self.E.args[1].val
        if is_none(self.s.result):
            if self.possible([n - k - 1]): self.bad('none', '%s gives None although enough items are left' % self.E.fn, extra=[n - k - 1])
            self.rest((b, o, ZERO)); return
        if not is_some(self.s.result): raise Undecided('result')
        if self.possible([k - n]): self.bad('some', '%s yields an item although fewer are left' % self.E.fn, extra=[k - n]); return
        self.item(o + k if front else o + n - 1 - k)
        self.rest((b, self.off(o, k + 1) if front else o, n - k - 1))
    def mutiter_last(self):
        b, o, n = self.entry_view()
        if is_none(self.s.result): self.none_left(); return
        if not is_some(self.s.result): raise Undecided('result')
        if self.possible([-n]): self.bad('some', 'last yields an item although none is left', extra=[-n])
        self.item(o + n - 1)
    def mutiter_fold(self): self.given(True, True)
    def mutiter_for_each(self): self.given(True, True)
    def mutiter_rfold(self): self.given(False, True)
    def mutiter_try_fold(self): self.given(True, False)
    mutiter_try_for_each = mutiter_any = mutiter_all = mutiter_position = mutiter_find_map = mutiter_try_fold
    def mutiter_try_rfold(self): self.given(False, False)
    mutiter_rposition = mutiter_try_rfold
    def given(self, front, whole):
        """the callback gets the items one by one in order: all of them, or some first ones with the others left"""
        b, o, n = self.entry_view()
        hs = [e for e in self.s.events() if e[0] == 'handed']
        for i, e in enumerate(hs):
            if not self.z and (e[1] != b or not self.zero(e[2] - (o + i if front else o + n - 1 - i), 'given', '%s gives the callback the item at %r at the wrong time' % (self.E.fn, e[2]))): return
        k = const(len(hs))
        if whole: self.zero(n - k, 'all', '%s gives the callback %r items' % (self.E.fn, k))
        else: self.rest((b, self.off(o, k) if front else o, n - k))
    def mutiter_is_empty(self): self.empty(self.entry_view()[2])
    def parts_is_empty(self): self.empty(self.left())
    mutparts_is_empty = parts_is_empty
    def shared_is_empty(self): self.empty(self.entry_view()[2])
    mut_is_empty = shared_is_empty
    def shared_len(self): self.number(self.entry_view()[2])
    mut_len = shared_len
    def empty(self, n):
        v = self.s.result; neg = False
        if not (isinstance(v, Lin) and v.isconst()): raise Undecided('is_empty')
        if v.c and self.possible([n - 1]): self.bad('empty', 'is_empty although something is left', extra=[n - 1])
        if not v.c and self.possible([-n]): self.bad('empty', 'not is_empty although nothing is left', extra=[-n])
    def mutiter_split_off_from(self): self.cut(True)
    def mutiter_split_off_to(self): self.cut(False)
    def cut(self, frm):
        b, o, n = self.entry_view(); at_ = self.E.args[1].val
        if self.possible([at_ - n - 1]): self.bad('accepts', '%s accepts a position beyond the end' % self.E.fn, extra=[at_ - n - 1]); return
        lo, hi = (b, o, at_), (b, self.off(o, at_), n - at_)
        self.result('mutiter', hi if frm else lo, 'result', 'what %s returns' % self.E.fn)
        self.rest(lo if frm else hi)
    def number(self, n, detail='result', msg=None):
        v = self.s.result
        if not isinstance(v, Lin): raise Undecided('result %r' % (v,))
        self.zero(v - n, detail, msg or '%s tells %r instead of %r' % (self.E.fn, v, n))
    def hint(self, n):
        v = self.s.result
        if not isinstance(v, Agg) or len(v.fs) != 2: raise Undecided('size_hint')
        lo, hi = v.fs
        if isinstance(lo, Lin): self.zero(lo - n, 'lower', 'size_hint starts at %r instead of %r' % (lo, n))
        if is_some(hi): self.zero(hi.fs[0] - n, 'upper', 'size_hint ends at %r instead of %r' % (hi.fs[0], n))
        elif is_none(hi): self.bad('upper', 'size_hint gives no upper bound')
    def mutiter_len(self): self.number(self.entry_view()[2])
    def mutiter_count(self): self.number(self.entry_view()[2])
    def mutiter_size_hint(self): self.hint(self.entry_view()[2])
    # ---------------------------------------------------------------- parts iterators
    def left(self): f, b = self.E.pos; return const(self.E.N - f - b)
    def parts_len(self): self.number(self.left())
    parts_count = mutparts_len = mutparts_count = parts_len
    def parts_size_hint(self): self.hint(self.left())
    mutparts_size_hint = parts_size_hint
    def part(self, front):
        E, s = self.E, self.s; f, b = E.pos
        if f + b >= E.N:
            if not is_none(s.result): self.bad('some', '%s yields a part after exhaustion' % E.fn)
            return
        if is_none(s.result): self.bad('none', '%s gives None although parts are left' % E.fn); return
        if not is_some(s.result): raise Undecided('result')
        i = f if front else E.N - 1 - b; exp = self.part_list()[i] if E.N <= BIG else self.part_at(i)
        v = self.payload()
        if isinstance(v, Opq) and v.tag == 'slice':
            b2, o2, n2 = v.args
            self.sp(SP(IP(b2, o2), n2), exp, 'part', 'the part yielded by %s' % E.fn)
        else: self.result('mut' if E.kind == 'mutparts' else 'shared', exp, 'part', 'the part yielded by %s' % E.fn, v=v, ty=self.pr.args(E.root['out_ty'])[0])
    def parts_next(self): self.part(True)
    def parts_next_back(self): self.part(False)
    mutparts_next = parts_next; mutparts_next_back = parts_next_back
    def parts_clone(self):
        import analyse
        E, s = self.E, self.s; a = E.recv
        v0 = s.mem[a.obj]; v1 = s.result
        if analyse.same_value(s.mem, v0) == analyse.same_value(s.mem, v1): return
        f, b = E.pos
        if E.N > BIG: raise Undecided('the clone of an iterator over many parts')
        self.drives(s, v1, a.base, self.part_list()[f:E.N - b], 'clone', 'the clone')
    def drives(self, s, v, ty, l, tag, what):
        """the parts iterator value v yields exactly the parts l, and shows them"""
        import analyse
        s2 = s.clone(); o = ('A', 'cl'); s2.mem[o] = v
        s2.meta[o] = M('arg', None, ty, None, 1, ZERO, 0, 'live', None, True, False, '')
        r = analyse.method(self.C.ctx, ty, 'len')
        outs, vs = self.C.ctx.sub(s2, r['key'], [P(o, ())])
        for x in outs:
            if isinstance(x.result, Lin): self.zero(x.result - len(l), tag + ':len', '%s has another number of parts left' % what, x.facts)
        r = analyse.method(self.C.ctx, ty, 'as_slice')
        outs, vs = self.C.ctx.sub(s2, r['key'], [P(o, ())])
        n = ZERO
        for x in l: n = n + x[2]
        for x in outs:
            if x.exitk == 'return' and isinstance(x.result, SP): self.sp(x.result, (l[0][0], l[0][1], n) if l else (None, ZERO, ZERO), tag + ':items', 'the items left in %s' % what, x.facts)
        nxt = analyse.method(self.C.ctx, ty, 'next'); todo = [(s2, 0)]
        while todo:
            x, i = todo.pop()
            if i > len(l): continue
            outs, vs = self.C.ctx.sub(x, nxt['key'], [P(o, ())])
            for y in outs:
                if y.exitk != 'return': self.bad(tag + ':drive', '%s panics when driven' % what); continue
                if is_none(y.result) and i < len(l): self.bad(tag + ':parts', '%s yields fewer parts' % what); continue
                if is_some(y.result) and i >= len(l): self.bad(tag + ':parts', '%s yields more parts' % what); continue
                if is_some(y.result):
                    w = y.result.fs[0]
                    if isinstance(w, Opq) and w.tag == 'slice': self.sp(SP(IP(w.args[0], w.args[1]), w.args[2]), l[i], tag + ':part', 'a part yielded by %s' % what, y.facts)
                    elif w is not None and self.E.kind == 'mutparts':
                        for f, sp in self.C.views(y, w, self.pr.args(nxt['out_ty'])[0], 'mut'): self.sp(sp, l[i], tag + ':part', 'a part yielded by %s' % what, f)
                    todo.append((y, i + 1))
    def parts_nth(self): self.pskip(True)
    def parts_nth_back(self): self.pskip(False)
    mutparts_nth = parts_nth; mutparts_nth_back = parts_nth_back
    def pskip(self, front):
        E, s = self.E, self.s; f, b = E.pos; left = E.N - f - b; k = E.args[1].val
        for i in range(left + 1):
            fa = s.facts.add_eq0(k - i) if i < left else s.facts.add_ge0(k - left)
            if fa is None: continue
            s2 = s.clone(); s2.facts = fa; p = Post(self.C, s2); E.s = s2
            try:
                if i == left:
                    if not is_none(s2.result): p.bad('some', '%s yields a part although fewer are left' % E.fn); continue
                    l = []
                else:
                    if is_none(s2.result): p.bad('none', '%s gives None although enough parts are left' % E.fn); continue
                    E.pos = (f + i, b) if front else (f, b + i)
                    try: p.part(front)
                    finally: E.pos = (f, b)
                    l = self.part_list(); l = l[f + i + 1:E.N - b] if front else l[f:E.N - b - i - 1]
                a = E.recv
                p.drives(s2, s2.mem[a.obj], a.base, l, 'rest', 'the iterator afterwards')
            finally: E.s = s
    def any_split_into_parts(self):
        import analyse
        E, s = self.E, self.s
        if E.expect == 'rejects': self.bad('rejects', 'split_into_parts accepts %r parts' % E.N); return
        kind = 'mutparts' if E.kind == 'mut' else 'parts'
        hs = self.C.reshandles
        if len(hs) != 1 or hs[0][0] != kind: raise Undecided('result of split_into_parts')
        k, ty, v = hs[0]; o = ('A', 'res')
        def drive(nm):
            s2 = s.clone(); s2.mem[o] = v
            s2.meta[o] = M('arg', None, ty, None, 1, ZERO, 0, 'live', None, True, False, '')
            outs, vs = self.C.ctx.sub(s2, analyse.method(self.C.ctx, ty, nm)['key'], [P(o, ())])
            return outs
        for x in drive('len'):
            if x.exitk == 'return' and isinstance(x.result, Lin): self.zero(x.result - E.N, 'parts:len', 'the iterator promises another number of parts')
        if E.N.c <= 8:
            for x in drive('as_slice'):
                if x.exitk == 'return' and isinstance(x.result, SP): self.sp(x.result, self.entry_view(), 'parts:items', 'the items in the new iterator', x.facts)
    # ---------------------------------------------------------------- comparison, hashing, formatting
    def is_view(self, sp, i):
        """the operand sp is the slice shown by argument i: True/False/None"""
        if not isinstance(sp, SP): return None
        b, o, n = self.entry_view(i); f = self.s.facts
        r = f.eq0(sp.len - n)
        if r is not True: return False if r is False or self.possible([sp.len - n - 1]) or self.possible([n - sp.len - 1]) else None
        if self.z or f.eq0(n) is True: return True
        if not isinstance(sp.ptr, IP): return None
        if sp.ptr.buf != b: return False
        r = f.eq0(sp.ptr.off - o)
        return True if r else False
    def where(self, ptr, m):
        """[(argument, index)] an item pointer may stand for under the model m"""
        out = []
        for i in (0, 1):
            b, o, n = self.entry_view(i)
            if isinstance(ptr, IP) and ptr.buf == b: out.append((i, model.ev(ptr.off, m) - model.ev(o, m)))
        return out
    def span(self, sp, m):
        if self.z:
            return [(i, 0, model.ev(sp.len, m)) for i in (0, 1) if model.ev(sp.len, m) == model.ev(self.entry_view(i)[2], m)]
        n = model.ev(sp.len, m)
        if n == 0: return [(i, 0, 0) for i in (0, 1)]
        return [(i, k, n) for i, k in self.where(sp.ptr, m)]
    def compare(self):
        """the answer, given the outcomes of the comparisons the path made, is the one the slices give: decided over every
        combination of item relations, for small witnesses of the path's lengths"""
        E, s = self.E, self.s; v = s.result; fn = E.fn
        if len(E.args) < 2 or E.args[1].kind not in ('shared', 'mut'): raise Undecided('compared with something else')
        if fn == 'partial_cmp':
            if is_some(v) and isinstance(v.fs[0], Agg): res = (-1, 0, 1)[v.fs[0].v]
            elif is_none(v): res = None
            else: raise Undecided('comparison result %r' % (v,))
        elif fn == 'cmp':
            if not isinstance(v, Agg) or v.fs: raise Undecided('comparison result %r' % (v,))
            res = (-1, 0, 1)[v.v]
        else:
            if not isinstance(v, Lin) or not v.isconst(): raise Undecided('comparison result %r' % (v,))
            res = bool(v.c)
        if any(e[0] == 'user' for e in s.events()): raise Undecided('comparison by user code')
        evs = [e for e in s.events() if e[0] == 'itemop' or e[0] == 'sliceop' and e[1] in OUT]
        if len(evs) < sum(1 for e in s.events() if e[0] in ('itemop', 'sliceop')): raise Undecided('comparison')
        n0, n1 = self.entry_view(0)[2], self.entry_view(1)[2]; tried = 0; seen = set()
        total = fn == 'cmp' or any(e[1] == 'cmp' for e in evs)
        for extra in ([], [n0 - 1, n1 - 1], [n0 - n1, n1 - n0, n0 - 1], [n0 - n1, n1 - n0], [n0 - n1 - 1], [n1 - n0 - 1], [n0 - n1 - 1, n1 - 1], [n1 - n0 - 1, n0 - 1], [-n0], [-n1], [n0 - 2, n1 - 2], [n0 - n1, n1 - n0, n0 - 2], [n0 - 3, n1 - 3]):
            if not self.possible(extra): continue
            w = list(n0.t) + list(n1.t)
            for e in evs:
                for x in e[2] if e[0] == 'sliceop' else e[2:4]:
                    if isinstance(x, SP): w += list(x.len.t); x = x.ptr
                    if isinstance(x, IP): w += list(x.off.t)
            for i in (0, 1): w += [] if self.z else list(self.entry_view(i)[1].t)
            at = set()
            for a, _ in w: model.base_atoms(Lin(0, ((a, 1),)), at)
            m = model.find(s.facts, extra, want=model.Want(at, lambda m: True), imps=self.C.imps(s))
            if m is None: continue
            k0, k1 = model.ev(n0, m), model.ev(n1, m); n = min(k0, k1)
            sig = tuple(sorted((str(a), x) for a, x in m.items() if a in at))
            if n > 5 or sig in seen: continue
            seen.add(sig)
            cons = []; same = self.entry_view(0)[0] == self.entry_view(1)[0]
            for e in evs:
                if e[0] == 'itemop':
                    if self.z: raise Undecided('items of size zero compared one by one')
                    op, a, b, o = e[1:5]; A, B = [(i, k, 1) for i, k in self.where(a, m)], [(i, k, 1) for i, k in self.where(b, m)]; whole = False
                else:
                    op, (a, b), o = e[1], e[2], e[4]
                    if not (isinstance(a, SP) and isinstance(b, SP)): raise Undecided('operands')
                    A, B = self.span(a, m), self.span(b, m); whole = True
                p = [(x, y) for x in A for y in B if x[0] != y[0]]
                p = [(x, y) for x, y in p if x[1] == y[1]] or p
                if not p or p[0][0][1] != p[0][1][1] and not (p[0][0][2] == 0 or p[0][1][2] == 0): raise Undecided('operands')
                x, y = p[0]
                if self.z and len(p) > 1 and (x[2] > 0 or y[2] > 0): p = [q for q in p if q[0][0] == 0] or p; x, y = p[0]
                if x[1] < 0 or x[1] + x[2] > (k0, k1)[x[0]] or y[1] + y[2] > (k0, k1)[y[0]]: raise Undecided('operands')
                cons.append((op, x[0] == 1, x[1], x[2], y[2], o))
            tried += 1; wrong = None; alls = 0
            for R in itertools.product((0, -1, 1) + (() if total else (None,)), repeat=n):
                if not all(holds(c, R) for c in cons): continue
                alls += 1
                if OUT[fn](lex(R, k0, k1)) is not res: wrong = R; break
            if wrong is not None:
                w2 = [Lin(0, ((a, 1),)) - m[a] for a in at if a in m]
                self.bad('items', '%s of %d and %d items answers %r although the slices give %r%s' % (fn, k0, k1, res, OUT[fn](lex(wrong, k0, k1)), '' if cons else ', without comparing the items'), extra=w2 + [-x for x in w2])
                return
        if not tried: raise Undecided('comparison of long slices')
    def shown(self, ops, m):
        """the item positions the operands cover, in order (sized items; None when an operand is not a range of the receiver)"""
        out = []; b, o, n = self.entry_view(0)
        for x in ops:
            rev = isinstance(x, Opq) and x.tag == 'reversed'
            if rev: x = x.args[0]
            if isinstance(x, SP):
                k = model.ev(x.len, m)
                if k == 0: continue
                if self.z: out += [0] * k; continue
                if not isinstance(x.ptr, IP) or x.ptr.buf != b: return None
                i = model.ev(x.ptr.off, m) - model.ev(o, m); l = list(range(i, i + k)); out += l[::-1] if rev else l
            elif isinstance(x, IP) and not self.z:
                if x.buf != b: return None
                out.append(model.ev(x.off, m) - model.ev(o, m))
            elif self.z and isinstance(x, (Lin, IP)): out.append(0)
            else: return None
        return out
    def covers(self, ops, detail, msg):
        """the operands are the receiver's items, each once and in order"""
        if len(ops) == 1 and isinstance(ops[0], SP) and self.is_view(ops[0], 0) is True: return
        at = set(); L = []
        for x in ops:
            if isinstance(x, Opq) and x.tag == 'reversed': x = x.args[0]
            if isinstance(x, SP): L += x.len.t; x = x.ptr
            if isinstance(x, IP): L += x.off.t
        b, o, n0 = self.entry_view(0); L += n0.t
        if not self.z: L += o.t
        for a, _ in L: model.base_atoms(Lin(0, ((a, 1),)), at)
        def wrong(m):
            n = model.ev(n0, m)
            if n > 1 << 12: return False
            l = self.shown(ops, m)
            return l is None or l != ([0] * n if self.z else list(range(n)))
        m = model.find(self.s.facts, [], want=model.Want(at, wrong), imps=self.C.imps(self.s))
        if m is not None:
            l = self.shown(ops, m); w = [Lin(0, ((a, 1),)) - m[a] for a in at if a in m]
            self.bad(detail, '%s (%d items: %s)' % (msg, model.ev(n0, m), l if l is None or len(l) < 9 else '%d of them' % len(l)), extra=w + [-x for x in w]); return
        if not self.exact(ops): raise Undecided(detail)
    def exact(self, ops):
        """proved: consecutive ranges from the first item to the last"""
        b, o, n = self.entry_view(0); f = self.s.facts; at = ZERO
        for x in ops:
            if isinstance(x, Opq): return False
            if isinstance(x, SP):
                if f.eq0(x.len) is True: continue
                ptr, k = x.ptr, x.len
            else: ptr, k = x, ONE
            if not self.z and (not isinstance(ptr, IP) or ptr.buf != b or f.eq0(ptr.off - o - at) is not True): return False
            at = at + k
        return f.eq0(at - n) is True
    def any_hash(self):
        s = self.s; evs = [e for e in s.events() if e[0] in ('sliceop', 'itemop', 'user')]
        ops = []; prefix = 0; more = 0
        for e in evs:
            if e[0] == 'user':
                nm = str(e[1]).rsplit('::', 1)[-1]; a = e[2][-1] if e[2] else None
                if nm in ('write_usize', 'write_length_prefix') and isinstance(a, Lin) and not ops and not prefix and s.facts.eq0(a - self.entry_view(0)[2]) is True: prefix = 1
                else: more = 1
            elif e[0] == 'sliceop' and e[1] == 'hash' and isinstance(e[2][0], SP) and not ops: prefix += 1; ops.append(e[2][0])
            elif e[0] == 'sliceop' and str(e[1]).endswith('hash_slice') and isinstance(e[2][0], SP): ops.append(e[2][0])
            elif e[0] == 'itemop' and e[1] == 'hash': ops.append(e[2])
            else: raise Undecided('hash')
        if not more or prefix: self.covers(ops, 'operand', 'hash does not feed exactly the items to the hasher')
        if prefix == 1 and not more: return
        if more and not prefix: raise Undecided('hash')
        if not prefix: self.bad('prefix', 'hash does not feed the number of items to the hasher as the slice does'); return
        self.bad('more', 'hash feeds more than the slice to the hasher')
    def any_fmt(self):
        s = self.s; evs = [e for e in s.events() if e[0] in ('sliceop', 'fmtb', 'fmtw', 'fmtalt', 'itemop', 'user')]
        slices = self.E.kind in ('shared', 'mut')
        if isinstance(s.result, Agg) and s.result.v == 1: return        # the formatter reported an error
        if any(e[0] == 'itemop' for e in evs): raise Undecided('fmt')
        fm = [e for e in evs if e[0] == 'sliceop' and str(e[1]).endswith('fmt')]
        ops = [x for e in fm for x in e[2] if isinstance(x, (SP, IP)) or isinstance(x, Opq) and x.tag == 'reversed']
        if slices:
            b = [e for e in evs if e[0] == 'fmtb' and e[1] != 'list']
            if b: self.bad('shape', 'Debug shows a %s instead of the list of items' % b[0][1]); return
            w = [e for e in evs if e[0] == 'fmtw']
            if w and not any(e[0] == 'fmtalt' for e in evs):
                if fm: self.bad('shape', 'Debug writes more than the list of items'); return
                if w[0][1] == 'write_fmt': self.bad('flags', 'Debug formats the items with settings of its own instead of those of the caller'); return
                if not fm: self.bad('nothing', 'Debug shows no items'); return
            if w: raise Undecided('fmt')
        if any(e[0] == 'user' for e in evs) or len(fm) != len([e for e in evs if e[0] == 'sliceop']): raise Undecided('fmt')
        if not slices and (not fm or not ops) and any(e[0] == 'fmtw' for e in evs): raise Undecided('fmt')
        if not slices and not ops and not any(len(e[2]) and any(isinstance(x, Opq) for x in e[2]) for e in fm): self.bad('nothing', 'Debug shows no items'); return
        if self.z and any(e[0] == 'sliceop' and any(isinstance(x, Lin) for x in e[2]) for e in fm) and slices: ops = [x for e in fm for x in e[2]]
        self.covers(ops, 'operand', 'Debug does not show exactly the items')
        if self.E.kind in ('parts', 'mutparts'):
            ns = [a for e in fm for a in e[2] if isinstance(a, Lin)]
            if len(ns) == 1: self.zero(ns[0] - self.left(), 'count', 'Debug shows another number of parts left')

OUT = {'eq': lambda o: o == 0 and o is not None, 'ne': lambda o: o is None or o != 0, 'cmp': lambda o: o, 'partial_cmp': lambda o: o,
       'lt': lambda o: o == -1, 'le': lambda o: o in (-1, 0), 'gt': lambda o: o == 1, 'ge': lambda o: o in (0, 1)}
def lex(R, n0, n1):
    """lexicographic order of two slices whose common prefix has the item relations R"""
    for r in R:
        if r != 0: return r
    return (n0 > n1) - (n0 < n1)
def holds(c, R):
    op, flip, k, la, lb, o = c
    r = lex(R[k:k + min(la, lb)], la, lb) if not flip else lex(R[k:k + min(la, lb)], lb, la)
    if flip and r is not None: r = -r
    return OUT[op](r) == o and (OUT[op](r) is None) == (o is None)

def check(C, s): Post(C, s).run()
