"""Abstract transformers for the parts of core/alloc that are not interpreted from their MIR: reference counts,
boxes, vectors, deques, atomics, intrinsics.  A model returns (value,) or None when it arranged control itself."""
from vals import *
from dom import Lin, const, atom, half, U64
import interp as _i

ZERO, ONE = const(0), const(1)
NONE = Agg(0, ())
def some(v): return Agg(1, (v,))
def ok(v): return Agg(0, (v,))
def err(v): return Agg(1, (v,))

ORD = {0: 'Relaxed', 1: 'Release', 2: 'Acquire', 3: 'AcqRel', 4: 'SeqCst'}
def order(v): return ORD.get(v.v, '?') if isinstance(v, Agg) else '?'
def acquires(o): return o in ('Acquire', 'AcqRel', 'SeqCst')
def releases(o): return o in ('Release', 'AcqRel', 'SeqCst')

def handle_at(it, st, p):
    """the H / value a &Rc argument points to"""
    v = it.loadf(st, p) if isinstance(p, P) else p
    return v

def alive(it, st, fam, obj):
    """can a weak reference to obj be upgraded?  Splits."""
    m = st.meta[obj]
    if m.status == 'dead': return False
    if m.lb > 0: return True
    it.hooks.on_count(st, obj)
    if m.strong is not None:
        if it.eq0(st, m.strong):
            st.meta[obj] = st.meta[obj]._replace(status='dead'); st.x[('extdead', obj)] = True
            return False
        return True
    if st.x.get('calm') and m.tag is not None and m.tag[0] == 'D': return True      # a handle to the outermost slice exists
    c = 0 if it.hooks.exact(st, obj) else it.choice(st, ('alive', obj), 2)
    if c == 0:
        st.meta[obj] = st.meta[obj]._replace(status='dead'); st.x[('extdead', obj)] = True
        return False
    return True

def unique(it, st, obj, weak_too=False):
    """is this handle the only strong reference to obj?  Splits."""
    m = st.meta[obj]
    if m.lb > 1: return False
    it.hooks.on_count(st, obj)
    if m.strong is not None:
        r = it.eq0(st, m.strong - 1)
    else:
        r = True if it.hooks.exact(st, obj) else it.choice(st, ('uniq', obj), 2) == 1
    if r and weak_too:
        if m.wlb > 0 or m.strong is None and it.hooks.weak_floor(st, obj) > 0: return False
        if m.weak is not None and not m.new:
            r = it.eq0(st, m.weak)
        elif m.weak is None and it.hooks.exact(st, obj) and st.x.get('noweak'): r = it.hooks.weak_floor(st, obj) == 0
        elif m.weak is None: r = it.choice(st, ('uniqw', obj), 2) == 1
    return r

def install(I):
    M_ = I.models
    def reg(*names):
        def d(f):
            for n in names: M_[n] = f
            return f
        return d
    # ---------------------------------------------------------------- Rc / Arc
    for fam in ('rc', 'arc'):
        N = 'Rc' if fam == 'rc' else 'Arc'
        B = 'alloc::rcs::%s::' % fam
        def mk(fam, N, B):
            def inner(it, c, rt=None):
                a = c.get('rargs') or c.get('args')
                return a[0] if a else None
            @reg(B + N + '::new')
            def new(it, st, c, args, dest, rt, tgt, uw):
                o = it.new_obj(st, 'rc', inner(it, c), args[0], fam=fam)
                st.ev('alloc', o, it.site(st))
                return (H(fam, 'strong', o),)
            @reg(B + N + '::pin')
            def pin(it, st, *a): raise Undecided('pin')
            @reg('<%s%s as core::clone::Clone>::clone' % (B, N))
            def clone(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                if isinstance(h, Opq): return (h,)
                it.inc_strong(st, h.obj)
                return (h,)
            @reg('<%s%s as core::ops::deref::Deref>::deref' % (B, N), '<%s%s as core::convert::AsRef>::as_ref' % (B, N), '<%s%s as core::borrow::Borrow>::borrow' % (B, N))
            def deref(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                if isinstance(h, Opq): return (Opq('deref', (h,)),)
                if not isinstance(h, H): raise Undecided('deref of %r' % (h,))
                return (P(h.obj, ()),)
            @reg(B + N + '::as_ptr')
            def as_ptr(it, st, c, args, dest, rt, tgt, uw):
                return (P(handle_at(it, st, args[0]).obj, ()),)
            @reg(B + N + '::downgrade')
            def downgrade(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                it.check_live(st, h.obj, 'downgrade')
                it.inc_weak(st, h.obj)
                st.ev('downgrade', h.obj, it.site(st))
                return (H(fam, 'weak', h.obj),)
            @reg(B + N + '::from_raw')
            def from_raw(it, st, c, args, dest, rt, tgt, uw):
                p = args[0]
                if not isinstance(p, P):
                    if isinstance(p, Lin): raise Violation('uaf', '%s::from_raw of a null pointer' % N)
                    raise Undecided('from_raw of %r' % (p,))
                if p.path or st.meta.get(p.obj) is None or st.meta[p.obj].kind != 'rc' : raise Violation('uaf', '%s::from_raw of a pointer that is not an %s' % (N, N))
                it.check_live(st, p.obj, 'from_raw')
                return (H(fam, 'strong', p.obj),)
            @reg(B + N + '::into_raw')
            def into_raw(it, st, c, args, dest, rt, tgt, uw): return (P(args[0].obj, ()),)
            @reg(B + N + '::increment_strong_count')
            def incsc(it, st, c, args, dest, rt, tgt, uw):
                it.inc_strong(st, args[0].obj); return (UNIT,)
            @reg(B + N + '::decrement_strong_count')
            def decsc(it, st, c, args, dest, rt, tgt, uw):
                it.finish(st, dest, UNIT, tgt)
                it.push_tasks(st, [('rcdec', fam, args[0].obj)]); st.frames[-1].uw = uw
                return None
            @reg(B + N + '::strong_count')
            def strong_count(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0]); it.check_live(st, h.obj)
                m = st.meta[h.obj]
                it.hooks.on_count(st, h.obj)
                if m.strong is not None:
                    st.ev('count', h.obj, 'strong', m.strong, it.site(st))
                    return (m.strong,)
                if m.new: raise Undecided('count of new object')
                a = atom(('cnt', 's', h.obj[1] if isinstance(h.obj[1], str) else str(h.obj), st.steps))
                if it.hooks.exact(st, h.obj): st.assume_eq0(a - m.lb)
                else: st.assume_ge0(a - m.lb)
                st.ev('count', h.obj, 'strong', a, it.site(st))
                return (a,)
            @reg(B + N + '::weak_count')
            def weak_count(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0]); it.check_live(st, h.obj)
                m = st.meta[h.obj]
                if m.weak is not None:
                    st.ev('count', h.obj, 'weak', m.weak, it.site(st))
                    return (m.weak,)
                a = atom(('cnt', 'w', h.obj[1] if isinstance(h.obj[1], str) else str(h.obj), st.steps))
                fl = it.hooks.weak_floor(st, h.obj)
                if it.hooks.exact(st, h.obj) and st.x.get('noweak') and fl: st.assume_eq0(a - fl)
                else: st.assume_ge0(a - fl)
                st.ev('count', h.obj, 'weak', a, it.site(st))
                return (a,)
            def unwrap(it, st, h):
                """move the value out of h's object, known to be uniquely owned"""
                o = h.obj
                st.meta[o] = st.meta[o]._replace(shared=False)
                it.hooks.on_exclusive(it, st, o)
                v = st.mem.get(o, UNINIT)
                m = st.meta[o]
                st.meta[o] = m._replace(status='dead', lb=0, strong=ZERO if m.strong is not None else None)
                st.x[('moved', o)] = True
                st.ev('unwrapped', o, it.site(st))
                return v
            @reg(B + N + '::try_unwrap')
            def try_unwrap(it, st, c, args, dest, rt, tgt, uw):
                h = args[0]
                it.check_live(st, h.obj)
                if unique(it, st, h.obj): return (ok(unwrap(it, st, h)),)
                st.ev('tryfail', h.obj, it.site(st), st.meta[h.obj].lb)
                return (err(h),)
            @reg(B + N + '::into_inner')
            def into_inner(it, st, c, args, dest, rt, tgt, uw):
                h = args[0]
                it.check_live(st, h.obj)
                if unique(it, st, h.obj): return (some(unwrap(it, st, h)),)
                st.ev('tryfail', h.obj, it.site(st), st.meta[h.obj].lb)
                it.finish(st, dest, NONE, tgt)
                it.push_tasks(st, [('rcdec', fam, h.obj)]); st.frames[-1].uw = uw
                return None
            @reg(B + N + '::get_mut')
            def get_mut(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0]); it.check_live(st, h.obj)
                if unique(it, st, h.obj, True):
                    if st.meta[h.obj].strong is None:       # from here on its counts are known: nobody else can reach it
                        st.meta[h.obj] = st.meta[h.obj]._replace(strong=ONE, weak=ZERO, shared=False)
                        it.hooks.on_exclusive(it, st, h.obj)
                    st.ev('getmut', h.obj, it.site(st))
                    return (some(P(h.obj, ())),)
                return (NONE,)
            @reg(B + N + '::get_mut_unchecked')
            def get_mut_unchecked(it, st, c, args, dest, rt, tgt, uw): return (P(handle_at(it, st, args[0]).obj, ()),)
            @reg(B + N + '::is_unique')
            def is_unique(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                return (const(1 if unique(it, st, h.obj, True) else 0),)
            @reg(B + N + '::ptr_eq')
            def ptr_eq(it, st, c, args, dest, rt, tgt, uw):
                return (const(1 if handle_at(it, st, args[0]).obj == handle_at(it, st, args[1]).obj else 0),)
            @reg('<%s%s as core::convert::From>::from' % (B, N))
            def from_(it, st, c, args, dest, rt, tgt, uw):
                if isinstance(args[0], (Bx, BxS)): raise Undecided('Rc::from box')
                return new(it, st, c, args, dest, rt, tgt, uw)
            # weak
            @reg(B + 'Weak::new', '<%sWeak as core::default::Default>::default' % B)
            def wnew(it, st, c, args, dest, rt, tgt, uw): return (H(fam, 'weak', None),)
            @reg(B + 'Weak::upgrade')
            def upgrade(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                if isinstance(h, Opq): raise Undecided('upgrade')
                if not isinstance(h, H): raise Violation('uaf', 'upgrade of something that is not a Weak (%r)' % (h,)) if h is UNINIT else Undecided('upgrade of %r' % (h,))
                if h.obj is None or not alive(it, st, fam, h.obj):
                    st.ev('upgrade', h.obj, False, it.site(st)); return (NONE,)
                it.inc_strong(st, h.obj)
                st.ev('upgrade', h.obj, True, it.site(st))
                return (some(H(fam, 'strong', h.obj)),)
            @reg('<%sWeak as core::clone::Clone>::clone' % B)
            def wclone(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                if h.obj is not None: it.inc_weak(st, h.obj)
                return (h,)
            @reg(B + 'Weak::strong_count')
            def wsc(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                if h.obj is None: return (ZERO,)
                m = st.meta[h.obj]
                if m.status == 'dead': return (ZERO,)
                if m.strong is not None: return (m.strong,)
                a = atom(('cnt', 's', str(h.obj), st.steps)); st.assume_ge0(a - m.lb)
                return (a,)
            @reg(B + 'Weak::ptr_eq')
            def wpe(it, st, c, args, dest, rt, tgt, uw):
                return (const(1 if handle_at(it, st, args[0]).obj == handle_at(it, st, args[1]).obj else 0),)
            @reg(B + 'Weak::as_ptr')
            def wap(it, st, c, args, dest, rt, tgt, uw):
                h = handle_at(it, st, args[0])
                return (P(h.obj, ()) if h.obj else Opq('dangling', ()),)
        mk(fam, N, B)
    # ---------------------------------------------------------------- Box / Vec
    @reg('alloc::boxed::Box::new')
    def box_new(it, st, c, args, dest, rt, tgt, uw):
        a = c.get('rargs') or c.get('args')
        o = it.new_obj(st, 'box', a[0], args[0], hint='b')
        return (Bx(o),)
    @reg('alloc::boxed::Box::into_raw', 'alloc::boxed::Box::leak', 'alloc::boxed::Box::into_non_null')
    def box_into_raw(it, st, c, args, dest, rt, tgt, uw):
        b = args[0]
        if isinstance(b, Bx): return (P(b.obj, ()),)
        if isinstance(b, BxS): return (SP(IP(b.buf, ZERO), b.len),)
        raise Undecided('Box::into_raw of %r' % (b,))
    @reg('alloc::boxed::Box::from_raw', 'alloc::boxed::Box::from_non_null')
    def box_from_raw(it, st, c, args, dest, rt, tgt, uw):
        p = args[0]
        if isinstance(p, P):
            m = st.meta.get(p.obj)
            if p.path or m is None or m.kind != 'box': raise Violation('uaf', 'Box::from_raw of a pointer that is not a Box')
            it.check_live(st, p.obj, 'Box::from_raw')
            return (Bx(p.obj),)
        if isinstance(p, SP) and isinstance(p.ptr, IP):
            return (BxS(p.ptr.buf, p.len),) if st.facts.eq0(p.ptr.off) is True else (Vc(p.ptr, p.len, p.len),)
        if isinstance(p, Lin): raise Violation('uaf', 'Box::from_raw of a null pointer')
        raise Undecided('Box::from_raw of %r' % (p,))
    @reg('<alloc::boxed::Box as core::ops::deref::Deref>::deref', '<alloc::boxed::Box as core::ops::deref::DerefMut>::deref_mut',
         '<alloc::boxed::Box as core::convert::AsRef>::as_ref', '<alloc::boxed::Box as core::convert::AsMut>::as_mut', 'alloc::boxed::Box::as_mut_ptr', 'alloc::boxed::Box::as_ptr')
    def box_deref(it, st, c, args, dest, rt, tgt, uw):
        b = handle_at(it, st, args[0])
        if isinstance(b, Bx): return (P(b.obj, ()),)
        if isinstance(b, BxS): return (SP(IP(b.buf, ZERO), b.len),)
        raise Undecided('Box deref')
    @reg('alloc::vec::Vec::from_raw_parts')
    def vec_from_raw(it, st, c, args, dest, rt, tgt, uw): return (Vc(args[0], args[1], args[2]),)
    @reg('alloc::vec::Vec::new', '<alloc::vec::Vec as core::default::Default>::default')
    def vec_new(it, st, c, args, dest, rt, tgt, uw): return (Vc(IP(it.new_buf(st, ZERO), ZERO), ZERO, ZERO),)
    @reg('alloc::vec::Vec::with_capacity')
    def vec_wc(it, st, c, args, dest, rt, tgt, uw): return (Vc(IP(it.new_buf(st, args[0]), ZERO), ZERO, args[0]),)
    @reg('alloc::vec::Vec::into_boxed_slice', '<alloc::boxed::Box as core::convert::From>::from', '<alloc::vec::Vec as core::convert::Into>::into')
    def vec_ibs(it, st, c, args, dest, rt, tgt, uw):
        v = args[0]
        if isinstance(v, Vc) and isinstance(v.ptr, IP):
            b = dict(st.bufs.get(v.ptr.buf) or {'cap': v.cap, 'status': 'live', 'new': True}); b['cap'] = v.len
            st.bufs[v.ptr.buf] = b
            return (BxS(v.ptr.buf, v.len),)
        if isinstance(v, (Bx, BxS)): return (v,)
        raise Undecided('into_boxed_slice of %r' % (v,))
    @reg('<alloc::vec::Vec as core::convert::From>::from', 'alloc::slice::into_vec')
    def vec_from(it, st, c, args, dest, rt, tgt, uw):
        v = args[0]
        if isinstance(v, BxS): return (Vc(IP(v.buf, ZERO), v.len, v.len),)
        raise Undecided('Vec::from')
    @reg('alloc::vec::Vec::len')
    def vec_len(it, st, c, args, dest, rt, tgt, uw): return (handle_at(it, st, args[0]).len,)
    @reg('alloc::vec::Vec::capacity')
    def vec_cap(it, st, c, args, dest, rt, tgt, uw): return (handle_at(it, st, args[0]).cap,)
    @reg('alloc::vec::Vec::is_empty')
    def vec_ie(it, st, c, args, dest, rt, tgt, uw): return (const(1 if it.eq0(st, handle_at(it, st, args[0]).len) else 0),)
    @reg('alloc::vec::Vec::as_ptr', 'alloc::vec::Vec::as_mut_ptr')
    def vec_ptr(it, st, c, args, dest, rt, tgt, uw): return (handle_at(it, st, args[0]).ptr,)
    @reg('<alloc::vec::Vec as core::ops::deref::Deref>::deref', '<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice')
    def vec_deref(it, st, c, args, dest, rt, tgt, uw):
        v = handle_at(it, st, args[0]); return (SP(v.ptr, v.len),)
    @reg('<alloc::vec::Vec as core::ops::index::Index>::index', '<alloc::vec::Vec as core::ops::index::IndexMut>::index_mut')
    def vec_index(it, st, c, args, dest, rt, tgt, uw):
        v = handle_at(it, st, args[0]); x = args[1]
        if not isinstance(v, Vc): raise Undecided('Vec index')
        off = lambda d: v.ptr + d if isinstance(v.ptr, Lin) or it.zst else IP(v.ptr.buf, v.ptr.off + d)
        ks = [it.pr.name(a) for a in c.get('args') or () if it.pr.t(a)['k'] == 'adt']
        k = next((n for n in ks if n.startswith('Range')), None)
        if k == 'RangeFull': return (SP(v.ptr, v.len),)
        if it.zst: raise Undecided('Vec index')
        if k is None and isinstance(x, Lin): lo, hi = x, x + 1
        elif isinstance(x, Agg) and k in ('Range', 'RangeFrom', 'RangeTo') and all(isinstance(a, Lin) for a in x.fs):
            lo, hi = x.fs[:2] if k == 'Range' else (x.fs[0], v.len) if k == 'RangeFrom' else (ZERO, x.fs[0])
        else: raise Undecided('Vec index')
        if not it.ge0(st, hi - lo) or not it.ge0(st, v.len - hi): it.panic(st, 'index out of bounds', uw); return None
        return (off(lo) if k is None else SP(off(lo), hi - lo),)
    @reg('alloc::vec::Vec::set_len')
    def vec_setlen(it, st, c, args, dest, rt, tgt, uw):
        v = handle_at(it, st, args[0]); it.store(st, args[0], Vc(v.ptr, args[1], v.cap)); return (UNIT,)
    def source_of(it, st, v, ty=None, refs=False):
        """(slice an iterator chain clones from, 'cloned') or (None, None); follows slice adapters by their types"""
        pr = it.pr
        def sl(v, ty):
            t = pr.t(ty) if ty is not None else {'k': None}
            n = pr.name(ty) if t['k'] == 'adt' else None
            if isinstance(v, Opq) and v.tag == 'sliceiter': return v.args[0], False
            if n in ('Cloned', 'Copied') and isinstance(v, Agg): return sl(v.fs[0], pr.args(ty)[0])
            if n in ('Fuse', 'Peekable') or not isinstance(v, Agg): return None
            if n == 'Rev':
                r = sl(v.fs[0], pr.args(ty)[0]); return r and (r[0], not r[1])
            if n in ('Take', 'Skip', 'StepBy', 'Chain', 'Map', 'Filter'):
                if n not in ('Take', 'Skip') or len(v.fs) != 2: return None
                r = sl(v.fs[0], pr.args(ty)[0]); k = v.fs[1]
                if r is None or not isinstance(k, Lin) or not isinstance(r[0].ptr, (IP, Lin)): return None
                sp, rev = r
                m = k if it.ge0(st, sp.len - k) else sp.len
                if n == 'Take': return (SP(sp.ptr if not rev else it.ptr_add(st, sp.ptr, sp.len - m), m), rev)
                return (SP(sp.ptr if rev else it.ptr_add(st, sp.ptr, m), sp.len - m), rev)
            if (n == 'Iter' or n is None) and len(v.fs) == 3 and isinstance(v.fs[0], (IP, Lin)):        # slice::Iter { ptr, end_or_len, .. }
                if isinstance(v.fs[1], IP) and isinstance(v.fs[0], IP) and v.fs[1].buf == v.fs[0].buf and not it.zst: return SP(v.fs[0], v.fs[1].off - v.fs[0].off), False
                if isinstance(v.fs[1], Lin) and it.zst: return SP(v.fs[0], v.fs[1]), False
            return None
        t = pr.t(ty) if ty is not None else {'k': None}
        if refs and isinstance(v, SP): return v, 'cloned'
        if t['k'] != 'adt' or pr.name(ty) == 'Iter' and not refs: return None, None
        r = sl(v, ty)
        if r is None: return None, None
        if r[1] and st.facts.ge0(const(1) - r[0].len) is not True: return r[0], 'reversed'
        return r[0], 'cloned'
    def make_cloned(it, st, sp, uw, why='T::clone', how='clone'):
        st.ev('clonefrom', sp, it.site(st))
        if st.facts.eq0(sp.len) is not True and it.maybe_panic(st, why):
            it.panic(st, why, uw); return None
        b = it.new_buf(st, sp.len)
        st.ev('create', b, ZERO, sp.len, (how, sp))
        return Vc(IP(b, ZERO), sp.len, sp.len)
    @reg('<alloc::vec::Vec as core::iter::traits::collect::FromIterator>::from_iter')
    def vec_fi(it, st, c, args, dest, rt, tgt, uw):
        ty = (c.get('rargs') or c['args'])[-1]
        if it.pr.t(ty)['k'] == 'ref' and it.pr.name(it.pr.t(ty)['t']) == 'Iter': ty = it.pr.t(ty)['t']
        sp, k = source_of(it, st, args[0], ty)
        if sp is not None:
            v = make_cloned(it, st, sp, uw, how='clone' if k == 'cloned' else 'reversed')
            return None if v is None else (v,)
        if isinstance(args[0], (Agg, P)): raise Violation('copy', 'collects items into a new vector')
        if it.maybe_panic(st, 'Iterator::next'):
            it.panic(st, 'Iterator::next', uw); return None
        n = atom(('n', st.steps)); b = it.new_buf(st, n)
        st.ev('create', b, ZERO, n, ('iter', args[0]))
        return (Vc(IP(b, ZERO), n, n),)
    @reg('<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::extend_trusted', 'alloc::vec::Vec::extend_desugared')
    def vec_ext(it, st, c, args, dest, rt, tgt, uw):
        old = handle_at(it, st, args[0])
        if not isinstance(old, Vc) or not it.eq0(st, old.len): raise Violation('copy', 'collects items into a vector')
        if isinstance(args[1], Opq) and args[1].tag == 'user' and isinstance(old.ptr, IP):
            if it.maybe_panic(st, 'Iterator::next'): it.panic(st, 'Iterator::next', uw); return None
            n = atom(('n', st.steps)); b = old.ptr.buf; st.bufs[b] = dict(st.bufs.get(b) or {}, cap=n, status='live', new=True)
            st.ev('create', b, ZERO, n, ('iter', args[1])); it.store(st, args[0], Vc(old.ptr, n, n))
            return (UNIT,)
        if isinstance(args[1], SP): sp, k = args[1], 'cloned'
        else: sp, k = source_of(it, st, args[1], (c.get('rargs') or c['args'])[-1])
        if sp is None: raise Violation('copy', 'collects items into a vector')
        if not isinstance(old.ptr, IP): raise Undecided('extend')
        ob = st.bufs.get(old.ptr.buf)
        st.ev('clonefrom', sp, it.site(st))
        if st.facts.eq0(sp.len) is not True and it.maybe_panic(st, 'T::clone'):
            it.panic(st, 'T::clone', uw); return None
        if it.zst or it.ge0(st, old.cap - sp.len): b, cap = old.ptr.buf, old.cap
        else:
            b = it.new_buf(st, sp.len); cap = sp.len
            if ob: st.bufs[old.ptr.buf] = dict(ob, status='freed')
        st.ev('create', b, ZERO, sp.len, ('clone' if k == 'cloned' else 'reversed', sp))
        it.store(st, args[0], Vc(IP(b, ZERO), sp.len, cap))
        return (UNIT,)
    @reg('alloc::vec::Vec::push', 'alloc::vec::Vec::insert')
    def vec_push(it, st, c, args, dest, rt, tgt, uw):
        """one item at a time; growing the buffer is not observable, so the capacity is taken to suffice"""
        v = handle_at(it, st, args[0]); x = args[-1]; at = ZERO if len(args) == 3 else None
        if not isinstance(v, Vc) or not isinstance(v.ptr, IP): raise Undecided('push')
        if at is not None and not args[1].isconst(): raise Undecided('insert')
        at = args[1] if at is not None else v.len
        b = v.ptr.buf; room = it.zst or it.ge0(st, v.cap - v.len - 1)
        if not room:
            if not st.bufs.get(b, {}).get('new'): raise Violation('copy', 'moves items into a vector')
            st.bufs[b] = dict(st.bufs[b], cap=v.len + 1)
        if at != v.len:
            if not v.len.isconst() or at.c > v.len.c: raise Undecided('insert')
            st.ev('moveitems', b, at, b, at + 1, v.len - at, it.site(st))
        if isinstance(x, It): st.ev('moveitems', x.buf, x.off, b, at, ONE, it.site(st))
        elif isinstance(x, Opq): st.ev('create', b, at, ONE, ('iter', x))
        else: raise Undecided('push of %r' % (x,))
        it.store(st, args[0], Vc(v.ptr, v.len + 1, v.cap if room else v.len + 1))
        return (UNIT,)
    @reg('alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact')
    def vec_res(it, st, c, args, dest, rt, tgt, uw):
        v = handle_at(it, st, args[0])
        if not isinstance(v, Vc) or not isinstance(v.ptr, IP) or not it.eq0(st, v.len): raise Undecided('reserve')
        if it.zst or it.ge0(st, v.cap - args[1]): return (UNIT,)
        ob = st.bufs.get(v.ptr.buf)
        if not ob or not ob.get('new'): raise Undecided('reserve')
        st.bufs[v.ptr.buf] = dict(ob, cap=args[1]); it.store(st, args[0], Vc(v.ptr, v.len, args[1]))
        return (UNIT,)
    @reg('alloc::vec::Vec::append', 'alloc::vec::Vec::remove', 'alloc::vec::Vec::pop', 'alloc::vec::Vec::drain', 'alloc::vec::Vec::truncate', 'alloc::vec::Vec::swap_remove', 'alloc::vec::Vec::split_off')
    def vec_mv(it, st, c, args, dest, rt, tgt, uw): raise Violation('copy', 'moves items into or out of a vector')
    @reg('<alloc::boxed::Box as core::clone::Clone>::clone')
    def box_clone(it, st, c, args, dest, rt, tgt, uw):
        v = handle_at(it, st, args[0])
        if not isinstance(v, BxS): raise Undecided('clone of a box')
        v = make_cloned(it, st, SP(IP(v.buf, ZERO), v.len), uw)
        return None if v is None else (BxS(v.ptr.buf, v.len),)
    @reg('alloc::slice::to_vec', 'alloc::slice::hack::to_vec', 'alloc::slice::to_vec_in', 'alloc::slice::hack::to_vec_in', 'alloc::slice::to_vec_in::ConvertVec::to_vec', 'slice::to_vec_in::ConvertVec::to_vec', 'alloc::slice::hack::ConvertVec::to_vec', '<alloc::vec::Vec as core::clone::Clone>::clone')
    def to_vec(it, st, c, args, dest, rt, tgt, uw):
        sp = args[0]
        if not isinstance(sp, SP):
            v = handle_at(it, st, sp); sp = SP(v.ptr, v.len)
        v = make_cloned(it, st, sp, uw)
        return None if v is None else (v,)
    @reg('alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned', '<slice as alloc::borrow::ToOwned>::to_owned')
    def to_owned(it, st, c, args, dest, rt, tgt, uw): return to_vec(it, st, c, args, dest, rt, tgt, uw)
    @reg('core::slice::iter')
    def slice_iter(it, st, c, args, dest, rt, tgt, uw):
        if isinstance(args[0], SP): return (Opq('sliceiter', (args[0],)),)
        raise Undecided('iter of %r' % (args[0],))
    @reg('<core::slice::iter::Iter as core::iter::traits::exact_size::ExactSizeIterator>::len')
    def slice_iter_len(it, st, c, args, dest, rt, tgt, uw):
        return (handle_at(it, st, args[0]).args[0].len,)
    # ---------------------------------------------------------------- VecDeque
    D = 'alloc::collections::vec_deque::VecDeque::'
    def dq(it, st, p):
        v = handle_at(it, st, p)
        if not isinstance(v, Dq): raise Undecided('deque %r' % (v,))
        return v
    def ety(it, c):
        a = c.get('rargs') or c.get('args'); return a[0]
    @reg(D + 'with_capacity')
    def dq_wc(it, st, c, args, dest, rt, tgt, uw):
        return (Dq((), args[0]),)
    @reg(D + 'new', '<alloc::collections::vec_deque::VecDeque as core::default::Default>::default')
    def dq_new(it, st, c, args, dest, rt, tgt, uw): return (Dq((), ZERO),)
    @reg(D + 'capacity')
    def dq_cap(it, st, c, args, dest, rt, tgt, uw):
        d = dq(it, st, args[0])
        return (d.cap,)
    @reg(D + 'len')
    def dq_len(it, st, c, args, dest, rt, tgt, uw): return (const(len(dq(it, st, args[0]).items)),)
    @reg(D + 'is_empty')
    def dq_ie(it, st, c, args, dest, rt, tgt, uw): return (const(0 if dq(it, st, args[0]).items else 1),)
    def ends(i):
        def f(it, st, c, args, dest, rt, tgt, uw):
            d = dq(it, st, args[0])
            return (some(P(d.items[i], ())) if d.items else NONE,)
        return f
    for n in ('front', 'front_mut'): reg(D + n)(ends(0))
    for n in ('back', 'back_mut'): reg(D + n)(ends(-1))
    def grow(it, st, d, n):
        if d.cap.isconst() and n > d.cap.c:
            st.ev('dqgrow', it.site(st)); return const(max(n, 2 * d.cap.c))
        return d.cap
    def pusher(front):
        def f(it, st, c, args, dest, rt, tgt, uw):
            d = dq(it, st, args[0])
            o = ('E', st.fresh('e')); st.mem[o] = args[1]
            items = ((o,) + d.items) if front else (d.items + (o,))
            it.store(st, args[0], Dq(items, grow(it, st, d, len(items))))
            return (UNIT,)
        return f
    reg(D + 'push_front')(pusher(True)); reg(D + 'push_back')(pusher(False))
    def popper(front):
        def f(it, st, c, args, dest, rt, tgt, uw):
            d = dq(it, st, args[0])
            if not d.items: return (NONE,)
            o = d.items[0] if front else d.items[-1]
            v = st.mem.pop(o)
            it.store(st, args[0], Dq(d.items[1:] if front else d.items[:-1], d.cap))
            return (some(v),)
        return f
    reg(D + 'pop_front')(popper(True)); reg(D + 'pop_back')(popper(False))
    @reg(D + 'get', D + 'get_mut')
    def dq_get(it, st, c, args, dest, rt, tgt, uw):
        d = dq(it, st, args[0])
        if not args[1].isconst(): raise Undecided('deque index')
        return (some(P(d.items[args[1].c], ())) if args[1].c < len(d.items) else NONE,)
    @reg('<alloc::collections::vec_deque::VecDeque as core::ops::index::Index>::index', '<alloc::collections::vec_deque::VecDeque as core::ops::index::IndexMut>::index_mut')
    def dq_index(it, st, c, args, dest, rt, tgt, uw):
        d = dq(it, st, args[0])
        if not args[1].isconst(): raise Undecided('deque index')
        if args[1].c >= len(d.items): it.panic(st, 'index out of bounds', uw); return None
        return (P(d.items[args[1].c], ()),)
    @reg(D + 'clear')
    def dq_clear(it, st, c, args, dest, rt, tgt, uw):
        d = dq(it, st, args[0]); it.store(st, args[0], Dq((), d.cap)); it.finish(st, dest, UNIT, tgt)
        it.push_tasks(st, [('drop', P(o, ()), ety(it, c)) for o in d.items]); st.frames[-1].uw = uw
        return None
    @reg(D + 'reserve', D + 'reserve_exact', D + 'shrink_to_fit')
    def dq_res(it, st, c, args, dest, rt, tgt, uw): return (UNIT,)
    @reg(D + 'iter', D + 'iter_mut', '<&alloc::collections::vec_deque::VecDeque as core::iter::traits::collect::IntoIterator>::into_iter')
    def dq_iter(it, st, c, args, dest, rt, tgt, uw): return (Opq('dqiter', tuple(dq(it, st, args[0]).items)),)
    for pre in ('alloc::collections::vec_deque::iter::Iter', 'alloc::collections::vec_deque::iter_mut::IterMut'):
        def mk2(pre):
            @reg('<%s as core::iter::traits::iterator::Iterator>::next' % pre)
            def it_next(it, st, c, args, dest, rt, tgt, uw):
                v = handle_at(it, st, args[0])
                if not v.args: return (NONE,)
                it.store(st, args[0], Opq('dqiter', v.args[1:])); return (some(P(v.args[0], ())),)
            @reg('<%s as core::iter::traits::double_ended::DoubleEndedIterator>::next_back' % pre)
            def it_nextb(it, st, c, args, dest, rt, tgt, uw):
                v = handle_at(it, st, args[0])
                if not v.args: return (NONE,)
                it.store(st, args[0], Opq('dqiter', v.args[:-1])); return (some(P(v.args[-1], ())),)
            @reg('<%s as core::iter::traits::iterator::Iterator>::size_hint' % pre)
            def it_sh(it, st, c, args, dest, rt, tgt, uw):
                v = handle_at(it, st, args[0]); n = const(len(v.args)); return (Agg(0, (n, some(n))),)
            @reg('<%s as core::iter::traits::exact_size::ExactSizeIterator>::len' % pre)
            def it_len(it, st, c, args, dest, rt, tgt, uw): return (const(len(handle_at(it, st, args[0]).args)),)
            @reg('<%s as core::iter::traits::iterator::Iterator>::fold' % pre)
            def it_fold(it, st, c, args, dest, rt, tgt, uw):
                a = c.get('rargs')
                v, acc, f = args
                fty = fold_fty(it, c)
                key = ('fold', st.fresh('fold')); o = ('C', key[1]); st.mem[o] = acc
                fo = ('C', st.fresh('ff')); st.mem[fo] = f
                # run the closure for each element through task frames
                it.finish(st, None, None, tgt)
                st.x[('foldd', o)] = 1
                ts = [('py', fold_step, fo, fty, o, e, rt, uw) for e in v.args] + [('py', fold_done, o, dest)]
                it.push_tasks(st, ts); st.frames[-1].uw = uw
                return None
        mk2(pre)
    def fold_fty(it, c):
        a = c.get('margs') or c.get('args') or c.get('rargs')
        for t in reversed(a):
            if it.pr.t(t)['k'] in ('closure', 'fndef'): return t
        raise Undecided('fold closure type')
    def fold_step(it, st, f, fo, fty, o, e, rt, uw):
        acc = st.mem[o]
        t = it.pr.t(fty)
        if t['k'] == 'fndef': raise Undecided('fold with fn item')
        inst = it.pr.I.get(t['body'])
        selfty = inst['body']['locals'][1][0]
        env = P(fo, ()) if it.pr.t(selfty)['k'] == 'ref' else st.mem[fo]
        it.push(st, t['body'], [env, acc, P(e, ())], P(o, ()), rt, 'stay', 'continue')
    def fold_done(it, st, f, o, dest):
        v = st.mem.pop(o)
        if dest is not None: it.store(st, dest, v)
    @reg('<alloc::collections::vec_deque::VecDeque as core::iter::traits::collect::Extend>::extend')
    def dq_extend(it, st, c, args, dest, rt, tgt, uw):
        v = args[1]
        cl = False
        while isinstance(v, Agg) and len(v.fs) == 1: v = v.fs[0]; cl = True
        if not (isinstance(v, Opq) and v.tag == 'dqiter' and cl): raise Undecided('deque extend')
        d = dq(it, st, args[0])
        new = []
        for e in v.args:
            x = it.loadf(st, P(e, ()))
            new.append((e, clone_handle(it, st, x)))
        items = list(d.items)
        for e, x in new:
            o = ('E', st.fresh('e')); st.mem[o] = x; items.append(o)
        it.store(st, args[0], Dq(tuple(items), grow(it, st, d, len(items))))
        return (UNIT,)
    @reg('<alloc::collections::vec_deque::VecDeque as core::clone::Clone>::clone')
    def dq_clone(it, st, c, args, dest, rt, tgt, uw):
        d = dq(it, st, args[0]); items = []
        for e in d.items:
            x = clone_handle(it, st, it.loadf(st, P(e, ())))
            o = ('E', st.fresh('e')); st.mem[o] = x; items.append(o)
        return (Dq(tuple(items), const(max(len(items), 1))),)
    def clone_handle(it, st, x):
        if isinstance(x, Opq) and x.tag == 'slice': return x
        if isinstance(x, Agg):
            for v in x.fs:
                if isinstance(v, H):
                    if v.kind == 'strong': it.inc_strong(st, v.obj)
                    elif v.obj is not None: it.inc_weak(st, v.obj)
                elif not (isinstance(v, Agg) and not v.fs): raise Undecided('clone of element')
            return x
        raise Undecided('clone of element %r' % (x,))
    # ---------------------------------------------------------------- atomics
    A = 'core::sync::atomic::'
    def at_names(m):
        return [A + t + '::' + m for t in ('Atomic', 'AtomicPtr', 'AtomicBool', 'AtomicUsize')]
    @reg(*at_names('new'))
    def at_new(it, st, c, args, dest, rt, tgt, uw): return (args[0],)
    @reg('<core::sync::atomic::Atomic as core::default::Default>::default')
    def at_default(it, st, c, args, dest, rt, tgt, uw): return (ZERO,)
    @reg(*(at_names('get_mut') + at_names('as_ptr') + at_names('from_mut')))
    def at_getmut(it, st, c, args, dest, rt, tgt, uw):
        return (args[0],)
    @reg(*at_names('into_inner'))
    def at_ii(it, st, c, args, dest, rt, tgt, uw): return (args[0],)
    def shared(st, p):
        m = st.meta.get(p.obj) if isinstance(p, P) else None
        return m is not None and m.shared
    def access(it, st, p, op):
        if not isinstance(p, P): raise Undecided('atomic at %r' % (p,))
        it.check_live(st, p.obj, 'atomic access')
        if shared(st, p): it.hooks.interfere(it, st, p, op)
        return it.loadf(st, p)
    def observed(it, st, p, v, o):
        """a pointer published by another thread was read with ordering o"""
        if shared(st, p) and isinstance(v, P):
            m = st.meta.get(v.obj)
            if m is not None and not m.new:
                if not acquires(o): st.x[('taint', v.obj)] = o
                else: st.x.pop(('taint', v.obj), None)
    def published(it, st, p, v, o, op):
        if shared(st, p) and isinstance(v, P):
            m = st.meta.get(v.obj)
            if m is not None and m.new and not releases(o) and not st.x.get('relfence'):
                it.hooks.note(it, st, 'ordering', 'publishes a new %s with %s ordering' % (it.objname(st, v.obj), o))
            if m is not None and m.new:
                it.hooks.on_publish(it, st, v.obj, p)
    @reg(*at_names('load'))
    def at_load(it, st, c, args, dest, rt, tgt, uw):
        v = access(it, st, args[0], 'load'); o = order(args[1])
        observed(it, st, args[0], v, o)
        st.ev('atomic', 'load', args[0], o, v, v, it.site(st))
        it.hooks.on_atomic(it, st, 'load', args[0], o, v, v)
        return (v,)
    @reg(*at_names('store'))
    def at_store(it, st, c, args, dest, rt, tgt, uw):
        old = access(it, st, args[0], 'store'); o = order(args[2])
        published(it, st, args[0], args[1], o, 'store')
        it.hooks.on_atomic(it, st, 'store', args[0], o, old, args[1])
        it.store(st, args[0], args[1])
        st.ev('atomic', 'store', args[0], o, old, args[1], it.site(st))
        return (UNIT,)
    @reg(*at_names('swap'))
    def at_swap(it, st, c, args, dest, rt, tgt, uw):
        old = access(it, st, args[0], 'swap'); o = order(args[2])
        observed(it, st, args[0], old, o); published(it, st, args[0], args[1], o, 'swap')
        it.hooks.on_atomic(it, st, 'swap', args[0], o, old, args[1])
        it.store(st, args[0], args[1])
        st.ev('atomic', 'swap', args[0], o, old, args[1], it.site(st))
        return (old,)
    def same(it, st, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin): return it.eq0(st, a - b)
        if isinstance(a, P) and isinstance(b, P): return a == b
        if isinstance(a, (P, Lin)) and isinstance(b, (P, Lin)): return False
        raise Undecided('compare-exchange of %r and %r' % (a, b))
    def cas(it, st, p, exp, new, so, fo, weak=False):
        cur = access(it, st, p, 'cas')
        if same(it, st, cur, exp):
            if weak and shared(st, p) and not st.x.get('spurious') and it.choice(st, 'spurious', 2) == 1:
                st.x['spurious'] = True; st.ev('interf', 'spurious', None)
                return cur, False
            observed(it, st, p, cur, so); published(it, st, p, new, so, 'cas')
            it.hooks.on_atomic(it, st, 'cas', p, so, cur, new)
            it.store(st, p, new)
            st.ev('atomic', 'cas', p, so, cur, new, it.site(st))
            return cur, True
        observed(it, st, p, cur, fo)
        it.hooks.on_atomic(it, st, 'casfail', p, fo, cur, cur)
        st.ev('atomic', 'casfail', p, fo, cur, cur, it.site(st))
        return cur, False
    @reg(*at_names('compare_and_swap'))
    def at_cas(it, st, c, args, dest, rt, tgt, uw):
        o = order(args[3]); fo = {'AcqRel': 'Acquire', 'Release': 'Relaxed'}.get(o, o)
        v, s = cas(it, st, args[0], args[1], args[2], o, fo)
        return (v,)
    @reg(*at_names('compare_exchange'))
    def at_cx(it, st, c, args, dest, rt, tgt, uw):
        v, s = cas(it, st, args[0], args[1], args[2], order(args[3]), order(args[4]))
        return (ok(v) if s else err(v),)
    @reg(*at_names('compare_exchange_weak'))
    def at_cxw(it, st, c, args, dest, rt, tgt, uw):
        v, s = cas(it, st, args[0], args[1], args[2], order(args[3]), order(args[4]), True)
        return (ok(v) if s else err(v),)
    def boolrmw(fn):
        def f(it, st, c, args, dest, rt, tgt, uw):
            old = access(it, st, args[0], 'swap'); o = order(args[2])
            if not old.isconst() or not args[1].isconst(): raise Undecided('atomic rmw')
            new = const(fn(old.c, args[1].c))
            it.hooks.on_atomic(it, st, 'swap', args[0], o, old, new)
            it.store(st, args[0], new)
            st.ev('atomic', 'swap', args[0], o, old, new, it.site(st))
            return (old,)
        return f
    reg(*at_names('fetch_or'))(boolrmw(lambda a, b: a | b))
    reg(*at_names('fetch_and'))(boolrmw(lambda a, b: a & b))
    reg(*at_names('fetch_xor'))(boolrmw(lambda a, b: a ^ b))
    @reg(A + 'fence')
    def fence(it, st, c, args, dest, rt, tgt, uw):
        o = order(args[0])
        st.ev('fence', o, it.site(st))
        if acquires(o):
            for k in [k for k in st.x if isinstance(k, tuple) and k[0] == 'taint']: st.x.pop(k)
        if releases(o): st.x['relfence'] = True
        return (UNIT,)
    @reg(A + 'spin_loop_hint', 'core::hint::spin_loop', A + 'compiler_fence')
    def nop(it, st, c, args, dest, rt, tgt, uw): return (UNIT,)
    # ---------------------------------------------------------------- formatting (messages are not interpreted)
    for n in ('core::fmt::Arguments::from_str', 'core::fmt::Arguments::new', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
              'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1', 'core::fmt::Arguments::from_str_nonconst',
              'core::panicking::unreachable_default_msg', 'core::fmt::rt::Argument::new_lower_hex'):
        def mk3(n):
            @reg(n)
            def fmtop(it, st, c, args, dest, rt, tgt, uw): return (Opq('fmt', ()),)
        mk3(n)
    def seen(it, st, v):
        n = 0
        while isinstance(v, P) and n < 5:
            w = it.load(st, v)
            if not isinstance(w, (SP, P, Lin, IP)): break
            v = w; n += 1
        return v
    @reg(*['core::fmt::Formatter::' + x for x in ('write_str', 'write_fmt', 'pad', 'pad_integral', 'write_char')], *['<core::fmt::Formatter as core::fmt::Write>::' + x for x in ('write_str', 'write_fmt', 'write_char')])
    def fmtw(it, st, c, args, dest, rt, tgt, uw):
        st.ev('fmtw', (c.get('res') or c['def']).rsplit('::', 1)[-1], it.site(st))
        if it.maybe_panic(st, 'write'): it.panic(st, 'write', uw); return None
        return (Opq('user', ('fmt', st.steps)),)
    @reg('core::fmt::Formatter::alternate')
    def fmtalt(it, st, c, args, dest, rt, tgt, uw):
        st.ev('fmtalt'); return (Opq('user', ('fmt', st.steps)),)
    @reg(*['core::fmt::Formatter::debug_' + x for x in ('struct', 'tuple', 'list', 'set', 'map')])
    def fmtb(it, st, c, args, dest, rt, tgt, uw):
        st.ev('fmtb', (c.get('res') or c['def']).rsplit('_', 1)[-1], it.site(st))
        return (Opq('fmtb', (c.get('res') or c['def'],)),)
    @reg(*['core::fmt::builders::%s::%s' % (t, m) for t in ('DebugStruct', 'DebugTuple', 'DebugList', 'DebugSet', 'DebugMap', 'DebugInner') for m in ('field', 'entry', 'entries', 'key', 'value', 'finish', 'finish_non_exhaustive', 'field_with')])
    def fmtf(it, st, c, args, dest, rt, tgt, uw):
        if (c.get('res') or c['def']).rsplit('::', 1)[-1].startswith('finish'): return (Opq('user', ('fmt', st.steps)),)
        if (c.get('res') or c['def']).endswith('::entries'):
            sp, how = source_of(it, st, args[1], (c.get('rargs') or c['args'])[-1], True)
            if sp is None: raise Undecided('formats what an iterator yields')
            st.ev('sliceop', 'fmt', (sp,) if how == 'cloned' else (Opq('reversed', (sp,)),), it.site(st))
        else: st.ev('sliceop', 'fmt', tuple(seen(it, st, a) for a in args[1:]), it.site(st))
        if it.maybe_panic(st, 'Debug::fmt'): it.panic(st, 'Debug::fmt', uw); return None
        return (args[0],)
    @reg(*['core::fmt::Formatter::debug_%s_field%d_finish' % (k, i) for k in ('struct', 'tuple') for i in range(1, 6)])
    def fmtfin(it, st, c, args, dest, rt, tgt, uw):
        st.ev('fmtb', (c.get('res') or c['def']).rsplit('debug_', 1)[-1].split('_')[0], it.site(st))
        st.ev('sliceop', 'fmt', tuple(seen(it, st, a) for a in args[1:]), it.site(st))
        if it.maybe_panic(st, 'Debug::fmt'): it.panic(st, 'Debug::fmt', uw); return None
        return (Opq('user', ('fmt', st.steps)),)
    # ---------------------------------------------------------------- intrinsics and tiny core functions
    def mini(*names):
        def d(f):
            def g(it, st, c, args, dest, rt, tgt, uw): return (f(it, st, c, args),)
            for n in names: M_[n] = g
            return f
        return d
    X = 'core::intrinsics::'
    def sizeof(it, t):
        tt = it.pr.t(t)
        if tt['k'] == 'param': return it.sz
        if tt['k'] == 'int':
            return const({'u8': 1, 'i8': 1, 'u16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'usize': 8, 'isize': 8, 'i64': 8, 'u128': 16}.get(tt['s'], 8))
        if tt['k'] in ('ptr', 'ref'): return const(8)
        if tt['k'] == 'adt' and it.pr.name(t) in _i.TRANSPARENT and it.pr.args(t): return sizeof(it, it.pr.args(t)[0]) if it.pr.name(t) not in ('NonNull', 'Unique') else const(8)
        raise Undecided('size_of %s' % tt['s'])
    @mini(X + 'size_of', 'core::mem::size_of')
    def size_of(it, st, c, args): return sizeof(it, (c.get('rargs') or c['args'])[0])
    @mini('core::mem::size_of_val', X + 'size_of_val')
    def size_of_val(it, st, c, args):
        t = (c.get('rargs') or c['args'])[0]
        if it.pr.t(t)['k'] == 'slice':
            if isinstance(args[0], SP): return ZERO if it.zst else _i.szmul(args[0].len)
            raise Undecided('size_of_val')
        return sizeof(it, t)
    @mini(X + 'align_of', 'core::mem::align_of', X + 'min_align_of')
    def align_of(it, st, c, args): return atom('align')
    # memory obtained and returned by layout: a layout stands for room for n items
    LY = 'core::alloc::layout::Layout::'
    def items_of(it, t):
        while it.pr.t(t)['k'] == 'adt' and it.pr.name(t) in ('MaybeUninit', 'ManuallyDrop'): t = it.pr.args(t)[0]
        if it.pr.t(t)['k'] != 'param': raise Undecided('layout of %s' % it.pr.t(t)['s'])
    @mini(LY + 'array')
    def ly_array(it, st, c, args):
        items_of(it, (c.get('rargs') or c['args'])[0])
        return ok(Opq('layout', (args[0],)))            # too many bytes: no buffer of that many items exists or can be made
    @mini(LY + 'new')
    def ly_new(it, st, c, args):
        items_of(it, (c.get('rargs') or c['args'])[0])
        return Opq('layout', (ONE,))
    @mini(LY + 'for_value')
    def ly_fv(it, st, c, args):
        t = (c.get('rargs') or c['args'])[0]
        if it.pr.t(t)['k'] != 'slice' or not isinstance(args[0], SP): raise Undecided('Layout::for_value')
        items_of(it, it.pr.t(t)['t'])
        return Opq('layout', (args[0].len,))
    @mini(LY + 'from_size_align_unchecked')
    def ly_raw(it, st, c, args):
        if it.zst or not (args[0] == ZERO or _i.is_sz(args[0])): raise Undecided('layout of %r bytes' % (args[0],))
        return Opq('layout', (_i.strip_sz(args[0]),))
    @mini(LY + 'size')
    def ly_size(it, st, c, args):
        v = handle_at(it, st, args[0])
        if not (isinstance(v, Opq) and v.tag == 'layout'): raise Undecided('Layout::size')
        return ZERO if it.zst else _i.szmul(v.args[0])
    @mini(LY + 'align')
    def ly_align(it, st, c, args): return atom('align')
    @mini('alloc::alloc::dealloc')
    def ly_free(it, st, c, args):
        v = args[1]
        if not (isinstance(v, Opq) and v.tag == 'layout'): raise Undecided('dealloc')
        it.dealloc(st, args[0], v.args[0]); return UNIT
    @mini('alloc::alloc::alloc')
    def ly_alloc(it, st, c, args):
        v = args[0]
        if not (isinstance(v, Opq) and v.tag == 'layout') or it.zst: raise Undecided('alloc')
        return IP(it.new_buf(st, v.args[0]), ZERO)
    @mini(X + 'needs_drop', 'core::mem::needs_drop')
    def needs_drop(it, st, c, args):
        t = (c.get('rargs') or c['args'])[0]
        return const(1)
    @mini(X + 'read_via_copy', 'core::ptr::read', 'core::ptr::read_unaligned', 'core::ptr::read_volatile', 'core::ptr::const_ptr::read', 'core::ptr::mut_ptr::read', 'core::ptr::non_null::NonNull::read')
    def read_via_copy(it, st, c, args):
        if it.zst and isinstance(args[0], Lin) and it.pr.t((c.get('rargs') or c['args'])[0])['k'] == 'param':
            st.ev('read', 'zst', ZERO, it.site(st)); return It('zst', ZERO)         # any address will do
        return it.rd(st, args[0], False)
    def write(it, st, p, v):
        if isinstance(p, Lin):
            if it.zst: st.ev('write', 'zst', ZERO, v, it.site(st)); return
            raise Violation('uaf', 'write through a null or dangling pointer')
        it.store(st, p, v)
    @mini(X + 'write_via_move', 'core::ptr::write', 'core::ptr::mut_ptr::write', 'core::ptr::non_null::NonNull::write')
    def write_via_move(it, st, c, args):
        write(it, st, args[0], args[1]); return UNIT
    @mini('core::mem::replace')
    def replace(it, st, c, args):
        v = it.rd(st, args[0], False); write(it, st, args[0], args[1]); return v
    @mini('core::mem::swap', 'core::ptr::swap', X + 'typed_swap_nonoverlapping')
    def swap(it, st, c, args):
        a = it.rd(st, args[0], False); b = it.rd(st, args[1], False)
        write(it, st, args[0], b); write(it, st, args[1], a); return UNIT
    @mini('core::cell::Cell::replace')
    def creplace(it, st, c, args):
        v = it.rd(st, args[0], False); write(it, st, args[0], args[1]); return v
    @mini('core::mem::zeroed', X + 'zeroed')
    def zeroed(it, st, c, args):
        t = (c.get('rargs') or c['args'])[0]
        if it.pr.t(t)['k'] == 'param':
            if it.zst: st.ev('read', 'zst', ZERO, it.site(st)); return It('zst', ZERO)
            raise Violation('uaf', 'zeroed value of a sized item type')
        raise Undecided('zeroed')
    @mini('core::mem::maybe_uninit::MaybeUninit::assume_init')
    def assume_init(it, st, c, args):
        if args[0] is UNINIT or args[0] == UNIT: return zeroed(it, st, c, args)
        return args[0]
    @mini('core::mem::uninitialized', X + 'uninit')
    def uninitialized(it, st, c, args): return zeroed(it, st, c, args)
    @mini('core::mem::forget')
    def forget(it, st, c, args):
        if isinstance(args[0], It): st.ev('forgotitem', args[0].buf, args[0].off, it.site(st))
        return UNIT
    @mini(X + 'assert_inhabited', X + 'assert_zero_valid', X + 'assume', X + 'cold_path', 'core::hint::cold_path', 'core::hint::assert_unchecked', X + 'black_box', 'core::hint::must_use', X + 'write_bytes')
    def unit(it, st, c, args): return UNIT
    @mini(X + 'likely', X + 'unlikely', 'core::convert::identity', 'core::hint::black_box')
    def ident(it, st, c, args): return args[0]
    @mini(X + 'offset', X + 'arith_offset', 'core::ptr::const_ptr::add', 'core::ptr::mut_ptr::add', 'core::ptr::const_ptr::wrapping_add', 'core::ptr::mut_ptr::wrapping_add', 'core::ptr::non_null::NonNull::add',
          'core::ptr::const_ptr::offset', 'core::ptr::mut_ptr::offset', 'core::ptr::non_null::NonNull::offset', 'core::ptr::const_ptr::wrapping_offset', 'core::ptr::mut_ptr::wrapping_offset')
    def offset(it, st, c, args): return it.ptr_add(st, args[0], args[1])
    def movei(it, st, src, dst, n):
        if not isinstance(n, Lin): raise Undecided('copy')
        if st.facts.ge0(-n) is True: return
        if isinstance(src, P) or isinstance(dst, P):
            if n == ONE: write(it, st, dst, it.rd(st, src, False)); return
            raise Undecided('copy of structures')
        if it.zst: st.ev('moveitems', 'zst', ZERO, 'zst', ZERO, n, it.site(st)); return
        if it.eq0(st, n): return
        if not (isinstance(src, IP) and isinstance(dst, IP)): raise Violation('uaf', 'copy of items through a dangling pointer')
        it.check_items(st, src.buf, src.off, n, 'copy'); it.check_items(st, dst.buf, dst.off, n, 'copy')
        st.ev('moveitems', src.buf, src.off, dst.buf, dst.off, n, it.site(st))
    I.movei = movei
    @mini('core::ptr::copy', 'core::ptr::copy_nonoverlapping', X + 'copy', X + 'copy_nonoverlapping', 'core::ptr::const_ptr::copy_to', 'core::ptr::const_ptr::copy_to_nonoverlapping', 'core::ptr::mut_ptr::copy_to', 'core::ptr::mut_ptr::copy_to_nonoverlapping')
    def cpy(it, st, c, args): movei(it, st, args[0], args[1], args[2]); return UNIT
    @mini('core::ptr::mut_ptr::copy_from', 'core::ptr::mut_ptr::copy_from_nonoverlapping')
    def cpyf(it, st, c, args): movei(it, st, args[1], args[0], args[2]); return UNIT
    def lt(it, st, a, b):
        if not (isinstance(a, Lin) and isinstance(b, Lin)): raise Undecided('min/max')
        return not it.ge0(st, a - b)
    for pre in ('core::cmp::', 'core::cmp::Ord::', '<usize as core::cmp::Ord>::', 'core::num::', X + 'integer_', '<int as core::cmp::Ord>::'):
        M_[pre + 'min'] = lambda it, st, c, args, dest, rt, tgt, uw: (args[0] if lt(it, st, args[0], args[1]) else args[1],)
        M_[pre + 'max'] = lambda it, st, c, args, dest, rt, tgt, uw: (args[1] if lt(it, st, args[0], args[1]) else args[0],)
    @mini('core::ptr::const_ptr::sub', 'core::ptr::mut_ptr::sub', 'core::ptr::const_ptr::wrapping_sub', 'core::ptr::mut_ptr::wrapping_sub', 'core::ptr::non_null::NonNull::sub')
    def psub(it, st, c, args): return it.ptr_add(st, args[0], args[1], True)
    for pre in ('const_ptr', 'mut_ptr'):
        pass
    @mini(X + 'ptr_offset_from', X + 'ptr_offset_from_unsigned', 'core::ptr::const_ptr::offset_from', 'core::ptr::mut_ptr::offset_from', 'core::ptr::const_ptr::offset_from_unsigned', 'core::ptr::mut_ptr::offset_from_unsigned', 'core::ptr::non_null::NonNull::offset_from_unsigned', 'core::ptr::non_null::NonNull::offset_from')
    def offset_from(it, st, c, args):
        a, b = args[0], args[1]
        if it.zst: raise Violation('zstdiv', 'length computed from a pointer difference of zero-sized items')
        if isinstance(a, IP) and isinstance(b, IP) and a.buf == b.buf: return a.off - b.off
        raise Undecided('pointer difference')
    @mini('core::ptr::non_null::NonNull::dangling', 'core::ptr::dangling', 'core::ptr::dangling_mut', 'core::ptr::without_provenance_mut', 'core::ptr::without_provenance')
    def dangling(it, st, c, args):
        if args: return args[0]
        return atom('dangling')
    @mini('core::ptr::const_ptr::is_null', 'core::ptr::mut_ptr::is_null')
    def is_null(it, st, c, args):
        p = args[0]
        if isinstance(p, SP): p = p.ptr
        if isinstance(p, (P, IP)): return ZERO
        if isinstance(p, Lin):
            if p == atom('dangling'): return ZERO
            return const(1 if it.eq0(st, p) else 0)
        raise Undecided('is_null')
    @mini('core::ptr::null', 'core::ptr::null_mut')
    def null(it, st, c, args): return ZERO
    @mini(X + 'ctpop')
    def ctpop(it, st, c, args):
        a = args[0]
        if isinstance(a, Lin) and a.isconst(): return const(bin(a.c).count('1'))
        if isinstance(a, Lin) and st.x.get(('notpow2', a)): return const(2)
        raise Undecided('number of ones')
    @mini(X + 'cttz', X + 'cttz_nonzero', 'core::num::trailing_zeros', 'core::num::usize::trailing_zeros')
    def cttz(it, st, c, args):
        a = args[0]
        if isinstance(a, Lin) and a.isconst(): return const(64 if a.c == 0 else (a.c & -a.c).bit_length() - 1)
        if isinstance(a, Lin):
            k = it.ctz(a)
            if k is not None: return const(k)
        raise Undecided('trailing_zeros')
    @mini('core::num::leading_zeros', X + 'ctlz')
    def ctlz(it, st, c, args):
        a = args[0]
        if isinstance(a, Lin) and a.isconst(): return const(64 - a.c.bit_length())
        raise Undecided('leading_zeros')
    @mini('core::num::is_power_of_two', 'core::num::usize::is_power_of_two')
    def ip2(it, st, c, args):
        a = args[0]
        if isinstance(a, Lin) and a.isconst(): return const(1 if a.c > 0 and a.c & (a.c - 1) == 0 else 0)
        if isinstance(a, Lin) and st.x.get(('notpow2', a)): return ZERO
        raise Undecided('is_power_of_two')
    @mini('core::num::count_ones')
    def cones(it, st, c, args):
        a = args[0]
        if isinstance(a, Lin) and a.isconst(): return const(bin(a.c).count('1'))
        if isinstance(a, Lin) and st.x.get(('notpow2', a)): return const(2)
        raise Undecided('count_ones')
    @mini('core::num::ilog2', 'core::num::checked_ilog2')
    def ilog2(it, st, c, args):
        a = args[0]
        if isinstance(a, Lin) and a.isconst() and a.c > 0: return const(a.c.bit_length() - 1)
        raise Undecided('ilog2')
    @mini('core::num::div_ceil')
    def divceil(it, st, c, args):
        if args[1].isconst() and args[1].c == 2: return args[0] - half(args[0])
        raise Undecided('div_ceil')
    def arith(op):
        return lambda it, st, a, b: it.binop(st, op, a, b)
    for nm, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
        def mk4(nm, op):
            @mini('core::num::wrapping_' + nm, 'core::num::unchecked_' + nm, X + 'wrapping_' + nm, X + 'unchecked_' + nm)
            def w(it, st, c, args): return it.binop(st, op, args[0], args[1])
            @mini('core::num::checked_' + nm)
            def ck(it, st, c, args):
                r = it.binop(st, op + 'WithOverflow', args[0], args[1])
                if isinstance(r, Opq): raise Undecided('checked op')
                return NONE if r.fs[1].c else some(r.fs[0])
            @mini('core::num::overflowing_' + nm, X + nm + '_with_overflow')
            def ov(it, st, c, args): return it.binop(st, op + 'WithOverflow', args[0], args[1])
            @mini('core::num::saturating_' + nm, X + 'saturating_' + nm)
            def sat(it, st, c, args):
                r = it.binop(st, op + 'WithOverflow', args[0], args[1])
                return (ZERO if nm == 'sub' else const(U64 - 1)) if r.fs[1].c else r.fs[0]
        mk4(nm, op)
    @mini('core::num::checked_shr', 'core::num::wrapping_shr', X + 'unchecked_shr')
    def shr_(it, st, c, args): return it.binop(st, 'Shr', args[0], args[1])
    @mini('core::num::wrapping_shl', X + 'unchecked_shl')
    def shl_(it, st, c, args): return it.binop(st, 'Shl', args[0], args[1])
    @mini('core::num::checked_div')
    def cdiv(it, st, c, args):
        if it.eq0(st, args[1]): return NONE
        return some(it.binop(st, 'Div', args[0], args[1]))
    @mini('core::num::midpoint')
    def midp(it, st, c, args): return half(args[0] + args[1])
    @mini(X + 'discriminant_value')
    def dv(it, st, c, args):
        v = it.loadf(st, args[0]); return const(v.v)
    @mini(X + 'ub_checks', 'core::ub_checks::check_language_ub')
    def ubc(it, st, c, args): return ZERO
    @reg(X + 'abort', 'core::process::abort', 'std::process::abort')
    def abort(it, st, c, args, dest, rt, tgt, uw): raise Dead()
    # dropping in place
    @reg('core::ptr::drop_in_place')
    def dip(it, st, c, args, dest, rt, tgt, uw):
        t = (c.get('rargs') or c['args'])[0]
        p = args[0]
        it.finish(st, dest, UNIT, tgt)
        if isinstance(p, SP) and isinstance(p.ptr, Opq): raise Undecided('drop_in_place of %r' % (p,))
        it.push_tasks(st, [('drop', p, t)]); st.frames[-1].uw = uw
        return None
    @mini('core::ptr::slice_from_raw_parts', 'core::ptr::slice_from_raw_parts_mut', 'core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::ptr::non_null::NonNull::slice_from_raw_parts')
    def sfrp(it, st, c, args):
        return SP(args[0], args[1])
