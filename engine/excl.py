"""Exclusive access: what a granted get_mut / into_mut must have established about every other handle."""
from vals import *
from dom import const
from interp import ZERO, ONE
from spec import at
import model
from models import acquires

def is_some(v): return isinstance(v, Agg) and v.v == 1 and v.fs
def is_ok(v): return isinstance(v, Agg) and v.v == 0 and v.fs
def granted(E, s):
    if s.exitk != 'return': return False
    if E.fn == 'get_mut' and E.kind == 'shared': return bool(is_some(s.result))
    if E.fn == 'into_mut' and E.kind == 'shared' or E.fn == 'try_from' and E.recv is not None and E.recv.kind == 'shared': return bool(is_ok(s.result))
    return False

def check(C, s):
    """returns False when the item ledger of this exit is already accounted for here"""
    E = C.E
    if s.exitk != 'return': return True
    if E.fam == 'arc': gates(C, s)
    if not granted(E, s): return True
    C.count('exclusive')
    what = 'get_mut' if E.fn == 'get_mut' else 'into_mut'
    if E.fam == 'rc': rc(C, s, what); return True
    return arc_get(C, s) if what == 'get_mut' else arc_into(C, s)

# ---------------------------------------------------------------- single-threaded family
def rc(C, s, what):
    n = C.E.recv.node; sp = C.spec
    L, R = sp.child(s, n, 'L'), sp.child(s, n, 'R')
    def need(l, key, msg):
        """the fact l <= 0 must follow from what was tested"""
        C.count('exclusive-fact')
        if s.facts.ge0(-l) is True: return
        C.bad(s, 'excl', key, '%s grants exclusive access although %s' % (what, msg), extra=[l - 1], want=None)
    need(at('r', n) - 1, 'same-slice', 'another handle to the same slice may exist')
    need(at('s', n), 'enclosing', 'a handle to an enclosing slice may exist')
    for c, side in ((L, 'left'), (R, 'right')):
        if ('node', c) not in s.x: sp.mkchild(s, n, 'L' if side == 'left' else 'R')
    if what == 'get_mut':
        need(at('w', n), 'weak', 'a weak handle to the same slice may exist')
        for c, side in ((L, 'left'), (R, 'right')): need(at('b', c), 'subslice-' + side, 'a handle, strong or weak, to a part of its %s half may exist' % side)
    else:
        for c, side in ((L, 'left'), (R, 'right')): need(at('a', c), 'subslice-' + side, 'a handle to a part of its %s half may exist' % side)
# ---------------------------------------------------------------- multi-threaded family
def gate_path(C, s, p):
    m = s.meta.get(p.obj)
    return p.path if m is not None and C.role(s, p.obj) == 'G' else None
def gates(C, s):
    """which gates of the receiver's bookkeeping are waited for / closed (combined over functions in combine())"""
    E = C.E
    if E.kind != 'shared' or E.recv is None or E.fn not in ('clone_left', 'clone_right', 'split_off_left', 'split_off_right', 'downgrade'): return
    g = ('G', E.recv.node)
    passed = frozenset(e[2].path for e in s.events() if e[0] == 'gate' and e[1] in ('passed', 'close') and e[2].obj == g)
    if E.fn != 'downgrade':
        ds = [h for k, ty, v in C.conts if k == 'shared' for h in hs(v) if h.obj is not None and C.role(s, h.obj) == 'D']
        if all(h.obj == ('D', E.recv.node) for h in ds): return          # no subslice was obtained
    C.R.info.setdefault(('passed', E.fn), set()).add(passed)
    evs = s.events()
    for i, e in enumerate(evs):
        if e[0] == 'gate' and e[1] == 'passed' and e[2].obj == g:
            C.count('wait-order')
            C.R.info.setdefault('plain-waits', set()).add(E.fn)
            if not any(seqcst(x) for x in evs[:i]): C.R.info.setdefault('unfenced-waits', set()).add(E.fn)
def hs(v):
    if isinstance(v, H): return [v]
    if isinstance(v, Agg): return [h for x in v.fs for h in hs(x)]
    return []
def tested(C, s, evs, f):
    """positions of count tests of f's (role, kind) whose outcome was exactly `val`"""
    role, kind = f; out = []
    n = C.E.recv.node
    for i, e in enumerate(evs):
        if e[0] == 'count' and e[1] == (role, n) and e[2] == kind and s.facts.eq0(e[3] - 1) is True: out.append(i)
    return out
def held(evs, g, i, j):
    """gates of g closed before position i and not opened up to position j"""
    c = {}
    for k, e in enumerate(evs):
        if e[0] == 'gate' and e[2].obj == g:
            if e[1] == 'close': c.setdefault(e[2].path, k)
            elif e[1] == 'open':
                if k <= j: c.pop(e[2].path, None)
    return frozenset(p for p, k in c.items() if k < i)
def seqcst(e): return e[0] == 'fence' and e[1] == 'SeqCst'
def fenced_close(evs, g, h, i):
    """whether a sequentially consistent fence lies between closing one of the gates h of g and position i"""
    for p in h:
        ks = [k for k, e in enumerate(evs[:i]) if e[0] == 'gate' and e[1] == 'close' and e[2].obj == g and e[2].path == p]
        if ks and any(seqcst(x) for x in evs[ks[-1]:i]): return True
    return False
def close_fence(C, evs, g, h, i, what):
    """A thread that waits for the lock with a load was counted first (the handle it calls with) and then looks at the lock; the
    exclusive side closes the lock and then looks at the counts.  A store and a load of different locations on either side: only a
    sequentially consistent fence between them, on both sides, makes one of the two see the other."""
    C.count('wait-order')
    if not fenced_close(evs, g, h, i): C.R.info.setdefault('unfenced-closes', set()).add(what)
def fence(evs, i, j):
    for e in evs[i + 1:j]:
        if e[0] == 'fence' and acquires(e[1]): return True
        if e[0] in ('unwrapped', 'dec') and (e[0] == 'unwrapped' or e[2]): return True       # taking the value out of an Arc acquires
    return False
def arc_get(C, s):
    E = C.E; evs = s.events(); n = E.recv.node; g = ('G', n); end = len(evs)
    gs = tested(C, s, evs, ('G', 'strong')); dstr = tested(C, s, evs, ('D', 'strong')); w = tested(C, s, evs, ('G', 'weak'))
    if not gs:
        C.bad(s, 'excl', 'descendants', 'get_mut grants access without having found its slice bookkeeping unshared: handles to parts of the slice may exist'); return True
    if not w:
        C.bad(s, 'excl', 'weak', 'get_mut grants access without having found that no weak handle to the slice exists'); return True
    best = None; anyorder = False
    allstrong = sorted(gs + dstr)
    for j in w:
        before = [i for i in allstrong if i < j]; after = [k for k in allstrong if k > j]
        for i in before:
            for k in after:
                kk = k in gs or any(p in gs and held(evs, g, p, end) for p in gs if p <= k)
                if not kk: continue
                anyorder = True
                h = held(evs, g, i, k)
                fe = (fence(evs, i, j), fence(evs, j, k), fence(evs, k, end))
                sc = fenced_close(evs, g, h, i)
                c = (bool(h), sum(fe), sc, h, fe, i)
                if best is None or c[:3] > best[:3]: best = c
    if not anyorder:
        if not [1 for j in w for i in allstrong if i < j]:
            C.bad(s, 'excl', 'weak-first', 'get_mut looks for weak handles only before it found itself the only strong handle: another handle may have been downgraded in between')
        else:
            C.bad(s, 'excl', 'no-recheck', 'get_mut does not look for other strong handles again after it looked for weak ones: a weak handle may have been upgraded in between')
        return True
    if not best[0]: C.bad(s, 'excl', 'no-lock', 'get_mut tests the counts without holding a lock of the slice from the first to the last test')
    else:
        C.R.info.setdefault('get_mut-held', set()).add(best[3])
        close_fence(C, evs, g, best[3], best[5], 'get_mut')
    if best[1] < 3:
        which = ['before looking for weak handles', 'after looking for weak handles', 'after the last test'][best[4].index(False)]
        C.bad(s, 'ordering', 'fence', 'get_mut does not synchronise (acquire) with whoever dropped the handles it found gone, %s' % which)
    known_weak(C, s)
    return True
def known_weak(C, s):
    """weak handles the design cannot see: those of parts of the slice, and those taken under bookkeeping that is gone"""
    ty = C.spec.find('WeakSlice', 'arc')
    if ty is None or [x for f, ft in C.pr.fields(ty) for x in C.spec.strong_fields(ft)]: return
    C.bad(s, 'excl', '', 'get_mut grants access while a WeakSlice of a part of the slice exists, which can still be upgraded', key='arc:ArcSlice::get_mut:weak-of-descendant')
    C.bad(s, 'excl', '', 'get_mut does not see a WeakSlice of the slice itself whose bookkeeping was dropped and recreated since', key='arc:ArcSlice::get_mut:weak-same-stale-guard')
LOST_UPGRADE = 'arc:into_mut:descendant-upgrade'
def lost_upgrade(C, s):
    """into_mut found a child of its slice with another owner although no handle to a part of it was left: only a WeakSlice
    upgraded in between explains it"""
    E = C.E
    if E.fam != 'arc' or E.fn not in ('into_mut', 'try_from') or E.recv is None or E.kind != 'shared' and E.recv.kind != 'shared': return False
    n = E.recv.node; evs = s.events()
    if not any(e[0] == 'unwrapped' and e[1] == ('D', n) for e in evs) or not tested(C, s, evs, ('G', 'strong')): return False
    fails = [e for e in evs if e[0] == 'tryfail' and e[1] != ('D', n) and C.role(s, e[1]) == 'D' and s.meta[e[1]].tag is not None]
    return bool(fails) and not [e for e in fails if len(e) > 3 and e[3] > 1]
def arc_into(C, s):
    E = C.E; evs = s.events(); n = E.recv.node; g = ('G', n); end = len(evs)
    u = [i for i, e in enumerate(evs) if e[0] == 'unwrapped' and e[1] == ('D', n)]
    good = True
    if not u:
        if any(e[0] == 'dec' and e[1] == ('D', n) and e[2] for e in evs): pass
        else:
            C.bad(s, 'excl', 'same-slice', 'into_mut grants access without having found the slice unshared: another handle to it, or to an enclosing slice, may exist'); return False
    ui = u[0] if u else end
    gs = [i for i in tested(C, s, evs, ('G', 'strong')) if i < ui]
    fails = [e for e in evs if e[0] == 'tryfail' and e[1] != ('D', n) and C.role(s, e[1]) == 'D' and s.meta[e[1]].tag is not None]
    own = [e for e in fails if len(e) > 3 and e[3] > 1]
    if not gs:
        C.bad(s, 'excl', 'descendants', 'into_mut grants access without having found its slice bookkeeping unshared: handles to parts of the slice may exist'); good = False
    else:
        hh = [held(evs, g, i, ui) for i in gs]
        if not any(hh): C.bad(s, 'excl', 'no-lock', 'into_mut does not hold a lock of the slice from testing its bookkeeping to taking the data'); good = False
        else:
            C.R.info.setdefault('into_mut-held', set()).add(max(hh, key=len))
            best = max(range(len(gs)), key=lambda q: (len(hh[q]), gs[q]))
            close_fence(C, evs, g, hh[best], gs[best], 'into_mut')
        if not any(fence(evs, i, end) for i in gs): C.bad(s, 'ordering', 'fence', 'into_mut does not synchronise (acquire) with whoever dropped the handles to parts of the slice it found gone')
    if fails and not own:
        if good: C.bad(s, 'excl', '', 'into_mut grants access while a WeakSlice of a part of the slice is being upgraded on another thread', key=LOST_UPGRADE)
        return False
    return good
def combine(results):
    """[(Entry, Result)] of one item configuration -> [(kind, key, msg)]: those who create subslices / weak handles wait for the
    lock that the exclusive access attempts hold"""
    passed = {}; heldm = {}
    for E, R in results:
        for k, v in R.info.items():
            if isinstance(k, tuple): passed.setdefault(k[1], set()).update(v)
            else: heldm.setdefault(k, set()).update(v)
    out = []
    inter = lambda v: frozenset.intersection(*v) if v else frozenset()
    for user, hk, whom in ((('clone_left', 'clone_right', 'split_off_left', 'split_off_right'), 'into_mut-held', 'into_mut'), (('downgrade',), 'get_mut-held', 'get_mut')):
        if hk not in heldm: continue
        h = inter(heldm[hk])
        for f in user:
            if f not in passed: continue
            p = inter(passed[f])
            if not p: out.append(('excl', 'arc::ArcSlice::%s:excl:no-wait' % f, '%s does not wait for the lock that %s holds while it decides' % (f, whom)))
            elif not (p & h): out.append(('excl', 'arc::ArcSlice::%s:excl:other-lock' % f, '%s waits for another lock than the one %s holds while it decides' % (f, whom)))
    plain = heldm.get('plain-waits', set())
    for user, what, doing in ((('clone_left', 'clone_right', 'split_off_left', 'split_off_right'), 'into_mut', 'creates a handle to a half'), (('downgrade',), 'get_mut', 'makes a weak handle')):
        us = [f for f in user if f in plain]
        if us and what in heldm.get('unfenced-closes', ()):
            out.append(('ordering', 'arc::ArcSlice::%s:ordering:lock-before-counts' % what, '%s reads the counts after closing the lock without a sequentially consistent fence in between: it may miss a handle whose owner found the lock open' % what))
        for f in us:
            if f in heldm.get('unfenced-waits', ()):
                out.append(('ordering', 'arc::ArcSlice::%s:ordering:counts-before-lock' % f, '%s looks at the lock without a sequentially consistent fence after its handle was counted: %s may miss the handle while this thread %s' % (f, what, doing)))
    return out
