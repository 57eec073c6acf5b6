"""Behavioural properties: which analysed calls each property quantifies over, and which violations break it."""
import os, time, signal, resource, traceback
import multiprocessing as mp
import analyse, excl, spec
from sigs import Report

HALF = ('clone_left', 'clone_right', 'split_off_left', 'split_off_right')
MAKE = ('from', 'from_boxed_slice', 'from_vec', 'from_iter')
CONV = MAKE + ('into_mut', 'into_immut', 'try_from', 'into_iter')
CMP = ('eq', 'ne', 'partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge', 'hash', 'fmt')
REFS = ('deref', 'as_ref', 'borrow', 'deref_mut', 'as_mut', 'borrow_mut')
FAULT = ('uaf', 'oob', 'dfree', 'badfree', 'overrelease', 'zstdiv', 'view')
GUARDS = ('IntoMutGuard', 'GetMutGuard', 'DataGuard')
ACCESS = ('len', 'count', 'size_hint', 'as_slice', 'as_mut_slice')

class J:
    """one analysed call, described for the filters"""
    def __init__(self, pr, j):
        self.j = j; self.da, self.zst, self.how = j[:3]
        if self.how == 'drop':
            t = pr.t(j[3])['n']; self.fn = 'drop'
        else:
            r = analyse.root(pr, j[3]); t = r.get('self_name') or ''; self.fn = r['name']
        self.fam = 'arc' if '::arc::' in t else 'rc'
        self.kind = analyse.KINDS.get(analyse.short(t)); self.N = j[4] if self.how in ('iter', 'drop') else 0
        self.own = self.kind in ('shared', 'weak', 'mut', 'parts', 'mutparts') and self.fn not in CMP + REFS + ACCESS
        self.cost = {'parts': 20, 'mutparts': 2}.get(self.kind, 1) * min(16, max(1, self.N)) if self.how in ('iter', 'drop') else 5 if self.how == 'nparts' else 8 if self.kind == 'shared' and self.fam == 'arc' else 1
        if self.fn == 'clone' and self.kind == 'parts': self.cost *= 3

def has(key, *names): return any(n in key for n in names)
def guardkey(k): return has(k, *GUARDS)
# property -> (which calls, which violations(E, kind, key, tags, j))
TAB = {
 'C01': (lambda j: j.fam == 'rc' and (j.own or j.fn == 'try_from'),
         lambda E, kind, key, tags, j: kind in ('excl', 'guard') or kind in ('overrelease', 'dangling', 'uaf') and (guardkey(key) or j.fn in ('get_mut', 'into_mut', 'try_from')) or kind == 'effect' and j.fn in ('get_mut', 'into_mut', 'try_from')
         or j.fn in ('get_mut', 'into_mut', 'try_from') and kind in ('post', 'receiver', 'items', 'child', 'shared-range')),
 'C02': (lambda j: j.fam == 'arc' and (j.own or j.fn == 'try_from'),
         lambda E, kind, key, tags, j: kind in ('excl', 'guard', 'ordering') or kind == 'lock' and not key.endswith(':kept') or kind in ('overrelease', 'dangling', 'uaf') and (guardkey(key) or j.fn in ('get_mut', 'into_mut', 'try_from'))
         or j.fn in ('get_mut', 'into_mut', 'try_from') and kind in ('post', 'receiver', 'items', 'child', 'shared-range', 'effect')),
 'C03': (lambda j: j.own or j.kind == 'mutiter' or j.fn in CONV,
         lambda E, kind, key, tags, j: kind in ('items', 'child', 'shared-range') or kind == 'effect' and key.endswith(':drop') or kind in ('uaf', 'dangling', 'overrelease', 'leak') and has(key, 'SliceData', 'uaf') or kind == 'leak' and key.endswith(':items') or kind == 'uaf'),
 'C04': (lambda j: j.own or j.kind == 'mutiter' or j.fn in CONV + REFS or j.fn in ('as_slice', 'as_mut_slice'),
         lambda E, kind, key, tags, j: kind in ('uaf', 'oob', 'dfree', 'badfree', 'overrelease', 'dangling', 'buffer', 'alloc', 'view', 'receiver') or kind == 'leak' and (key.endswith(':buffer') or has(key, 'SliceAlloc'))),
 'C05': (lambda j: j.fn in HALF,
         lambda E, kind, key, tags, j: kind in ('post', 'child', 'shared-range', 'receiver', 'items', 'effect') or kind == 'guard' and key.endswith('parent-link') or kind in FAULT and 'panic' not in tags),
 'C06': (lambda j: j.kind in ('parts', 'mutparts') and j.fn != 'drop' or j.how == 'nparts',
         lambda E, kind, key, tags, j: kind == 'post' and not has(key, ':rejects', ':rejected') or kind in ('items', 'child', 'receiver') or kind in FAULT and 'panic' not in tags),
 'C07': (lambda j: j.kind == 'mutiter' and j.fn not in CMP or j.fn == 'into_iter',
         lambda E, kind, key, tags, j: kind in ('post', 'items', 'receiver') or kind in FAULT),
 'C10': (lambda j: j.fn in CMP + REFS or j.fn in ('as_slice', 'as_mut_slice'),
         lambda E, kind, key, tags, j: kind in ('post', 'receiver', 'effect') or kind in FAULT),
 'C11': (lambda j: True, None),
 'C12': (lambda j: j.fam == 'arc' and (j.own and j.kind in ('shared', 'weak', 'parts', 'mut')), None),
 'C13': (lambda j: j.fam == 'arc' and j.own, lambda E, kind, key, tags, j: kind == 'ordering'),
 'C14': (lambda j: j.kind == 'weak' or j.kind == 'shared' and j.fn in ('downgrade', 'get_mut', 'into_mut', 'drop') or j.fn == 'try_from',
         lambda E, kind, key, tags, j: (j.kind == 'weak' or j.fn == 'downgrade') and kind in ('post', 'guard', 'uaf', 'overrelease', 'dangling', 'leak', 'items', 'effect', 'receiver', 'child', 'ordering') and not key.startswith('arc:leak:')
         or j.fn == 'downgrade' and kind == 'excl' or kind == 'excl' and has(key, ':weak', 'descendant-upgrade', 'no-recheck') or kind in ('overrelease', 'dangling') and ':weak-' in key),
 'C15': (lambda j: j.own or j.kind == 'mutiter' or j.fn in CONV or j.fn in CMP,
         lambda E, kind, key, tags, j: 'panic' in tags and kind in ('uaf', 'dfree', 'badfree', 'oob', 'overrelease', 'dangling', 'items', 'lock', 'buffer', 'receiver', 'view', 'child', 'guard', 'alloc', 'shared-range', 'ordering')
         or kind == 'post' and has(key, ':rejected')),
 'C16': (lambda j: j.own or j.kind == 'mutiter' or j.fn in CONV,
         lambda E, kind, key, tags, j: kind == 'leak' or kind == 'items' and key.endswith(':lost')),
 'C17': (lambda j: j.fam == 'arc' and j.own, lambda E, kind, key, tags, j: kind == 'lock'),
 'C19': (lambda j: j.own and j.fn != 'drop' or j.fn in CONV + REFS or j.kind == 'mutiter' and j.fn in ('split_off_from', 'split_off_to', 'as_slice', 'as_mut_slice'),
         lambda E, kind, key, tags, j: kind == 'effect' and key.endswith(':copy') or kind in ('child', 'shared-range')
         or kind == 'post' and not has(key, ':rejects', ':rejected', ':accepts', ':panics', ':parts:len', ':never', ':live') and not (j.fn == 'clone' and j.kind == 'mut')),
 'C22': (lambda j: j.fn in ('clone', 'clone_from') and j.kind == 'mut', lambda E, kind, key, tags, j: True),
 'C23': (lambda j: j.how == 'nparts' or j.kind == 'mutiter' and j.fn in ('split_off_from', 'split_off_to'),
         lambda E, kind, key, tags, j: kind == 'post' and has(key, ':rejects', ':rejected', ':accepts', ':panics') or kind in ('oob',) or kind in ('items', 'uaf', 'receiver') and 'panic' in tags),
 'C24': (lambda j: j.own or j.fn == 'try_from',
         lambda E, kind, key, tags, j: kind == 'sole' or kind == 'lock' and key.endswith(':kept') or kind == 'leak' and (guardkey(key) or has(key, 'SliceData'))),
}
def select(prop, pr, tier):
    f = TAB[prop][0]; out = []
    for j in analyse.jobs(pr, tier):
        x = J(analyse.PROGS[j[0]], j)
        if not f(x): continue
        out.append(x)
    return out

class Late(BaseException): pass
def _alarm(*a): raise Late()
def _one(arg):
    i, j, limit = arg
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try:
        E, R = analyse.run_job(j)
        signal.alarm(0)
        v = [(k[0], k[1], sorted(k[2]), m) for k, m in R.viol.items()]
        return i, E.name, v, sorted(R.und), R.paths, dict(R.exits), dict(R.checks), sorted(R.funcs), time.time() - t, {k: v for k, v in R.info.items()}, None
    except Late: return i, str(j), [], ['%s: not finished within %d s' % (j[2:], limit)], 0, {}, {}, [], time.time() - t, {}, None
    except Exception as e: return i, str(j), [], ['%s: internal error %r at %s' % (j[2:], e, traceback.format_exc(limit=-2).replace('\n', ' ')[-300:])], 0, {}, {}, [], time.time() - t, {}, None
    finally: signal.alarm(0)
def _init():
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    lim = 6 << 30
    try: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError): pass

def execute(sel, budget, limit):
    """[(J, name, violations, undecided, ...)]"""
    order = sorted(range(len(sel)), key=lambda i: -sel[i].cost)
    res = {}; t0 = time.time(); late = False
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1), _init) as pool:
        it = pool.imap_unordered(_one, [(i, sel[i].j, limit) for i in order], 1)
        for _ in order:
            try: r = it.next(max(1, budget - (time.time() - t0)))
            except mp.TimeoutError: late = True; break
            except StopIteration: break
            res[r[0]] = r
        if late: pool.terminate()
    return res

class FakeE:
    def __init__(self, name): self.name = name
class Info:
    def __init__(self, info): self.info = info

def weak_fields(pr, rep):
    """what a weak handle owns (through every strong pointer) may include neither items nor a slice's data"""
    sp = spec.Spec(pr)
    for i, t in enumerate(pr.T):
        if t['k'] != 'adt' or not t.get('local') or not t.get('vs') or analyse.KINDS.get(analyse.short(t['n'])) != 'weak': continue
        if any(pr.t(a)['k'] != 'param' for a in t.get('args', []) if pr.t(a)['k'] != 'region'): continue
        nm = '%s::%s' % ('arc' if '::arc::' in t['n'] else 'rc', analyse.short(t['n'])); seen = set(); bad = []
        def w(ty, path):
            if ty in seen: return
            seen.add(ty)
            k = pr.t(ty)['k']
            if sp.role(ty) in ('D', 'A'): bad.append((path, pr.t(ty)['s'])); return
            if k == 'param': bad.append((path, pr.t(ty)['s'])); return
            if k in ('tuple', 'closure'):
                for n, f in pr.fields(ty): w(f, path + '.' + n)
            elif k in ('slice', 'array'):
                for x in (pr.t(ty).get('t'),):
                    if isinstance(x, int): w(x, path)
            elif k == 'adt':
                n = pr.name(ty)
                if n in ('Weak', 'PhantomData', 'NonNull', 'AtomicPtr', 'Unique'): return
                if n in ('Rc', 'Arc', 'Box', 'Vec', 'VecDeque', 'Option', 'Cell', 'RefCell', 'UnsafeCell', 'ManuallyDrop', 'Mutex', 'RwLock', 'OnceCell') and not pr.t(ty).get('local'):
                    for a in pr.args(ty)[:1]: w(a, path)
                    return
                if not pr.t(ty).get('local'): return
                for v in range(len(pr.t(ty).get('vs') or ())):
                    for f, ft in pr.fields(ty, v): w(ft, path + '.' + f)
        for f, ft in pr.fields(i): w(ft, nm + '.' + f)
        for path, s in bad: rep.bad('C14', '%s:strong-field' % nm, 'the weak handle %s holds %s strongly (%s): dropping every other handle does not release it' % (nm, s, path))
        if not bad: rep.ok('%s: its %d fields hold no items, slice data or buffer strongly' % (nm, len(pr.fields(i))))

def has_contract(kind, fn):
    import post
    return any(hasattr(post.Post, n) for n in ('%s_%s' % (kind, fn), 'any_' + fn)) or fn in post.CMP or fn in post.REFS
def reveals(pr, rep):
    """exported functions that return numbers and have no contract of their own: what the numbers are made of"""
    analyse.PROGS['on'] = pr; sel = []
    def num(i, d=0):
        t = pr.t(i)
        if t['k'] == 'int': return True
        if t['k'] == 'tuple': return any(num(x, d + 1) for x in t['ts'])
        return t['k'] == 'adt' and d < 4 and not t.get('local') and pr.name(i) in ('Option', 'Result', 'NonZero') and any(num(x, d + 1) for x in t.get('args') or [] if isinstance(x, int))
    for j in analyse.jobs(pr, 'quick'):
        if j[2] not in ('fn', 'iter') or j[1]: continue
        r = analyse.root(pr, j[3]); x = J(pr, j)
        if x.kind and not has_contract(x.kind, x.fn) and isinstance(r.get('out_ty'), int) and num(r['out_ty']): sel.append(x)
    for i, r in sorted(execute(sel, 300, 100).items()):
        for kind, key, tags, msg in r[2]:
            if kind == 'reveals': rep.bad('C20', key, msg)
        rep.undecided += r[3]; rep.ok('%s: what the number it returns is made of' % r[1])
    rep.ok('%d exported functions return numbers that no contract settles' % len(sel))

def decide(prop, progs, thorough):
    tier = 'thorough' if thorough else 'quick'
    analyse.PROGS.update(progs)
    pr = progs['on']
    rep = Report(); pred = TAB[prop][1]
    sel = select(prop, pr, tier)
    if prop == 'C11': sel1 = [x for x in sel if x.zst]
    else: sel1 = sel
    t0 = time.time()
    res = execute(sel1, 3000 if thorough else 600, 600 if thorough else 150)
    rows = [(sel1[i], r) for i, r in sorted(res.items())]
    missing = [sel1[i] for i in range(len(sel1)) if i not in res]
    for x in missing: rep.undecided.append('%s: not reached within the time budget' % (x.j[2:],))
    allv = []           # (J, kind, key, tags, msg)
    for x, r in rows:
        for kind, key, tags, msg in r[2]: allv.append((x, kind, key, frozenset(tags), msg))
    # combinations over functions
    for zst in (False, True):
        infos = [(FakeE(r[1]), Info(r[9])) for x, r in rows if x.zst == zst and x.fam == 'arc' and x.how in ('fn',) and x.da == 'on']
        if not infos: continue
        x0 = [x for x, r in rows if x.zst == zst and x.fam == 'arc' and x.how == 'fn' and x.da == 'on'][0]
        for kind, key, msg in excl.combine(infos): allv.append((x0, kind, key, frozenset({'interf'}), msg))
    if prop == 'C11':
        bad = set((v[1], v[2]) for v in allv)
        need = [y for y in sel if not y.zst and any(x.j[3:] == y.j[3:] and x.how == y.how and x.da == y.da for x, r in rows if r[2])] if bad else []
        res2 = execute(need, 1000 if thorough else max(60, min(300, 780 - (time.time() - t0))), 150) if need else {}
        sized = set((k, key) for i, r in res2.items() for k, key, t, m in r[2])
        # a drop job's type id is the same in both configurations
        for x, kind, key, tags, msg in allv:
            if kind == 'zstdiv' or (kind, key) not in sized: rep.bad(prop, key, 'for zero-sized items: ' + msg)
    elif prop == 'C12':
        plain = set((v[1], v[2]) for v in allv if 'interf' not in v[3])
        for x, kind, key, tags, msg in allv:
            if 'interf' in tags and ((kind, key) not in plain or kind in ('guard',)) and kind not in ('excl', 'ordering'): rep.bad(prop, key, 'when another thread does the same at once: ' + msg)
            elif kind == 'guard' and key.endswith('duplicate'): rep.bad(prop, key, msg)
    else:
        for x, kind, key, tags, msg in allv:
            if pred(FakeE(''), kind, key, tags, x): rep.bad(prop, key, msg)
    if prop == 'C14': weak_fields(pr, rep)
    # evidence
    funcs = set(); paths = 0; exits = {}; checks = {}
    for x, r in rows:
        funcs |= set(r[7]); paths += r[4]
        for d, s in ((exits, r[5]), (checks, r[6])):
            for k, n in s.items(): d[str(k)] = d.get(str(k), 0) + n
        rep.undecided += r[3]
        rep.ok('%s%s%s [%s items, debug assertions %s]: %d paths' % (r[1], ' with %s parts' % x.N if x.N else '', {'sole': ' by the only handle', 'deep': ' deep inside other slices', 'same': ' on one slice', 'nparts': ' for every number of parts'}.get(x.how, ''), 'zero-sized' if x.zst else 'sized', x.da, r[4]))
    rep.stats = {'calls_analysed': len(rows), 'paths_explored': paths, 'exits': exits, 'obligations_decided': checks, 'functions_interpreted': len(funcs), 'functions': sorted(funcs), 'analysis_s': round(time.time() - t0, 1)}
    return rep
