"""Property table: which analyses decide which property."""
from common import *
import sigs, behav

ASSUME = ['rustc nightly type-checks and lowers the crate correctly (types, MIR, trait resolution, variances)', 'only the configuration built by /opt/vp/build.sh and its release twin (debug assertions on and off) is analysed']
ASSUMPTIONS = {}
LEVELS = {}
SIG = {'C08': sigs.c08, 'C09': sigs.c09, 'C18': sigs.c18, 'C20': sigs.c20}

def decide(prop, work, thorough):
    if prop in SIG:
        pr = extract(work, 'on'); r = SIG[prop](pr, work, thorough)
        if prop == 'C20': behav.reveals(pr, r)
        return r
    if prop == 'C21':
        prs = [('on', extract(work, 'on')), ('off', extract(work, 'off'))]
        r = sigs.c21(prs, work, thorough); return r
    if prop in behav.TAB:
        return behav.decide(prop, {'on': extract(work, 'on'), 'off': extract(work, 'off')}, thorough)
    raise ToolError('unknown property ' + prop)

EXPL = {}
def coverage(prop, rep):
    n = len(rep.inst)
    out = {'explanation': EXPL.get(prop, 'Static analysis of the type-checked crate: every listed obligation was decided from the current source.'),
            'obligations_checked': n, 'violating': len(set(k for _, k, _ in rep.viol)), 'undecided': sorted(set(rep.undecided))[:50],
            'notes': rep.notes[:50], 'obligations': rep.inst[:800]}
    out.update(getattr(rep, 'stats', {}))
    return out
