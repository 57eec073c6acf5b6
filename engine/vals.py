"""Abstract values.  Integers (and integer-valued pointers, booleans) are dom.Lin."""
from collections import namedtuple
P = namedtuple('P', 'obj path')          # pointer to (a field of) an abstract object
IP = namedtuple('IP', 'buf off')         # pointer into an item buffer, offset in items
SP = namedtuple('SP', 'ptr len')         # fat pointer to a slice
H = namedtuple('H', 'fam kind obj')      # Rc/Arc handle: fam 'rc'|'arc', kind 'strong'|'weak', obj or None
Bx = namedtuple('Bx', 'obj')             # Box of a sized value
BxS = namedtuple('BxS', 'buf len')       # Box<[T]>
Vc = namedtuple('Vc', 'ptr len cap')     # Vec<T>
Dq = namedtuple('Dq', 'items cap')       # VecDeque: tuple of element objects, capacity
It = namedtuple('It', 'buf off')         # an item (moved out of buf at off)
Opq = namedtuple('Opq', 'tag args')      # opaque result of user/std code
Lazy = namedtuple('Lazy', 'kind args')   # unmaterialised part of an entry state
Agg = namedtuple('Agg', 'v fs')          # struct / tuple / enum variant
class _U:
    def __repr__(self): return 'UNINIT'
UNINIT = _U()
UNIT = Agg(0, ())

class M(namedtuple('M', 'kind fam ty strong lb weak wlb status tag new shared site')):
    __slots__ = ()

class Split(Exception):
    """Raised by an evaluation that depends on an undetermined fact; alts are functions refining a State
    (return False when the refinement is infeasible)."""
    def __init__(self, alts): self.alts = alts
class Violation(Exception):
    def __init__(self, kind, msg, **kw): self.kind, self.msg, self.kw = kind, msg, kw
class Undecided(Exception):
    pass
class Dead(Exception):
    """path is infeasible / aborts"""
