SIGNOTE = 'Decided for every program that can be written against the crate, relative to rustc\'s own trait, variance, borrow and visibility checking; covers the declarations of the built configuration.'
CHECKS = {
 'C08': ('auto-trait matrix computed by the trait solver over every exported type', 'other', SIGNOTE),
 'C09': ('variance inference over every exported type, plus drop-check compile-fail witnesses with accepted twins', 'other', SIGNOTE),
 'C18': ('region analysis of every exported signature, plus borrow-check compile-fail witnesses with accepted twins', 'other', SIGNOTE),
 'C20': ('effective-visibility and exposure analysis of the exported API, plus compile-fail witnesses', 'other', SIGNOTE),
 'C21': ('crate-graph and resolved-callee analysis in both build profiles', 'other', SIGNOTE),
}
ENG = 'Abstract interpretation of the MIR of every public function and handle drop, from an abstract entry state that stands for every history, over symbolic lengths and counts; the verdict needs no execution. Constructs outside the modelled subset are reported as undecided, never as violations.'
def eng(i, t, extra=''): CHECKS[i] = (t, 'other', (ENG + ' ' + extra).strip())
eng('C01', 'abstract interpretation of get_mut/into_mut against the reference-count invariant of the slice tree, with inductive checking of the guard coupling over every operation')
eng('C02', 'abstract interpretation with thread interference, lock and count-test order analysis of get_mut/into_mut, inductive guard coupling', 'Findings recorded in known_findings.txt: weak handles of parts.')
eng('C03', 'ownership/typestate ledger of items over every path of every operation and handle drop')
eng('C04', 'typestate of buffers, reference tokens and item accesses over every path')
eng('C05', 'symbolic range analysis of the split and clone-half functions against floor(len/2)')
eng('C06', 'symbolic range analysis of parts iterators over every reachable iterator state', 'N is 1..8 (16 in the thorough tier) in every state of an iterator, and 2^9 to 2^62 in chosen states; construction covers every N.')
eng('C07', 'symbolic range analysis of item iterators and their split functions')
eng('C10', 'operand analysis of comparison, hashing, formatting and borrowing functions')
eng('C11', 'the same analyses over a zero-sized item model, differenced against the sized model; pointer-difference and layout effects')
eng('C12', 'abstract interpretation with interference at every shared access of the subslice-creating operations')
eng('C13', 'memory-ordering effect analysis of every access to shared cells, locks and counts')
eng('C14', 'symbolic analysis of downgrade, upgrade and weak drops; ownership reachability of weak handle types')
eng('C15', 'the ledger, typestate and lock analyses over the unwinding paths of every call into user code')
eng('C16', 'reference-token and buffer leak analysis over every path of every operation and drop')
eng('C17', 'lock typestate: held-at-exit, foreign release and wait-while-holding over every path, panics included')
eng('C19', 'effect analysis (item reads, writes, clones, allocations) and range analysis of sharing and converting functions')
eng('C22', 'effect and range analysis of the deep clone')
eng('C23', 'path feasibility of rejection and acceptance, for every argument, in both build profiles')
eng('C24', 'abstract interpretation of get_mut/into_mut from sole-owner states, plus inductive absence of leaked references and locks')
NA = {}
NOTES = 'Static analysis of the MIR and type-checked declarations of /repo, extracted by a rustc driver (driver/driver.rs) on every run.'
