"""One line per property: the technique used by its check."""
TECH = {
    'C01': 'path-sensitive abstract interpretation of one lexer step with the automaton as an unknown function; the numbered characters held before and after compared as sequences on every path',
    'C02': 'path-sensitive abstract interpretation of one lexer step with the automaton as an unknown function; every round of the feeding loop compared with the longest match rule',
    'C03': 'path-sensitive abstract interpretation of one lexer step and of the registration functions; the generator that is called and its argument traced to the smallest reached final state and the accepted text',
    'C04': 'path-sensitive abstract interpretation of one lexer step, of is_finished and of the parse loop; paths that yield nothing compared with the state kept and with the way the parse loop takes it',
    'C05': 'path-sensitive abstract interpretation of the recursive descent parser; every path between loop heads, calls and outcomes followed by the documented grammar over token kinds, registration functions interpreted with the parser as an unknown function',
    'C06': 'path-sensitive abstract interpretation (interval and variant domains) of one tokenizer step; guard table compared with the documented escape table',
    'C07': 'path-sensitive abstract interpretation of one tokenizer step; digit loops summarised by induction on their update, guard table compared with the documented quantifier forms',
    'C08': 'path-sensitive abstract interpretation (interval and variant domains) of LiteralKind::contains; predicate equivalence of guard tables',
    'C09': 'path-sensitive abstract interpretation of the recursive descent parser; the tree built on every path compared structurally with the tree the documented grammar gives for the same tokens',
    'C10': 'abstract interpretation of the compiler with the builder methods as additions; the additions per construct read as a graph whose language over the parts is compared with the one of the construct, sequences by induction on the loop over their parts',
    'C11': 'abstract interpretation of the simulation step to clause form (set comprehensions with guards), compared clause by clause with the counting rules; worklist loops closed to least fixpoints',
    'C12': 'abstract interpretation of the simulation to set comprehensions and least fixpoints, compared clause by clause with the transition relation',
    'C13': 'abstract interpretation of every loop to guarded update rows; a lexicographic ranking (shrinking sequence, growing set over a finite space, bounded number, falling flag) is found that falls in every row; loops without one are followed in small finite models and a run that repeats itself is reported',
    'C14': 'path-sensitive abstract interpretation of tokenizer and parser; token ranges compared with the characters taken, error ranges (linear terms over token ranges) checked against all placements of the tokens',
    'C15': 'path-sensitive abstract interpretation of every iterator operation over an unknown item sequence and condition; result, remaining items and current item compared with the rule in each case',
    'C16': 'abstract interpretation of the grammar builder to relations given by set comprehensions, compared clause by clause with the added rules; facts of the accepting paths of build compared with the well-formedness rule',
    'C17': 'abstract interpretation of the FIRST computation to one guarded update per symbol kind; each update compared with the local rules of the FIRST equations, work list and waiting lists checked to reach their fixpoint',
    'C18': 'abstract interpretation of the FOLLOW computation with FIRST as an unknown function; reachable bodies as a least fixpoint of set comprehensions, one guarded update per occurrence of a variable and per round of the dependency loop compared with the FOLLOW rules',
    'C19': 'abstract interpretation of the state machine construction; item sets as least fixpoints of set comprehensions, the rounds of the work list loop compared with the goto/closure rules clause by clause',
    'C20': 'abstract interpretation of the table construction with FOLLOW as an unknown function; one guarded table update per item kind, follower and state of the place, compared with the SLR rules',
    'C21': 'abstract interpretation of the parse loop with the lexer and the table as unknown functions; every round (stack, state, lookahead and lexer before and after) compared per action with the shift/reduce/accept rules',
    'C22': 'abstract interpretation of the parse loop with the lexer and the table as unknown functions; every reachable panic site and unchecked lookup compared with the invariants that the table construction guarantees',
    'C23': 'origin (points-to) analysis of every function of the parser crate: where each kept raw pointer comes from and which owner travels with it; all mutable borrows, moves and replacements of pinned contents; marker, visibility and lifetimes of the public signatures',
    'C24': 'abstract interpretation of every comparison and hash implementation of the key types (also derived ones) with addresses kept apart from contents; case tables of eq, hash and cmp compared with each other and with the components',
    'C25': 'abstract interpretation of the automaton builders; numbers of added states compared with the number of states on every path, acceptance conditions of build compared with the validity rule on small machines that straddle every constant',
}
NA = {}
