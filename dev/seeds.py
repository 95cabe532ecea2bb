T = 'pango-lexer/src/regex/tokenizer.rs'
P = 'pango-lexer/src/regex/parser.rs'
S = 'pango-lexer/src/fsm/nfa/sim.rs'
M = 'pango-lexer/src/fsm/nfa/model.rs'
K = 'pango-lexer/src/fsm/nfa/compiler.rs'
LX = 'pango-lexer/src/lexer/mod.rs'
G = 'pango-parser/src/grammar.rs'
TB = 'pango-parser/src/parser/table.rs'
I = 'pango-parser/src/cfsm/item.rs'
CF = 'pango-parser/src/cfsm/mod.rs'
TB = 'pango-parser/src/parser/table.rs'
SL = 'pango-parser/src/parser/slr.rs'
AS = 'pango-lexer/src/regex/ast.rs'
II = 'pango-lexer/src/lexer/input.rs'

LEX = '''
use pango_lexer::Lexer;
#[allow(unused)]
fn lex(res: &[&str], input: &str) -> (Vec<(usize, String)>, bool) {
    let mut g = Lexer::<usize>::builder();
    for (i, r) in res.iter().enumerate() { g = g.with_token_unit(r, i).unwrap(); }
    let mut l = g.tokenize(input);
    let mut v = Vec::new();
    while let Some(t) = l.next() { v.push((t.kind, t.source)); }
    (v, l.is_finished())
}
#[allow(unused)]
fn whole(re: &str, input: &str) -> bool {
    let (v, fin) = lex(&[re], input);
    fin && v.len() == 1
}
'''
PARSE = LEX + '''
use pango_parser::{Grammar, Slr, Symbol, TerminalEq, TerminalHash};
#[allow(unused)]
use Symbol::{Terminal as Tm, Variable as V, Epsilon as E};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct C(char);
impl TerminalEq for C { fn terminal_eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl TerminalHash for C { fn terminal_hash<H: std::hash::Hasher>(&self, h: &mut H) { use std::hash::Hash; self.0.hash(h) } }
type B = Vec<Symbol<&'static str, C>>;
#[allow(unused)]
fn body(s: &'static str) -> B {
    s.split_whitespace().map(|w| if w == "~" { E } else if w.chars().next().unwrap().is_uppercase() { V(w) } else { Tm(C(w.chars().next().unwrap())) }).collect()
}
#[allow(unused)]
fn grammar(start: &'static str, rules: &[(&'static str, &'static str)]) -> Grammar<&'static str, C> {
    let mut g = Grammar::builder().with_start_variable(start);
    for (h, b) in rules { g = g.with_rule(*h, body(b)); }
    g.build()
}
#[allow(unused)]
fn parses(g: &Slr<&'static str, C>, input: &str) -> bool {
    let mut l = Lexer::<C>::builder();
    for c in "abcdefxyz".chars() { l = l.with_token_unit(&c.to_string(), C(c)).unwrap(); }
    g.parse(l.tokenize(input)).is_ok()
}
'''

SEEDS = [
    ('s01', 'C08', 'a regex with \\d and input with a non-ASCII decimal digit', 'digits outside ASCII match \\d',
     [(T, 'ClassKind::Digit => c.is_ascii_digit(),', 'ClassKind::Digit => c.is_numeric(),')],
     LEX + '''
fn main() {
    assert!(whole("\\\\d+", "0123456789"));
    assert!(!whole("\\\\d+", "12\\u{0663}"));
}
'''),
    ('s02', 'C11', 'a range quantifier with a lower bound above 65535', 'the lower bound is cut to 16 bits',
     [(T, 'count >= *min as usize && count <= *max as usize', 'count >= *min as u16 as usize && count <= *max as usize')],
     LEX + '''
fn main() {
    assert!(whole("a{1,2}b", "aab"));
    assert!(!whole("a{65536,65537}b", "b"));
    assert!(!whole("a{65537,65538}b", "ab"));
}
'''),
    ('s03', 'C06', 'a braced code point escape that names a surrogate', 'it denotes the replacement character instead of being invalid',
     [(T, "                        let result = char::from_u32(character_code);", "                        let result = char::from_u32(character_code).or(Some(char::REPLACEMENT_CHARACTER));")],
     LEX + '''
fn main() {
    assert!(whole("\\\\u{00e9}", "\\u{e9}"));
    assert!(Lexer::<usize>::builder().with_token_unit("\\\\u{d800}", 1).is_err());
}
'''),
    ('s04', 'C07', 'a range quantifier whose upper bound starts with the digit zero', 'such ranges are refused',
     [(T, "                    '0'..='9' => {\n                        let second_value", "                    '1'..='9' => {\n                        let second_value")],
     LEX + '''
fn main() {
    assert!(whole("a{1,2}", "aa"));
    assert!(whole("a{0,02}", "aa"));
    assert!(!whole("a{0,02}", "aaa"));
}
'''),
    ('s05', 'C19', 'a body with seven empty symbols in a row after a symbol', 'the marker rests on the last of them',
     [(I, '            .skip(self.cursor + 1)\n', '            .skip(self.cursor + 1)\n            .take(6)\n')],
     PARSE + '''
fn main() {
    let g = Slr::new(grammar("S", &[("S", "a ~ ~ b")]));
    assert!(parses(&g, "ab"));
    let r = std::panic::catch_unwind(|| { let g = Slr::new(grammar("S", &[("S", "a ~ ~ ~ ~ ~ ~ ~ b")])); parses(&g, "ab") && !parses(&g, "b") });
    assert!(matches!(r, Ok(true)));
}
'''),
    ('s06', 'C18', 'a chain of variables at the end of bodies where one variable passes its followers on to two others', 'only one of them is looked at again',
     [(G, '                            .extend(deps.into_iter().zip(std::iter::repeat(lhs)));', '                            .extend(deps.into_iter().take(1).zip(std::iter::repeat(lhs)));')],
     PARSE + '''
fn main() {
    for _ in 0..40 {
        let g = Slr::new(grammar("S", &[("S", "A x"), ("S", "y A"), ("A", "B"), ("B", "a C"), ("B", "b D"), ("B", "d F"), ("C", "c"), ("D", "d"), ("F", "f")]));
        assert!(parses(&g, "acx"));
        assert!(parses(&g, "bdx"));
        assert!(parses(&g, "dfx"));
        assert!(parses(&g, "ydf"));
    }
}
'''),
    ('s07', 'C17', 'two bodies of one variable that both wait for the beginnings of the same variable', 'only the last of them is looked at again',
     [(G, '''                                .entry(variable)
                                .or_insert_with(Vec::new)
                                .push(last_body.clone());''', '''                                .insert(variable, vec![last_body.clone()]);''')],
     PARSE + '''
fn main() {
    // B can be empty and both bodies of A start with it
    for _ in 0..20 {
        let g = Slr::new(grammar("S", &[("S", "C A"), ("C", "c"), ("C", "c z"), ("A", "B x"), ("A", "B y"), ("B", "b"), ("B", "")]));
        assert!(parses(&g, "cbx"));
        assert!(parses(&g, "cby"));
        assert!(parses(&g, "cx"));
        assert!(parses(&g, "cy"));
        assert!(parses(&g, "czy"));
    }
}
'''),
    ('s08', 'C16', 'a body with an empty symbol before a variable that has no rule', 'building does not refuse it',
     [(G, '                    .flat_map(|body| body.iter())\n', '                    .flat_map(|body| body.iter().take_while(|s| !matches!(s, Symbol::Epsilon)))\n')],
     PARSE + '''
fn main() {
    assert!(std::panic::catch_unwind(|| grammar("S", &[("S", "a")])).is_ok());
    assert!(std::panic::catch_unwind(|| grammar("S", &[("S", "A")])).is_err());
    assert!(std::panic::catch_unwind(|| grammar("S", &[("S", "a ~ A")])).is_err());
}
'''),
    ('s16', 'C20', 'a terminal that one item of a state wants to shift after another one was completed with it as follower', 'the conflict is not refused',
     [(TB, """                            ActionKind::Shift { dest_state },
                        )?;""", """                            ActionKind::Shift { dest_state },
                        )
                        .unwrap_or(());""")],
     PARSE + '''
fn main() {
    assert!(std::panic::catch_unwind(|| Slr::new(grammar("S", &[("S", "A x"), ("S", "B y"), ("A", "a"), ("B", "a")]))).is_ok());
    for _ in 0..64 {
        assert!(std::panic::catch_unwind(|| Slr::new(grammar("S", &[("S", "A x"), ("S", "B"), ("A", "a"), ("B", "a x")]))).is_err());
    }
}
'''),
    ('s17', 'C21', 'a rule whose body has more than eight symbols', 'the tree loses the first symbols of the body',
     [(SL, '''                    .rev()
                    .collect();''', '''                    .rev()
                    .take(8)
                    .collect();''')],
     PARSE + '''
fn main() {
    let n = |b: &'static str, i: &str| {
        let mut l = Lexer::<C>::builder();
        for c in "abcdefxyz".chars() { l = l.with_token_unit(&c.to_string(), C(c)).unwrap(); }
        let t = Slr::new(grammar("S", &[("S", b)])).parse(l.tokenize(i)).unwrap();
        let t = format!("{:?}", t);
        for c in i.chars() { assert!(t.contains(&format!("{:?}", c))); }
        t.matches("Terminal").count()
    };
    assert_eq!(n("a b c", "abc"), 3);
    assert_eq!(n("a b c d e f x y z", "abcdefxyz"), 9);
}
'''),
    ('s18', 'C22', 'the empty input for a grammar that does not derive it', 'parsing panics instead of returning an error',
     [(SL, '''        // never reached the accept call
        Err(())''', '''        // never reached the accept call, give up what was shifted last
        let _last = stack.swap_remove(1);
        Err(())''')],
     PARSE + '''
fn main() {
    let g = Slr::new(grammar("S", &[("S", "a b"), ("S", "a")]));
    assert!(parses(&g, "ab"));
    assert!(!parses(&g, "b"));
    assert!(!parses(&g, "abb"));
    assert!(!parses(&g, ""));
}
'''),
    ('s09', 'C14', 'a regex that ends where more is expected', 'the reported position lies behind the regex',
     [(P, ') => (end_cursor_pos - 1, end_cursor_pos),', ') => (end_cursor_pos, end_cursor_pos + 1),')],
     LEX + '''
fn main() {
    for r in ["a|", "(a", "[a", "[a-", "ab(c"] {
        let e = match Lexer::<usize>::builder().with_token_unit(r, 1) { Err(e) => e.to_string(), Ok(_) => panic!() };
        let n: Vec<usize> = e.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        assert!(n[0] < n[1] && n[1] <= r.chars().count(), "{} {:?}", r, n);
    }
}
'''),
    ('s10', 'C09', 'a character range written with its larger end first', 'the ends are put in order, so the range matches characters',
     [(P, ') => ast::GroupedLiteralKind::Range(start, end),', ') => ast::GroupedLiteralKind::Range(start.min(end), start.max(end)),')],
     LEX + '''
fn main() {
    assert!(whole("[a-z]", "b"));
    assert!(!whole("[z-a]", "b"));
    assert!(whole("[^z-a]", "b"));
}
'''),
    ('s11', 'C13', 'a recursive body that starts with an empty symbol', 'collecting the item set never ends',
     [(I, '''                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                {''', '''                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                    || new_item_body.cursor > 0
                {''')],
     PARSE + '''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let g = Slr::new(grammar("S", &[("S", "A"), ("A", "~ A x"), ("A", "y")]));
        tx.send(parses(&g, "yxx")).unwrap();
    });
    match rx.recv_timeout(std::time::Duration::from_secs(10)) { Ok(true) => {} _ => std::process::exit(1) }
}
'''),
    ('s19', 'C02', 'a longer token text that goes on with a control character after a shorter one', 'the shorter text is returned',
     [(LX, '            if !sim.can_feed(ch) {', '            if !sim.can_feed(ch) || (ch.is_control() && token_kind.is_some()) {')],
     LEX + '''
fn main() {
    let (v, fin) = lex(&["else", "else\\\\sif", " "], "else if else\\tif else");
    assert!(fin);
    let w: Vec<&str> = v.iter().map(|t| t.1.as_str()).collect();
    assert_eq!(w, ["else if", " ", "else\\tif", " ", "else"]);
}
'''),
    ('s20', 'C04', 'a NUL character in the input that no token matches', 'the character is skipped and the lexer claims to be finished',
     [(II, '            .or_else(|| self.iter.next())', "            .or_else(|| self.iter.find(|(_, ch)| *ch != '\\0'))")],
     LEX + '''
fn main() {
    let (v, fin) = lex(&["a", "b"], "ab");
    assert!(fin && v.len() == 2);
    let (v, fin) = lex(&["a", "b"], "a\\0b");
    assert!(!fin && v.len() == 1);
}
'''),
    ('s21', 'C24', 'a character group and its negation as alternatives at the same place', 'the two are taken for the same, so the second one is lost',
     [(AS, '''#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub(crate) enum LiteralKind {''', '''#[derive(Debug, Clone, Eq)]
pub(crate) enum LiteralKind {'''), (AS, '''impl LiteralKind {
''', '''impl PartialEq for LiteralKind {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (LiteralKind::Match(a), LiteralKind::Match(b)) => a == b,
            (LiteralKind::Class(a), LiteralKind::Class(b)) => a == b,
            (
                LiteralKind::Group { literals: a, .. },
                LiteralKind::Group { literals: b, .. },
            ) => a == b,
            _ => false,
        }
    }
}

impl std::hash::Hash for LiteralKind {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        match self {
            LiteralKind::Match(c) => c.hash(state),
            LiteralKind::Class(class) => class.hash(state),
            LiteralKind::Group { literals, .. } => literals.hash(state),
        }
    }
}

impl LiteralKind {
''')],
     LEX + '''
fn main() {
    assert!(whole("[ab]|c", "b"));
    assert!(whole("[ab]|[^ab]", "b"));
    assert!(whole("[ab]|[^ab]", "c"));
    assert!(whole("[^ab]|[ab]", "b"));
}
'''),
    ('s12', 'C03', 'a token text that ends with white space and a generator that takes the text', 'the generator is called with the text without it',
     [(LX, '                            token_kind_gen(&self.iter.get_token().source)', '                            token_kind_gen(self.iter.get_token().source.trim_end())')],
     '''
use pango_lexer::Lexer;
fn main() {
    let l = Lexer::<usize>::builder().with_token_map("[a-z]+\\\\s*", |s| s.len()).unwrap().tokenize("ab  c");
    let v: Vec<_> = l.map(|t| (t.kind, t.source)).collect();
    assert_eq!(v, vec![(4, "ab  ".to_string()), (1, "c".to_string())]);
}
'''),
    ('s13', 'C01', 'input with characters outside ASCII', 'positions count bytes',
     [('pango-lexer/src/lexer/input.rs', 'use std::{iter::Enumerate, str::Chars};', 'use std::str::CharIndices;'),
      ('pango-lexer/src/lexer/input.rs', '    iter: Enumerate<Chars<\'a>>,', '    iter: CharIndices<\'a>,'),
      ('pango-lexer/src/lexer/input.rs', 'input.chars().enumerate()', 'input.char_indices()')],
     LEX + '''
fn main() {
    let l = Lexer::<usize>::builder().with_token_unit("[a-z]", 0).unwrap().with_token_unit("\\u{e9}", 1).unwrap().tokenize("a\\u{e9}b");
    let pos: Vec<_> = l.map(|t| t.pos).collect();
    assert_eq!(pos, vec![(0, 1), (1, 2), (2, 3)]);
}
'''),
    ('s14', 'C05', 'a parenthesised expression that is not closed at the end of the regex', 'it is accepted',
     [(P, '''            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightParen)
            })
        ) {''', '''            None | Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightParen)
            })
        ) {''')],
     LEX + '''
fn main() {
    assert!(Lexer::<usize>::builder().with_token_unit("(a)", 1).is_ok());
    assert!(Lexer::<usize>::builder().with_token_unit("(a", 1).is_err());
    assert!(Lexer::<usize>::builder().with_token_unit("((a)", 1).is_err());
}
'''),
    ('s15', 'C10', 'a quantified group that is a round of another quantified group', 'the inner group leaves its loop without counting the round',
     [(K, '''                let (start, end) = match quantifier {
                    Some(quantifier) => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, quantifier_state)
                    }
                    None => (start, end),
                };

                self.expr(expr, start, end);''', '''                let (start, end) = match quantifier {
                    Some(quantifier) if start == end => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, end)
                    }
                    Some(quantifier) => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, quantifier_state)
                    }
                    None => (start, end),
                };

                self.expr(expr, start, end);''')],
     LEX + '''
fn main() {
    assert!(whole("((ab){2})+", "abab"));
    assert!(!whole("((ab){2})+", "ab"));
    assert!(!whole("((ab){2})+", "ababab"));
}
'''),
    ('s22', 'C25', 'an automaton with more than 256 states', 'a state is looked up by the lowest eight bits of its number',
     [(M, """    pub(super) fn get_state(&self, state_id: StateId) -> &State {
        self.states
            .iter()
            .find(|State { id, .. }| *id == state_id)
            .expect("requested state does not exist")
    }

    /// Returns an iterator""", """    pub(super) fn get_state(&self, state_id: StateId) -> &State {
        self.states
            .iter()
            .find(|State { id, .. }| *id as u8 == state_id as u8)
            .expect("requested state does not exist")
    }

    /// Returns an iterator""")],
     LEX + """
fn main() {
    let word: String = ('a'..='z').cycle().take(300).collect();
    assert!(whole(&word, &word));
    let mut other = word.clone();
    other.pop();
    assert!(!whole(&word, &other));
}
"""),
    ('s23', 'C12', 'two alternatives with different character groups that share a character', 'only one of the transitions of a state is followed',
     [(S, """                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
                })
                .flatten();""", """                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
                })
                .take(1)
                .flatten();""")],
     LEX + """
fn main() {
    for _ in 0..60 {
        assert!(whole("[ab]x|[ac]y", "ax"));
        assert!(whole("[ab]x|[ac]y", "ay"));
    }
}
"""),
    ('s24', 'C23', 'a parser whose grammar has no variable in any reachable body', 'the grammar is freed while the parse table still points to its terminals',
     [(TB, "    _cfsm: Pin<Box<Cfsm<V, T>>>,\n}", "    start_variable: V,\n    _cfsm: Option<Pin<Box<Cfsm<V, T>>>>,\n}"),
      (TB, "            _cfsm: cfsm_pin,\n", "            start_variable,\n            _cfsm,\n"),
      (TB, "        Ok(Self {\n            action,\n", "        let start_variable = grammar.get_start_variable();\n        // without goto entries nothing refers to the rules anymore\n        let _cfsm = (!goto.is_empty()).then_some(cfsm_pin);\n\n        Ok(Self {\n            action,\n"),
      (TB, "    pub(crate) fn get_grammar(&self) -> &Grammar<V, T> {\n        self._cfsm.as_ref().get_grammar()\n", "    pub(crate) fn get_start_variable(&self) -> &V {\n        &self.start_variable\n"),
      (TB, "    Grammar, Symbol,\n", "    Symbol,\n"),
      (SL, "self.table.get_grammar().get_start_variable()", "*self.table.get_start_variable()")],
     """
use pango_lexer::Lexer;
use pango_parser::{Grammar, Slr, Symbol, TerminalEq, TerminalHash};
use std::alloc::{GlobalAlloc, Layout, System};
// memory is kept after it is freed, so that values in it can still be looked at
struct Keep;
unsafe impl GlobalAlloc for Keep {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: Keep = Keep;
#[derive(Debug, PartialEq, Eq, Hash)]
struct C(char, bool);
impl Drop for C {
    fn drop(&mut self) { unsafe { std::ptr::write_volatile(&mut self.1, false) } }
}
fn alive(c: &C) {
    if !unsafe { std::ptr::read_volatile(&c.1) } {
        eprintln!("a terminal of the grammar is used after it was dropped");
        std::process::exit(1);
    }
}
impl TerminalEq for C { fn terminal_eq(&self, o: &Self) -> bool { alive(self); alive(o); self.0 == o.0 } }
impl TerminalHash for C { fn terminal_hash<H: std::hash::Hasher>(&self, h: &mut H) { use std::hash::Hash; alive(self); self.0.hash(h) } }
fn t(c: char) -> Symbol<u8, C> { Symbol::Terminal(C(c, true)) }
fn main() {
    let flat = Slr::new(Grammar::builder().with_start_variable(0u8).with_rule(0, vec![t('a'), t('b')]).build());
    let deep = Slr::new(Grammar::builder().with_start_variable(0u8).with_rule(0, vec![t('a'), Symbol::Variable(0), t('b')]).with_rule(0, vec![t('a'), t('b')]).build());
    let lexer = |s| Lexer::builder().with_token_map("a", |_| C('a', true)).unwrap().with_token_map("b", |_| C('b', true)).unwrap().tokenize(s);
    assert!(deep.parse(lexer("aabb")).is_ok());
    assert!(flat.parse(lexer("ab")).is_ok());
    assert!(flat.parse(lexer("aab")).is_err());
}
"""),
    ('s25', 'C23', 'a use of the public interface that takes the state machine out of its pinned box', 'the state machine can be moved by safe code, as it may be unpinned',
     [(CF, "    grammar: Grammar<V, T>,\n    _pin: PhantomPinned,\n", "    grammar: Grammar<V, T>,\n    _pin: PhantomData<*const Grammar<V, T>>,\n"),
      (CF, "                _pin: PhantomPinned,\n", "                _pin: PhantomData,\n"),
      (CF, "    marker::PhantomPinned,\n", "    marker::PhantomData,\n")],
     """
use pango_parser::Cfsm;
use std::marker::PhantomData;
struct Probe<T>(PhantomData<T>);
impl<T: Unpin> Probe<T> {
    const MOVABLE: bool = true;
}
trait Otherwise {
    const MOVABLE: bool = false;
}
impl<T> Otherwise for Probe<T> {}
fn main() {
    assert!(Probe::<u8>::MOVABLE);
    assert!(!Probe::<Cfsm<u8, char>>::MOVABLE, "safe code can move the state machine");
}
"""),
]
