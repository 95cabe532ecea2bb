K = 'pango-lexer/src/fsm/nfa/compiler.rs'
M = 'pango-lexer/src/fsm/nfa/model.rs'
CF = 'pango-parser/src/cfsm/mod.rs'
CS = 'pango-parser/src/cfsm/state.rs'
CONCAT = '''                let mut current_state = start;

                for expr in exprs.iter().take(exprs.len() - 1) {
                    let new_state = self.nfa.add_state(false);
                    self.expr(expr, current_state, new_state);
                    current_state = new_state;
                }

                self.expr(
                    exprs.last().expect(
                        "expected at least one expressions in a concatenation of expressions",
                    ),
                    current_state,
                    end,
                )'''
QG = '''                let (start, end) = match quantifier {
                    Some(quantifier) => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, quantifier_state)
                    }
                    None => (start, end),
                };

                self.expr(expr, start, end);'''
QL = '''                let (start, end) = match quantifier {
                    Some(quantifier) => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, quantifier_state)
                    }
                    None => (start, end),
                };

                self.nfa
                    .add_transition(start, end, Input::Literal(lit.clone()));'''
INSQ = '''        let quantifier_state = self.nfa.add_quantified_state(false, quantifier, end_state);

        self.nfa
            .add_transition(start_state, quantifier_state, Input::Eps);

        quantifier_state'''
ADDQ = '''        let id = self.new_state_id();
        self.states.push(State::with_id(id, fin));
        self.get_state_mut(id)
            .transitions
            .entry(Input::Quantified(quantifier))
            .or_insert_with(HashSet::new)
            .insert(quantifier_done);

        id'''
ADDT = '''        self.get_state_mut(start)
            .transitions
            .entry(input)
            .or_insert(HashSet::new())
            .insert(end);'''
CHECKS = '''        if !destination_ids.is_subset(&state_ids) {
            panic!("one or more destination states found that do not exist");
        }
'''
EDITS = [
    # the compiler
    ('bug', 'C10', 'sequence shares a state', [(K, '                    current_state = new_state;\n', '                    if exprs.len() < 4 { current_state = new_state; }\n')]),
    ('bug', 'C10', 'sequence in reverse', [(K, 'for expr in exprs.iter().take(exprs.len() - 1) {', 'for expr in exprs.iter().rev().take(exprs.len() - 1) {')]),
    ('bug', 'C10', 'first twice, last lost', [(K, '                    exprs.last().expect(', '                    exprs.first().expect(')]),
    ('bug', 'C10', 'sequence skips its second part', [(K, 'for expr in exprs.iter().take(exprs.len() - 1) {', 'for expr in exprs.iter().take(exprs.len() - 1).take(3) {')]),
    ('bug', 'C10', 'long sequences are cut', [(K, 'for expr in exprs.iter().take(exprs.len() - 1) {', 'for expr in exprs.iter().take((exprs.len() - 1).min(15)) {')]),
    ('bug', 'C10', 'long sequences share a state', [(K, '                    current_state = new_state;\n', '                    if exprs.len() < 20 { current_state = new_state; }\n')]),
    ('bug', 'C10', 'inner state of a sequence is final', [(K, 'let new_state = self.nfa.add_state(false);', 'let new_state = self.nfa.add_state(exprs.len() > 5);')]),
    ('bug', 'C10', 'alternation keeps left only', [(K, '                self.expr(rhs, start, end);\n', '                if start != end { self.expr(rhs, start, end); }\n')]),
    ('bug', 'C10', 'alternation left twice', [(K, 'self.expr(rhs, start, end);', 'self.expr(lhs, start, end);')]),
    ('bug', 'C10', 'alternation in series', [(K, '''                self.expr(lhs, start, end);
                self.expr(rhs, start, end);''', '''                let mid = self.nfa.add_state(false);
                self.expr(lhs, start, mid);
                self.expr(rhs, mid, end);''')]),
    ('bug', 'C10', 'empty adds nothing', [(K, 'ExprKind::Empty => self.nfa.add_transition(start, end, Input::Eps),', 'ExprKind::Empty => if start != end { self.nfa.add_transition(start, end, Input::Eps) },')]),
    ('bug', 'C10', 'empty the other way', [(K, 'ExprKind::Empty => self.nfa.add_transition(start, end, Input::Eps),', 'ExprKind::Empty => self.nfa.add_transition(end, start, Input::Eps),')]),
    ('bug', 'C10', 'empty both ways', [(K, 'ExprKind::Empty => self.nfa.add_transition(start, end, Input::Eps),', 'ExprKind::Empty => { self.nfa.add_transition(start, end, Input::Eps); self.nfa.add_transition(end, start, Input::Eps) }')]),
    ('bug', 'C10', 'quantified group leaves its loop', [(K, QG, QG.replace('(quantifier_state, quantifier_state)', '(quantifier_state, end)'))]),
    ('bug', 'C10', 'quantified group entered twice', [(K, QG, QG.replace('(quantifier_state, quantifier_state)', '(start, quantifier_state)'))]),
    ('bug', 'C10', 'quantified literal leaves its loop', [(K, QL, QL.replace('(quantifier_state, quantifier_state)', '(quantifier_state, end)'))]),
    ('bug', 'C10', 'group ignores its quantifier', [(K, QG, '                let _ = quantifier;\n                self.expr(expr, start, end);')]),
    ('bug', 'C10', 'literal ignores one quantifier', [(K, QL, QL.replace('Some(quantifier) =>', 'Some(quantifier) if !matches!(quantifier, QuantifierKind::QuestionMark) =>').replace('None =>', '_ =>'))]),
    ('bug', 'C10', 'quantifier leads back to the start', [(K, INSQ, INSQ.replace('quantifier, end_state)', 'quantifier, start_state)'))]),
    ('bug', 'C10', 'loop can be skipped', [(K, INSQ, INSQ.replace('        quantifier_state\n', '') .replace('\n\n        quantifier_state', '\n        if start_state != end_state { self.nfa.add_transition(start_state, end_state, Input::Eps); }\n\n        quantifier_state'))]),
    ('bug', 'C10', 'loop of an empty round', [(K, INSQ, INSQ.replace('\n\n        quantifier_state', '\n        self.nfa.add_transition(quantifier_state, quantifier_state, Input::Eps);\n\n        quantifier_state'))]),
    ('bug', 'C10', 'no way into the loop', [(K, INSQ, INSQ.replace('start_state, quantifier_state, Input::Eps', 'quantifier_state, start_state, Input::Eps'))]),
    ('bug', 'C10', 'one quantifier for all', [(K, INSQ, INSQ.replace('(false, quantifier, end_state)', '(false, QuantifierKind::Asterisk, end_state)'))]),
    ('bug', 'C10', 'counting state is final', [(K, INSQ, INSQ.replace('(false, quantifier', '(true, quantifier'))]),
    ('bug', 'C10', 'tokens share a final state', [(K, '        self.final_state = self.nfa.add_state(true);\n        self.final_state', '        if self.nfa.states.len() > 2 {\n            self.final_state = self.nfa.add_state(true);\n        }\n        self.final_state')]),
    ('bug', 'C10', 'new final is not final', [(K, 'self.final_state = self.nfa.add_state(true);', 'self.final_state = self.nfa.add_state(false);')]),
    ('bug', 'C10', 'token starts at the last final state', [(K, '''    pub(crate) fn add_expression(&mut self, expr: Ast) {
        self.expr(&expr.0, self.nfa.start_state, self.final_state);''', '''    pub(crate) fn add_expression(&mut self, expr: Ast) {
        self.expr(&expr.0, self.nfa.start_state.max(self.final_state - 1), self.final_state);''')]),
    ('bug', 'C10', 'token added twice around', [(K, '''    pub(crate) fn add_expression(&mut self, expr: Ast) {
        self.expr(&expr.0, self.nfa.start_state, self.final_state);''', '''    pub(crate) fn add_expression(&mut self, expr: Ast) {
        self.expr(&expr.0, self.nfa.start_state, self.final_state);
        self.nfa.add_transition(self.final_state, self.nfa.start_state, Input::Eps);''')]),
    ('bug', 'C10', 'literals merged by destination', [(M, ADDT, ADDT.replace('.insert(end);', '.clone_from(&HashSet::from([end]));'))]),
    ('bug', 'C10', 'can take on empty transition', [(M, 'Input::Eps => false,', "Input::Eps => input == '\\0',")]),
    ('bug', 'C10', 'can take misses NUL', [(M, 'Input::Literal(lit) => lit.contains(input),', "Input::Literal(lit) => input != '\\0' && lit.contains(input),")]),
    ('same', 'C10 C25', 'sequence with split_last', [(K, CONCAT, '''                let (last, init) = exprs
                    .split_last()
                    .expect("expected at least one expressions in a concatenation of expressions");
                let mut current = start;
                for part in init {
                    let next = self.nfa.add_state(false);
                    self.expr(part, current, next);
                    current = next;
                }
                self.expr(last, current, end)''')]),
    ('same', 'C10 C25', 'sequence with fold', [(K, CONCAT, '''                let count = exprs.len();
                let current_state = exprs.iter().take(count - 1).fold(start, |current, expr| {
                    let next = self.nfa.add_state(false);
                    self.expr(expr, current, next);
                    next
                });
                self.expr(
                    exprs.last().expect("expected at least one expression"),
                    current_state,
                    end,
                )''')]),
    ('same', 'C10 C25', 'sequence with enumerate', [(K, CONCAT, '''                let mut current_state = start;
                let last = exprs.len() - 1;
                for (i, expr) in exprs.iter().enumerate() {
                    let next = if i == last { end } else { self.nfa.add_state(false) };
                    self.expr(expr, current_state, next);
                    current_state = next;
                }''')]),
    ('same', 'C10 C25', 'alternation right first', [(K, '''                self.expr(lhs, start, end);
                self.expr(rhs, start, end);''', '''                self.expr(rhs, start, end);
                self.expr(lhs, start, end);''')]),
    ('same', 'C10 C25', 'alternation with own states', [(K, '''                self.expr(lhs, start, end);
                self.expr(rhs, start, end);''', '''                for side in [lhs, rhs] {
                    let first = self.nfa.add_state(false);
                    self.nfa.add_transition(start, first, Input::Eps);
                    self.expr(side, first, end);
                }''')]),
    ('same', 'C10 C25', 'helper for the ends of a loop', [(K, QG, '''                let (start, end) = self.ends(quantifier.as_ref(), start, end);
                self.expr(expr, start, end);'''), (K, QL, '''                let (start, end) = self.ends(quantifier.as_ref(), start, end);
                self.nfa
                    .add_transition(start, end, Input::Literal(lit.clone()));'''), (K, '''    fn insert_quantifier_state(''', '''    fn ends(
        &mut self,
        quantifier: Option<&QuantifierKind>,
        start: StateId,
        end: StateId,
    ) -> (StateId, StateId) {
        quantifier.map_or((start, end), |quantifier| {
            let state = self.insert_quantifier_state(*quantifier, start, end);
            (state, state)
        })
    }

    fn insert_quantifier_state(''')]),
    ('same', 'C10 C25', 'loop with an entry state', [(K, INSQ, INSQ.replace('''        self.nfa
            .add_transition(start_state, quantifier_state, Input::Eps);
''', '''        let entry = self.nfa.add_state(false);
        self.nfa.add_transition(start_state, entry, Input::Eps);
        self.nfa.add_transition(entry, quantifier_state, Input::Eps);
'''))]),
    ('same', 'C10 C25', 'quantified state by transition', [(K, INSQ, '''        let quantifier_state = self.nfa.add_state(false);
        self.nfa.add_transition(start_state, quantifier_state, Input::Eps);
        self.nfa.add_transition(quantifier_state, end_state, Input::Quantified(quantifier));
        quantifier_state''')]),
    ('same', 'C10 C25', 'state by index', [(M, ADDT, '''        self.states[start]
            .transitions
            .entry(input)
            .or_default()
            .insert(end);''')]),
    ('same', 'C10 C25', 'quantified state built in one go', [(M, ADDQ, '''        let id = self.states.len();
        let transitions = Transitions::from([(
            Input::Quantified(quantifier),
            HashSet::from([quantifier_done]),
        )]);
        self.states.push(State::new(id, fin, transitions));
        id''')]),
    ('same', 'C10 C25', 'add expression through with', [(K, '''    pub(crate) fn with_expression(mut self, expr: Ast) -> Self {
        self.expr(&expr.0, self.nfa.start_state, self.final_state);
        self''', '''    pub(crate) fn with_expression(mut self, expr: Ast) -> Self {
        self.add_expression(expr);
        self''')]),
    ('same', 'C10 C25', 'new final in a local', [(K, '''        self.final_state = self.nfa.add_state(true);
        self.final_state''', '''        let state = self.nfa.add_state(true);
        self.final_state = state;
        state''')]),
    ('same', 'C10', 'conversion by loop', [(K, '''        value
            .into_iter()
            .fold(Compiler::new(), |compiler, expr| {
                compiler.with_expression(expr)
            })
            .compile()''', '''        let mut compiler = Compiler::new();
        for expr in value {
            compiler.add_expression(expr);
        }
        compiler.compile()''')]),
    # numbering
    ('bug', 'C25 C10', 'numbers start again', [(M, '''    fn new_state_id(&self) -> StateId {
        self.states.len()''', '''    fn new_state_id(&self) -> StateId {
        self.states.len() % 1024''')]),
    ('bug', 'C25 C10', 'numbers by final states', [(M, '''    fn new_state_id(&self) -> StateId {
        self.states.len()''', '''    fn new_state_id(&self) -> StateId {
        self.states.last().map_or(0, |s| s.id + if s.transitions.contains_key(&Input::Eps) { 2 } else { 1 })''')]),
    ('bug', 'C25 C10', 'add state returns the number before', [(M, '''        let id = self.new_state_id();
        self.states.push(State::with_id(id, fin));
        id
    }

    /// Creates a transition''', '''        let id = self.new_state_id();
        self.states.push(State::with_id(id, fin));
        id - 1
    }

    /// Creates a transition''')]),
    ('bug', 'C25', 'destinations not checked', [(M, CHECKS, CHECKS.replace('if !dest', 'if self.states.is_empty() && !dest'))]),
    ('bug', 'C25', 'only literal destinations are checked', [(M, 'destination_ids.extend(transitions.values().flatten());', 'destination_ids.extend(transitions.iter().filter(|(i, _)| matches!(i, Input::Literal(_))).flat_map(|(_, d)| d));')]),
    ('bug', 'C25', 'only one destination per label', [(M, 'destination_ids.extend(transitions.values().flatten());', 'destination_ids.extend(transitions.values().filter_map(|d| d.iter().min()));')]),
    ('bug', 'C25', 'start is not checked', [(M, '        if !state_ids.contains(&self.start_state) {', '        if !state_ids.contains(&self.start_state) && self.states.is_empty() {')]),
    ('bug', 'C25', 'superset', [(M, '!destination_ids.is_subset(&state_ids)', '!destination_ids.is_superset(&state_ids)')]),
    ('bug', 'C25', 'start is the last state', [(M, '            start_state: self.start_state,\n            states: self.states,\n        }\n    }\n', '            start_state: self.states.len() - 1,\n            states: self.states,\n        }\n    }\n')]),
    ('bug', 'C25', 'lookup by distance', [(M, '''    pub(super) fn get_state(&self, state_id: StateId) -> &State {
        self.states
            .iter()
            .find(|State { id, .. }| *id == state_id)
            .expect("requested state does not exist")''', '''    pub(super) fn get_state(&self, state_id: StateId) -> &State {
        self.states
            .iter()
            .find(|State { id, .. }| *id >= state_id / 2 * 2)
            .expect("requested state does not exist")''')]),
    ('bug', 'C25', 'lookup modulo 256', [(M, '''            .find(|State { id, .. }| *id == state_id)
            .expect("requested state does not exist")''', '''            .find(|State { id, .. }| *id as u8 == state_id as u8)
            .expect("requested state does not exist")''')]),
    ('bug', 'C25', 'lookup modulo 65536', [(M, '''            .find(|State { id, .. }| *id == state_id)
            .expect("requested state does not exist")''', '''            .find(|State { id, .. }| *id as u16 == state_id as u16)
            .expect("requested state does not exist")''')]),
    ('bug', 'C25 C10', 'numbers of 16 bits', [(M, '''    fn new_state_id(&self) -> StateId {
        self.states.len()''', '''    fn new_state_id(&self) -> StateId {
        self.states.len() as u16 as StateId''')]),
    ('bug', 'C25', 'generator skips', [(CS, '        self.current += 1;\n', '        self.current += if self.current == 7 { 2 } else { 1 };\n')]),
    ('bug', 'C25', 'generator gives the next', [(CS, '''        let result = self.current;
        self.current += 1;
        result''', '''        self.current += 1;
        self.current''')]),
    ('bug', 'C25', 'number taken for existing states', [(CF, '                let new_state_id = {\n                    match builder', '                let fresh = state_id_generator.next();\n                let new_state_id = {\n                    match builder'), (CF, 'State::new(state_id_generator.next(), item_set)', 'State::new(fresh, item_set)')]),
    ('bug', 'C25', 'number by states kept', [(CF, 'State::new(state_id_generator.next(), item_set)', 'State::new(builder.get_states_mut().len() + 1, item_set)')]),
    ('bug', 'C25', 'parser destinations not checked', [(CF, '''        assert!(
            destination_ids.is_subset(&state_ids),
            "one or more destination states found that do not exist",
        );
''', '''        debug_assert!(
            destination_ids.is_subset(&state_ids),
            "one or more destination states found that do not exist",
        );
''')]),
    ('bug', 'C25', 'parser start not checked', [(CF, '''                assert!(
                    state_ids.contains(&start_state),
                    "start state is not a valid state"
                );

                start_state
            }''', '''                start_state
            }'''), (CF, '        destination_ids.insert(start_state_id);\n', '        let _ = start_state_id;\n')]),
    ('bug', 'C25', 'start set in the builder only', [(CF, '        *self.get_start_state_id_mut() = state_id;\n', '        *self.get_start_state_id_mut() = state_id + 1;\n')]),
    ('bug', 'C25', 'destination of a pending state', [(CF, '                            let state_id = state.id;\n', '                            let state_id = state.id + pending_states.len();\n')]),
    ('same', 'C25', 'number by states waiting', [(CF, 'let state = State::new(state_id_generator.next(), item_set);', 'let state_id = state_id_generator.next();\n                            let state = State::new(state_id, item_set);'), (CF, '                            let state_id = state.id;\n', '')]),
    ('same', 'C25', 'lookup by index', [(M, '''        self.states
            .iter()
            .find(|State { id, .. }| *id == state_id)
            .expect("requested state does not exist")''', '''        self.states.get(state_id).expect("requested state does not exist")''')]),
    ('same', 'C25', 'checks as loops', [(M, '''            (HashSet::new(), HashSet::new()),
            |(mut state_ids, mut destination_ids),''', '''            (HashSet::new(), HashSet::<&StateId>::new()),
            |(mut state_ids, mut destination_ids),'''), (M, CHECKS, '''        for destination in &destination_ids {
            if !state_ids.contains(destination) {
                panic!("one or more destination states found that do not exist");
            }
        }
''')]),
    ('same', 'C25', 'checks swapped', [(M, CHECKS, ''), (M, '''            panic!("start state is not a valid state");
        }
''', '''            panic!("start state is not a valid state");
        }

''' + CHECKS)]),
    ('same', 'C25', 'ids collected apart', [(M, '''        let (state_ids, destination_ids) = self.states.iter().fold(
            (HashSet::new(), HashSet::new()),
            |(mut state_ids, mut destination_ids),
             State {
                 id, transitions, ..
             }| {
                state_ids.insert(id);
                destination_ids.extend(transitions.values().flatten());
                (state_ids, destination_ids)
            },
        );
''', '''        let state_ids: HashSet<_> = self.states.iter().map(|state| &state.id).collect();
        let destination_ids: HashSet<_> = self
            .states
            .iter()
            .flat_map(|state| state.transitions.values())
            .flatten()
            .collect();
''')]),
    ('same', 'C25', 'generator with replace', [(CS, '''        let result = self.current;
        self.current += 1;
        result''', '''        let next = self.current + 1;
        std::mem::replace(&mut self.current, next)''')]),
    ('same', 'C25', 'parser checks without start', [(CF, '        destination_ids.insert(start_state_id);\n', '        let _ = start_state_id;\n'), (CF, 'let (state_ids, mut destination_ids)', 'let (state_ids, destination_ids)')]),
    ('same', 'C25', 'parser check by all', [(CF, 'destination_ids.is_subset(&state_ids),', 'destination_ids.iter().all(|id| state_ids.contains(id)),')]),
]
