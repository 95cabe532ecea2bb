L, P = 'pango-lexer/src/', 'pango-parser/src/'
SIM, COM, TAB, SLR = L + 'fsm/nfa/sim.rs', L + 'fsm/nfa/compiler.rs', P + 'parser/table.rs', P + 'parser/slr.rs'
TAKE = '''        let count = self.state_counters.entry(self.state_id).or_insert(0);
        if quantified {
            // Reset the state count if quantified transition is used
            *count = 0;
        } else {
            *count = (*count + 1).min(count_limit);
        }
'''
ENTRY = '''        match state.entry(terminal) {
            Entry::Occupied(entry) if *entry.get() != action => Err(()),
            // multiple items can lead to the same action
            Entry::Occupied(_) => Ok(()),
            Entry::Vacant(entry) => {
                entry.insert(action);
                Ok(())
            }
        }
'''
FEED = '''                .filter_map(|(expected, states)| {
                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
                })
                .flatten();
'''
ACT = '''        let Some(action_kind) = self
            .table
            .action
            .get(current_state)
            .and_then(|action| action.get(&terminal))
        else {
            return Err(());
        };
'''
CONCAT = '''                let mut current_state = start;

                for expr in exprs.iter().take(exprs.len() - 1) {
                    let new_state = self.nfa.add_state(false);
                    self.expr(expr, current_state, new_state);
                    current_state = new_state;
                }

                self.expr(
                    exprs.last().expect(
                        "expected at least one expressions in a concatenation of expressions",
                    ),
                    current_state,
                    end,
                )
'''
SPLIT = '''                let (last, rest) = exprs.split_last().expect("empty concatenation");
                let current_state = rest.iter().fold(start, |from, expr| {
                    let to = self.nfa.add_state(false);
                    self.expr(expr, from, to);
                    to
                });
                self.expr(last, current_state, end)
'''
INDEXED = '''                let mut from = start;
                for (i, expr) in exprs.iter().enumerate() {
                    let to = if i + 1 == exprs.len() {
                        end
                    } else {
                        self.nfa.add_state(false)
                    };
                    self.expr(expr, from, to);
                    from = to;
                }
'''
FIN = '''        let final_state_ids = self
            .nfa
            .get_final_states()
            .map(|s| s.id)
            .collect::<HashSet<StateId>>();

        self.runs
            .iter()
            .filter_map(|Run { state_id, .. }| {
                if final_state_ids.contains(state_id) {
                    Some(state_id)
                } else {
                    None
                }
            })
            .copied()
            .collect::<BTreeSet<_>>()
'''
FIN2 = '''        let reached = self.runs.iter().map(|run| run.state_id).collect::<BTreeSet<_>>();
        self.nfa
            .get_final_states()
            .map(|s| s.id)
            .filter(|id| reached.contains(id))
            .collect()
'''
TAKE2 = '''        let limit = if quantified { 0 } else { count_limit };
        let next = self
            .state_counters
            .get(&self.state_id)
            .map_or(1, |count| count + 1)
            .min(limit);
        self.state_counters.insert(self.state_id, next);
'''
EOF = '''                            let eof_action = if head == grammar.get_start_variable() {
                                ActionKind::Accept { variable, amount }
                            } else {
                                ActionKind::Reduce { variable, amount }
                            };
'''
EDITS = [
    ('same', 'C11 C12 C13 C25', 'count by get and insert', [(SIM, TAKE, TAKE2)]),
    ('bug', 'C11', 'count by get and insert, from nought', [(SIM, TAKE, TAKE2.replace('map_or(1', 'map_or(0'))]),
    ('bug', 'C11', 'count by get and insert, kept by quantifiers', [(SIM, TAKE, TAKE2.replace('        self.state_counters.insert', '        if !quantified || next > 0 {\n            self.state_counters.insert').replace('next);\n', 'next);\n        }\n', 1) if False else TAKE2.replace('        self.state_counters.insert(self.state_id, next);\n', '        if !quantified {\n            self.state_counters.insert(self.state_id, next);\n        }\n'))]),
    ('bug', 'C11', 'counters of the new state are cleared as well', [(SIM, '        self.state_id = new_state_id;\n', '        if quantified {\n            self.state_counters.remove(&new_state_id);\n        }\n        self.state_id = new_state_id;\n')]),
    ('bug', 'C11', 'all counters cleared on leaving', [(SIM, '            *count = 0;\n', '            *count = 0;\n            self.state_counters.clear();\n')]),
    ('bug', 'C11', 'counter of a state without quantifier', [(SIM, '                    .take_transition(*new_state, quantified, state.get_count_limit())', '                    .take_transition(*new_state, quantified, if quantified { 0 } else { state.get_count_limit().max(1) - 1 })')]),
    ('bug', 'C12', 'runs in one state are merged', [(SIM, '        self.runs = updated_runs.into_iter().collect();\n', '        let mut seen = BTreeSet::new();\n        self.runs = updated_runs.into_iter().filter(|run: &Run| seen.insert(run.state_id)).collect();\n')]),
    ('bug', 'C12', 'dead runs are kept when all die', [(SIM, '        self.runs = updated_runs.into_iter().collect();\n', '        if !updated_runs.is_empty() {\n            self.runs = updated_runs.into_iter().collect();\n        }\n')]),
    ('same', 'C12 C11', 'feed by flat_map and filter', [(SIM, FEED, '                .filter(|(expected, _)| expected.can_take(input))\n                .flat_map(|(_, states)| states);\n')]),
    ('bug', 'C12', 'feed takes the first label only', [(SIM, FEED, '                .find(|(expected, _)| expected.can_take(input))\n                .into_iter()\n                .flat_map(|(_, states)| states);\n')]),
    ('bug', 'C12', 'feed in lower case', [(SIM, FEED, FEED.replace('can_take(input)', 'can_take(input.to_ascii_lowercase())'))]),
    ('same', 'C03 C12', 'final states filtered', [(SIM, FIN, FIN2)]),
    ('bug', 'C12', 'final states from the second on', [(SIM, FIN, FIN2.replace('            .map(|s| s.id)\n            .filter', '            .map(|s| s.id)\n            .skip(1)\n            .filter'))]),
    ('same', 'C10 C25', 'sequence by split_last and fold', [(COM, CONCAT, SPLIT)]),
    ('bug', 'C10', 'sequence folded back to its start', [(COM, CONCAT, SPLIT.replace('                    to\n', '                    from.max(to).min(to)\n').replace('self.expr(expr, from, to)', 'self.expr(expr, from.min(to), to)').replace('from.max(to).min(to)', 'from'))]),
    ('same', 'C10 C25', 'sequence by index', [(COM, CONCAT, INDEXED)]),
    ('bug', 'C10', 'sequence by index, early end', [(COM, CONCAT, INDEXED.replace('i + 1 == exprs.len()', 'i + 2 >= exprs.len()'))]),
    ('bug', 'C10', 'sequence by index, from not moved when empty', [(COM, CONCAT, INDEXED.replace('from = to;', 'if !matches!(expr, ExprKind::Empty) {\n                        from = to;\n                    }'))]),
    ('same', 'C20', 'action entry by get and insert', [(TAB, ENTRY, '''        if let Some(old) = state.get(&terminal) {
            return if *old == action { Ok(()) } else { Err(()) };
        }
        state.insert(terminal, action);
        Ok(())
'''), (TAB, 'collections::{hash_map::Entry, HashMap}', 'collections::HashMap')]),
    ('bug', 'C20', 'action entry replaced before it is compared', [(TAB, ENTRY, '''        match state.insert(terminal, action) {
            Some(old) if matches!(old, ActionKind::Shift { .. }) => Err(()),
            _ => Ok(()),
        }
'''), (TAB, 'collections::{hash_map::Entry, HashMap}', 'collections::HashMap')]),
    ('bug', 'C20', 'reductions of the same variable do not conflict', [(TAB, ENTRY, ENTRY.replace('if *entry.get() != action =>', 'if !matches!((entry.get(), &action), (ActionKind::Reduce { variable: a, .. }, ActionKind::Reduce { variable: b, .. }) if a == b) && *entry.get() != action =>'))]),
    ('bug', 'C20', 'accept only for bodies that are not empty', [(TAB, EOF, EOF.replace('if head == grammar.get_start_variable() {', 'if head == grammar.get_start_variable() && amount > 0 {'))]),
    ('same', 'C20', 'eof action by match', [(TAB, EOF, '''                            let start = grammar.get_start_variable();
                            let eof_action = match head == start {
                                true => ActionKind::Accept { variable: start, amount },
                                false => ActionKind::Reduce { variable, amount },
                            };
''')]),
    ('bug', 'C20', 'reductions before the end cover one symbol less', [(TAB, EOF, EOF.replace('ActionKind::Reduce { variable, amount }', 'ActionKind::Reduce { variable, amount: amount.max(1) }'))]),
    ('same', 'C21 C22', 'action by match', [(SLR, ACT, '''        let action_kind = match self.table.action.get(current_state) {
            Some(row) => row.get(&terminal).ok_or(())?,
            None => return Err(()),
        };
''')]),
    ('bug', 'C22', 'action by index', [(SLR, ACT, '''        let action_kind = self.table.action[current_state].get(&terminal).ok_or(())?;
''')]),
    ('bug', 'C21', 'action of the first state as a default', [(SLR, ACT, '''        let action_kind = self.table.action.get(current_state).or(self.table.action.first()).and_then(|row| row.get(&terminal)).ok_or(())?;
''')]),
]
MOD, GRA, ITEM, CFSM, INP, LEX = L + 'fsm/nfa/model.rs', P + 'grammar.rs', P + 'cfsm/item.rs', P + 'cfsm/mod.rs', L + 'lexer/input.rs', L + 'lexer/mod.rs'
ADDT = '''        self.get_state_mut(start)
            .transitions
            .entry(input)
            .or_insert(HashSet::new())
            .insert(end);
'''
ADDT2 = '''        let transitions = &mut self.get_state_mut(start).transitions;
        match transitions.get_mut(&input) {
            Some(ends) => {
                ends.insert(end);
            }
            None => {
                transitions.insert(input, HashSet::from([end]));
            }
        }
'''
LIMIT = '''        self.transitions
            .keys()
            .map(|input| match input {
                Input::Quantified(quantifier) => quantifier.count_limit(),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
'''
GETS = '''        self.states
            .iter()
            .find(|State { id, .. }| *id == state_id)
            .expect("requested state does not exist")
'''
ADV = '''        self.cursor += 1 + self
            .get_body()
            .iter()
            .skip(self.cursor + 1)
            .take_while(|s| matches!(s, Symbol::Epsilon))
            .count();
        self.cursor = self.cursor.min(self.get_body().len());
'''
ADV2 = '''        let after = self.cursor + 1;
        let body = self.get_body();
        self.cursor = body
            .iter()
            .enumerate()
            .skip(after)
            .find(|(_, s)| !matches!(s, Symbol::Epsilon))
            .map_or(body.len(), |(i, _)| i);
'''
ADV3 = '''        let len = self.get_body().len();
        let mut cursor = self.cursor + 1;
        while cursor < len && self.get_body()[cursor] == Symbol::Epsilon {
            cursor += 1;
        }
        self.cursor = if cursor > len { len } else { cursor };
'''
AMOUNT = '''        self.get_body()
            .iter()
            .filter(|s| !matches!(s, Symbol::Epsilon))
            .count()
'''
CLOS = '''                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                {
                    pending_bodies.push_back(new_item_body);
                }
'''
CLOS2 = '''                let known = items.get(&head).is_some_and(|bodies| bodies.contains(&new_item_body));
                if known {
                    continue;
                }
                items.entry(head).or_default().insert(new_item_body);
                pending_bodies.push_back(new_item_body);
'''
GROUP = '''                        group_by_symbol
                            .entry(symbol)
                            .or_insert_with(HashMap::new)
                            .entry(*head)
                            .or_insert_with(HashSet::new)
                            .insert(item_body);
'''
FIND = '''                    match builder
                        .get_states_mut()
                        .iter()
                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,
                        None => {
                            let state = State::new(state_id_generator.next(), item_set);
                            let state_id = state.id;
                            pending_states.push_back(state);
                            state_id
                        }
                    }
'''
FIND2 = '''                    let known = builder
                        .get_states_mut()
                        .iter()
                        .find_map(|s| s.has_item_set(&item_set).then_some(s.id));
                    known.unwrap_or_else(|| {
                        let id = state_id_generator.next();
                        pending_states.push_back(State::new(id, item_set));
                        id
                    })
'''
NEXT = '''        self.prev_characters_iter
            .next()
            .or_else(|| self.iter.next())
            .map(|(pos, ch)| {
                self.token_suffix.push((pos, ch));
                ch
            })
'''
NEXT2 = '''        let (pos, ch) = match self.prev_characters_iter.next() {
            Some(item) => item,
            None => self.iter.next()?,
        };
        self.token_suffix.push((pos, ch));
        Some(ch)
'''
DEP = '''                    None => {
                        // keep track of the dependency
                        follow_dependencies
                            .entry(head)
                            .or_default()
                            .insert(variable);
                    }
'''
DEP2 = '''                    None => match follow_dependencies.get_mut(&head) {
                        Some(known) => {
                            known.insert(variable);
                        }
                        None => {
                            follow_dependencies.insert(head, HashSet::from([variable]));
                        }
                    },
'''
REACH = '''            for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                if let Symbol::Variable(v) = symbol {
                    if result.insert(*v) {
                        pending_variables.push_back(*v);
                    }
                }
            }
'''
REACH2 = '''            let Some(bodies) = self.get_rule_bodies(head) else {
                continue;
            };
            let found = bodies.iter().flat_map(|body| body.iter()).filter_map(|symbol| match symbol {
                Symbol::Variable(v) if *v != head => Some(*v),
                _ => None,
            });
            for v in found {
                if !result.contains(&v) {
                    result.insert(v);
                    pending_variables.push_back(v);
                }
            }
'''
GOTO = '''        let old_dest_state = table
            .get_mut(state)
            .expect("state should exist as the table has just been resized")
            .insert(variable, new_state);
'''
EDITS += [
    ('same', 'C10 C11 C13 C25', 'transition by get_mut', [(MOD, ADDT, ADDT2)]),
    ('bug', 'C10', 'transition by get_mut replaces', [(MOD, ADDT, ADDT2.replace('ends.insert(end);', 'ends.clear();\n                ends.insert(end);'))]),
    ('bug', 'C10', 'transition by get_mut starts empty', [(MOD, ADDT, ADDT2.replace('HashSet::from([end])', 'HashSet::new()'))]),
    ('same', 'C11 C12 C13', 'limit by a loop', [(MOD, LIMIT, '''        let mut limit = 0;
        for input in self.transitions.keys() {
            if let Input::Quantified(quantifier) = input {
                limit = limit.max(quantifier.count_limit());
            }
        }
        limit
''')]),
    ('same', 'C11 C12 C13', 'limit by filter_map', [(MOD, LIMIT, '''        self.transitions
            .keys()
            .filter_map(|input| match input {
                Input::Quantified(quantifier) => Some(quantifier.count_limit()),
                _ => None,
            })
            .max()
            .unwrap_or_default()
''')]),
    ('bug', 'C11', 'limit of the last transition', [(MOD, LIMIT, LIMIT.replace('.max()', '.last()'))]),
    ('same', 'C11 C12 C25 C13', 'state by index', [(MOD, GETS, '''        let state = &self.states[state_id];
        debug_assert!(state.id == state_id);
        state
''')]),
    ('same', 'C19 C20 C13', 'advance by find', [(ITEM, ADV, ADV2)]),
    ('bug', 'C19', 'advance by find, stays before the end', [(ITEM, ADV, ADV2.replace('map_or(body.len()', 'map_or(after'))]),
    ('bug', 'C19', 'advance by find, from the cursor', [(ITEM, ADV, ADV2.replace('.skip(after)', '.skip(after - 1)'))]),
    ('same', 'C19 C20', 'amount by fold', [(ITEM, AMOUNT, '''        self.get_body().iter().fold(0, |n, s| match s {
            Symbol::Epsilon => n,
            Symbol::Terminal(_) | Symbol::Variable(_) => n + 1,
        })
''')]),
    ('same', 'C19 C20', 'amount by difference', [(ITEM, AMOUNT, '''        let body = self.get_body();
        body.len() - body.iter().filter(|s| matches!(s, Symbol::Epsilon)).count()
''')]),
    ('bug', 'C20', 'amount up to the first epsilon', [(ITEM, AMOUNT, '''        self.get_body()
            .iter()
            .take_while(|s| !matches!(s, Symbol::Epsilon))
            .count()
''')]),
    ('same', 'C19 C13', 'closure asks first', [(ITEM, CLOS, CLOS2)]),
    ('bug', 'C19', 'closure asks for the head only', [(ITEM, CLOS, CLOS2.replace('is_some_and(|bodies| bodies.contains(&new_item_body))', 'is_some_and(|bodies| !bodies.is_empty())'))]),
    ('same', 'C19', 'groups in two steps', [(ITEM, GROUP, '''                        let group: &mut HashMap<V, HashSet<&ItemBody<V, T>>> = group_by_symbol.entry(symbol).or_default();
                        match group.get_mut(head) {
                            Some(bodies) => {
                                bodies.insert(item_body);
                            }
                            None => {
                                group.insert(*head, HashSet::from([item_body]));
                            }
                        }
''')]),
    ('same', 'C19 C13 C25', 'known state by find_map', [(CFSM, FIND, FIND2)]),
    ('bug', 'C19', 'known state by find_map, any', [(CFSM, FIND, FIND2.replace('s.has_item_set(&item_set).then_some(s.id)', '(s.has_item_set(&item_set) || s.id > 4).then_some(s.id)'))]),
    ('same', 'C01 C02 C03 C04', 'next by match', [(INP, NEXT, NEXT2)]),
    ('bug', 'C01', 'next by match keeps the old position', [(INP, NEXT, NEXT2.replace('self.token_suffix.push((pos, ch))', 'self.token_suffix.push((pos.max(self.current_token.pos.1), ch));\n        let _ = pos').replace('pos.max(self.current_token.pos.1)', 'self.current_token.pos.1'))]),
    ('same', 'C18 C13', 'dependencies by get_mut', [(GRA, DEP, DEP2)]),
    ('bug', 'C18', 'dependencies by get_mut, first only', [(GRA, DEP, DEP2.replace('known.insert(variable);', 'known.extend((known.len() > 1).then_some(variable));'))]),
    ('same', 'C18 C13', 'reachable variables asked first', [(GRA, REACH, REACH2)]),
    ('bug', 'C18', 'reachable variables of other heads', [(GRA, REACH, REACH2.replace('*v != head', '*v != self.start_variable && *v != head || self.start_variable == head && *v == head').replace('*v != self.start_variable && *v != head || self.start_variable == head && *v == head', 'head == self.start_variable || *v == head'))]),
    ('same', 'C20', 'goto by index', [(TAB, GOTO, '        let old_dest_state = table[state].insert(variable, new_state);\n')]),
    ('bug', 'C20', 'goto keeps the first', [(TAB, GOTO, '        let old_dest_state: Option<StateId> = None;\n        table[state.min(1)].entry(variable).or_insert(new_state);\n')]),
]
PAR, TOK, PEEK, MAPW = L + 'regex/parser.rs', L + 'regex/tokenizer.rs', L + 'iter/peekable.rs', L + 'iter/cautious/map_while.rs'
LHS = '''        let mut lhs = self.sub_expression()?;
        let lhs = if lhs.len() == 1 {
            lhs.remove(0)
        } else {
            ast::ExprKind::Concat(lhs)
        };
'''
LHS2 = '''        let mut items = self.sub_expression()?;
        let lhs = match items.pop() {
            Some(only) if items.is_empty() => only,
            last => {
                items.extend(last);
                ast::ExprKind::Concat(items)
            }
        };
'''
SUBX = '''        let mut literals = Vec::new();
        while !matches!(
            self.tokens.peek(),
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Vertical)
                    | TokenKind::Operator(OperatorKind::RightParen)
            }) | None
        ) {
            literals.push(self.sub_expression_item()?);
        }
'''
SUBX2 = '''        let mut literals = Vec::new();
        while let Some(Token { kind, .. }) = self.tokens.peek() {
            match kind {
                TokenKind::Operator(OperatorKind::Vertical | OperatorKind::RightParen) => break,
                _ => literals.push(self.sub_expression_item()?),
            }
        }
'''
PRES = '''        match result {
            Ok(expr) => Ok(Ast(expr)),
            Err(mut errs) => {
                self.errors.append(&mut errs.0);
                Err(W(self.errors.clone()))
            }
        }
'''
TNEXT = '''        match self.iter.next() {
            Some((start_cursor_pos, ch)) => {
                let token_kind = match ch {
                    '\\\\' => self.handle_class_or_escape_sequence(),
                    '.' => TokenKind::Class(ClassKind::Wildcard),
                    '[' | ']' | '(' | ')' | '^' | '|' | '-' => self.handle_operators(ch),
                    '*' | '+' | '?' | '{' => self.handle_quantifier(ch),

                    a => TokenKind::Match(a),
                };

                Some(Token::new(
                    token_kind,
                    (start_cursor_pos, self.get_token_end_cursor_pos()),
                ))
            }
            None => None,
        }
'''
TNEXT2 = '''        let (start, ch) = self.iter.next()?;
        let kind = if ch == '\\\\' {
            self.handle_class_or_escape_sequence()
        } else if ch == '.' {
            TokenKind::Class(ClassKind::Wildcard)
        } else if "[]()^|-".contains(ch) {
            self.handle_operators(ch)
        } else if matches!(ch, '*' | '+' | '?' | '{') {
            self.handle_quantifier(ch)
        } else {
            TokenKind::Match(ch)
        };
        let end = self.get_token_end_cursor_pos();
        Some(Token { kind, pos: (start, end) })
'''
DEC = '''        (&mut self.iter)
            .cautious_map_while(|(_, ch)| ch.to_digit(10))
            .fold(start.or(Some(0)), |acc, d| acc?.checked_mul(10)?.checked_add(d))
'''
DEC2 = '''        let mut value = Some(start.unwrap_or(0));
        while let Some(d) = (&mut self.iter).cautious_map_while(|(_, ch)| ch.to_digit(10)).next() {
            value = value.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add(d));
        }
        value
'''
HEX = '''            .fold(Some((digit_count, start)), |acc, d| {
                acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
            })
'''
SAT = '''                count >= *min as usize && count <= *max as usize
'''
ENDP = '''        match self.iter.current() {
            Some((cursor_pos, _)) => cursor_pos + 1,
            None => 1,
        }
'''
PNEXT = '''        let next = self.iter.next();
        if next.is_some() {
            self.current = Some(next.clone());
        }
        next
'''
MW = '''        match self.iter.peek() {
            Some(next) => {
                let result = (self.predicate)(next);

                if result.is_some() {
                    self.iter.next();
                }

                result
            }
            None => None,
        }
'''
ADDR = '''        let body = if !body.is_empty() {
            body
        } else {
            Body::from([Symbol::Epsilon])
        };

        self.rules
            .entry(variable)
            .or_insert_with(HashSet::new)
            .insert(body)
'''
ADDR2 = '''        let mut body = body;
        if body.is_empty() {
            body = Body::from([Symbol::Epsilon]);
        }

        if let Some(bodies) = self.rules.get_mut(&variable) {
            return bodies.insert(body);
        }
        self.rules.insert(variable, HashSet::from([body]));
        true
'''
BUILD = '''        for (head, bodies) in self.rules.iter() {
            heads.insert(head);

            variables.extend(
                bodies
                    .iter()
                    .flat_map(|body| body.iter())
                    .filter_map(|symbol| match symbol {
                        Symbol::Variable(v) => Some(v),
                        Symbol::Terminal(_) | Symbol::Epsilon => None,
                    }),
            )
        }
'''
BUILD2 = '''        heads.extend(self.rules.keys());
        for body in self.rules.values().flatten() {
            for symbol in body.iter() {
                if let Symbol::Variable(v) = symbol {
                    variables.insert(v);
                }
            }
        }
'''
EOFS = '''                for symbol in body.iter().rev() {
                    match symbol {
                        Symbol::Epsilon => continue,
                        Symbol::Terminal(_) => break,
'''
EDITS += [
    ('same', 'C05 C09 C14', 'single item by pop', [(PAR, LHS, LHS2)]),
    ('bug', 'C09', 'single item by pop loses the last', [(PAR, LHS, LHS2.replace('                items.extend(last);\n', '                let _ = last;\n'))]),
    ('same', 'C05 C09 C13 C14', 'items while there is a token', [(PAR, SUBX, SUBX2)]),
    ('bug', 'C05', 'items up to a bracket', [(PAR, SUBX, SUBX2.replace('OperatorKind::Vertical | OperatorKind::RightParen', 'OperatorKind::Vertical | OperatorKind::RightParen | OperatorKind::RightBracket'))]),
    ('same', 'C05 C14', 'result by map', [(PAR, PRES, '''        result.map(Ast).map_err(|errs| {
            self.errors.extend(errs.0);
            W(self.errors.clone())
        })
''')]),
    ('bug', 'C14', 'result without its errors', [(PAR, PRES, '''        result.map(Ast).map_err(|errs| {
            let mut all = self.errors.clone();
            all.extend(errs.0.into_iter().map(|e| ParseError { pos: (e.pos.0, e.pos.1 + e.pos.0), ..e }));
            W(all)
        })
''')]),
    ('same', 'C05 C06 C07 C14', 'token by tests', [(TOK, TNEXT, TNEXT2)]),
    ('bug', 'C06', 'token by tests, closing brace', [(TOK, TNEXT, TNEXT2.replace('"[]()^|-"', '"[]()^|"'))]),
    ('same', 'C07 C05 C14 C13', 'decimals by a loop', [(TOK, DEC, DEC2)]),
    ('bug', 'C07', 'decimals by a loop, wrap', [(TOK, DEC, DEC2.replace('.and_then(|n| n.checked_mul(10))', '.map(|n| n.wrapping_mul(10))'))]),
    ('bug', 'C07', 'decimals by a loop, stuck at the top', [(TOK, DEC, DEC2.replace('value = value.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add(d));', 'value = value.map(|n| n.saturating_mul(10).saturating_add(d));'))]),
    ('same', 'C06', 'hexadecimals by or', [(TOK, HEX, HEX.replace('(n << 4) + d', '(n << 4) | d'))]),
    ('same', 'C06', 'hexadecimals by multiplication', [(TOK, HEX, HEX.replace('(n << 4) + d', 'n * 16 + d'))]),
    ('same', 'C11', 'range by contains', [(TOK, SAT, '                (*min as usize..=*max as usize).contains(&count)\n')]),
    ('bug', 'C11', 'range by contains, open', [(TOK, SAT, '                (*min as usize..(*max as usize).max(*min as usize + 1)).contains(&count)\n')]),
    ('same', 'C14 C05', 'end by map_or', [(TOK, ENDP, '        self.iter.current().map_or(1, |(at, _)| at + 1)\n')]),
    ('bug', 'C14', 'end by map_or, doubled', [(TOK, ENDP, '        self.iter.current().map_or(1, |(at, _)| at + at.max(1))\n')]),
    ('same', 'C15 C14', 'cache by if let', [(PEEK, PNEXT, '''        let item = self.iter.next()?;
        self.current = Some(Some(item.clone()));
        Some(item)
''')]),
    ('same', 'C15 C06 C07', 'map while by question mark', [(MAPW, MW, '''        let result = (self.predicate)(self.iter.peek()?)?;
        self.iter.next();
        Some(result)
''')]),
    ('same', 'C15 C06 C07', 'map while by and_then', [(MAPW, MW, '''        let result = self.iter.peek().and_then(|next| (self.predicate)(next));
        if result.is_some() {
            let _ = self.iter.next();
        }
        result
''')]),
    ('bug', 'C15', 'map while by question mark, eager', [(MAPW, MW, '''        let result = (self.predicate)(self.iter.peek()?);
        self.iter.next();
        result
''')]),
    ('same', 'C16', 'rule by get_mut', [(GRA, ADDR, ADDR2)]),
    ('bug', 'C16', 'rule by get_mut, first body empty', [(GRA, ADDR, ADDR2.replace('HashSet::from([body])', 'HashSet::from([Body::from([Symbol::Epsilon])])'))]),
    ('same', 'C16', 'variables by nested loops', [(GRA, BUILD, BUILD2)]),
    ('bug', 'C16', 'variables by nested loops, first symbols', [(GRA, BUILD, BUILD2.replace('body.iter() {', 'body.iter().take(1) {'))]),
    ('same', 'C18 C20', 'eof symbols without epsilon', [(GRA, EOFS, '''                for symbol in body.iter().rev().filter(|s| !matches!(s, Symbol::Epsilon)) {
                    match symbol {
                        Symbol::Epsilon => unreachable!("filtered"),
                        Symbol::Terminal(_) => break,
''')]),
]
