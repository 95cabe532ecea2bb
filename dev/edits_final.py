L, P = 'pango-lexer/src/', 'pango-parser/src/'
SIM, COM, TAB, SLR = L + 'fsm/nfa/sim.rs', L + 'fsm/nfa/compiler.rs', P + 'parser/table.rs', P + 'parser/slr.rs'
MOD, GRA, ITEM, CFSM, INP, LEX = L + 'fsm/nfa/model.rs', P + 'grammar.rs', P + 'cfsm/item.rs', P + 'cfsm/mod.rs', L + 'lexer/input.rs', L + 'lexer/mod.rs'
PUSHED = '''            current_state = parse_node.state;
            if next_token.is_some() {
                Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
            } else {
                stack.push(parse_node);
                reduced_start = stack.len();
            }
'''
EPS = '''            let transitions_taken = transitions
                .iter()
                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
                    match input {
                        Input::Literal(_) => None,
                        Input::Eps => Some(Box::new(states.iter().map(|state| (state, false)))),
                        Input::Quantified(quantifier) => {
                            if quantifier.is_satisfied(*state_counters.get(state_id).unwrap_or(&0))
                            {
                                Some(Box::new(states.iter().map(|state| (state, true))))
                            } else {
                                None
                            }
                        }
                    }
                })
                .flatten();
'''
EPS2 = '''            let count = match state_counters.get(state_id) {
                Some(count) => *count,
                None => 0,
            };
            let mut transitions_taken = Vec::new();
            for (input, states) in transitions {
                let quantified = match input {
                    Input::Literal(_) => continue,
                    Input::Eps => false,
                    Input::Quantified(quantifier) if quantifier.is_satisfied(count) => true,
                    Input::Quantified(_) => continue,
                };
                for state in states {
                    transitions_taken.push((state, quantified));
                }
            }
'''
FEEDB = '''            let new_runs = new_state_ids
                .into_iter()
                .map(|new_state_id| {
                    run.clone()
                        .take_transition(*new_state_id, false, state.get_count_limit())
                })
                .flat_map(|new_run| self.eps_closure(new_run));

            updated_runs.extend(new_runs);
'''
FEEDB2 = '''            let limit = state.get_count_limit();
            for new_state_id in new_state_ids {
                let moved = run.clone().take_transition(*new_state_id, false, limit);
                for closed in self.eps_closure(moved) {
                    updated_runs.insert(closed);
                }
            }
'''
CANF = '''        for Run {
            state_id,
            state_counters: _,
        } in self.runs.iter()
        {
            let State { transitions, .. } = self.nfa.get_state(*state_id);

            // Check for every transition if the input can make that transition.

            if transitions.keys().any(|expected| expected.can_take(input)) {
                return true;
            }
        }

        false
'''
KIND = '''                token_kind = Some(
                    match self
                        .tokens
                        .get_mut(&final_state)
                        .expect("final state should match a single token")
                    {
                        TokenKindGenerator::Map(token_kind_gen) => {
                            token_kind_gen(&self.iter.get_token().source)
                        }

                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
                    },
                );
'''
FINS = '''                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .next()
                    .expect("expected a single final state");
'''
ACC = '''        let mut last_pos = 0;

        self.current_token.source.push_str(
            &std::mem::take(&mut self.token_suffix)
                .into_iter()
                .map(|(pos, ch)| {
                    last_pos = pos;
                    ch
                })
                .collect::<String>(),
        );
        // The end position is one beyond the last character of the token.
        self.current_token.update_pos_end(last_pos + 1);
'''
ACC2 = '''        let end = self.token_suffix.last().map_or(1, |(pos, _)| pos + 1);
        for (_, ch) in self.token_suffix.drain(..) {
            self.current_token.source.push(ch);
        }
        self.current_token.pos = (self.current_token.pos.0, end);
'''
GROUPF = '''        let quantifier = match self.tokens.peek().copied() {
            Some(Token {
                pos: _,
                kind: TokenKind::Quantifier(quant_kind),
            }) => {
                self.tokens.next();
                Some(quant_kind)
            }
            _ => None,
        };

        Ok(ast::ExprKind::Group('''
SHIFTS = '''                match body.get_cursor_symbol() {
                    Some(s @ Symbol::Terminal(t)) => {
                        // body of the form `S -> x •t y`
                        let dest_state = *transitions
                            .get(&s.into())
                            .expect("no transition found for symbol");
'''
FOLS = '''                        for s in follow_set.get(&head).into_iter().flatten() {
                            let t = match s {
                                Symbol::Terminal(t) => Terminal::T(t.into()),
                                Symbol::Variable(_) => {
                                    unreachable!("variables should not exist in the follow set")
                                }
                                Symbol::Epsilon => continue,
                            };
'''
DEPQ = '''            if let Some(rhs_follow) = result.get(&rhs).cloned() {
                if extend_set(
                    result.entry(lhs).or_default(),
                    rhs_follow.clone().into_iter(),
                ) {
                    // retry the dependencies on lhs
                    if let Some(deps) = follow_dependencies.get(&lhs).cloned() {
                        follow_dependencies_queue
                            .extend(deps.into_iter().zip(std::iter::repeat(lhs)));
                    }
                }
            }
'''
DEPQ2 = '''            let Some(rhs_follow) = result.get(&rhs).cloned() else {
                continue;
            };
            if !extend_set(result.entry(lhs).or_default(), rhs_follow.into_iter()) {
                continue;
            }
            for dep in follow_dependencies.get(&lhs).into_iter().flatten() {
                follow_dependencies_queue.push_back((*dep, lhs));
            }
'''
EDITS = [
    ('same', 'C21 C22 C13', 'pushed in two steps', [(SLR, PUSHED, '''            current_state = parse_node.state;
            if next_token.is_none() {
                stack.push(parse_node);
                reduced_start = stack.len();
                continue;
            }
            Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
''')]),
    ('same', 'C11 C12 C13', 'closure with a list of transitions', [(SIM, EPS, EPS2)]),
    ('bug', 'C11', 'closure with a list, count of one', [(SIM, EPS, EPS2.replace('None => 0,', 'None => 1,'))]),
    ('bug', 'C11', 'closure with a list, quantified as empty', [(SIM, EPS, EPS2.replace('if quantifier.is_satisfied(count) => true', 'if quantifier.is_satisfied(count) => false'))]),
    ('bug', 'C12', 'closure with a list, stops at a literal', [(SIM, EPS, EPS2.replace('Input::Literal(_) => continue', 'Input::Literal(_) => break'))]),
    ('same', 'C11 C12', 'feed by nested loops', [(SIM, FEEDB, FEEDB2)]),
    ('bug', 'C12', 'feed by nested loops, first of the closure', [(SIM, FEEDB, FEEDB2.replace('self.eps_closure(moved) {', 'self.eps_closure(moved).take(1) {'))]),
    ('same', 'C02 C12', 'can feed by any', [(SIM, CANF, '''        self.runs
            .iter()
            .flat_map(|run| self.nfa.get_state(run.state_id).transitions.keys())
            .any(|expected| expected.can_take(input))
''')]),
    ('bug', 'C12', 'can feed by all', [(SIM, CANF, '''        self.runs
            .iter()
            .flat_map(|run| self.nfa.get_state(run.state_id).transitions.keys())
            .filter(|expected| matches!(expected, Input::Literal(_)))
            .all(|expected| expected.can_take(input))
''')]),
    ('same', 'C01 C02 C03 C04', 'kind by if let', [(LEX, KIND, '''                let generator = self.tokens.get_mut(&final_state).expect("no token");
                let kind = if let TokenKindGenerator::Map(make) = generator {
                    let source = &self.iter.get_token().source;
                    make(source)
                } else if let TokenKindGenerator::Unit(make) = generator {
                    make()
                } else {
                    unreachable!()
                };
                token_kind.replace(kind);
''')]),
    ('same', 'C03', 'final state by first', [(LEX, FINS, '''                let final_states = sim.get_current_final_states();
                let final_state = *final_states.first().expect("expected a final state");
''')]),
    ('same', 'C03', 'final state by min', [(LEX, FINS, '''                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .min()
                    .expect("expected a final state");
''')]),
    ('bug', 'C03', 'final state by last', [(LEX, FINS, '''                let final_states = sim.get_current_final_states();
                let final_state = *final_states.last().expect("expected a final state");
''')]),
    ('same', 'C01 C02 C03 C04', 'accepted by drain', [(INP, ACC, ACC2)]),
    ('bug', 'C01', 'accepted by drain, end of the first', [(INP, ACC, ACC2.replace('.last()', '.first()'))]),
    ('bug', 'C01', 'accepted by drain, all but the first', [(INP, ACC, ACC2.replace('.drain(..)', '.drain(1..)'))]),
    ('same', 'C18 C13', 'dependencies by guard clauses', [(GRA, DEPQ, DEPQ2)]),
    ('bug', 'C18', 'dependencies by guard clauses, turned round', [(GRA, DEPQ, DEPQ2.replace('push_back((*dep, lhs))', 'push_back((lhs, *dep))'))]),
    ('bug', 'C18', 'dependencies by guard clauses, first only', [(GRA, DEPQ, DEPQ2.replace('.into_iter().flatten()', '.into_iter().flatten().take(1)'))]),
    ('same', 'C20', 'followers by if let', [(TAB, FOLS, '''                        let followers = follow_set.get(&head).map(|set| set.iter()).into_iter().flatten();
                        for s in followers {
                            let Symbol::Terminal(terminal) = s else {
                                continue;
                            };
                            let t = Terminal::from(terminal);
''')]),
    ('same', 'C20', 'no followers by default', [(TAB, FOLS, FOLS.replace('for s in follow_set.get(&head).into_iter().flatten() {', 'let none = std::collections::HashSet::new();\n                        for s in follow_set.get(&head).unwrap_or(&none) {'))]),
]
