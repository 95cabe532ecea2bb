T = 'pango-lexer/src/regex/tokenizer.rs'
S = 'pango-lexer/src/fsm/nfa/sim.rs'
M = 'pango-lexer/src/fsm/nfa/model.rs'
EDITS = [
    ('bug', 'C11', 'plus accepts zero', [(T, 'QuantifierKind::Plus => count > 0,', 'QuantifierKind::Plus => true,')]),
    ('bug', 'C11', 'question mark less than one', [(T, 'QuantifierKind::QuestionMark => count <= 1,', 'QuantifierKind::QuestionMark => count < 1,')]),
    ('bug', 'C11', 'range upper exclusive', [(T, 'count >= *min as usize && count <= *max as usize', 'count >= *min as usize && count < *max as usize')]),
    ('bug', 'C11', 'exact limit n', [(T, ') => (*max as usize).saturating_add(1),', ') => *max as usize,')]),
    ('bug', 'C11', 'min limit n-1', [(T, 'QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,\n            QuantifierKind::Range(\n', 'QuantifierKind::Range(QuantifierRangeKind::Min(min)) => (*min as usize).saturating_sub(1),\n            QuantifierKind::Range(\n')]),
    ('bug', 'C11', 'question mark limit 1', [(T, 'QuantifierKind::QuestionMark => 2,', 'QuantifierKind::QuestionMark => 1,')]),
    ('bug', 'C11', 'no reset', [(S, '*count = 0;', '')]),
    ('bug', 'C11', 'reset to one', [(S, '*count = 0;', '*count = 1;')]),
    ('bug', 'C11', 'counts new state', [(S, 'let count = self.state_counters.entry(self.state_id).or_insert(0);', 'let count = self.state_counters.entry(new_state_id).or_insert(0);')]),
    ('bug', 'C11', 'all counters cleared', [(S, '*count = 0;', 'self.state_counters.clear();')]),
    ('bug', 'C11', 'min instead of max', [(M, '.max()\n            .unwrap_or(0)', '.min()\n            .unwrap_or(0)')]),
    ('bug', 'C11', 'saturates at 255', [(S, '*count = (*count + 1).min(count_limit);', '*count = (*count + 1).min(count_limit).min(255);')]),
    ('bug', 'C11', 'feed does not count', [(S, '.take_transition(*new_state_id, false, state.get_count_limit())', '.take_transition(*new_state_id, true, state.get_count_limit())')]),
    ('bug', 'C11', 'eps resets', [(S, 'states.iter().map(|state| (state, false))', 'states.iter().map(|state| (state, true))')]),
    ('bug', 'C11', 'counter of missing entry is one', [(S, 'unwrap_or(&0)', 'unwrap_or(&1)')]),
    ('bug', 'C11', 'limit only of first quantifier', [(M, '.max()\n            .unwrap_or(0)', '.next()\n            .unwrap_or(0)')]),
    ('bug', 'C11', 'run starts with counter', [(S, 'state_counters: StateCounters::new(),', 'state_counters: StateCounters::from([(state_id, 1)]),')]),
    ('same', 'C11 C12', 'reset by removing', [(S, '''        let count = self.state_counters.entry(self.state_id).or_insert(0);
        if quantified {
            // Reset the state count if quantified transition is used
            *count = 0;
        } else {
            *count = (*count + 1).min(count_limit);
        }
''', '''        if quantified {
            self.state_counters.remove(&self.state_id);
        } else {
            let count = self.state_counters.get(&self.state_id).copied().unwrap_or(0);
            let next = if count < count_limit { count + 1 } else { count_limit };
            self.state_counters.insert(self.state_id, next);
        }
''')]),
    ('same', 'C11 C12', 'fold limit', [(M, '''        self.transitions
            .keys()
            .map(|input| match input {
                Input::Quantified(quantifier) => quantifier.count_limit(),
                _ => 0,
            })
            .max()
            .unwrap_or(0)''', '''        let mut limit = 0;
        for input in self.transitions.keys() {
            if let Input::Quantified(quantifier) = input {
                limit = limit.max(quantifier.count_limit());
            }
        }
        limit''')]),
    ('same', 'C11 C12', 'loop in closure', [(S, '''            for new_run in new_runs {
                if result.insert(new_run.clone()) {
                    not_visited.push_back(new_run);
                }
            }
''', '''            let found: Vec<_> = new_runs.collect();
            for new_run in found {
                if result.contains(&new_run) {
                    continue;
                }
                result.insert(new_run.clone());
                not_visited.push_back(new_run);
            }
''')]),
    ('same', 'C11 C12', 'nested loops in closure', [(S, '''            let transitions_taken = transitions
                .iter()
                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
                    match input {
                        Input::Literal(_) => None,
                        Input::Eps => Some(Box::new(states.iter().map(|state| (state, false)))),
                        Input::Quantified(quantifier) => {
                            if quantifier.is_satisfied(*state_counters.get(state_id).unwrap_or(&0))
                            {
                                Some(Box::new(states.iter().map(|state| (state, true))))
                            } else {
                                None
                            }
                        }
                    }
                })
                .flatten();

            let new_runs = transitions_taken.into_iter().map(|(new_state, quantified)| {
                run.clone()
                    .take_transition(*new_state, quantified, state.get_count_limit())
            });

            for new_run in new_runs {
                if result.insert(new_run.clone()) {
                    not_visited.push_back(new_run);
                }
            }
''', '''            let count = state_counters.get(state_id).copied().unwrap_or(0);
            let limit = state.get_count_limit();
            for (input, destinations) in transitions {
                let quantified = match input {
                    Input::Literal(_) => continue,
                    Input::Eps => false,
                    Input::Quantified(quantifier) if quantifier.is_satisfied(count) => true,
                    Input::Quantified(_) => continue,
                };
                for destination in destinations {
                    let next = run.clone().take_transition(*destination, quantified, limit);
                    if result.insert(next.clone()) {
                        not_visited.push_back(next);
                    }
                }
            }
''')]),
    ('same', 'C11 C12', 'matches for satisfied', [(T, 'QuantifierKind::QuestionMark => count <= 1,', 'QuantifierKind::QuestionMark => matches!(count, 0 | 1),'),
       (T, 'count >= *min as usize && count <= *max as usize', '(*min as usize..=*max as usize).contains(&count)')]),
    ('same', 'C11 C12', 'feed with loops', [(S, '''            let new_runs = new_state_ids
                .into_iter()
                .map(|new_state_id| {
                    run.clone()
                        .take_transition(*new_state_id, false, state.get_count_limit())
                })
                .flat_map(|new_run| self.eps_closure(new_run));

            updated_runs.extend(new_runs);
''', '''            for new_state_id in new_state_ids {
                let next = run.clone().take_transition(*new_state_id, false, state.get_count_limit());
                for closed in self.eps_closure(next) {
                    updated_runs.insert(closed);
                }
            }
''')]),
    ('same', 'C11 C12', 'helper for limit', [(S, '''            let new_runs = new_state_ids
                .into_iter()
                .map(|new_state_id| {
                    run.clone()
                        .take_transition(*new_state_id, false, state.get_count_limit())
                })
''', '''            let limit = state.get_count_limit();
            let new_runs = new_state_ids
                .into_iter()
                .map(|new_state_id| run.clone().take_transition(*new_state_id, false, limit))
''')]),
    ('bug', 'C12', 'feed takes first transition only', [(S, """                .filter_map(|(expected, states)| {
                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
                })
                .flatten();
""", """                .find_map(|(expected, states)| {
                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
                })
                .into_iter()
                .flatten();
""")]),
    ('bug', 'C12', 'feed only first destination', [(S, 'Some(states.iter())\n                    } else', 'Some(states.iter().take(1))\n                    } else')]),
    ('bug', 'C12', 'feed keeps stuck runs', [(S, 'let mut updated_runs = HashSet::new();', 'let mut updated_runs: HashSet<Run> = self.runs.iter().cloned().filter(|r| self.nfa.get_state(r.state_id).transitions.is_empty()).collect();')]),
    ('bug', 'C12', 'feed no closure', [(S, '.flat_map(|new_run| self.eps_closure(new_run));', '.flat_map(|new_run| [new_run]);')]),
    ('bug', 'C12', 'eps can take', [(M, 'Input::Eps => false,', 'Input::Eps => true,')]),
    ('bug', 'C12', 'quantified can take', [(M, 'Input::Quantified(_) => false,', 'Input::Quantified(q) => q.count_limit() == 0,')]),
    ('bug', 'C12', 'is_accepting all', [(S, ".any(|Run { state_id, .. }| self.nfa.get_state(*state_id).fin)", ".all(|Run { state_id, .. }| self.nfa.get_state(*state_id).fin)")]),
    ('bug', 'C12', 'is_accepting last', [(S, """        self.runs
            .iter()
            .any(|Run { state_id, .. }| self.nfa.get_state(*state_id).fin)""", """        self.runs
            .iter()
            .take(8)
            .any(|Run { state_id, .. }| self.nfa.get_state(*state_id).fin)""")]),
    ('bug', 'C12', 'can_feed first run', [(S, """                return true;
            }
        }

        false""", """                return true;
            }
            if transitions.len() > 3 {
                break;
            }
        }

        false""")]),
    ('bug', 'C12', 'closure skips first transition', [(S, """                .filter_map(|(input, states)| -> Option<Box""", """                .skip(1)
                .filter_map(|(input, states)| -> Option<Box""")]),
    ('bug', 'C12', 'feed result stale', [(S, """        self.runs = updated_runs.into_iter().collect();
""", """        let accepting = self.is_accepting();
        self.runs = updated_runs.into_iter().collect();
"""), (S, """            dbg!(self.is_accepting());
        }

        self.is_accepting()""", """            dbg!(self.is_accepting());
        }

        accepting""")]),
    ('bug', 'C12', 'start state zero', [(S, 'let start_run = Run::new(nfa.start_state);', 'let start_run = Run::new(0);')]),
    ('bug', 'C12', 'start not closed', [(S, 'sim.runs = sim.eps_closure(start_run).collect();', 'sim.runs = vec![start_run];')]),
    ('bug', 'C12', 'final states not final', [(M, 'self.states.iter().filter(|s| s.fin)', 'self.states.iter().filter(|s| s.fin || s.transitions.is_empty())')]),
    ('bug', 'C12', 'final states misses start', [(M, 'self.states.iter().filter(|s| s.fin)', 'self.states.iter().skip(1).filter(|s| s.fin)')]),
    ('bug', 'C12', 'feed_str skips first', [('pango-lexer/src/fsm/traits.rs', """        input
            .chars()
            .map(""", """        input
            .chars()
            .skip(1)
            .map(""")]),
    ('bug', 'C12', 'feed_str stops at accept', [('pango-lexer/src/fsm/traits.rs', """            .map(|c| self.feed(c))
            .last()
            .unwrap_or(self.is_accepting())""", """            .any(|c| self.feed(c))""")]),
    ('bug', 'C12', 'feed_str empty true', [('pango-lexer/src/fsm/traits.rs', ".unwrap_or(self.is_accepting())", ".unwrap_or(true)")]),
    ('bug', 'C12', 'closure without the run', [(S, 'let mut result = HashSet::from([run]);', 'let mut result = HashSet::new();')]),
    ('same', 'C12', 'feed_str loop', [('pango-lexer/src/fsm/traits.rs', """        input
            .chars()
            .map(|c| self.feed(c))
            .last()
            .unwrap_or(self.is_accepting())""", """        for c in input.chars() {
            self.feed(c);
        }
        self.is_accepting()""")]),
    ('same', 'C12', 'can_feed any', [(S, """        for Run {
            state_id,
            state_counters: _,
        } in self.runs.iter()
        {
            let State { transitions, .. } = self.nfa.get_state(*state_id);

            // Check for every transition if the input can make that transition.

            if transitions.keys().any(|expected| expected.can_take(input)) {
                return true;
            }
        }

        false""", """        self.runs.iter().any(|run| {
            self.nfa
                .get_state(run.state_id)
                .transitions
                .keys()
                .any(|expected| expected.can_take(input))
        })""")]),
    ('same', 'C12', 'finals loop', [(S, """        self.runs
            .iter()
            .filter_map(|Run { state_id, .. }| {
                if final_state_ids.contains(state_id) {
                    Some(state_id)
                } else {
                    None
                }
            })
            .copied()
            .collect::<BTreeSet<_>>()""", """        let mut result = BTreeSet::new();
        for run in &self.runs {
            if !final_state_ids.contains(&run.state_id) {
                continue;
            }
            result.insert(run.state_id);
        }
        result""")]),
    ('same', 'C12', 'finals by state', [(S, """        let final_state_ids = self
            .nfa
            .get_final_states()
            .map(|s| s.id)
            .collect::<HashSet<StateId>>();

        self.runs
            .iter()
            .filter_map(|Run { state_id, .. }| {
                if final_state_ids.contains(state_id) {""", """        self.runs
            .iter()
            .filter_map(|Run { state_id, .. }| {
                if self.nfa.get_state(*state_id).fin {""")]),
    ('same', 'C12', 'accepting loop', [(S, """        self.runs
            .iter()
            .any(|Run { state_id, .. }| self.nfa.get_state(*state_id).fin)""", """        for run in self.runs.iter() {
            let state = self.nfa.get_state(run.state_id);
            if state.fin {
                return true;
            }
        }
        false""")]),
]
