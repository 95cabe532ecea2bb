S = 'pango-lexer/src/fsm/nfa/sim.rs'
M = 'pango-lexer/src/fsm/nfa/model.rs'
G = 'pango-parser/src/grammar.rs'
I = 'pango-parser/src/cfsm/item.rs'
C = 'pango-parser/src/cfsm/mod.rs'
CS = 'pango-parser/src/cfsm/state.rs'
CLO = '''                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                {
                    pending_bodies.push_back(new_item_body);
                }'''
REACH = '''                    if result.insert(*v) {
                        pending_variables.push_back(*v);
                    }
                }
            }
        }

        result
    }
}

mod body_iter'''
EOF_ = '''                            if result.insert(*v) {
                                pending_variables.push_back(*v);
                            }
'''
NONE = '''                        None => {
                            let state = State::new(state_id_generator.next(), item_set);
                            let state_id = state.id;
                            pending_states.push_back(state);
                            state_id
                        }'''
EDITS = [
    ('bug', 'C13', 'closure pushes every run', [(S, '''                if result.insert(new_run.clone()) {
                    not_visited.push_back(new_run);
                }''', '''                result.insert(new_run.clone());
                not_visited.push_back(new_run);''')]),
    ('bug', 'C13', 'closure pushes runs in the same state', [(S, '''                if result.insert(new_run.clone()) {''', '''                if result.insert(new_run.clone()) || new_run.state_id == *state_id {''')]),
    ('same', 'C13', 'closure pushes runs of lower states again', [(S, '''                if result.insert(new_run.clone()) {''', '''                if result.insert(new_run.clone()) || new_run.state_counters.is_empty() || new_run.state_id < *state_id {''')]),
    ('bug', 'C13', 'count without limit', [(S, '*count = (*count + 1).min(count_limit);', '*count += 1;\n            let _ = count_limit;')]),
    ('bug', 'C13', 'limit above every count', [(S, '*count = (*count + 1).min(count_limit);', '*count = (*count + 1).min(count_limit.max(*count + 2));')]),
    ('bug', 'C13', 'limit is unlimited without quantifier', [(M, '''            .max()
            .unwrap_or(0)
    }
}

/// Builder struct for the [`Nfa`].''', '''            .max()
            .filter(|limit| *limit > 0)
            .unwrap_or(usize::MAX)
    }
}

/// Builder struct for the [`Nfa`].''')]),
    ('bug', 'C13', 'item closure pushes items with moved cursor', [(I, '''                    .insert(new_item_body)
                {''', '''                    .insert(new_item_body)
                    || new_item_body.cursor > 0
                {''')]),
    ('bug', 'C13', 'item closure pushes always', [(I, CLO, '''                items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body);
                pending_bodies.push_back(new_item_body);''')]),
    ('bug', 'C13', 'item closure pushes unless new', [(I, CLO, '''                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                    || item_body == new_item_body
                {
                    pending_bodies.push_back(new_item_body);
                }''')]),
    ('bug', 'C13', 'item closure replaces the bodies', [(I, CLO, '''                if items
                    .insert(head, HashSet::from([new_item_body]))
                    .map_or(true, |old| !old.contains(&new_item_body))
                {
                    pending_bodies.push_back(new_item_body);
                }''')]),
    ('bug', 'C13', 'reachable pushes self', [(G, REACH, REACH.replace('if result.insert(*v) {', 'if result.insert(*v) || *v == head {'))]),
    ('bug', 'C13', 'reachable pushes all', [(G, REACH, REACH.replace('if result.insert(*v) {', 'result.insert(*v);\n                    {'))]),
    ('bug', 'C13', 'reachable pushes start', [(G, REACH, REACH.replace('if result.insert(*v) {', 'if *v == self.start_variable || result.insert(*v) {'))]),
    ('bug', 'C13', 'first not marked visited', [(G, '''                                visited_variables.insert(*v);
''', '''                                if Some(*v) != variable {
                                    visited_variables.insert(*v);
                                }
'''), (G, '''        if let Some(variable) = variable {
            visited_variables.insert(variable);
        }
''', '')]),
    ('bug', 'C13', 'first never marks', [(G, '''                                visited_variables.insert(*v);
''', '')]),
    ('bug', 'C13', 'first requeues without growth', [(G, '''                    first_len != entry.len()
''', '''                    first_len <= entry.len()
''')]),
    ('bug', 'C13', 'first requeues when not empty', [(G, '''                    first_len != entry.len()
''', '''                    first_len != entry.len() || entry.len() > 1
''')]),
    ('bug', 'C13', 'first does not go on in the body', [(G, '''                while let Some(symbol) = body.next() {''', '''                while let Some(symbol) = body.peek().copied() {
                    if !matches!(symbol, Symbol::Epsilon) {
                        body.next();
                    }''')]),
    ('bug', 'C13', 'follow requeues without growth', [(G, '''                len != set.len()
''', '''                len != 0 || set.len() != 0
''')]),
    ('bug', 'C13', 'follow requeues equal length', [(G, '''                len != set.len()
''', '''                len == set.len()
''')]),
    ('bug', 'C13', 'follow retries itself', [(G, '''            if let Some(rhs_follow) = result.get(&rhs).cloned() {
''', '''            if lhs == rhs {
                follow_dependencies_queue.push_back((lhs, rhs));
            }
            if let Some(rhs_follow) = result.get(&rhs).cloned() {
''')]),
    ('bug', 'C13', 'eof pushes always', [(G, EOF_, EOF_.replace('if result.insert(*v) {', 'result.insert(*v);\n                            {'))]),
    ('bug', 'C13', 'eof pushes self', [(G, EOF_, EOF_.replace('if result.insert(*v) {', 'if result.insert(*v) || *v == head {'))]),
    ('bug', 'C13', 'machine pushes every successor', [(C, '''                        .find(|s| s.has_item_set(&item_set))
''', '''                        .find(|s| s.has_item_set(&item_set) && s.id > state_id_generator.next())
''')]),
    ('bug', 'C13', 'machine ignores states with a self transition', [(C, '''                        .find(|s| s.has_item_set(&item_set))
''', '''                        .find(|s| s.has_item_set(&item_set) && s.transitions.values().all(|t| *t > s.id))
''')]),
    ('bug', 'C13', 'machine does not keep states with two transitions', [(C, '''            builder.add_state(state);
''', '''            if state.transitions.len() != 2 {
                builder.add_state(state);
            }
''')]),
    # behaviour preserving
    ('same', 'C13', 'closure with contains', [(S, '''                if result.insert(new_run.clone()) {
                    not_visited.push_back(new_run);
                }''', '''                if result.contains(&new_run) {
                    continue;
                }
                not_visited.push_back(new_run.clone());
                result.insert(new_run);''')]),
    ('same', 'C13', 'closure as stack', [(S, 'not_visited.pop_front()', 'not_visited.pop_back()')]),
    ('same', 'C13', 'item closure with contains', [(I, CLO, '''                let bodies = items.entry(head).or_insert_with(ItemBodies::new);
                if !bodies.contains(&new_item_body) {
                    bodies.insert(new_item_body);
                    pending_bodies.push_back(new_item_body);
                }''')]),
    ('same', 'C13', 'item closure loop with break', [(I, '''        while let Some(item_body) = pending_bodies.pop_front() {
            let Some(head) = item_body.get_cursor_variable().copied() else {
                continue;
            };
''', '''        loop {
            let item_body = match pending_bodies.pop_front() {
                Some(item_body) => item_body,
                None => break,
            };
            let head = match item_body.get_cursor_variable() {
                Some(head) => *head,
                None => continue,
            };
''')]),
    ('same', 'C13', 'reachable by fixpoint', [(G, '''        let mut result = HashSet::from([self.start_variable]);
        let mut pending_variables = VecDeque::from([self.start_variable]);

        while let Some(head) = pending_variables.pop_front() {
            for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                if let Symbol::Variable(v) = symbol {
                    if result.insert(*v) {
                        pending_variables.push_back(*v);
                    }
                }
            }
        }

        result
    }
}

mod body_iter''', '''        let mut result = HashSet::from([self.start_variable]);

        loop {
            let size = result.len();
            for head in result.clone() {
                for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                    if let Symbol::Variable(v) = symbol {
                        result.insert(*v);
                    }
                }
            }
            if result.len() == size {
                break;
            }
        }

        result
    }
}

mod body_iter''')]),
    ('same', 'C13', 'reachable by flag', [(G, '''        let mut result = HashSet::from([self.start_variable]);
        let mut pending_variables = VecDeque::from([self.start_variable]);

        while let Some(head) = pending_variables.pop_front() {
            for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                if let Symbol::Variable(v) = symbol {
                    if result.insert(*v) {
                        pending_variables.push_back(*v);
                    }
                }
            }
        }

        result
    }
}

mod body_iter''', '''        let mut result = HashSet::from([self.start_variable]);
        let mut changed = true;

        while changed {
            changed = false;
            for head in result.clone() {
                for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                    if let Symbol::Variable(v) = symbol {
                        changed |= result.insert(*v);
                    }
                }
            }
        }

        result
    }
}

mod body_iter''')]),
    ('same', 'C13', 'visited on pop', [(G, '''        let mut result = HashSet::from([self.start_variable]);
        let mut pending_variables = VecDeque::from([self.start_variable]);

        while let Some(head) = pending_variables.pop_front() {
            for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                if let Symbol::Variable(v) = symbol {
                    if result.insert(*v) {
                        pending_variables.push_back(*v);
                    }
                }
            }
        }

        result
    }
}

mod body_iter''', '''        let mut result = HashSet::new();
        let mut pending_variables = VecDeque::from([self.start_variable]);

        while let Some(head) = pending_variables.pop_front() {
            if !result.insert(head) {
                continue;
            }
            for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                if let Symbol::Variable(v) = symbol {
                    pending_variables.push_back(*v);
                }
            }
        }

        result
    }
}

mod body_iter''')]),
    ('same', 'C13', 'eof with contains', [(G, EOF_, '''                            if !result.contains(v) {
                                result.insert(*v);
                                pending_variables.push_back(*v);
                            }
''')]),
    ('same', 'C13', 'machine finds with position', [(C, '''                        .find(|s| s.has_item_set(&item_set))
''', '''                        .filter(|s| s.has_item_set(&item_set))
                        .next()
''')]),
    ('same', 'C13', 'first checks visited by insert', [(G, '''                            if !visited_variables.contains(v) {
''', '''                            if visited_variables.insert(*v) {
'''), (G, '''                                visited_variables.insert(*v);

                                break;
''', '''                                break;
''')]),
]
