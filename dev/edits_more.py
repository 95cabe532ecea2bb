L, P = 'pango-lexer/src/', 'pango-parser/src/'
LEX, INP, SIM, MOD, COM = L + 'lexer/mod.rs', L + 'lexer/input.rs', L + 'fsm/nfa/sim.rs', L + 'fsm/nfa/model.rs', L + 'fsm/nfa/compiler.rs'
PAR, AST, TOK, PEEK = L + 'regex/parser.rs', L + 'regex/ast.rs', L + 'regex/tokenizer.rs', L + 'iter/peekable.rs'
GR, IT, CF, ST, SLR, TAB = P + 'grammar.rs', P + 'cfsm/item.rs', P + 'cfsm/mod.rs', P + 'cfsm/state.rs', P + 'parser/slr.rs', P + 'parser/table.rs'

EDITS = [
    # lexing
    ('bug', 'C02', 'stops when two tokens in a row end', [(LEX, '            if sim.feed(ch) {\n', '            let before = sim.is_accepting();\n            if sim.feed(ch) {\n'),
        (LEX, '                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),\n                    },\n                );\n', '                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),\n                    },\n                );\n                if before && sim.get_current_final_states().len() > 1 {\n                    break;\n                }\n')]),
    ('bug', 'C03', 'kind only replaced by a smaller final state', [(LEX, '        let mut token_kind = None;\n', '        let mut token_kind = None;\n        let mut best = usize::MAX;\n'),
        (LEX, '                token_kind = Some(\n', '                if final_state > best {\n                    continue;\n                }\n                best = final_state;\n                token_kind = Some(\n')]),
    ('bug', 'C03', 'nearest registered state below', [(LEX, '.get_mut(&final_state)\n', '.range_mut(..final_state).map(|(_, g)| g).next_back()\n')]),
    ('bug', 'C04', 'given back only when something is left', [(LEX, '                self.iter.unread_suffix();\n                None', '                if !self.iter.is_empty() {\n                    self.iter.unread_suffix();\n                }\n                None')]),
    ('bug', 'C01', 'positions by bytes of the last character', [(INP, '                    last_pos = pos;\n', '                    last_pos = pos + ch.len_utf8() - 1;\n')]),
    ('bug', 'C01', 'carriage returns dropped', [(INP, '            .map(|(pos, ch)| {\n                self.token_suffix.push((pos, ch));\n                ch\n', "            .map(|(pos, ch)| {\n                if ch != '\\r' {\n                    self.token_suffix.push((pos, ch));\n                }\n                ch\n")]),
    ('bug', 'C01', 'token starts after its first gap', [(INP, 'pos: (self.current_token.pos.1, 0),', 'pos: (self.prev_characters_iter.as_slice().last().map_or(self.current_token.pos.1, |(p, _)| *p), 0),')]),
    # counting
    ('bug', 'C11', 'counts self loops only', [(SIM, '        } else {\n            *count = (*count + 1)', '        } else if new_state_id == self.state_id {\n            *count = (*count + 1)')]),
    ('bug', 'C11', 'count wraps at its limit', [(SIM, '(*count + 1).min(count_limit)', '(*count + 1) % (count_limit + 1)')]),
    ('bug', 'C11', 'inner counters dropped', [(SIM, '        self.state_id = new_state_id;\n', '        if new_state_id < self.state_id {\n            self.state_counters.retain(|id, _| *id <= new_state_id);\n        }\n        self.state_id = new_state_id;\n')]),
    ('bug', 'C11', 'counter removed instead of zero but others too', [(SIM, '            *count = 0;\n', '            *count = 0;\n            self.state_counters.remove(&new_state_id);\n')]),
    ('bug', 'C11', 'limit halves large counts', [(TOK, ') => (*max as usize).saturating_add(1),', ') => (*max as u16 as usize).saturating_add(1),')]),
    ('bug', 'C11', 'minimum above thousand', [(TOK, 'QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,', 'QuantifierKind::Range(QuantifierRangeKind::Min(min)) => (*min as usize).min(1000),')]),
    ('bug', 'C11', 'range satisfied when reversed', [(TOK, 'count >= *min as usize && count <= *max as usize', 'count >= (*min).min(*max) as usize && count <= *max.max(min) as usize')]),
    # steps
    ('bug', 'C12', 'one run per state', [(SIM, '        self.runs = updated_runs.into_iter().collect();', '        let mut seen = HashSet::new();\n        self.runs = updated_runs.into_iter().filter(|r: &Run| seen.insert(r.state_id)).collect();')]),
    ('bug', 'C12', 'at most a hundred runs', [(SIM, '        self.runs = updated_runs.into_iter().collect();', '        self.runs = updated_runs.into_iter().take(100).collect();')]),
    ('bug', 'C12', 'stuck feeding keeps the runs', [(SIM, '        self.runs = updated_runs.into_iter().collect();', '        if !updated_runs.is_empty() {\n            self.runs = updated_runs.into_iter().collect();\n        }')]),
    ('bug', 'C12', 'closure stops at final states', [(SIM, '            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);\n\n            let transitions_taken', '            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);\n            if state.fin {\n                continue;\n            }\n\n            let transitions_taken')]),
    ('bug', 'C12', 'final states of the first accepting run', [(SIM, '            .copied()\n            .collect::<BTreeSet<_>>()', '            .take(1)\n            .copied()\n            .collect::<BTreeSet<_>>()')]),
    ('bug', 'C12', 'can feed ascii only when many runs', [(SIM, '                return true;\n', '                return self.runs.len() < 256 || input.is_ascii();\n')]),
    # automata
    ('bug', 'C10', 'optional groups skip their counter', [(COM, 'self.expr(expr, start, end);\n            }\n        }', 'self.expr(expr, start, end);\n                if matches!(quantifier, Some(QuantifierKind::Plus)) {\n                    self.nfa.add_transition(start, end, Input::Eps);\n                }\n            }\n        }')]),
    ('bug', 'C10', 'alternatives of literals merged', [(COM, 'self.expr(lhs, start, end);\n                self.expr(rhs, start, end);', 'self.expr(lhs, start, end);\n                if !matches!((&**lhs, &**rhs), (ExprKind::Group(..), ExprKind::Group(..))) {\n                    self.expr(rhs, start, end);\n                }')]),
    ('bug', 'C10', 'transition only for new labels', [(MOD, '            .entry(input)\n            .or_insert(HashSet::new())\n            .insert(end);', '            .entry(input)\n            .or_insert_with(|| HashSet::from([end]));')]),
    ('bug', 'C10', 'self transitions are left out', [(MOD, '        self.get_state_mut(start)\n            .transitions\n            .entry(input)\n            .or_insert(', '        if start == end && matches!(input, Input::Literal(ast::LiteralKind::Class(_))) {\n            return;\n        }\n        self.get_state_mut(start)\n            .transitions\n            .entry(input)\n            .or_insert(')]),
    ('bug', 'C25', 'duplicate final states merged', [(MOD, '        Nfa {\n            start_state: self.start_state,\n            states: self.states,', '        let mut states = self.states;\n        states.dedup_by(|a, b| a.fin && b.fin && a.transitions.is_empty() && b.transitions.is_empty());\n        Nfa {\n            start_state: self.start_state,\n            states,')]),
    # regexes
    ('bug', 'C09', 'nested alternation loses its group', [(PAR, 'Ok(ast::ExprKind::Group(Box::new(expr), quantifier))', 'Ok(match (expr, quantifier) {\n            (ast::ExprKind::Group(inner, Some(_)), Some(q)) => ast::ExprKind::Group(inner, Some(q)),\n            (expr, quantifier) => ast::ExprKind::Group(Box::new(expr), quantifier),\n        })')]),
    ('bug', 'C09', 'equal neighbours collapse', [(PAR, '        Ok(literals)\n    }\n\n    /// Rule: `sub_expression_item', '        literals.dedup_by(|a, b| matches!((a, b), (ast::ExprKind::Lit(x, None), ast::ExprKind::Lit(y, Some(_))) if x == y));\n        Ok(literals)\n    }\n\n    /// Rule: `sub_expression_item')]),
    ('bug', 'C05', 'closing bracket after minus', [(PAR, '                            _ => {\n                                return Err(W(vec![ParseError {\n                                    kind: ParseErrorKind::Match,', '                            Some(Token {\n                                pos: _,\n                                kind: Class(_),\n                            }) => ast::GroupedLiteralKind::Match(start),\n                            _ => {\n                                return Err(W(vec![ParseError {\n                                    kind: ParseErrorKind::Match,')]),
    ('bug', 'C05', 'reversed ranges are refused', [(PAR, 'kind: Match(end),\n                            }) => ast', 'kind: Match(end),\n                            }) if start <= end => ast')]),
    ('bug', 'C08', 'case folding ranges', [(AST, '(begin..=end).contains(&c)', '(begin..=end).contains(&c) || (begin..=end).contains(&c.to_ascii_lowercase()) && begin > end')]),
    ('bug', 'C08', 'big ranges by ascii', [(AST, '(begin..=end).contains(&c)', "if begin == '\\0' { c.is_ascii() && c <= end } else { (begin..=end).contains(&c) }")]),
    ('bug', 'C14', 'position of the last error', [(PAR, '            ) => (end_cursor_pos - 1, end_cursor_pos),', '            ) => (end_cursor_pos.saturating_sub(2), end_cursor_pos - 1),')]),
    # grammars
    ('bug', 'C16', 'single symbol rules to themselves dropped', [(GR, '        self.rules\n            .entry(variable)\n            .or_insert_with(HashSet::new)\n            .insert(body)', '        if matches!(body.first(), Some(Symbol::Variable(v)) if *v == variable) && body.len() == 1 {\n            return false;\n        }\n        self.rules\n            .entry(variable)\n            .or_insert_with(HashSet::new)\n            .insert(body)')]),
    ('bug', 'C16', 'trailing epsilon removed', [(GR, '        let body = body.into();\n', '        let mut body: Body<V, T> = body.into();\n        if body.len() > 1 && body.last() == Some(&Symbol::Epsilon) {\n            body.pop();\n        }\n')]),
    ('bug', 'C16', 'start variable need not have rules', [(GR, '        variables.insert(&start_variable);\n', '        if heads.is_empty() {\n            variables.insert(&start_variable);\n        }\n')]),
    ('bug', 'C17', 'visited variables shared with result', [(GR, '                            if !first_v_contains_eps {\n', '                            if !first_v_contains_eps || last_symbol_in_body && variable == Some(*v) || body.size_hint().0 > 4 {\n')]),
    ('bug', 'C18', 'long rules read their first five symbols', [(GR, 'let mut iter = body.iter().peekable();', 'let mut iter = body[..body.len().min(5)].iter().peekable();')]),
    ('bug', 'C18', 'reachability through the first variable', [(GR, 'let first = self.first_body(None, iter.clone());', 'let first = self.first_body(Some(head), iter.clone());')]),
    ('bug', 'C18', 'eof not through two nullable variables', [(GR, '                for symbol in body.iter().rev() {', '                for symbol in body.iter().rev().take(2) {')]),
    # machine, table and parser
    ('bug', 'C13', 'only states without transitions are found again', [(CF, '.find(|s| s.has_item_set(&item_set))', '.find(|s| s.id != start_state_id && s.transitions.is_empty() && s.has_item_set(&item_set))')]),
    ('bug', 'C19', 'transitions merged per variable', [(CF, '                transitions.insert(symbol.into(), new_state_id);', '                transitions.entry(symbol.into()).and_modify(|d| *d = (*d).min(new_state_id)).or_insert(new_state_id + usize::from(new_state_id == start_state_id));')]),
    ('bug', 'C20', 'reduce for variables with an empty follow', [(TAB, 'if followed_by_eof.contains(&head) {', 'if followed_by_eof.contains(&head) || !follow_set.contains_key(&head) {')]),
    ('bug', 'C20', 'accept of empty start reduces', [(TAB, 'let eof_action = if head == grammar.get_start_variable() {', 'let eof_action = if head == grammar.get_start_variable() && (amount > 0 || action.len() > 1) {')]),
    ('bug', 'C20', 'shift over reduce of long bodies', [(TAB, 'Entry::Occupied(entry) if *entry.get() != action => Err(()),', 'Entry::Occupied(entry) if matches!((entry.get(), &action), (ActionKind::Shift { .. }, ActionKind::Reduce { amount, .. }) if *amount > 3) => Ok(()),\n            Entry::Occupied(entry) if *entry.get() != action => Err(()),')]),
    ('bug', 'C21', 'nodes of empty variables share children', [(SLR, '                    .rev()\n                    .collect();', '                    .rev()\n                    .filter(|n| !n.children.is_empty() || amount != &3)\n                    .collect();')]),
    ('bug', 'C22', 'deep stacks panic', [(SLR, '        let mut accept = false;\n', '        let mut accept = false;\n        assert!(stack.len() < 4096, "stack too deep");\n')]),
]
EDITS += [
    ('same', 'C01 C02 C03 C04', 'input without a suffix vector', [(INP, '''        self.prev_characters_iter
            .next()
            .or_else(|| self.iter.next())
            .map(|(pos, ch)| {
                self.token_suffix.push((pos, ch));
                ch
            })
''', '''        let item = match self.prev_characters_iter.next() {
            Some(item) => item,
            None => self.iter.next()?,
        };
        self.token_suffix.push(item);
        Some(item.1)
''')]),
    ('same', 'C01 C02 C03 C04', 'accept by a loop', [(INP, '''        let mut last_pos = 0;

        self.current_token.source.push_str(
            &std::mem::take(&mut self.token_suffix)
                .into_iter()
                .map(|(pos, ch)| {
                    last_pos = pos;
                    ch
                })
                .collect::<String>(),
        );
''', '''        let last_pos = self.token_suffix.last().map_or(0, |(pos, _)| *pos);

        for (_, ch) in self.token_suffix.drain(..) {
            self.current_token.source.push(ch);
        }
''')]),
    ('same', 'C01 C02 C03 C04', 'kind by a helper of the generator', [(LEX, '''                    match self
                        .tokens
                        .get_mut(&final_state)
                        .expect("final state should match a single token")
                    {
                        TokenKindGenerator::Map(token_kind_gen) => {
                            token_kind_gen(&self.iter.get_token().source)
                        }

                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
                    },
''', '''                    self.tokens
                        .get_mut(&final_state)
                        .expect("final state should match a single token")
                        .generate(&self.iter.get_token().source),
'''), (LEX, '''/// [`Token`] returned by the [`Lexer`].
''', '''impl<TokenKind> TokenKindGenerator<TokenKind> {
    fn generate(&mut self, source: &str) -> TokenKind {
        match self {
            Self::Map(f) => f(source),
            Self::Unit(f) => f(),
        }
    }
}

/// [`Token`] returned by the [`Lexer`].
''')]),
    ('same', 'C02 C03', 'final state as minimum', [(LEX, '''                    .into_iter()
                    .next()
                    .expect("expected a single final state");
''', '''                    .into_iter()
                    .min()
                    .expect("expected a single final state");
''')]),
    ('same', 'C11 C12 C13', 'transition by cases', [(SIM, '''        let count = self.state_counters.entry(self.state_id).or_insert(0);
        if quantified {
            // Reset the state count if quantified transition is used
            *count = 0;
        } else {
            *count = (*count + 1).min(count_limit);
        }
''', '''        let old = self.state_counters.get(&self.state_id).copied().unwrap_or_default();
        let new = match quantified {
            true => 0,
            false if old < count_limit => old + 1,
            false => count_limit,
        };
        self.state_counters.insert(self.state_id, new);
''')]),
    ('same', 'C11 C12 C13', 'closure by a stack', [(SIM, 'let mut not_visited = VecDeque::from([run.clone()]);', 'let mut not_visited = vec![run.clone()];'), (SIM, 'not_visited.pop_front()', 'not_visited.pop()'), (SIM, 'not_visited.push_back(new_run)', 'not_visited.push(new_run)'), (SIM, 'collections::{BTreeSet, HashSet, VecDeque},', 'collections::{BTreeSet, HashSet},')]),
    ('same', 'C11 C12 C13', 'closure looks before it inserts', [(SIM, '''                if result.insert(new_run.clone()) {
                    not_visited.push_back(new_run);
                }
''', '''                if result.contains(&new_run) {
                    continue;
                }
                not_visited.push_back(new_run.clone());
                result.insert(new_run);
''')]),
    ('same', 'C11 C12', 'feed with nested loops', [(SIM, '''            let new_state_ids = transitions
                .iter()
                .filter_map(|(expected, states)| {
                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
                })
                .flatten();
''', ''), (SIM, '''            let new_runs = new_state_ids
                .into_iter()
                .map(|new_state_id| {
                    run.clone()
                        .take_transition(*new_state_id, false, state.get_count_limit())
                })
                .flat_map(|new_run| self.eps_closure(new_run));

            updated_runs.extend(new_runs);
''', '''            let limit = state.get_count_limit();
            for (expected, destinations) in transitions {
                if !expected.can_take(input) {
                    continue;
                }
                for destination in destinations {
                    let moved = run.clone().take_transition(*destination, false, limit);
                    for closed in self.eps_closure(moved) {
                        updated_runs.insert(closed);
                    }
                }
            }
''')]),
    ('same', 'C12', 'final states by lookup', [(SIM, '''        let final_state_ids = self
            .nfa
            .get_final_states()
            .map(|s| s.id)
            .collect::<HashSet<StateId>>();

        self.runs
            .iter()
            .filter_map(|Run { state_id, .. }| {
                if final_state_ids.contains(state_id) {
                    Some(state_id)
                } else {
                    None
                }
            })
            .copied()
            .collect::<BTreeSet<_>>()
''', '''        let mut result = BTreeSet::new();
        for Run { state_id, .. } in &self.runs {
            if self.nfa.get_state(*state_id).fin {
                result.insert(*state_id);
            }
        }
        result
''')]),
    ('same', 'C10 C25', 'quantifier state from the public parts', [(MOD, '''        let id = self.new_state_id();
        self.states.push(State::with_id(id, fin));
        self.get_state_mut(id)
            .transitions
            .entry(Input::Quantified(quantifier))
            .or_insert_with(HashSet::new)
            .insert(quantifier_done);

        id
''', '''        let id = self.add_state(fin);
        self.add_transition(id, quantifier_done, Input::Quantified(quantifier));
        id
''')]),
    ('same', 'C10 C25 C12', 'states by index', [(MOD, '''        self.states
            .iter_mut()
            .find(|State { id, .. }| *id == state_id)
            .expect("state does not exist")
''', '''        self.states.get_mut(state_id).expect("state does not exist")
''')]),
    ('same', 'C10 C25', 'sequence split at its end', [(COM, '''                let mut current_state = start;

                for expr in exprs.iter().take(exprs.len() - 1) {
                    let new_state = self.nfa.add_state(false);
                    self.expr(expr, current_state, new_state);
                    current_state = new_state;
                }

                self.expr(
                    exprs.last().expect(
                        "expected at least one expressions in a concatenation of expressions",
                    ),
                    current_state,
                    end,
                )
''', '''                let (last, firsts) = exprs.split_last().expect(
                    "expected at least one expressions in a concatenation of expressions",
                );
                let mut current_state = start;
                for expr in firsts {
                    let new_state = self.nfa.add_state(false);
                    self.expr(expr, current_state, new_state);
                    current_state = new_state;
                }
                self.expr(last, current_state, end)
''')]),
    ('same', 'C05 C09 C14', 'quantifier helper', [(PAR, '''        // QUANTIFIER
        let quantifier = match self.tokens.peek().copied() {
            Some(Token {
                pos: _,
                kind: TokenKind::Quantifier(quant_kind),
            }) => {
                self.tokens.next();
                Some(quant_kind)
            }
            _ => None,
        };

        Ok(ast::ExprKind::Group(''', '''        let quantifier = self.quantifier();

        Ok(ast::ExprKind::Group('''), (PAR, '''        let literal = self.match_item()?;

        let quantifier = match self.tokens.peek().copied() {
            Some(Token {
                pos: _,
                kind: TokenKind::Quantifier(quant_kind),
            }) => {
                self.tokens.next();
                Some(quant_kind)
            }
            _ => None,
        };

        Ok(ast::ExprKind::Lit(literal, quantifier))
    }
''', '''        self.match_item().map(|literal| ast::ExprKind::Lit(literal, self.quantifier()))
    }

    fn quantifier(&mut self) -> Option<super::tokenizer::QuantifierKind> {
        if let Some(Token { kind: TokenKind::Quantifier(kind), .. }) = self.tokens.peek().copied() {
            self.tokens.next();
            return Some(kind);
        }
        None
    }
''')]),
    ('same', 'C05 C09 C14', 'expression by a loop over alternatives', [(PAR, '''        match self.tokens.peek() {
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Vertical),
            }) => {
                self.tokens.next();
                Ok(ast::ExprKind::Alt(
                    Box::new(lhs),
                    Box::new(self.expression()?),
                ))
            }
            _ => Ok(lhs),
        }
''', '''        if !matches!(self.tokens.peek(), Some(Token { kind: TokenKind::Operator(OperatorKind::Vertical), .. })) {
            return Ok(lhs);
        }
        self.tokens.next();
        let rhs = self.expression()?;
        Ok(ast::ExprKind::Alt(Box::new(lhs), Box::new(rhs)))
''')]),
    ('same', 'C08', 'range by comparisons', [(AST, '(begin..=end).contains(&c)', '!(c < begin || end < c)')]),
    ('same', 'C08', 'group by a loop', [(AST, 'self.0.iter().any(|l| l.contains(c))', '{\n            for l in &self.0 {\n                if l.contains(c) {\n                    return true;\n                }\n            }\n            false\n        }')]),
    ('same', 'C16', 'build by counting', [(GR, '''        for (head, bodies) in self.rules.iter() {
            heads.insert(head);

            variables.extend(
                bodies
                    .iter()
                    .flat_map(|body| body.iter())
                    .filter_map(|symbol| match symbol {
                        Symbol::Variable(v) => Some(v),
                        Symbol::Terminal(_) | Symbol::Epsilon => None,
                    }),
            )
        }
''', '''        for (head, bodies) in &self.rules {
            heads.insert(head);
            for symbol in bodies.iter().flatten() {
                if let Symbol::Variable(v) = symbol {
                    variables.insert(v);
                }
            }
        }
''')]),
    ('same', 'C16', 'checked without sets', [(GR, '''        assert!(
            variables.is_subset(&heads),
            "all variables should have a rule associated with them",
        );
''', '''        for variable in &variables {
            assert!(heads.contains(variable), "all variables should have a rule associated with them");
        }
''')]),
    ('same', 'C18 C13', 'eof through a stack', [(GR, '''        let mut pending_variables = VecDeque::from([self.start_variable]);

        while let Some(head) = pending_variables.pop_front() {
            for body in self.get_rule_bodies(head).into_iter().flatten() {
                for symbol''', '''        let mut pending_variables = vec![self.start_variable];

        while let Some(head) = pending_variables.pop() {
            for body in self.get_rule_bodies(head).into_iter().flatten() {
                for symbol'''), (GR, '''                            if result.insert(*v) {
                                pending_variables.push_back(*v);
                            }

                            if !self.first''', '''                            if result.insert(*v) {
                                pending_variables.push(*v);
                            }

                            if !self.first''')]),
    ('same', 'C18 C13', 'follow set with a helper for dependencies', [(GR, '''                        if first.contains(&Symbol::Epsilon) {
                            // keep track of the dependency
                            follow_dependencies
                                .entry(head)
                                .or_default()
                                .insert(variable);
                        }

                        entry
                            .or_default()
                            .extend(first.into_iter().filter(|s| !matches!(s, Symbol::Epsilon)))
''', '''                        let set = entry.or_default();
                        for symbol in first {
                            if let Symbol::Epsilon = symbol {
                                follow_dependencies.entry(head).or_default().insert(variable);
                            } else {
                                set.insert(symbol);
                            }
                        }
''')]),
    ('same', 'C19 C13 C25', 'new states through unwrap_or_else', [(CF, '''                    match builder
                        .get_states_mut()
                        .iter()
                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,
                        None => {
                            let state = State::new(state_id_generator.next(), item_set);
                            let state_id = state.id;
                            pending_states.push_back(state);
                            state_id
                        }
                    }
''', '''                    let known = builder
                        .get_states_mut()
                        .iter()
                        .find(|s| s.has_item_set(&item_set))
                        .map(|s| s.id);
                    if let Some(id) = known {
                        id
                    } else {
                        let id = state_id_generator.next();
                        pending_states.push_back(State::new(id, item_set));
                        id
                    }
''')]),
    ('same', 'C19 C13', 'item closure by extension', [(IT, '''            for new_item_body in new_item_bodies {
                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                {
                    pending_bodies.push_back(new_item_body);
                }
            }
''', '''            let known = items.entry(head).or_default();
            for new_item_body in new_item_bodies {
                if known.insert(new_item_body) {
                    pending_bodies.push_back(new_item_body);
                }
            }
''')]),
    ('same', 'C20 C22', 'actions by if let', [(TAB, '''        match state.entry(terminal) {
            Entry::Occupied(entry) if *entry.get() != action => Err(()),
            // multiple items can lead to the same action
            Entry::Occupied(_) => Ok(()),
            Entry::Vacant(entry) => {
                entry.insert(action);
                Ok(())
            }
        }
''', '''        if let Some(known) = state.get(&terminal) {
            return if *known == action { Ok(()) } else { Err(()) };
        }
        state.insert(terminal, action);
        Ok(())
'''), (TAB, 'collections::{hash_map::Entry, HashMap}', 'collections::HashMap')]),
    ('same', 'C20 C22', 'eof action first', [(TAB, '''                            // reduce to the start variable on a lookahead of eof, then accept
                            // if it spans the whole input
                            let eof_action = if head == grammar.get_start_variable() {
                                ActionKind::Accept { variable, amount }
                            } else {
                                ActionKind::Reduce { variable, amount }
                            };
''', '''                            let start = grammar.get_start_variable();
                            let eof_action = match head {
                                v if v == start => ActionKind::Accept { variable, amount },
                                _ => ActionKind::Reduce { variable, amount },
                            };
''')]),
    ('same', 'C21 C22', 'children by split off', [(SLR, '''                let children = stack
                    .drain((stack.len() - amount)..)
                    .map(|parse_node| parse_node.node)
                    .rev()
                    .collect();
''', '''                let mut children: Vec<_> = stack
                    .split_off(stack.len() - amount)
                    .into_iter()
                    .map(|parse_node| parse_node.node)
                    .collect();
                children.reverse();
''')]),
    ('same', 'C21 C22', 'children popped', [(SLR, '''                let children = stack
                    .drain((stack.len() - amount)..)
                    .map(|parse_node| parse_node.node)
                    .rev()
                    .collect();
''', '''                let mut children = Vec::with_capacity(*amount);
                for _ in 0..*amount {
                    children.push(stack.pop().expect("a reduction has its symbols on the stack").node);
                }
''')]),
]
EDITS += [
    ('same', 'C11 C12 C13', 'then instead of if', [(SIM, '''                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
''', '''                    expected.can_take(input).then(|| states.iter())
'''), (SIM, '''                if final_state_ids.contains(state_id) {
                    Some(state_id)
                } else {
                    None
                }
''', '''                final_state_ids.contains(state_id).then_some(state_id)
''')]),
    ('bug', 'C12', 'then inverted', [(SIM, '''                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
''', '''                    (states.len() > 1 || expected.can_take(input)).then(|| states.iter())
''')]),
    ('bug', 'C21', 'children by split off in order', [(SLR, '''                let children = stack
                    .drain((stack.len() - amount)..)
                    .map(|parse_node| parse_node.node)
                    .rev()
                    .collect();
''', '''                let mut children: Vec<_> = stack
                    .split_off(stack.len() - amount)
                    .into_iter()
                    .map(|parse_node| parse_node.node)
                    .collect();
                if children.len() != 2 {
                    children.reverse();
                }
''')]),
    ('same', 'C02 C03', 'first final state popped', [(LEX, '''                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .next()
''', '''                let final_state = sim
                    .get_current_final_states()
                    .pop_first()
''')]),
    ('bug', 'C03', 'last final state popped', [(LEX, '''                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .next()
''', '''                let final_state = sim
                    .get_current_final_states()
                    .pop_last()
''')]),
    ('bug', 'C03', 'last final state from the back', [(LEX, '''                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .next()
''', '''                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .next_back()
''')]),
]
CHECK = '''        assert!(
            variables.is_subset(&heads),
            "all variables should have a rule associated with them",
        );
'''
EDITS += [
    ('bug', 'C16', 'checked without sets, only two', [(GR, CHECK, '''        for variable in variables.iter().take(heads.len()) {
            assert!(heads.contains(variable), "all variables should have a rule associated with them");
        }
''')]),
    ('bug', 'C16', 'checked until the first known', [(GR, CHECK, '''        for variable in &variables {
            assert!(heads.contains(variable), "all variables should have a rule associated with them");
            if **variable == start_variable {
                break;
            }
        }
''')]),
    ('same', 'C16', 'checked with all', [(GR, CHECK, '''        assert!(
            variables.iter().all(|v| self.rules.contains_key(*v)),
            "all variables should have a rule associated with them",
        );
''')]),
    ('same', 'C16', 'checked with difference', [(GR, CHECK, '''        if variables.difference(&heads).next().is_some() {
            panic!("all variables should have a rule associated with them");
        }
''')]),
    ('same', 'C16', 'checked by count', [(GR, CHECK, '''        let missing = variables.iter().filter(|v| !heads.contains(*v)).count();
        assert_eq!(missing, 0, "all variables should have a rule associated with them");
''')]),
]
