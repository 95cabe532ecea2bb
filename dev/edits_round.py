L, P = 'pango-lexer/src/', 'pango-parser/src/'
TOK, COM, PAR, CFSM = L + 'regex/tokenizer.rs', L + 'fsm/nfa/compiler.rs', L + 'regex/parser.rs', P + 'cfsm/mod.rs'
STATE = P + 'cfsm/state.rs'
NEXT = '''        match self.iter.next() {
            Some((start_cursor_pos, ch)) => {
                let token_kind = match ch {
                    '\\\\' => self.handle_class_or_escape_sequence(),
                    '.' => TokenKind::Class(ClassKind::Wildcard),
                    '[' | ']' | '(' | ')' | '^' | '|' | '-' => self.handle_operators(ch),
                    '*' | '+' | '?' | '{' => self.handle_quantifier(ch),

                    a => TokenKind::Match(a),
                };

                Some(Token::new(
                    token_kind,
                    (start_cursor_pos, self.get_token_end_cursor_pos()),
                ))
            }
            None => None,
        }
'''
NEXT2 = '''        let (start, ch) = self.iter.next()?;
        let kind = if "[]()^|-".contains(ch) {
            self.handle_operators(ch)
        } else if ['*', '+', '?', '{'].contains(&ch) {
            self.handle_quantifier(ch)
        } else if ch == '\\\\' {
            self.handle_class_or_escape_sequence()
        } else if ch == '.' {
            TokenKind::Class(ClassKind::Wildcard)
        } else {
            TokenKind::Match(ch)
        };
        let end = self.get_token_end_cursor_pos();

        Some(Token { kind, pos: (start, end) })
'''
RANGE = '''                let range_kind = match ch {
                    '}' => {
                        let Some(first_value) = first_value else {
                            return TokenKind::Invalid;
                        };
                        if !comma_found {
                            QuantifierRangeKind::Max(first_value)
                        } else {
                            QuantifierRangeKind::Min(first_value)
                        }
                    }
                    '0'..='9' => {
                        let second_value = self.take_next_decimals_and_convert_to_u32(Some(
                            ch.to_digit(10)
                                .expect("failed to convert character to ascii digit"),
                        ));

                        let Some((_, ch)) = self.iter.next() else {
                            return TokenKind::Invalid;
                        };

                        if ch != '}' {
                            return TokenKind::Invalid;
                        } else {
                            let (Some(min_value), Some(max_value)) = (first_value, second_value)
                            else {
                                return TokenKind::Invalid;
                            };

                            QuantifierRangeKind::Range(min_value, max_value)
                        }
                    }

                    _ => return TokenKind::Invalid,
                };

                QuantifierKind::Range(range_kind)
'''
RANGE2 = '''                let second_value = match ch.to_digit(10) {
                    None => None,
                    Some(digit) => {
                        let value = self.take_next_decimals_and_convert_to_u32(Some(digit));
                        match self.iter.next() {
                            Some((_, last)) => ch = last,
                            None => return TokenKind::Invalid,
                        }
                        Some(value)
                    }
                };
                if ch != '}' {
                    return TokenKind::Invalid;
                }
                match (first_value, comma_found, second_value) {
                    (Some(max), false, None) => QuantifierKind::Range(QuantifierRangeKind::Max(max)),
                    (Some(min), true, None) => QuantifierKind::Range(QuantifierRangeKind::Min(min)),
                    (Some(min), _, Some(Some(max))) => {
                        QuantifierKind::Range(QuantifierRangeKind::Range(min, max))
                    }
                    _ => return TokenKind::Invalid,
                }
'''
QUANT = '''                let (start, end) = match quantifier {
                    Some(quantifier) => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, quantifier_state)
                    }
                    None => (start, end),
                };

                self.expr(expr, start, end);
'''
CONC = '''                let mut current_state = start;

                for expr in exprs.iter().take(exprs.len() - 1) {
                    let new_state = self.nfa.add_state(false);
                    self.expr(expr, current_state, new_state);
                    current_state = new_state;
                }

                self.expr(
                    exprs.last().expect(
                        "expected at least one expressions in a concatenation of expressions",
                    ),
                    current_state,
                    end,
                )
'''
CONC2 = '''                let mut from = start;
                let mut rest = exprs.iter().peekable();
                while let Some(part) = rest.next() {
                    let to = if rest.peek().is_some() {
                        self.nfa.add_state(false)
                    } else {
                        end
                    };
                    self.expr(part, from, to);
                    from = to;
                }
'''
CONC3 = '''                let amount = exprs.len();
                let mut from = start;
                for (i, part) in exprs.iter().enumerate() {
                    let to = match i + 1 == amount {
                        true => end,
                        false => self.nfa.add_state(false),
                    };
                    self.expr(part, from, to);
                    from = to;
                }
'''
SUB = '''        let mut literals = Vec::new();
        while !matches!(
            self.tokens.peek(),
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Vertical)
                    | TokenKind::Operator(OperatorKind::RightParen)
            }) | None
        ) {
            literals.push(self.sub_expression_item()?);
        }
'''
SUB2 = '''        let mut literals = Vec::new();
        loop {
            let Some(token) = self.tokens.peek() else { break };
            match token.kind {
                TokenKind::Operator(op)
                    if op == OperatorKind::Vertical || op == OperatorKind::RightParen =>
                {
                    break
                }
                _ => (),
            }
            let item = self.sub_expression_item()?;
            literals.push(item);
        }
'''
SUB3 = '''        const ENDS: [TokenKind; 2] = [
            TokenKind::Operator(OperatorKind::Vertical),
            TokenKind::Operator(OperatorKind::RightParen),
        ];
        let mut literals = Vec::new();
        while self.tokens.peek().is_some_and(|token| !ENDS.contains(&token.kind)) {
            literals.push(self.sub_expression_item()?);
        }
'''
SUB3 = SUB3.replace('const ENDS: [TokenKind; 2] =', 'let ends =').replace('ENDS', 'ends')
SUB4 = '''        let mut literals = Vec::new();
        while let Some(token) = self.tokens.peek() {
            if let TokenKind::Operator(op) = token.kind {
                if [OperatorKind::Vertical, OperatorKind::RightParen].contains(&op) {
                    break;
                }
            }
            literals.push(self.sub_expression_item()?);
        }
'''
SETS = '''                let new_state_id = {
                    match builder
                        .get_states_mut()
                        .iter()
                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,
                        None => {
                            let state = State::new(state_id_generator.next(), item_set);
                            let state_id = state.id;
                            pending_states.push_back(state);
                            state_id
                        }
                    }
                };
'''
SETS2 = '''                let mut known = None;
                for other in builder.get_states_mut().iter() {
                    if other.has_item_set(&item_set) {
                        known = Some(other.id);
                        break;
                    }
                }
                let new_state_id = if let Some(id) = known {
                    id
                } else {
                    let id = state_id_generator.next();
                    pending_states.push_back(State::new(id, item_set));
                    id
                };
'''
ADV = '''                let new_item_set = item_set
                    .into_iter()
                    .map(|(head, item_bodies)| {
                        let new_item_bodies = item_bodies
                            .into_iter()
                            .copied()
                            .map(ItemBody::advance)
                            .collect::<HashSet<_>>();
                        (head, new_item_bodies)
                    })
                    .collect::<HashMap<_, _>>();
'''
ADV2 = '''                let mut new_item_set = HashMap::new();
                for (head, item_bodies) in item_set {
                    let mut advanced = HashSet::with_capacity(item_bodies.len());
                    for body in item_bodies {
                        advanced.insert(body.advance());
                    }
                    new_item_set.insert(head, advanced);
                }
'''
IDS = '''        let (state_ids, mut destination_ids) = self.get_states_mut().iter().fold(
            (HashSet::new(), HashSet::new()),
            |(mut state_ids, mut destination_ids),
             State {
                 id, transitions, ..
             }| {
                state_ids.insert(*id);
                destination_ids.extend(transitions.values().copied());

                (state_ids, destination_ids)
            },
        );
'''
IDS2 = '''        let mut state_ids = HashSet::new();
        let mut destination_ids = HashSet::new();
        for state in self.get_states_mut().iter() {
            state_ids.insert(state.id);
            for to in state.transitions.values() {
                destination_ids.insert(*to);
            }
        }
'''
EXPR = '''        let mut lhs = self.sub_expression()?;
        let lhs = if lhs.len() == 1 {
            lhs.remove(0)
        } else {
            ast::ExprKind::Concat(lhs)
        };

        match self.tokens.peek() {
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Vertical),
            }) => {
                self.tokens.next();
                Ok(ast::ExprKind::Alt(
                    Box::new(lhs),
                    Box::new(self.expression()?),
                ))
            }
            _ => Ok(lhs),
        }
'''
EXPR2 = '''        let mut parts = self.sub_expression()?;
        let single = parts.len() < 2;
        let has_more = self
            .tokens
            .peek()
            .map(|t| t.kind == TokenKind::Operator(OperatorKind::Vertical))
            .unwrap_or(false);
        let left = match single {
            true => parts.swap_remove(0),
            false => ast::ExprKind::Concat(parts),
        };
        if !has_more {
            return Ok(left);
        }
        let _ = self.tokens.next();
        let right = self.expression()?;
        Ok(ast::ExprKind::Alt(Box::new(left), Box::new(right)))
'''
LEX, INP, GRA = L + 'lexer/mod.rs', L + 'lexer/input.rs', P + 'grammar.rs'
ACC = '''        let mut last_pos = 0;

        self.current_token.source.push_str(
            &std::mem::take(&mut self.token_suffix)
                .into_iter()
                .map(|(pos, ch)| {
                    last_pos = pos;
                    ch
                })
                .collect::<String>(),
        );
        // The end position is one beyond the last character of the token.
        self.current_token.update_pos_end(last_pos + 1);
'''
ACC2 = '''        let end = self.token_suffix.last().map_or(1, |(pos, _)| pos + 1);
        let (_, characters): (Vec<usize>, Vec<char>) = self.token_suffix.drain(..).unzip();
        self.current_token.source.extend(characters);
        self.current_token.update_pos_end(end);
'''
ACC3 = '''        let mut end = 1;
        for (pos, ch) in self.token_suffix.drain(..) {
            self.current_token.source.push(ch);
            end = pos + 1;
        }
        self.current_token.pos.1 = end;
'''
ACC4 = '''        let (read, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut self.token_suffix)
            .into_iter()
            .partition(|_| true);
        self.token_suffix = rest;
        let end = read.last().map_or(1, |(pos, _): &(usize, char)| pos + 1);
        self.current_token.source.extend(read.into_iter().map(|(_, ch)| ch));
        self.current_token.update_pos_end(end);
'''
UNR = '''        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
            .into_iter()
            .chain(self.prev_characters_iter.by_ref())
            .collect::<Vec<_>>()
            .into_iter();
'''
UNR2 = '''        let mut characters = std::mem::take(&mut self.token_suffix);
        characters.extend_from_slice(self.prev_characters_iter.as_slice());
        self.prev_characters_iter = characters.into_iter();
'''
INXT = '''        self.prev_characters_iter
            .next()
            .or_else(|| self.iter.next())
            .map(|(pos, ch)| {
                self.token_suffix.push((pos, ch));
                ch
            })
'''
INXT2 = '''        let next = match self.prev_characters_iter.next() {
            None => self.iter.next()?,
            Some(next) => next,
        };
        self.token_suffix.push(next);
        Some(next.1)
'''
EMP = '''        self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().next().is_none()
'''
TERMS = '''        self.rules
            .values()
            .fold(HashSet::new(), |mut terminals, item_body_set| {
                terminals.extend(item_body_set.iter().flat_map(|b| {
                    b.iter().filter_map(|s| match s {
                        Symbol::Terminal(t) => Some(t),
                        _ => None,
                    })
                }));
                terminals
            })
            .into_iter()
'''
TERMS2 = '''        let mut terminals = HashSet::new();
        for symbol in self.rules.values().flatten().flatten() {
            if let Symbol::Terminal(t) = symbol {
                terminals.insert(t);
            }
        }
        terminals.into_iter()
'''
REACH = '''        while let Some(head) = pending_variables.pop_front() {
            for symbol in self.get_rule_bodies(head).into_iter().flatten().flatten() {
                if let Symbol::Variable(v) = symbol {
                    if result.insert(*v) {
                        pending_variables.push_back(*v);
                    }
                }
            }
        }
'''
REACH2 = '''        while let Some(head) = pending_variables.pop_front() {
            let Some(bodies) = self.get_rule_bodies(head) else {
                continue;
            };
            for body in bodies {
                for symbol in body {
                    let Symbol::Variable(v) = symbol else { continue };
                    if result.contains(v) {
                        continue;
                    }
                    pending_variables.push_back(*v);
                    result.insert(*v);
                }
            }
        }
'''
EOFS = '''                for symbol in body.iter().rev() {
                    match symbol {
                        Symbol::Epsilon => continue,
                        Symbol::Terminal(_) => break,
                        Symbol::Variable(v) => {
                            if result.insert(*v) {
                                pending_variables.push_back(*v);
                            }

                            if !self.first(*v).contains(&Symbol::Epsilon) {
                                break;
                            }
                        }
                    }
                }
'''
EOFS2 = '''                for i in (0..body.len()).rev() {
                    let v = match &body[i] {
                        Symbol::Variable(v) => *v,
                        Symbol::Terminal(_) => break,
                        Symbol::Epsilon => continue,
                    };
                    let vanishes = self.first(v).contains(&Symbol::Epsilon);
                    if !result.contains(&v) {
                        result.insert(v);
                        pending_variables.push_back(v);
                    }
                    if !vanishes {
                        break;
                    }
                }
'''
QUEUE = '''            if let Some(rhs_follow) = result.get(&rhs).cloned() {
                if extend_set(
                    result.entry(lhs).or_default(),
                    rhs_follow.clone().into_iter(),
                ) {
                    // retry the dependencies on lhs
                    if let Some(deps) = follow_dependencies.get(&lhs).cloned() {
                        follow_dependencies_queue
                            .extend(deps.into_iter().zip(std::iter::repeat(lhs)));
                    }
                }
            }
'''
QUEUE2 = '''            let Some(rhs_follow) = result.get(&rhs).cloned() else {
                continue;
            };
            if !extend_set(result.entry(lhs).or_default(), rhs_follow.into_iter()) {
                continue;
            }
            for dep in follow_dependencies.get(&lhs).into_iter().flatten() {
                follow_dependencies_queue.push_back((*dep, lhs));
            }
'''
LAST = '''        match token_kind {
            Some(token_kind) => Some(Token::from_input_iter_token(
                self.iter.consume_token(),
                token_kind,
            )),
            None => {
                // no token starts here, so the input that has been read stays unread
                self.iter.unread_suffix();
                None
            }
        }
'''
LAST2 = '''        let Some(kind) = token_kind else {
            self.iter.unread_suffix();
            return None;
        };
        let InputIterToken { source, pos } = self.iter.consume_token();
        Some(Token { kind, source, pos })
'''
LOOP = '''        while let Some(ch) = self.iter.next() {
            if !sim.can_feed(ch) {
'''
EDITS = [
    ('same', 'C01 C02 C03 C04', 'suffix by unzip', [(INP, ACC, ACC2)]),
    ('bug', 'C01', 'suffix by unzip, end of the first', [(INP, ACC, ACC2.replace('.last()', '.first()'))]),
    ('same', 'C01 C02 C03 C04', 'suffix by a loop', [(INP, ACC, ACC3)]),
    ('bug', 'C01', 'suffix by a loop, one less', [(INP, ACC, ACC3.replace('end = pos + 1', 'end = pos'))]),
    ('same', 'C01 C02 C04', 'unread by extending', [(INP, UNR, UNR2)]),
    ('bug', 'C01', 'unread by extending, other order', [(INP, UNR, UNR2.replace('std::mem::take(&mut self.token_suffix)', 'self.prev_characters_iter.as_slice().to_vec()').replace('extend_from_slice(self.prev_characters_iter.as_slice())', 'append(&mut self.token_suffix)'))]),
    ('same', 'C01 C02 C04', 'next input by match', [(INP, INXT, INXT2)]),
    ('bug', 'C01', 'next input by match, not kept', [(INP, INXT, INXT2.replace('            Some(next) => next,', '            Some(next) => return Some(next.1),'))]),
    ('same', 'C01 C02 C03 C04', 'suffix by partition', [(INP, ACC, ACC4)]),
    ('bug', 'C01', 'suffix by partition, the rest is lost', [(INP, ACC, ACC4.replace('|_| true', "|(_, ch)| *ch != ' '"))]),
    ('same', 'C04', 'input is empty by len', [(INP, EMP, '''        self.prev_characters_iter.len() == 0 && self.iter.clone().count() == 0
''')]),
    ('bug', 'C04', 'input is empty by len, one', [(INP, EMP, '''        self.prev_characters_iter.len() <= 1 && self.iter.clone().count() == 0
''')]),
    ('same', 'C04', 'input is empty by chain', [(INP, EMP, '''        let mut rest = self.prev_characters_iter.clone().chain(self.iter.clone());
        rest.next().is_none()
''')]),
    ('same', 'C04', 'input is empty by size hint', [(INP, EMP, '''        let unread = self.prev_characters_iter.as_slice();
        let mut later = self.iter.clone().peekable();
        later.peek().is_none() && unread.first().is_none()
''')]),
    ('same', 'C16 C20', 'terminals by a loop over all', [(GRA, TERMS, TERMS2)]),
    ('same', 'C18', 'reachable by contains', [(GRA, REACH, REACH2)]),
    ('bug', 'C18', 'reachable by contains, leaves the body', [(GRA, REACH, REACH2.replace('''                    if result.contains(v) {
                        continue;''', '''                    if result.contains(v) {
                        break;'''))]),
    ('bug', 'C18', 'reachable by contains, stops', [(GRA, REACH, REACH2.replace('''            let Some(bodies) = self.get_rule_bodies(head) else {
                continue;''', '''            let Some(bodies) = self.get_rule_bodies(head).filter(|b| b.len() > 1) else {
                continue;'''))]),
    ('same', 'C13 C18', 'end of input by position', [(GRA, EOFS, EOFS2)]),
    ('bug', 'C18', 'end of input by position, not the first', [(GRA, EOFS, EOFS2.replace('(0..body.len())', '(1..body.len())'))]),
    ('bug', 'C18', 'end of input by position, always on', [(GRA, EOFS, EOFS2.replace('!vanishes', 'vanishes'))]),
    ('same', 'C13 C18', 'queue by guards', [(GRA, QUEUE, QUEUE2)]),
    ('bug', 'C18', 'queue by guards, reversed', [(GRA, QUEUE, QUEUE2.replace('(*dep, lhs)', '(lhs, *dep)'))]),
    ('bug', 'C18', 'queue by guards, stops', [(GRA, QUEUE, QUEUE2.replace('''.into_iter()) {
                continue;''', '''.into_iter()) {
                break;'''))]),
    ('same', 'C01 C02 C03 C04', 'token by parts', [(LEX, LAST, LAST2)]),
    ('bug', 'C04', 'token by parts, suffix lost', [(LEX, LAST, LAST2.replace('            self.iter.unread_suffix();\n', ''))]),
    ('same', 'C01 C02 C03 C04', 'fed by a loop', [(LEX, LOOP, '''        loop {
            let ch = match self.iter.next() {
                Some(ch) => ch,
                None => break,
            };
            let fits = sim.can_feed(ch);
            if !fits {
''')]),
    ('same', 'C01 C05 C06 C07 C08 C09 C14', 'tokens by contains', [(TOK, NEXT, NEXT2)]),
    ('bug', 'C06', 'tokens by contains, no hyphen', [(TOK, NEXT, NEXT2.replace('"[]()^|-"', '"[]()^|"'))]),
    ('bug', 'C14', 'tokens by contains, end first', [(TOK, NEXT, NEXT2.replace('        let end = self.get_token_end_cursor_pos();\n', '').replace("let kind = if", "let end = self.get_token_end_cursor_pos();\n        let kind = if"))]),
    ('same', 'C05 C07 C13', 'quantifier range by parts', [(TOK, RANGE, RANGE2)]),
    ('bug', 'C07', 'quantifier range by parts, no number is max', [(TOK, RANGE, RANGE2.replace('(Some(max), false, None)', '(Some(max), true, None)').replace('(Some(min), true, None)', '(Some(min), false, None)'))]),
    ('bug', 'C07', 'quantifier range by parts, overflow is no bound', [(TOK, RANGE, RANGE2.replace('(Some(min), true, None)', '(Some(min), true, None | Some(None))'))]),
    ('same', 'C05 C10 C11 C13', 'group quantifier by if let', [(COM, QUANT, '''                if let Some(quantifier) = quantifier {
                    let looped = self.insert_quantifier_state(*quantifier, start, end);
                    self.expr(expr, looped, looped);
                } else {
                    self.expr(expr, start, end);
                }
''')]),
    ('bug', 'C10', 'group quantifier by if let, leaves', [(COM, QUANT, '''                if let Some(quantifier) = quantifier {
                    let looped = self.insert_quantifier_state(*quantifier, start, end);
                    self.expr(expr, looped, end);
                } else {
                    self.expr(expr, start, end);
                }
''')]),
    ('same', 'C05 C10 C13', 'concat by peekable', [(COM, CONC, CONC2)]),
    ('bug', 'C10', 'concat by peekable, same start', [(COM, CONC, CONC2.replace('                    from = to;\n', '').replace('let mut from', 'let from'))]),
    ('same', 'C05 C10 C13', 'concat by position', [(COM, CONC, CONC3)]),
    ('bug', 'C10', 'concat by position, ends early', [(COM, CONC, CONC3.replace('i + 1 == amount', 'i + 2 >= amount'))]),
    ('same', 'C05 C09 C13 C14', 'items until an operator', [(PAR, SUB, SUB2)]),
    ('bug', 'C05', 'items until an operator, and groups', [(PAR, SUB, SUB2.replace('op == OperatorKind::Vertical ||', 'op == OperatorKind::Vertical || op == OperatorKind::LeftParen ||'))]),
    ('same', 'C05 C09 C13 C14', 'items until one of two', [(PAR, SUB, SUB4)]),
    ('bug', 'C05', 'items until one of two, others', [(PAR, SUB, SUB4.replace('RightParen', 'LeftParen'))]),
    ('same', 'C05 C09 C13 C14', 'items until one of two kinds', [(PAR, SUB, SUB3)]),
    ('bug', 'C05', 'items until one of two kinds, others', [(PAR, SUB, SUB3.replace('RightParen', 'LeftParen'))]),
    ('bug', 'C05', 'items until one of two kinds, and a wildcard', [(PAR, SUB, SUB3.replace('        ];', '            TokenKind::Class(super::tokenizer::ClassKind::Wildcard),\n        ];'))]),
    ('same', 'C19 C20 C24', 'known states by a loop', [(CFSM, SETS, SETS2)]),
    ('bug', 'C19', 'known states by a loop, first only', [(CFSM, SETS, SETS2.replace('''                        known = Some(other.id);
                        break;
                    }
''', '''                        known = Some(other.id);
                    }
                    break;
'''))]),
    ('same', 'C19 C23', 'advanced by loops', [(CFSM, ADV, ADV2)]),
    ('bug', 'C19', 'advanced by loops, one', [(CFSM, ADV, ADV2.replace('                        advanced.insert(body.advance());\n', '                        advanced.insert(body.advance());\n                        break;\n'))]),
    ('bug', 'C19', 'advanced by loops, not advanced', [(CFSM, ADV, ADV2.replace('body.advance()', '*body'))]),
    ('same', 'C19 C23', 'ids by loops', [(CFSM, IDS, IDS2)]),
    ('same', 'C05 C09 C13 C14', 'alternation asked first', [(PAR, EXPR, EXPR2)]),
    ('bug', 'C09', 'alternation asked first, swapped concat', [(PAR, EXPR, EXPR2.replace('parts.len() < 2', 'parts.len() < 3'))]),
]
