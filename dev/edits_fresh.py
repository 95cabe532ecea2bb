"""Rewrites of whole functions, each run against every property (-all), and
edits of the character classes (C08)."""
TOK = 'pango-lexer/src/regex/tokenizer.rs'
AST = 'pango-lexer/src/regex/ast.rs'
REX = 'pango-lexer/src/regex/parser.rs'
LEX = 'pango-lexer/src/lexer/mod.rs'
INP = 'pango-lexer/src/lexer/input.rs'
MOD = 'pango-lexer/src/fsm/nfa/model.rs'
SIM = 'pango-lexer/src/fsm/nfa/sim.rs'
COM = 'pango-lexer/src/fsm/nfa/compiler.rs'
PEEK = 'pango-lexer/src/iter/peekable.rs'
MAPW = 'pango-lexer/src/iter/cautious/map_while.rs'
GRAM = 'pango-parser/src/grammar.rs'
ITEM = 'pango-parser/src/cfsm/item.rs'
CFSM = 'pango-parser/src/cfsm/mod.rs'
STATE = 'pango-parser/src/cfsm/state.rs'
SLR = 'pango-parser/src/parser/slr.rs'
TABLE = 'pango-parser/src/parser/table.rs'

CONTAINS = '''        match *self {
            ClassKind::Wildcard => true,
            ClassKind::Word => c.is_alphabetic(),
            ClassKind::Whitespace => c.is_whitespace(),
            ClassKind::Digit => c.is_ascii_digit(),
            ClassKind::NonWord => !c.is_alphabetic(),
            ClassKind::NonDigit => !c.is_ascii_digit(),
            ClassKind::NonWhitespace => !c.is_whitespace(),
        }'''
GROUP = '''                // `negated` acts as a switch which is exactly what the XOR operation does.
                literals.contains(c) ^ negated'''
RANGE = 'GroupedLiteralKind::Range(begin, end) => (begin..=end).contains(&c),'
ANY = 'self.0.iter().any(|l| l.contains(c))'

EDITS = [
    # ---- C08
    ('bug', 'C08', 'range without its end', [(AST, '(begin..=end).contains(&c)', '(begin..end).contains(&c)')]),
    ('bug', 'C08', 'range without its begin', [(AST, '(begin..=end).contains(&c)', 'begin < c && c <= end')]),
    ('bug', 'C08', 'reversed range matches', [(AST, '(begin..=end).contains(&c)', '(begin.min(end)..=begin.max(end)).contains(&c)')]),
    ('bug', 'C08', 'all items', [(AST, ANY, '!self.0.is_empty() && self.0.iter().all(|l| l.contains(c))')]),
    ('bug', 'C08', 'first item only', [(AST, ANY, 'self.0.iter().take(8).any(|l| l.contains(c))')]),
    ('bug', 'C08', 'negated ignored for empty', [(AST, GROUP, 'literals.contains(c) ^ (*negated && !literals.0.is_empty())')]),
    ('bug', 'C08', 'negated or', [(AST, GROUP, 'literals.contains(c) || (*negated && !literals.contains(c))')]),
    ('bug', 'C08', 'match by lower case', [(AST, 'LiteralKind::Match(m) => *m == c,', 'LiteralKind::Match(m) => m.eq_ignore_ascii_case(&c),')]),
    ('bug', 'C08', 'wildcard without newline', [(TOK, 'ClassKind::Wildcard => true', "ClassKind::Wildcard => c != '\\n'")]),
    ('bug', 'C08', 'word with digits', [(TOK, 'ClassKind::Word => c.is_alphabetic()', 'ClassKind::Word => c.is_alphanumeric()')]),
    ('bug', 'C08', 'digit numeric', [(TOK, 'ClassKind::Digit => c.is_ascii_digit()', 'ClassKind::Digit => c.is_numeric()')]),
    ('bug', 'C08', 'ascii whitespace', [(TOK, 'ClassKind::Whitespace => c.is_whitespace()', 'ClassKind::Whitespace => c.is_ascii_whitespace()')]),
    ('bug', 'C08', 'non word ascii', [(TOK, 'ClassKind::NonWord => !c.is_alphabetic()', 'ClassKind::NonWord => !c.is_ascii_alphabetic()')]),
    ('bug', 'C08', 'non whitespace also not control', [(TOK, 'ClassKind::NonWhitespace => !c.is_whitespace()', 'ClassKind::NonWhitespace => !c.is_whitespace() && !c.is_control()')]),
    ('bug', 'C08', 'grouped match swallows nul', [(AST, 'GroupedLiteralKind::Match(m) => m == c,', "GroupedLiteralKind::Match(m) => m == c && c != '\\0',")]),
    ('bug', 'C08', 'surrogate gap counts', [(AST, '(begin..=end).contains(&c)', "(begin as u16..=end as u16).contains(&(c as u16))")]),
    ('same', 'C08', 'class pairs', [(TOK, CONTAINS, '''        let (base, complement) = match *self {
            ClassKind::Wildcard => (true, false),
            ClassKind::Word => (c.is_alphabetic(), false),
            ClassKind::NonWord => (c.is_alphabetic(), true),
            ClassKind::Whitespace => (c.is_whitespace(), false),
            ClassKind::NonWhitespace => (c.is_whitespace(), true),
            ClassKind::Digit => (c.is_ascii_digit(), false),
            ClassKind::NonDigit => (c.is_ascii_digit(), true),
        };
        base != complement''')]),
    ('same', 'C08', 'class recursion', [(TOK, CONTAINS, '''        match *self {
            ClassKind::Wildcard => true,
            ClassKind::Word => c.is_alphabetic(),
            ClassKind::Whitespace => c.is_whitespace(),
            ClassKind::Digit => matches!(c, '0'..='9'),
            ClassKind::NonWord => !ClassKind::Word.contains(c),
            ClassKind::NonDigit => !ClassKind::Digit.contains(c),
            ClassKind::NonWhitespace => !ClassKind::Whitespace.contains(c),
        }''')]),
    ('same', 'C08', 'digit by to_digit', [(TOK, 'ClassKind::Digit => c.is_ascii_digit()', 'ClassKind::Digit => c.to_digit(10).is_some()')]),
    ('same', 'C08', 'group if', [(AST, GROUP, '''if *negated {
                    !literals.contains(c)
                } else {
                    literals.contains(c)
                }''')]),
    ('same', 'C08', 'any by loop', [(AST, ANY, '''for literal in &self.0 {
            if literal.contains(c) {
                return true;
            }
        }
        false''')]),
    ('same', 'C08', 'range by comparison', [(AST, RANGE, 'GroupedLiteralKind::Range(begin, end) => begin <= c && c <= end,')]),
    ('same', 'C08', 'range by matching guard', [(AST, RANGE, '''GroupedLiteralKind::Range(begin, _) if c < begin => false,
            GroupedLiteralKind::Range(_, end) => c <= end,''')]),

    # ---- whole-function rewrites
    ('same', 'C03', 'lexer next in helpers', [(LEX, '''    fn next(&mut self) -> Option<Self::Item> {
        let mut sim = self.fsm.to_simulator();
        let mut token_kind = None;

        while let Some(ch) = self.iter.next() {
            if !sim.can_feed(ch) {
                // the current token is the longest token we can 'munch'

                break;
            }

            if sim.feed(ch) {
                // The finite-state machine currently accepts. Append the last unaccepted
                // characters to the token and store the token kind.
                self.iter.accept_suffix();

                // Get the first final state the Simulator is in.
                //
                // Note: this assumes that the lower final state ids, have the highest
                // precedence. This is enforced by the order of expression
                // compilation.
                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .next()
                    .expect("expected a single final state");

                token_kind = Some(
                    match self
                        .tokens
                        .get_mut(&final_state)
                        .expect("final state should match a single token")
                    {
                        TokenKindGenerator::Map(token_kind_gen) => {
                            token_kind_gen(&self.iter.get_token().source)
                        }

                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
                    },
                );
            }
        }
''', '''    fn next(&mut self) -> Option<Self::Item> {
        fn generate<K>(generator: &mut TokenKindGenerator<K>, source: &str) -> K {
            match generator {
                TokenKindGenerator::Unit(make) => make(),
                TokenKindGenerator::Map(make) => make(source),
            }
        }

        let Lexer {
            iter, fsm, tokens, ..
        } = self;
        let mut simulator = fsm.to_simulator();
        let mut token_kind = None;

        loop {
            let ch = match iter.next() {
                Some(ch) if simulator.can_feed(ch) => ch,
                _ => break,
            };

            let accepting = simulator.feed(ch);
            if !accepting {
                continue;
            }

            iter.accept_suffix();
            let states = simulator.get_current_final_states();
            let lowest = states.iter().next().expect("no final state");
            let generator = tokens.get_mut(lowest).expect("unknown final state");
            token_kind = Some(generate(generator, iter.get_token().source.as_str()));
        }
''')]),
    ('same', 'C01', 'input iter rewritten', [(INP, '''        self.prev_characters_iter
            .next()
            .or_else(|| self.iter.next())
            .map(|(pos, ch)| {
                self.token_suffix.push((pos, ch));
                ch
            })''', '''        let read = match self.prev_characters_iter.next() {
            Some(read) => read,
            None => self.iter.next()?,
        };
        self.token_suffix.push(read);
        Some(read.1)'''), (INP, '''        let mut last_pos = 0;

        self.current_token.source.push_str(
            &std::mem::take(&mut self.token_suffix)
                .into_iter()
                .map(|(pos, ch)| {
                    last_pos = pos;
                    ch
                })
                .collect::<String>(),
        );
        // The end position is one beyond the last character of the token.
        self.current_token.update_pos_end(last_pos + 1);''', '''        let mut end = 1;

        for (pos, ch) in self.token_suffix.drain(..) {
            end = pos + 1;
            self.current_token.source.push(ch);
        }

        self.current_token.update_pos_end(end);'''), (INP, '''        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
            .into_iter()
            .chain(self.prev_characters_iter.by_ref())
            .collect::<Vec<_>>()
            .into_iter();''', '''        let mut unread = Vec::new();
        unread.append(&mut self.token_suffix);
        while let Some(character) = self.prev_characters_iter.next() {
            unread.push(character);
        }
        self.prev_characters_iter = unread.into_iter();''')]),
    ('same', 'C01', 'position as struct method', [(INP, '''            pos: (self.current_token.pos.1, 0),
        };
        std::mem::replace(&mut self.current_token, new_token)''', '''            pos: (self.current_token.end(), 0),
        };
        let mut token = new_token;
        std::mem::swap(&mut self.current_token, &mut token);
        token'''), (INP, '''    /// Updates the end position of the token.''', '''    /// Returns the end position of the token.
    fn end(&self) -> usize {
        let (_, end) = self.pos;
        end
    }

    /// Updates the end position of the token.''')]),
    ('same', 'C11', 'eps closure rewritten', [(SIM, '''            let transitions_taken = transitions
                .iter()
                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
                    match input {
                        Input::Literal(_) => None,
                        Input::Eps => Some(Box::new(states.iter().map(|state| (state, false)))),
                        Input::Quantified(quantifier) => {
                            if quantifier.is_satisfied(*state_counters.get(state_id).unwrap_or(&0))
                            {
                                Some(Box::new(states.iter().map(|state| (state, true))))
                            } else {
                                None
                            }
                        }
                    }
                })
                .flatten();

            let new_runs = transitions_taken.into_iter().map(|(new_state, quantified)| {
                run.clone()
                    .take_transition(*new_state, quantified, state.get_count_limit())
            });

            for new_run in new_runs {
                if result.insert(new_run.clone()) {
                    not_visited.push_back(new_run);
                }
            }
''', '''            let count = state_counters.get(state_id).copied().unwrap_or_default();
            let count_limit = state.get_count_limit();

            for (input, destinations) in transitions {
                let quantified = match input {
                    Input::Eps => false,
                    Input::Quantified(quantifier) if quantifier.is_satisfied(count) => true,
                    Input::Quantified(_) | Input::Literal(_) => continue,
                };

                for destination in destinations {
                    let new_run =
                        run.clone()
                            .take_transition(*destination, quantified, count_limit);
                    if !result.contains(&new_run) {
                        result.insert(new_run.clone());
                        not_visited.push_back(new_run);
                    }
                }
            }
''')]),
    ('same', 'C12', 'feed rewritten', [(SIM, '''            let new_state_ids = transitions
                .iter()
                .filter_map(|(expected, states)| {
                    if expected.can_take(input) {
                        Some(states.iter())
                    } else {
                        None
                    }
                })
                .flatten();
''', '''            let new_state_ids = transitions
                .iter()
                .filter(|(expected, _)| expected.can_take(input))
                .flat_map(|(_, states)| states);
'''), (SIM, '''            let new_runs = new_state_ids
                .into_iter()
                .map(|new_state_id| {
                    run.clone()
                        .take_transition(*new_state_id, false, state.get_count_limit())
                })
                .flat_map(|new_run| self.eps_closure(new_run));

            updated_runs.extend(new_runs);
        }

        self.runs = updated_runs.into_iter().collect();
''', '''            for new_state_id in new_state_ids {
                let moved = run
                    .clone()
                    .take_transition(*new_state_id, false, state.get_count_limit());
                for closed in self.eps_closure(moved) {
                    updated_runs.insert(closed);
                }
            }
        }

        self.runs.clear();
        self.runs.extend(updated_runs);
'''), (SIM, '''        for Run {
            state_id,
            state_counters: _,
        } in self.runs.iter()
        {
            let State { transitions, .. } = self.nfa.get_state(*state_id);

            // Check for every transition if the input can make that transition.

            if transitions.keys().any(|expected| expected.can_take(input)) {
                return true;
            }
        }

        false''', '''        self.runs
            .iter()
            .flat_map(|run| self.nfa.get_state(run.state_id).transitions.keys())
            .any(|expected| expected.can_take(input))''')]),
    ('same', 'C12', 'counter update by match', [(SIM, '''        let count = self.state_counters.entry(self.state_id).or_insert(0);
        if quantified {
            // Reset the state count if quantified transition is used
            *count = 0;
        } else {
            *count = (*count + 1).min(count_limit);
        }
        self.state_id = new_state_id;

        self''', '''        let old = self
            .state_counters
            .get(&self.state_id)
            .copied()
            .unwrap_or(0);
        let new = match quantified {
            true => 0,
            false if old < count_limit => old + 1,
            false => count_limit,
        };
        self.state_counters.insert(self.state_id, new);

        Self {
            state_id: new_state_id,
            state_counters: self.state_counters,
        }''')]),
    ('same', 'C10', 'compiler quantifier merged', [(COM, '''            ExprKind::Lit(lit, quantifier) => {
                let (start, end) = match quantifier {
                    Some(quantifier) => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, quantifier_state)
                    }
                    None => (start, end),
                };

                self.nfa
                    .add_transition(start, end, Input::Literal(lit.clone()));
            }
            ExprKind::Group(expr, quantifier) => {
                let (start, end) = match quantifier {
                    Some(quantifier) => {
                        let quantifier_state =
                            self.insert_quantifier_state(*quantifier, start, end);
                        (quantifier_state, quantifier_state)
                    }
                    None => (start, end),
                };

                self.expr(expr, start, end);
            }''', '''            ExprKind::Lit(_, quantifier) | ExprKind::Group(_, quantifier) => {
                let (mut from, mut to) = (start, end);
                if let Some(quantifier) = quantifier {
                    from = self.insert_quantifier_state(*quantifier, start, end);
                    to = from;
                }

                match expr {
                    ExprKind::Group(inner, _) => self.expr(inner, from, to),
                    ExprKind::Lit(lit, _) => {
                        self.nfa.add_transition(from, to, Input::Literal(lit.clone()))
                    }
                    _ => unreachable!(),
                }
            }'''), (COM, '''                let mut current_state = start;

                for expr in exprs.iter().take(exprs.len() - 1) {
                    let new_state = self.nfa.add_state(false);
                    self.expr(expr, current_state, new_state);
                    current_state = new_state;
                }

                self.expr(
                    exprs.last().expect(
                        "expected at least one expressions in a concatenation of expressions",
                    ),
                    current_state,
                    end,
                )''', '''                let mut current_state = start;
                let mut rest = exprs.iter().peekable();

                while let Some(expr) = rest.next() {
                    let next_state = if rest.peek().is_some() {
                        self.nfa.add_state(false)
                    } else {
                        end
                    };
                    self.expr(expr, current_state, next_state);
                    current_state = next_state;
                }''')]),
    ('same', 'C09', 'sub expression by predicate', [(REX, '''        let mut literals = Vec::new();
        while !matches!(
            self.tokens.peek(),
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Vertical)
                    | TokenKind::Operator(OperatorKind::RightParen)
            }) | None
        ) {
            literals.push(self.sub_expression_item()?);
        }
''', '''        let mut literals = Vec::new();
        loop {
            let Some(token) = self.tokens.peek() else {
                break;
            };
            if let TokenKind::Operator(operator) = token.kind {
                if operator == OperatorKind::Vertical || operator == OperatorKind::RightParen {
                    break;
                }
            }
            let item = self.sub_expression_item()?;
            literals.push(item);
        }
''')]),
    ('same', 'C05', 'expect helper', [(REX, '''        // LEFT_PAREN
        if !matches!(
            self.tokens.next(),
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::LeftParen)
            })
        ) {
            return Err(W(vec![ParseError {
                kind: ParseErrorKind::LeftParan,
                pos: self.get_current_token_position(),
            }]));
        }

        // expression
        let expr = self.expression()?;

        // RIGHT_PAREN
        if !matches!(
            self.tokens.next(),
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightParen)
            })
        ) {
            return Err(W(vec![ParseError {
                kind: ParseErrorKind::RightParan,
                pos: self.get_current_token_position(),
            }]));
        }
''', '''        self.expect_operator(OperatorKind::LeftParen, ParseErrorKind::LeftParan)?;
        let expr = self.expression()?;
        self.expect_operator(OperatorKind::RightParen, ParseErrorKind::RightParan)?;
'''), (REX, '''    /// Rule: `match ::= match_item QUANTIFIER?`''', '''    /// Consumes the next token, which has to be the given operator.
    fn expect_operator(
        &mut self,
        expected: OperatorKind,
        otherwise: ParseErrorKind,
    ) -> ParseResult<()> {
        match self.tokens.next().map(|token| token.kind) {
            Some(TokenKind::Operator(operator)) if operator == expected => Ok(()),
            _ => Err(W(vec![ParseError {
                kind: otherwise,
                pos: self.get_current_token_position(),
            }])),
        }
    }

    /// Rule: `match ::= match_item QUANTIFIER?`''')]),
    ('same', 'C14', 'position helper rewritten', [(REX, '''        let current = self.tokens.current();
        match (self.tokens.peek(), current) {
            (
                Some(Token {
                    pos: (begin_cursor_pos, end_cursor_pos),
                    kind: _,
                }),
                _,
            ) => (*begin_cursor_pos, *end_cursor_pos),
            (
                None,
                Some(Token {
                    pos: (_, end_cursor_pos),
                    kind: _,
                }),
            ) => (end_cursor_pos - 1, end_cursor_pos),
            _ => (0, 1),
        }''', '''        if let Some(next) = self.tokens.peek() {
            return next.pos;
        }

        self.tokens
            .current()
            .map(|last| last.pos.1)
            .map_or((0, 1), |end| (end - 1, end))''')]),
    ('same', 'C06', 'tokenizer next by question mark', [(TOK, '''        match self.iter.next() {
            Some((start_cursor_pos, ch)) => {
                let token_kind = match ch {
                    '\\\\' => self.handle_class_or_escape_sequence(),
                    '.' => TokenKind::Class(ClassKind::Wildcard),
                    '[' | ']' | '(' | ')' | '^' | '|' | '-' => self.handle_operators(ch),
                    '*' | '+' | '?' | '{' => self.handle_quantifier(ch),

                    a => TokenKind::Match(a),
                };

                Some(Token::new(
                    token_kind,
                    (start_cursor_pos, self.get_token_end_cursor_pos()),
                ))
            }
            None => None,
        }''', '''        let (start, ch) = self.iter.next()?;

        let kind = if ch == '\\\\' {
            self.handle_class_or_escape_sequence()
        } else if matches!(ch, '*' | '+' | '?' | '{') {
            self.handle_quantifier(ch)
        } else if "[]()^|-".contains(ch) {
            self.handle_operators(ch)
        } else if ch == '.' {
            TokenKind::Class(ClassKind::Wildcard)
        } else {
            TokenKind::Match(ch)
        };
        let end = self.get_token_end_cursor_pos();

        Some(Token {
            pos: (start, end),
            kind,
        })''')]),
    ('same', 'C07', 'range quantifier in a method', [(TOK, '''                let Some((_, mut ch)) = self.iter.next() else {
                    return TokenKind::Invalid;
                };

                let comma_found = if ch == ',' {
                    let Some((_, next_ch)) = self.iter.next() else {
                        // the token is `{<number>,`
                        return TokenKind::Invalid;
                    };
                    ch = next_ch;
                    true
                } else {
                    false
                };
''', '''                let Some((_, mut ch)) = self.iter.next() else {
                    return TokenKind::Invalid;
                };

                let comma_found = ch == ',';
                if comma_found {
                    match self.iter.next() {
                        Some((_, next_ch)) => ch = next_ch,
                        None => return TokenKind::Invalid,
                    }
                }
''')]),
    ('same', 'C07', 'range quantifier by option', [(TOK, '''            '{' => {
                // Handle range quantifiers
                let Some((_, ch)) = self.iter.next() else {
                    // the token was `{`
                    return TokenKind::Invalid;
                };

                if !ch.is_ascii_digit() {
                    return TokenKind::Invalid;
                }

                let first_value = self.take_next_decimals_and_convert_to_u32(Some(
                    ch.to_digit(10)
                        .expect("failed to convert character to ascii digit"),
                ));
''', '''            '{' => {
                let first_digit = match self.iter.next() {
                    Some((_, ch)) => ch.to_digit(10),
                    None => None,
                };
                let Some(first_digit) = first_digit else {
                    return TokenKind::Invalid;
                };

                let first_value = self.take_next_decimals_and_convert_to_u32(Some(first_digit));
''')]),
    ('same', 'C18', 'follow set in two passes', [(GRAM, '''            let mut iter = body.iter().peekable();

            while let Some(Symbol::Variable(variable)) =
                iter.find(|s| matches!(s, Symbol::Variable(_)))
            {
                let variable = *variable;
                let entry = result.entry(variable);

                match iter.peek() {
                    Some(_) => {
                        // calculate the first of the remaining body slice

                        let first = self.first_body(None, iter.clone());

                        if first.contains(&Symbol::Epsilon) {
                            // keep track of the dependency
                            follow_dependencies
                                .entry(head)
                                .or_default()
                                .insert(variable);
                        }

                        entry
                            .or_default()
                            .extend(first.into_iter().filter(|s| !matches!(s, Symbol::Epsilon)))
                    }
                    None => {
                        // keep track of the dependency
                        follow_dependencies
                            .entry(head)
                            .or_default()
                            .insert(variable);
                    }
                }
            }
''', '''            for (index, symbol) in body.iter().enumerate() {
                let Symbol::Variable(variable) = symbol else {
                    continue;
                };

                let rest = &body[index + 1..];
                let mut at_end = rest.is_empty();

                if !at_end {
                    for symbol in self.first_body(None, rest) {
                        match symbol {
                            Symbol::Epsilon => at_end = true,
                            _ => {
                                result.entry(*variable).or_default().insert(symbol);
                            }
                        }
                    }
                }

                if at_end {
                    follow_dependencies
                        .entry(head)
                        .or_default()
                        .insert(*variable);
                }
            }
''')]),
    ('same', 'C16', 'builder methods inlined', [(GRAM, '''        let body = body.into();
        // default empty bodies to `Symbol::Epsilon`
        let body = if !body.is_empty() {
            body
        } else {
            Body::from([Symbol::Epsilon])
        };

        self.rules
            .entry(variable)
            .or_insert_with(HashSet::new)
            .insert(body)''', '''        let mut body: Body<V, T> = body.into();
        if body.is_empty() {
            // an empty body is the empty production
            body.push(Symbol::Epsilon);
        }

        let bodies = self.rules.entry(variable).or_default();
        bodies.insert(body)''')]),
    ('same', 'C19', 'machine construction in helpers', [(CFSM, '''            for (symbol, item_set) in item_set.iter_by_cursor_symbol() {
                // advance the items which read the same symbol

                let new_item_set = item_set
                    .into_iter()
                    .map(|(head, item_bodies)| {
                        let new_item_bodies = item_bodies
                            .into_iter()
                            .copied()
                            .map(ItemBody::advance)
                            .collect::<HashSet<_>>();
                        (head, new_item_bodies)
                    })
                    .collect::<HashMap<_, _>>();

                let item_set = ItemSet::from((new_item_set, builder.get_grammar()));

                let new_state_id = {
                    match builder
                        .get_states_mut()
                        .iter()
                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,
                        None => {
                            let state = State::new(state_id_generator.next(), item_set);
                            let state_id = state.id;
                            pending_states.push_back(state);
                            state_id
                        }
                    }
                };

                transitions.insert(symbol.into(), new_state_id);
            }
''', '''            for (symbol, items) in item_set.iter_by_cursor_symbol() {
                let mut advanced: HashMap<V, HashSet<ItemBody<V, T>>> = HashMap::new();
                for (head, item_bodies) in items {
                    for item_body in item_bodies {
                        advanced.entry(head).or_default().insert(item_body.advance());
                    }
                }
                let item_set = ItemSet::from((advanced, builder.get_grammar()));

                let known = builder
                    .get_states_mut()
                    .iter()
                    .filter(|state| state.has_item_set(&item_set))
                    .map(|state| state.id)
                    .next();

                let destination = match known {
                    Some(id) => id,
                    None => {
                        let id = state_id_generator.next();
                        pending_states.push_back(State::new(id, item_set));
                        id
                    }
                };

                transitions.insert(symbol.into(), destination);
            }
''')]),
    ('same', 'C19', 'states found among the pending ones', [(CFSM, '''                let new_state_id = {
                    match builder
                        .get_states_mut()
                        .iter()
                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,
''', '''                let new_state_id = {
                    match builder
                        .get_states_mut()
                        .iter()
                        .chain(pending_states.iter())
                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,
''')]),
    ('same', 'C19', 'closure by recursion', [(ITEM, '''        let mut pending_bodies =
            VecDeque::from_iter(items.values().flat_map(|bodies| bodies.iter()).copied());

        while let Some(item_body) = pending_bodies.pop_front() {
            let Some(head) = item_body.get_cursor_variable().copied() else {
                continue;
            };

            let new_item_bodies = grammar
                .get_rule_bodies(head)
                .map(|bodies| bodies.iter().map(ItemBody::from))
                .expect("variable should have an associated rule");

            for new_item_body in new_item_bodies {
                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                {
                    pending_bodies.push_back(new_item_body);
                }
            }
        }
''', '''        let mut pending_bodies = VecDeque::new();
        for bodies in items.values() {
            for body in bodies {
                pending_bodies.push_back(*body);
            }
        }

        while let Some(item_body) = pending_bodies.pop_front() {
            if let Some(&head) = item_body.get_cursor_variable() {
                let bodies = grammar
                    .get_rule_bodies(head)
                    .expect("variable should have an associated rule");
                let known = items.entry(head).or_default();

                for body in bodies {
                    let new_item_body = ItemBody::from(body);
                    let added = known.insert(new_item_body);
                    if added {
                        pending_bodies.push_back(new_item_body);
                    }
                }
            }
        }
''')]),
    ('same', 'C20', 'table by passes', [(TABLE, '''            for (head, body) in item_set.iter() {
                match body.get_cursor_symbol() {
                    Some(s @ Symbol::Terminal(t)) => {
                        // body of the form `S -> x •t y`
                        let dest_state = *transitions
                            .get(&s.into())
                            .expect("no transition found for symbol");
                        Self::insert_action(
                            &mut action,
                            *state_id,
                            Terminal::T(t.into()),
                            ActionKind::Shift { dest_state },
                        )?;
                    }
                    Some(s @ Symbol::Variable(v)) => {
                        // body of the form `S -> x •v y`
                        let dest_state = *transitions
                            .get(&s.into())
                            .expect("no transition found for symbol");
                        Self::insert_goto(&mut goto, *state_id, *v, dest_state);
                    }
''', '''            for (symbol, destination) in transitions {
                match symbol.as_ref() {
                    Symbol::Terminal(t) => Self::insert_action(
                        &mut action,
                        *state_id,
                        Terminal::T(t.into()),
                        ActionKind::Shift {
                            dest_state: *destination,
                        },
                    )?,
                    Symbol::Variable(v) => {
                        Self::insert_goto(&mut goto, *state_id, *v, *destination)
                    }
                    Symbol::Epsilon => unreachable!("no transition reads epsilon"),
                }
            }

            for (head, body) in item_set.iter() {
                match body.get_cursor_symbol() {
                    Some(Symbol::Terminal(_)) | Some(Symbol::Variable(_)) => (),
''')]),
    ('same', 'C21', 'handle token in three methods', [(SLR, '''        let mut accept = false;
        let parse_node = match action_kind {
            ActionKind::Shift { dest_state } => ParseNode {
                node: Node::from_symbol(Symbol::Terminal(
                    token.take().expect("expected a token to shift").kind,
                )),
                state: *dest_state,
            },
            ActionKind::Reduce { variable, amount } | ActionKind::Accept { variable, amount } => {
                let children = stack
                    .drain((stack.len() - amount)..)
                    .map(|parse_node| parse_node.node)
                    .rev()
                    .collect();

                // The input is only accepted when the start variable spans all of it, meaning
                // only the bottom of the stack is left. Otherwise, it is a regular reduction.
                accept = matches!(action_kind, ActionKind::Accept { .. }) && stack.len() == 1;

                let state = if accept {
                    // State does not matter here as the action is to accept
                    StateId::default()
                } else {
                    let Some(new_state) = self
                        .table
                        .goto
                        .get(
                            stack
                                .last()
                                .expect("at least one element should be remaining on the stack")
                                .state,
                        )
                        .and_then(|goto| goto.get(variable))
                    else {
                        return Err(());
                    };

                    *new_state
                };

                ParseNode {
                    node: Node {
                        symbol: Symbol::Variable(*variable),
                        children,
                    },
                    state,
                }
            }
        };

        Ok((parse_node, accept))
    }
''', '''        match *action_kind {
            ActionKind::Shift { dest_state } => {
                let kind = token.take().expect("expected a token to shift").kind;
                Ok((
                    ParseNode {
                        state: dest_state,
                        node: Node::from_symbol(Symbol::Terminal(kind)),
                    },
                    false,
                ))
            }
            ActionKind::Reduce { variable, amount } => self
                .reduce(stack, variable, amount)
                .map(|parse_node| (parse_node, false)),
            ActionKind::Accept { variable, amount } => {
                if stack.len() - amount > 1 {
                    return Ok((self.reduce(stack, variable, amount)?, false));
                }

                let node = Self::pop_node(stack, variable, amount);
                Ok((
                    ParseNode {
                        node,
                        state: StateId::default(),
                    },
                    true,
                ))
            }
        }
    }

    fn pop_node(stack: &mut Vec<ParseNode<V, T>>, variable: V, amount: usize) -> Node<V, T> {
        let mut children = Vec::with_capacity(amount);
        for _ in 0..amount {
            children.push(stack.pop().expect("symbols of the body are on the stack").node);
        }
        Node {
            symbol: Symbol::Variable(variable),
            children,
        }
    }

    fn reduce(
        &self,
        stack: &mut Vec<ParseNode<V, T>>,
        variable: V,
        amount: usize,
    ) -> Result<ParseNode<V, T>, ()> {
        let node = Self::pop_node(stack, variable, amount);
        let bottom = stack.last().ok_or(())?.state;
        let state = *self
            .table
            .goto
            .get(bottom)
            .and_then(|goto| goto.get(&variable))
            .ok_or(())?;
        Ok(ParseNode { node, state })
    }
''')]),
    ('same', 'C25', 'model lookups by position', [(MOD, '''        self.states
            .iter()
            .find(|State { id, .. }| *id == state_id)
            .expect("requested state does not exist")''', '''        for state in &self.states {
            if state.id == state_id {
                return state;
            }
        }

        panic!("requested state does not exist")'''), (MOD, '''        self.get_state_mut(start)
            .transitions
            .entry(input)
            .or_insert(HashSet::new())
            .insert(end);''', '''        let transitions = &mut self.get_state_mut(start).transitions;
        match transitions.get_mut(&input) {
            Some(ends) => {
                ends.insert(end);
            }
            None => {
                transitions.insert(input, HashSet::from([end]));
            }
        }''')]),
    ('same', 'C15', 'map while by if let', [(MAPW, '''        match self.iter.peek() {
            Some(next) => {
                let result = (self.predicate)(next);

                if result.is_some() {
                    self.iter.next();
                }

                result
            }
            None => None,
        }''', '''        let mapped = self.iter.peek().and_then(&self.predicate)?;
        let _ = self.iter.next();
        Some(mapped)''')]),
    # ---- edits without any effect
    ('same', 'C01', 'do nothing statements', [
        (LEX, '''        let mut token_kind = None;
''', '''        let mut token_kind = None;
        let _characters = self.input.len();
        let () = ();
'''),
        (SIM, '''        let mut updated_runs = HashSet::new();
''', '''        let mut updated_runs = HashSet::new();
        let _amount_of_runs = self.runs.len();
        debug_assert!(!input.is_alphabetic() || input.is_alphabetic());
'''),
        (REX, '''        let mut lhs = self.sub_expression()?;
''', '''        let mut lhs = self.sub_expression()?;
        let _ = lhs.len();
        if false {
            lhs.clear();
        }
'''),
        (COM, '''        match expr {
            ExprKind::Concat(exprs) => {''', '''        let expr = expr;
        let _ = (start, end);
        match expr {
            ExprKind::Concat(exprs) => {'''),
        (TOK, '''    fn handle_class(&self, ch: char) -> ClassKind {
''', '''    fn handle_class(&self, ch: char) -> ClassKind {
        let ch = ch;
        drop(());
'''),
        (GRAM, '''        let mut dependencies = HashMap::new();
''', '''        let mut dependencies = HashMap::new();
        let _rule_amount = self.rules.len();
        {}
'''),
        (ITEM, '''        self.cursor = self.cursor.min(self.get_body().len());
''', '''        self.cursor = self.cursor.min(self.get_body().len());
        let _ = self.cursor;
        self.cursor += 0;
'''),
        (CFSM, '''            // try all symbols with a bullet reading them
''', '''            // try all symbols with a bullet reading them
            let _pending = pending_states.len();
'''),
        (TABLE, '''        let follow_set = grammar.follow_set();
''', '''        let follow_set = grammar.follow_set();
        let _ = follow_set.len();
        debug_assert!(follow_set.len() < usize::MAX);
'''),
        (SLR, '''        let mut accept = false;
''', '''        let mut accept = false;
        let _depth = stack.len();
        let _ = token.is_some();
'''),
        (PEEK, '''        let next = self.iter.next();
''', '''        let next = self.iter.next();
        let _taken = next.is_some();
'''),
    ]),
]
