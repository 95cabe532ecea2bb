LX = 'pango-lexer/src/lexer/mod.rs'
IN = 'pango-lexer/src/lexer/input.rs'
PA = 'pango-parser/src/parser/slr.rs'
FIN = '        if !input.is_finished() {'
K = 'pango-lexer/src/fsm/nfa/compiler.rs'
UNREAD = '''        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
            .into_iter()
            .chain(self.prev_characters_iter.by_ref())
            .collect::<Vec<_>>()
            .into_iter();'''
NEXT = '''        self.prev_characters_iter
            .next()
            .or_else(|| self.iter.next())
            .map(|(pos, ch)| {
                self.token_suffix.push((pos, ch));
                ch
            })'''
ACCEPT = '''        let mut last_pos = 0;

        self.current_token.source.push_str(
            &std::mem::take(&mut self.token_suffix)
                .into_iter()
                .map(|(pos, ch)| {
                    last_pos = pos;
                    ch
                })
                .collect::<String>(),
        );
        // The end position is one beyond the last character of the token.
        self.current_token.update_pos_end(last_pos + 1);'''
CONSUME = '''        self.unread_suffix();
        let new_token = InputIterToken {'''
LOOP = '''        while let Some(ch) = self.iter.next() {
            if !sim.can_feed(ch) {
                // the current token is the longest token we can 'munch'

                break;
            }
'''
FINAL = '''        match token_kind {
            Some(token_kind) => Some(Token::from_input_iter_token(
                self.iter.consume_token(),
                token_kind,
            )),
            None => {
                // no token starts here, so the input that has been read stays unread
                self.iter.unread_suffix();
                None
            }
        }'''
FS = '''                let final_state = sim
                    .get_current_final_states()
                    .into_iter()
                    .next()
                    .expect("expected a single final state");
'''
EDITS = [
    ('bug', 'C01', 'given back lost when more given back', [(IN, UNREAD, '        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();')]),
    ('bug', 'C01', 'given back in wrong order', [(IN, UNREAD, '''        let mut rest = self.prev_characters_iter.by_ref().collect::<Vec<_>>();
        rest.append(&mut self.token_suffix);
        self.prev_characters_iter = rest.into_iter();''')]),
    ('bug', 'C01', 'given back reversed', [(IN, '            .into_iter()\n            .chain(self.prev', '            .into_iter()\n            .rev()\n            .chain(self.prev')]),
    ('bug', 'C01', 'given back twice', [(IN, UNREAD, UNREAD.replace('std::mem::take(&mut self.token_suffix)', 'self.token_suffix.clone()'))]),
    ('bug', 'C01', 'unread first', [(IN, NEXT, NEXT.replace('self.prev_characters_iter\n            .next()', 'self.iter\n            .next()').replace('self.iter.next())', 'self.prev_characters_iter.next())'))]),
    ('bug', 'C01', 'given back dropped when only one', [(IN, CONSUME, '''        if self.token_suffix.len() > 1 {
            self.unread_suffix();
        } else {
            self.token_suffix.clear();
        }
        let new_token = InputIterToken {''')]),
    ('bug', 'C01', 'end without one', [(IN, 'self.current_token.update_pos_end(last_pos + 1);', 'self.current_token.update_pos_end(last_pos);')]),
    ('bug', 'C01', 'end by bytes', [(IN, 'self.current_token.update_pos_end(last_pos + 1);', 'let _ = last_pos;\n        self.current_token.update_pos_end(self.current_token.pos.0 + self.current_token.source.len());')]),
    ('bug', 'C01', 'next start off', [(IN, 'pos: (self.current_token.pos.1, 0),', 'pos: (self.current_token.pos.1 + 1, 0),')]),
    ('bug', 'C01', 'next start from text length', [(IN, 'pos: (self.current_token.pos.1, 0),', 'pos: (self.current_token.source.chars().count(), 0),')]),
    ('bug', 'C01', 'text kept for the next token', [(IN, 'std::mem::replace(&mut self.current_token, new_token)', 'let old = self.current_token.clone();\n        self.current_token.pos = new_token.pos;\n        old')]),
    ('bug', 'C01', 'source without whitespace', [(IN, '''                .map(|(pos, ch)| {
                    last_pos = pos;
                    ch
                })
                .collect::<String>(),''', '''                .filter_map(|(pos, ch)| {
                    last_pos = pos;
                    (!ch.is_whitespace()).then_some(ch)
                })
                .collect::<String>(),''')]),
    ('bug', 'C01', 'input trimmed', [(IN, 'iter: input.chars().enumerate(),', 'iter: input.trim_start().chars().enumerate(),')]),
    ('bug', 'C01', 'nothing given back without a token', [(LX, 'self.iter.unread_suffix();\n                None', 'None')]),
    ('bug', 'C01', 'source twice', [(LX, '                self.iter.accept_suffix();\n', '                self.iter.accept_suffix();\n                if token_kind.is_none() && sim.is_accepting() { self.iter.accept_suffix(); }\n')]),
    ('bug', 'C01 C02', 'consumed suffix', [(IN, CONSUME, '        self.accept_suffix();\n        let new_token = InputIterToken {')]),
    ('bug', 'C02', 'first match wins', [(LX, '''                    },
                );
            }
        }
''', '''                    },
                );
                break;
            }
        }
''')]),
    ('bug', 'C02', 'stops at white space after a match', [(LX, 'if !sim.can_feed(ch) {', 'if !sim.can_feed(ch) || token_kind.is_some() && ch == \' \' {')]),
    ('bug', 'C02', 'nothing at the end of the input', [(LX, '        match token_kind {\n            Some(token_kind) => Some(Tok', '        match token_kind {\n            Some(_) if self.iter.is_empty() && self.iter.get_token().source.len() > 1 => None,\n            Some(token_kind) => Some(Tok')]),
    ('bug', 'C02', 'forgets the match when reading on', [(LX, '            if sim.feed(ch) {\n', '            if !sim.feed(ch) {\n                token_kind = None;\n            } else {\n')]),
    ('bug', 'C02', 'accepts when not accepting', [(LX, '            if sim.feed(ch) {', '            if sim.feed(ch) || token_kind.is_some() {')]),
    ('bug', 'C02', 'only after the first character', [(LX, '            if sim.feed(ch) {', '            if sim.feed(ch) && (token_kind.is_none() || !ch.is_ascii_digit()) {')]),
    ('bug', 'C02', 'feeds twice', [(LX, '            if sim.feed(ch) {', '            sim.feed(ch);\n            if sim.feed(ch) {')]),
    ('bug', 'C02', 'lookahead at most three', [(LX, LOOP, LOOP.replace('while let', 'let mut ahead = 0;\n        while let').replace('if !sim.can_feed(ch) {', 'ahead += 1;\n            if !sim.can_feed(ch) || ahead > 3 {'))]),
    ('bug', 'C03', 'last final state', [(LX, '                    .into_iter()\n                    .next()\n                    .expect("expected a single final state");', '                    .into_iter()\n                    .last()\n                    .expect("expected a single final state");')]),
    ('bug', 'C03', 'kind of the first match', [(LX, '                token_kind = Some(\n', '                if token_kind.is_some() { continue; }\n                token_kind = Some(\n')]),
    ('bug', 'C03', 'text before the match', [(LX, '''                // The finite-state machine currently accepts. Append the last unaccepted
                // characters to the token and store the token kind.
                self.iter.accept_suffix();
''', ''), (LX, '''                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
                    },
                );''', '''                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
                    },
                );
                self.iter.accept_suffix();''')]),
    ('bug', 'C03', 'text trimmed', [(LX, 'token_kind_gen(&self.iter.get_token().source)', 'token_kind_gen(self.iter.get_token().source.trim())')]),
    ('bug', 'C03', 'text lowercase', [(LX, 'token_kind_gen(&self.iter.get_token().source)', 'token_kind_gen(&self.iter.get_token().source.to_lowercase())')]),
    ('bug', 'C03', 'text is the whole input', [(LX, 'token_kind_gen(&self.iter.get_token().source)', 'token_kind_gen(self.input)')]),
    ('bug', 'C03', 'generator of the first token', [(LX, '                        .get_mut(&final_state)\n', '                        .values_mut().next()\n')]),
    ('bug', 'C03', 'bound to the previous state', [(LX, '        self.tokens.insert(token_final_state, token_kind);', '        self.tokens.entry(token_final_state - 1).or_insert(token_kind);')]),
    ('bug', 'C03', 'first final reused', [(LX, '        let token_final_state = self.fsm_compiler.new_final();\n', ''), (LX, '            .add_expression(regex::Parser::new(token).parse()?);\n', '            .add_expression(regex::Parser::new(token).parse()?);\n        let token_final_state = self.fsm_compiler.new_final();\n')]),
    ('bug', 'C03', 'old generator kept', [(LX, '        self.tokens.insert(token_final_state, token_kind);', '        self.tokens.clear();\n        self.tokens.insert(token_final_state, token_kind);')]),
    ('bug', 'C03', 'finals numbered down', [(K, '        self.final_state = self.nfa.add_state(true);\n        self.final_state', '        self.final_state = self.nfa.add_state(true);\n        usize::MAX - self.final_state')]),
    ('bug', 'C03', 'new final not remembered', [(K, '        self.final_state = self.nfa.add_state(true);\n        self.final_state', '        let id = self.nfa.add_state(true);\n        if self.final_state == 0 { self.final_state = id; }\n        id')]),
    ('bug', 'C03', 'new final not final', [(K, '        self.final_state = self.nfa.add_state(true);\n        self.final_state', '        self.final_state = self.nfa.add_state(false);\n        self.final_state')]),
    ('bug', 'C04', 'finished ignores given back', [(IN, 'self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().next().is_none()', 'self.iter.clone().next().is_none()')]),
    ('bug', 'C04', 'finished with or', [(IN, 'is_empty() && self.iter', 'is_empty() || self.iter')]),
    ('bug', 'C04', 'skips a character without a token', [(LX, 'self.iter.unread_suffix();\n                None', 'self.iter.unread_suffix();\n                self.iter.skip_one();\n                None'), (IN, '    pub(super) fn get_token(', '    pub(super) fn skip_one(&mut self) {\n        self.prev_characters_iter.next();\n    }\n\n    pub(super) fn get_token(')]),
    ('bug', 'C04', 'nothing given back', [(LX, 'self.iter.unread_suffix();\n                None', 'None')]),
    ('bug', 'C04', 'left over input ignored', [(PA, FIN, '        if false {')]),
    ('bug', 'C04', 'left over input refused with a tree only', [(PA, FIN, '        if !input.is_finished() && stack.len() < 3 {')]),
    ('bug', 'C04', 'left over checked the wrong way', [(PA, FIN, '        if input.is_finished() {')]),
    ('bug', 'C04', 'left over looked at before', [(PA, '        let mut next_token = None;\n', '        let mut next_token = None;\n        let finished = input.is_finished();\n'), (PA, FIN, '        if !input.is_finished() && !finished && stack.len() == 1 {')]),
    ('same', 'C01 C02 C03 C04', 'loop with let else', [(LX, LOOP, '''        loop {
            let Some(ch) = self.iter.next() else { break };
            let fits = sim.can_feed(ch);
            if !fits {
                break;
            }
''')]),
    ('same', 'C01 C02 C03 C04', 'by_ref', [(LX, 'while let Some(ch) = self.iter.next() {', 'for ch in self.iter.by_ref() {')][:0] or [(LX, FINAL, '''        if token_kind.is_none() {
            self.iter.unread_suffix();
            return None;
        }
        token_kind.map(|kind| Token::from_input_iter_token(self.iter.consume_token(), kind))''')]),
    ('same', 'C01 C02 C03 C04', 'question mark', [(LX, FINAL, '''        self.iter.unread_suffix();
        let kind = token_kind?;
        let InputIterToken { source, pos } = self.iter.consume_token();
        Some(Token { kind, source, pos })''')]),
    ('same', 'C01 C02 C03 C04', 'accept loop', [(IN, ACCEPT, '''        let mut end = self.current_token.pos.1;
        for (pos, ch) in self.token_suffix.drain(..) {
            self.current_token.source.push(ch);
            end = pos + 1;
        }
        self.current_token.update_pos_end(end);''')]),
    ('same', 'C01 C02 C03 C04', 'accept by last', [(IN, ACCEPT, '''        let suffix = std::mem::take(&mut self.token_suffix);
        let last_pos = suffix.last().map(|(pos, _)| *pos).unwrap_or(0);
        self.current_token.source.extend(suffix.iter().map(|(_, ch)| *ch));
        self.current_token.update_pos_end(last_pos + 1);''')]),
    ('same', 'C01 C02 C03 C04', 'end by count', [(IN, ACCEPT, '''        for (_, ch) in std::mem::take(&mut self.token_suffix) {
            self.current_token.source.push(ch);
        }
        let end = self.current_token.pos.0 + self.current_token.source.chars().count();
        self.current_token.update_pos_end(end);''')]),
    ('same', 'C01 C02 C03 C04', 'next by match', [(IN, NEXT, '''        let next = match self.prev_characters_iter.next() {
            Some(next) => Some(next),
            None => self.iter.next(),
        };
        let (pos, ch) = next?;
        self.token_suffix.push((pos, ch));
        Some(ch)''')]),
    ('same', 'C01 C02 C03 C04', 'unread by extend', [(IN, UNREAD, '''        let mut rest = std::mem::take(&mut self.token_suffix);
        rest.extend(self.prev_characters_iter.by_ref());
        self.prev_characters_iter = rest.into_iter();''')]),
    ('same', 'C01 C02 C03 C04', 'unread when needed', [(IN, UNREAD, '''        if self.token_suffix.is_empty() {
            return;
        }
''' + UNREAD)]),
    ('same', 'C01 C02 C03 C04', 'token reset with new', [(IN, '''        let new_token = InputIterToken {
            // OPTIMIZATION: Assume that the string length of the new token will at least be half
            // of the previous token.
            //
            // TODO(benchmark): Check if this is an actual optimization.
            source: String::with_capacity(self.current_token.source.len() / 2),
            pos: (self.current_token.pos.1, 0),
        };''', '''        let new_token = InputIterToken::new(self.current_token.pos.1);''')]),
    ('same', 'C01 C02 C03 C04', 'generate at the end', [(LX, '''                token_kind = Some(
                    match self
                        .tokens
                        .get_mut(&final_state)
                        .expect("final state should match a single token")
                    {
                        TokenKindGenerator::Map(token_kind_gen) => {
                            token_kind_gen(&self.iter.get_token().source)
                        }

                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
                    },
                );
''', '''                token_state = Some(final_state);
'''), (LX, 'let mut token_kind = None;', 'let mut token_state = None;'), (LX, FINAL, '''        match token_state {
            Some(state) => {
                let token = self.iter.consume_token();
                let kind = match self
                    .tokens
                    .get_mut(&state)
                    .expect("final state should match a single token")
                {
                    TokenKindGenerator::Map(gen) => gen(&token.source),
                    TokenKindGenerator::Unit(gen) => gen(),
                };
                Some(Token::from_input_iter_token(token, kind))
            }
            None => {
                self.iter.unread_suffix();
                None
            }
        }''')]),
    ('same', 'C03', 'kind helper', [(LX, '''                token_kind = Some(
                    match self
                        .tokens
                        .get_mut(&final_state)
                        .expect("final state should match a single token")
                    {
                        TokenKindGenerator::Map(token_kind_gen) => {
                            token_kind_gen(&self.iter.get_token().source)
                        }

                        TokenKindGenerator::Unit(token_kind_gen) => token_kind_gen(),
                    },
                );
''', '''                token_kind = Some(self.tokens.get_mut(&final_state).expect("final state should match a single token").generate(&self.iter.get_token().source));
'''), (LX, '#[derive(Debug, PartialEq, Eq)]\npub struct Token<', '''impl<TokenKind> TokenKindGenerator<TokenKind> {
    fn generate(&mut self, text: &str) -> TokenKind {
        match self {
            Self::Map(gen) => gen(text),
            Self::Unit(gen) => gen(),
        }
    }
}

#[derive(Debug, PartialEq, Eq)]
pub struct Token<''')]),
    ('same', 'C03', 'least by first', [(LX, FS, '''                let states = sim.get_current_final_states();
                let final_state = *states.first().expect("expected a single final state");
''')]),
    ('same', 'C03', 'least by min', [(LX, FS, '''                let final_state = sim.get_current_final_states().into_iter().min().expect("expected a single final state");
''')]),
    ('same', 'C02', 'no can_feed', [(LX, LOOP, '        while let Some(ch) = self.iter.next() {\n')]),
    ('same', 'C01 C02 C03 C04', 'is_empty by match', [(IN, 'self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().next().is_none()', '''if self.prev_characters_iter.len() > 0 {
            return false;
        }
        self.iter.clone().next().is_none()''')]),
    ('same', 'C01 C02 C03 C04', 'all chained', [(IN, 'self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().next().is_none()', 'self.prev_characters_iter.clone().chain(self.iter.clone()).next().is_none()')]),
    ('same', 'C03', 'registration order', [(LX, '''        // bind the new final state to the token_kind.
        self.tokens.insert(token_final_state, token_kind);
        Ok(())''', '''        let old = self.tokens.insert(token_final_state, token_kind);
        debug_assert!(old.is_none());
        Ok(())''')]),
]
