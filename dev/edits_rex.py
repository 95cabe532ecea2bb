T = 'pango-lexer/src/regex/tokenizer.rs'
P = 'pango-lexer/src/regex/parser.rs'
LX = 'pango-lexer/src/lexer/mod.rs'
QUANT = '''        let literal = self.match_item()?;

        let quantifier = match self.tokens.peek().copied() {'''
EDITS = [
    ('bug', 'C05', 'unmatched paren accepted', [(P, '''                None => Ok(expr),
                Some(_) => Err(''', '''                None | Some(Token { kind: TokenKind::Operator(OperatorKind::RightParen), .. }) => Ok(expr),
                Some(_) => Err(''')]),
    ('bug', 'C05', 'empty operand accepted', [(P, '''        if literals.is_empty() {
            return Err(''', '''        if literals.is_empty() && self.tokens.peek().is_none() {
            return Err(''')]),
    ('bug', 'C05', 'empty last alternative accepted', [(P, '''        if self.tokens.peek().is_none() {
            return Err(W(vec![ParseError {
                kind: ParseErrorKind::SubExpression,
                pos: self.get_current_token_position(),
            }]));
        }

        let mut literals = Vec::new();''', '''        if self.tokens.peek().is_none() {
            return Ok(vec![ast::ExprKind::Empty]);
        }

        let mut literals = Vec::new();''')]),
    ('bug', 'C05', 'missing right paren accepted', [(P, '''        if !matches!(
            self.tokens.next(),
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightParen)
            })
        ) {''', '''        if !matches!(
            self.tokens.next(),
            None | Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightParen)
            })
        ) {''')]),
    ('bug', 'C05', 'missing right bracket accepted', [(P, '''            }) => (),
            _ => {''', '''            }) => (),
            None if !literals.is_empty() => (),
            _ => {''')]),
    ('bug', 'C05 C09', 'two quantifiers', [(P, QUANT, '''        let literal = self.match_item()?;
        if let Some(Token { pos: _, kind: TokenKind::Quantifier(_) }) = self.tokens.peek() {
            let q = self.tokens.next();
            if !matches!(self.tokens.peek(), Some(Token { pos: _, kind: TokenKind::Quantifier(_) })) {
                if let Some(Token { pos: _, kind: TokenKind::Quantifier(q) }) = q {
                    return Ok(ast::ExprKind::Lit(literal, Some(q)));
                }
            }
        }

        let quantifier = match self.tokens.peek().copied() {''')]),
    ('bug', 'C05', 'stray quantifier skipped', [(P, '''        match kind {
            TokenKind::Operator(OperatorKind::LeftParen) => self.group(),''', '''        match kind {
            TokenKind::Quantifier(_) => {
                self.tokens.next();
                self.match_()
            }
            TokenKind::Operator(OperatorKind::LeftParen) => self.group(),''')]),
    ('bug', 'C05', 'minus is a literal', [(P, '''            _ => {
                return Err(W(vec![ParseError {
                    kind: ParseErrorKind::MatchCharacterClassLeftBracket,''', '''            Some(Token { pos: _, kind: TokenKind::Operator(OperatorKind::Minus) }) => {
                self.tokens.next();
                ast::LiteralKind::Match('-')
            }

            _ => {
                return Err(W(vec![ParseError {
                    kind: ParseErrorKind::MatchCharacterClassLeftBracket,''')]),
    ('bug', 'C05', 'range end class', [(P, '''                            _ => {
                                return Err(W(vec![ParseError {
                                    kind: ParseErrorKind::Match,''', '''                            Some(Token { pos: _, kind: Class(_) }) => ast::GroupedLiteralKind::Match(start),
                            _ => {
                                return Err(W(vec![ParseError {
                                    kind: ParseErrorKind::Match,''')]),
    ('bug', 'C05', 'invalid in group ignored', [(P, '''                _ => {
                    return Err(W(vec![ParseError {
                        kind: ParseErrorKind::CharacterClassCharacter,''', '''                Invalid => ast::GroupedLiteralKind::Match('\\u{fffd}'),
                _ => {
                    return Err(W(vec![ParseError {
                        kind: ParseErrorKind::CharacterClassCharacter,''')]),
    ('bug', 'C05', 'trailing minus in group', [(P, '''                            _ => {
                                return Err(W(vec![ParseError {
                                    kind: ParseErrorKind::Match,''', '''                            Some(Token { pos: _, kind: Operator(OperatorKind::RightBracket) }) => ast::GroupedLiteralKind::Range(start, start),
                            _ => {
                                return Err(W(vec![ParseError {
                                    kind: ParseErrorKind::Match,''')]),
    ('bug', 'C05', 'empty group refused', [(P, '''        match self.tokens.next() {
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightBracket),
            }) => (),''', '''        match self.tokens.next() {
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightBracket),
            }) if !literals.is_empty() => (),''')]),
    ('bug', 'C05', 'empty regex refused', [(P, '''        if self.tokens.peek().is_none() {
            return Ok(Ast(ast::ExprKind::Empty));
        }

''', '')]),
    ('bug', 'C05', 'panic on end in group', [(P, '''        } else {
            Err(W(vec![ParseError {
                kind: ParseErrorKind::TokenForCharacterGroupItem,''', '''        } else if self.tokens.current().is_some() {
            unreachable!()
        } else {
            Err(W(vec![ParseError {
                kind: ParseErrorKind::TokenForCharacterGroupItem,'''), (P, '''        while let Some(token) = self.tokens.peek() {
            match *token {
                Token {
                    pos: _,
                    kind: TokenKind::Operator(OperatorKind::RightBracket),
                } => {
                    break;
                }
                _ => literals.push(self.character_group_item()?),
            };
        }''', '''        while !matches!(self.tokens.peek(), Some(Token { pos: _, kind: TokenKind::Operator(OperatorKind::RightBracket) })) {
            literals.push(self.character_group_item()?);
        }''')]),
    ('bug', 'C05', 'errors only when kept', [(P, '''                self.errors.append(&mut errs.0);
                Err(W(self.errors.clone()))''', '''                self.errors.append(&mut errs.0);
                if self.errors.len() > 1 {
                    return Ok(Ast(ast::ExprKind::Empty));
                }
                Err(W(self.errors.clone()))''')]),
    ('bug', 'C05', 'error ignored at registration', [(LX, '''        self.fsm_compiler
            .add_expression(regex::Parser::new(token).parse()?);
''', '''        if let Ok(expr) = regex::Parser::new(token).parse() {
            self.fsm_compiler.add_expression(expr);
        }
''')]),
    ('bug', 'C05', 'regex trimmed', [(LX, 'regex::Parser::new(token).parse()?', 'regex::Parser::new(token.trim_end()).parse()?')]),
    ('bug', 'C05', 'registration unwraps', [(LX, 'regex::Parser::new(token).parse()?', 'regex::Parser::new(token).parse().unwrap_or_else(|_| panic!())')]),
    ('bug', 'C05', 'map registration keeps going', [(LX, '''        self.add_token(token, TokenKindGenerator::Map(Box::new(token_kind_map)))?;
        Ok(self)''', '''        let _ = self.add_token(token, TokenKindGenerator::Map(Box::new(token_kind_map)));
        Ok(self)''')]),
    ('bug', 'C09', 'alternatives swapped', [(P, '''                Ok(ast::ExprKind::Alt(
                    Box::new(lhs),
                    Box::new(self.expression()?),
                ))''', '''                let rhs = self.expression()?;
                Ok(ast::ExprKind::Alt(Box::new(rhs), Box::new(lhs)))''')]),
    ('bug', 'C09', 'alternation takes last item only', [(P, '''                self.tokens.next();
                Ok(ast::ExprKind::Alt(
                    Box::new(lhs),
                    Box::new(self.expression()?),
                ))''', '''                self.tokens.next();
                let rhs = self.expression()?;
                Ok(match lhs {
                    ast::ExprKind::Concat(mut v) => {
                        let last = v.pop().expect("not empty");
                        v.push(ast::ExprKind::Alt(Box::new(last), Box::new(rhs)));
                        ast::ExprKind::Concat(v)
                    }
                    lhs => ast::ExprKind::Alt(Box::new(lhs), Box::new(rhs)),
                })''')]),
    ('bug', 'C09', 'items inserted in front', [(P, 'literals.push(self.sub_expression_item()?);', 'let item = self.sub_expression_item()?;\n            literals.insert(0, item);')]),
    ('bug', 'C09', 'item doubled', [(P, 'literals.push(self.sub_expression_item()?);', 'let item = self.sub_expression_item()?;\n            if literals.len() == 3 { literals.push(item.clone()); }\n            literals.push(item);')]),
    ('bug', 'C09', 'first of two', [(P, 'if lhs.len() == 1 {', 'if lhs.len() <= 2 {')]),
    ('bug', 'C09', 'group quantifier lost', [(P, '''                self.tokens.next();
                Some(quant_kind)
            }
            _ => None,
        };

        Ok(ast::ExprKind::Group(Box::new(expr), quantifier))''', '''                self.tokens.next();
                Some(quant_kind).filter(|q| !matches!(q, super::tokenizer::QuantifierKind::QuestionMark))
            }
            _ => None,
        };

        Ok(ast::ExprKind::Group(Box::new(expr), quantifier))''')]),
    ('bug', 'C09', 'quantifier applied inside group', [(P, '''        Ok(ast::ExprKind::Group(Box::new(expr), quantifier))''', '''        if let (ast::ExprKind::Lit(l, None), Some(_)) = (&expr, &quantifier) {
            return Ok(ast::ExprKind::Lit(l.clone(), None));
        }
        Ok(ast::ExprKind::Group(Box::new(expr), quantifier))''')]),
    ('bug', 'C09', 'caret inside group negates', [(P, '''                _ => literals.push(self.character_group_item()?),
            };''', '''                Token {
                    pos: _,
                    kind: TokenKind::Operator(OperatorKind::Carret),
                } => {
                    self.tokens.next();
                    negated = true;
                }
                _ => literals.push(self.character_group_item()?),
            };'''), (P, 'let negated = match', 'let mut negated = match')]),
    ('bug', 'C09', 'range ends sorted', [(P, ') => ast::GroupedLiteralKind::Range(start, end),', ') => ast::GroupedLiteralKind::Range(start.min(end), start.max(end)),')]),
    ('bug', 'C09', 'range ends swapped', [(P, ') => ast::GroupedLiteralKind::Range(start, end),', ') => ast::GroupedLiteralKind::Range(end, start),')]),
    ('bug', 'C09', 'range of ascii only', [(P, ') => ast::GroupedLiteralKind::Range(start, end),', ') if end.is_ascii() => ast::GroupedLiteralKind::Range(start, end),\n                            Some(_) => ast::GroupedLiteralKind::Match(start),')]),
    ('bug', 'C09', 'not negated when empty', [(P, '''            negated,
            literals: W(literals),''', '''            negated: negated && !literals.is_empty(),
            literals: W(literals),''')]),
    ('bug', 'C09', 'duplicate group items dropped', [(P, '_ => literals.push(self.character_group_item()?),', '_ => {\n                    let item = self.character_group_item()?;\n                    if literals.len() < 16 { literals.push(item) }\n                }')]),
    ('bug', 'C14', 'behind the regex', [(P, ') => (end_cursor_pos - 1, end_cursor_pos),', ') => (end_cursor_pos, end_cursor_pos + 1),')]),
    ('bug', 'C14', 'empty range at the end', [(P, ') => (end_cursor_pos - 1, end_cursor_pos),', ') => (end_cursor_pos, end_cursor_pos),')]),
    ('bug', 'C14', 'empty range of a token', [(P, ') => (*begin_cursor_pos, *end_cursor_pos),', ') => (*begin_cursor_pos, *end_cursor_pos - 1),')]),
    ('bug', 'C14', 'two characters at the end', [(P, ') => (end_cursor_pos - 1, end_cursor_pos),', ') => (end_cursor_pos - 2, end_cursor_pos),')]),
    ('bug', 'C14', 'group item behind', [(P, '''                        kind: ParseErrorKind::CharacterClassCharacter,
                        pos,''', '''                        kind: ParseErrorKind::CharacterClassCharacter,
                        pos: (pos.1, pos.1 + 1),''')]),
    ('bug', 'C14', 'no token gives zero', [(P, '_ => (0, 1),', '_ => (0, 0),')]),
    ('bug', 'C14', 'byte offsets', [(T, 'input.chars().enumerate().cached_peekable()', 'input.char_indices().cached_peekable()'), (T, "CachedPeekable<Enumerate<Chars<'a>>>", "CachedPeekable<CharIndices<'a>>"), (T, 'use std::{iter::Enumerate, str::Chars};', 'use std::str::CharIndices;')]),
    ('bug', 'C14', 'end too far', [(T, 'cursor_pos + 1', 'cursor_pos + 2')]),
    ('same', 'C05 C09 C14', 'always concat', [(P, '''        let mut lhs = self.sub_expression()?;
        let lhs = if lhs.len() == 1 {
            lhs.remove(0)
        } else {
            ast::ExprKind::Concat(lhs)
        };''', '''        let lhs = ast::ExprKind::Concat(self.sub_expression()?);''')]),
    ('same', 'C05 C09 C14', 'quantifier helper', [(P, '''        // QUANTIFIER
        let quantifier = match self.tokens.peek().copied() {
            Some(Token {
                pos: _,
                kind: TokenKind::Quantifier(quant_kind),
            }) => {
                self.tokens.next();
                Some(quant_kind)
            }
            _ => None,
        };

        Ok(ast::ExprKind::Group(Box::new(expr), quantifier))
    }
''', '''        Ok(ast::ExprKind::Group(Box::new(expr), self.quantifier()))
    }

    fn quantifier(&mut self) -> Option<super::tokenizer::QuantifierKind> {
        let next = self
            .tokens
            .next_if(|t| matches!(t.kind, TokenKind::Quantifier(_)))?;
        match next.kind {
            TokenKind::Quantifier(kind) => Some(kind),
            _ => unreachable!(),
        }
    }
'''), (P, '''        let literal = self.match_item()?;

        let quantifier = match self.tokens.peek().copied() {
            Some(Token {
                pos: _,
                kind: TokenKind::Quantifier(quant_kind),
            }) => {
                self.tokens.next();
                Some(quant_kind)
            }
            _ => None,
        };

        Ok(ast::ExprKind::Lit(literal, quantifier))''', '''        let literal = self.match_item()?;
        let quantifier = self.quantifier();
        Ok(ast::ExprKind::Lit(literal, quantifier))''')]),
    ('same', 'C05 C09 C14', 'loop with break', [(P, '''        while !matches!(
            self.tokens.peek(),
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Vertical)
                    | TokenKind::Operator(OperatorKind::RightParen)
            }) | None
        ) {
            literals.push(self.sub_expression_item()?);
        }
''', '''        loop {
            match self.tokens.peek() {
                None => break,
                Some(t) if t.kind == TokenKind::Operator(OperatorKind::Vertical) => break,
                Some(t) if t.kind == TokenKind::Operator(OperatorKind::RightParen) => break,
                Some(_) => (),
            }
            let item = self.sub_expression_item()?;
            literals.push(item);
        }
''')]),
    ('same', 'C05 C09 C14', 'group loop rewritten', [(P, '''        while let Some(token) = self.tokens.peek() {
            match *token {
                Token {
                    pos: _,
                    kind: TokenKind::Operator(OperatorKind::RightBracket),
                } => {
                    break;
                }
                _ => literals.push(self.character_group_item()?),
            };
        }

        match self.tokens.next() {
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::RightBracket),
            }) => (),
            _ => {
                return Err(W(vec![ParseError {
                    kind: ParseErrorKind::RightBracket,
                    pos: self.get_current_token_position(),
                }]))
            }
        }
''', '''        loop {
            match self.tokens.peek() {
                None => {
                    return Err(W(vec![ParseError {
                        kind: ParseErrorKind::RightBracket,
                        pos: self.get_current_token_position(),
                    }]))
                }
                Some(Token { kind: TokenKind::Operator(OperatorKind::RightBracket), .. }) => {
                    self.tokens.next();
                    break;
                }
                Some(_) => {
                    let item = self.character_group_item()?;
                    literals.push(item)
                }
            }
        }
''')]),
    ('same', 'C05 C09 C14', 'no eager checks', [(P, '''        if self.tokens.peek().is_none() {
            return Err(W(vec![ParseError {
                kind: ParseErrorKind::CharacterGroupItem,
                pos: self.get_current_token_position(),
            }]));
        }
''', ''), (P, '''        if self.tokens.peek().is_none() {
            return Err(W(vec![ParseError {
                kind: ParseErrorKind::SubExpression,
                pos: self.get_current_token_position(),
            }]));
        }
''', '')]),
    ('same', 'C05 C09 C14', 'error helper', [(P, '''            return Err(W(vec![ParseError {
                kind: ParseErrorKind::LeftBracket,
                pos: self.get_current_token_position(),
            }]));
        }

        // CARRET?''', '''            return Err(self.error(ParseErrorKind::LeftBracket));
        }

        // CARRET?'''), (P, '''    fn get_current_token_position(''', '''    fn error(&mut self, kind: ParseErrorKind) -> W<Vec<ParseError>> {
        let pos = self.get_current_token_position();
        W(vec![ParseError { kind, pos }])
    }

    fn get_current_token_position(''')]),
    ('same', 'C05 C09 C14', 'caret with next_if', [(P, '''        let negated = match self.tokens.peek() {
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Carret),
            }) => {
                self.tokens.next();
                true
            }
            _ => false,
        };''', '''        let negated = self
            .tokens
            .next_if(|t| t.kind == TokenKind::Operator(OperatorKind::Carret))
            .is_some();''')]),
    ('same', 'C05 C09 C14', 'alternation loop', [(P, '''        match self.tokens.peek() {
            Some(Token {
                pos: _,
                kind: TokenKind::Operator(OperatorKind::Vertical),
            }) => {
                self.tokens.next();
                Ok(ast::ExprKind::Alt(
                    Box::new(lhs),
                    Box::new(self.expression()?),
                ))
            }
            _ => Ok(lhs),
        }
''', '''        let mut operands = vec![lhs];
        while let Some(Token {
            pos: _,
            kind: TokenKind::Operator(OperatorKind::Vertical),
        }) = self.tokens.peek()
        {
            self.tokens.next();
            let mut items = self.sub_expression()?;
            operands.push(if items.len() == 1 {
                items.remove(0)
            } else {
                ast::ExprKind::Concat(items)
            });
        }
        let mut expr = operands.pop().expect("at least one operand");
        while let Some(lhs) = operands.pop() {
            expr = ast::ExprKind::Alt(Box::new(lhs), Box::new(expr));
        }
        Ok(expr)
''')]),
    ('same', 'C05 C09 C14', 'question marks', [(P, '''        match result {
            Ok(expr) => Ok(Ast(expr)),
            Err(mut errs) => {
                self.errors.append(&mut errs.0);
                Err(W(self.errors.clone()))
            }
        }''', '''        result.map(Ast).map_err(|mut errs| {
            self.errors.append(&mut errs.0);
            W(std::mem::take(&mut self.errors))
        })''')]),
    ('same', 'C05', 'registration parses first', [(LX, '''        let token_final_state = self.fsm_compiler.new_final();

        self.fsm_compiler
            .add_expression(regex::Parser::new(token).parse()?);
''', '''        let expr = match regex::Parser::new(token).parse() {
            Ok(expr) => expr,
            Err(errs) => return Err(errs),
        };
        let token_final_state = self.fsm_compiler.new_final();
        self.fsm_compiler.add_expression(expr);
''')]),
]
