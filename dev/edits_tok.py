T = 'pango-lexer/src/regex/tokenizer.rs'
P = 'pango-lexer/src/regex/parser.rs'
EDITS = [
    ('bug', 'C06', 'vertical tab', [(T, "'v' => Some(char::from_u32(0xb)", "'v' => Some(char::from_u32(0xc)")]),
    ('bug', 'C06', 'control Y', [(T, "                    'a'..='z' | 'A'..='Z' => {", "                    'a'..='z' | 'A'..='Y' => {")]),
    ('bug', 'C06', 'control mod 64', [(T, 'ch as u32 % 32', 'ch as u32 % 64')]),
    ('bug', 'C06', 'hex three digits', [(T, 'if digit_amount < 4 {', 'if digit_amount < 3 {')]),
    ('bug', 'C06', 'hex six digits', [(T, 'self.take_next_hexadecimals_and_convert_to_u32(5, None)?', 'self.take_next_hexadecimals_and_convert_to_u32(6, None)?')]),
    ('bug', 'C06', 'x one digit', [(T, 'if digit_amount != 2 {', 'if digit_amount < 1 {')]),
    ('bug', 'C06', 'no closing brace', [(T, "if last_bracket == '}' {", "if last_bracket != '{' {")]),
    ('bug', 'C06', 'dollar literal missing', [(T, "'f' | 'n' | 'r' | 't' | 'v' | '0' | '^' | '$' |", "'f' | 'n' | 'r' | 't' | 'v' | '0' | '^' |")]),
    ('bug', 'C06', 'digit class swapped', [(T, "            'd' => ClassKind::Digit,", "            'd' => ClassKind::NonDigit,")]),
    ('bug', 'C06', 'shift by 3', [(T, '(n << 4) + d', '(n << 3) + d')]),
    ('bug', 'C06', 'surrogates', [(T, "                        let result = char::from_u32(character_code);", "                        let result = char::from_u32(character_code).or(Some('\\u{fffd}'));")]),
    ('bug', 'C06', 'slash is operator', [(T, "            a => TokenKind::Match(a),", "            '/' => TokenKind::Invalid,\n                    a => TokenKind::Match(a),")]),
    ('bug', 'C06', 'tab dropped', [(T, "            a => TokenKind::Match(a),", "            a if a.is_ascii_control() => TokenKind::Invalid,\n                    a => TokenKind::Match(a),")]),
    ('bug', 'C06', 'lowercased', [(T, "            a => TokenKind::Match(a),", "            a => TokenKind::Match(a.to_ascii_lowercase()),")]),
    ('bug', 'C06', 'operators swapped', [(T, "'(' => OperatorKind::LeftParen,", "'(' => OperatorKind::LeftBracket,")]),
    ('bug', 'C06', 'newline escape takes one more', [(T, "'n' => Some('\\n'),", "'n' => { self.iter.next(); Some('\\n') }")]),
    ('bug', 'C06', 'u starts with digit only', [(T, 'let hex1 = ch.to_digit(16)?;', 'let hex1 = ch.to_digit(10)?;')]),
    ('bug', 'C06', 'braced value drops first', [(T, 'None => (0, 0),\n        };\n\n        self.iter', 'None => (0, 1),\n        };\n\n        self.iter')]),
    ('same', 'C06 C07', 'bit mask', [(T, 'ch as u32 % 32', 'ch as u32 & 0x1f')]),
    ('same', 'C06 C07', 'hex loop', [(T, '''        self.iter
            .by_ref()
            .cautious_map_while(|(_, ch)| ch.to_digit(16))
            .take(max_digits - digit_count as usize)
            .fold(Some((digit_count, start)), |acc, d| {
                acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
            })
''', '''        let mut count = digit_count;
        let mut value = start;
        while (count as usize) < max_digits {
            match self.iter.peek().and_then(|(_, ch)| ch.to_digit(16)) {
                Some(d) => {
                    self.iter.next();
                    count += 1;
                    value = value * 16 + d;
                }
                None => break,
            }
        }
        Some((count, value))
'''), (T, 'use crate::iter::{CachedPeekable, CachedPeekableable, CautiousMapWhileable};', 'use crate::iter::{CachedPeekable, CachedPeekableable, CautiousMapWhileable, Peekableable};')]),
    ('same', 'C06 C07', 'if chain', [(T, '''                let token_kind = match ch {
                    '\\\\' => self.handle_class_or_escape_sequence(),
                    '.' => TokenKind::Class(ClassKind::Wildcard),
                    '[' | ']' | '(' | ')' | '^' | '|' | '-' => self.handle_operators(ch),
                    '*' | '+' | '?' | '{' => self.handle_quantifier(ch),

                    a => TokenKind::Match(a),
                };
''', '''                let token_kind = if ch == '\\\\' {
                    self.handle_class_or_escape_sequence()
                } else if ch == '.' {
                    TokenKind::Class(ClassKind::Wildcard)
                } else if "[]()^|-".contains(ch) {
                    self.handle_operators(ch)
                } else if matches!(ch, '*' | '+' | '?' | '{') {
                    self.handle_quantifier(ch)
                } else {
                    TokenKind::Match(ch)
                };
''')]),
    ('same', 'C06 C07', 'literal control characters', [(T, "Some(char::from_u32(0xc).expect(\"failed to convert code point to character\"))", "Some('\\x0C')")]),
    ('same', 'C06 C07', 'early returns', [(T, '''    fn next(&mut self) -> Option<Self::Item> {
        match self.iter.next() {
            Some((start_cursor_pos, ch)) => {''', '''    fn next(&mut self) -> Option<Self::Item> {
        let first = self.iter.next();
        match first {
            Some((start_cursor_pos, ch)) => {''')]),
    ('bug', 'C07', 'zero second digit', [(T, "                    '0'..='9' => {\n                        let second_value", "                    '1'..='9' => {\n                        let second_value")]),
    ('bug', 'C07', 'wrapping', [(T, 'acc?.checked_mul(10)?.checked_add(d)', 'acc.map(|n| n.wrapping_mul(10).wrapping_add(d))')]),
    ('bug', 'C07', 'wrapping add', [(T, 'acc?.checked_mul(10)?.checked_add(d)', 'acc?.checked_mul(10).map(|n| n.wrapping_add(d))')]),
    ('bug', 'C07', 'saturating', [(T, 'acc?.checked_mul(10)?.checked_add(d)', 'acc.map(|n| n.saturating_mul(10).saturating_add(d))')]),
    ('bug', 'C07', 'panics', [(T, 'acc?.checked_mul(10)?.checked_add(d)', 'acc.map(|n| n * 10 + d)')]),
    ('bug', 'C07', 'plus and asterisk', [(T, "            '*' => QuantifierKind::Asterisk,", "            '*' => QuantifierKind::Plus,")]),
    ('bug', 'C07', 'min max swapped', [(T, 'if !comma_found {', 'if comma_found {')]),
    ('bug', 'C07', 'range reversed', [(T, 'QuantifierRangeKind::Range(min_value, max_value)', 'QuantifierRangeKind::Range(max_value, min_value)')]),
    ('bug', 'C07', 'range sorted', [(T, 'QuantifierRangeKind::Range(min_value, max_value)', 'QuantifierRangeKind::Range(min_value.min(max_value), max_value)')]),
    ('bug', 'C07', 'closing brace unchecked', [(T, "                        if ch != '}' {", "                        if ch == ',' {")]),
    ('bug', 'C07', 'no comma needed', [(T, "let comma_found = if ch == ',' {", "let comma_found = if ch == ',' || ch == ';' {")]),
    ('bug', 'C07', 'first digit lost', [(T, '''                let first_value = self.take_next_decimals_and_convert_to_u32(Some(
                    ch.to_digit(10)
                        .expect("failed to convert character to ascii digit"),
                ));''', '''                let _ = ch;
                let first_value = self.take_next_decimals_and_convert_to_u32(None);''')]),
    ('bug', 'C07', 'limited digits', [(T, '            .cautious_map_while(|(_, ch)| ch.to_digit(10))\n            .fold', '            .cautious_map_while(|(_, ch)| ch.to_digit(10))\n            .take(8)\n            .fold')]),
    ('bug', 'C07', 'hexadecimal', [(T, '            .cautious_map_while(|(_, ch)| ch.to_digit(10))\n            .fold', '            .cautious_map_while(|(_, ch)| ch.to_digit(16))\n            .fold')]),
    ('bug', 'C07', 'overflow ignored for max', [(T, '''                            let (Some(min_value), Some(max_value)) = (first_value, second_value)
                            else {
                                return TokenKind::Invalid;
                            };
''', '''                            let Some(min_value) = first_value
                            else {
                                return TokenKind::Invalid;
                            };
                            let max_value = second_value.unwrap_or(u32::MAX);
''')]),
    ('bug', 'C07', 'radix twelve', [(T, 'acc?.checked_mul(10)?.checked_add(d)', 'acc?.checked_mul(12)?.checked_add(d)')]),
    ('bug', 'C07', 'empty range is min', [(T, "                    _ => return TokenKind::Invalid,\n                };\n\n                QuantifierKind::Range", "                    ' ' if comma_found => QuantifierRangeKind::Min(0),\n                    _ => return TokenKind::Invalid,\n                };\n\n                QuantifierKind::Range")]),
    ('same', 'C07', 'while loop', [(T, '''        (&mut self.iter)
            .cautious_map_while(|(_, ch)| ch.to_digit(10))
            .fold(start.or(Some(0)), |acc, d| acc?.checked_mul(10)?.checked_add(d))
''', '''        let mut result = start.or(Some(0));
        while let Some(d) = (&mut self.iter).cautious_map_while(|(_, ch)| ch.to_digit(10)).next() {
            result = match result {
                Some(n) => n.checked_mul(10).and_then(|n: u32| n.checked_add(d)),
                None => None,
            };
        }
        result
''')]),
    ('same', 'C07', 'u64 accumulator', [(T, '''        (&mut self.iter)
            .cautious_map_while(|(_, ch)| ch.to_digit(10))
            .fold(start.or(Some(0)), |acc, d| acc?.checked_mul(10)?.checked_add(d))
''', '''        let mut value = start.unwrap_or(0) as u64;
        let mut fits = true;
        for d in (&mut self.iter).cautious_map_while(|(_, ch)| ch.to_digit(10)) {
            if fits {
                value = value * 10 + d as u64;
                fits = value <= u32::MAX as u64;
            }
        }
        if fits { Some(value as u32) } else { None }
''')]),
    ('same', 'C07', 'helper for first digit', [(T, '''                let first_value = self.take_next_decimals_and_convert_to_u32(Some(
                    ch.to_digit(10)
                        .expect("failed to convert character to ascii digit"),
                ));''', '''                let first_digit = ch.to_digit(10).expect("digit");
                let first_value = self.take_next_decimals_and_convert_to_u32(Some(first_digit));''')]),
    ('same', 'C07', 'checked in two steps', [(T, 'acc?.checked_mul(10)?.checked_add(d)', 'acc.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add(d))')]),
]
