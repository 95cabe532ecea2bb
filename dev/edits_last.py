"""A further round: the lexer's end, the parse loop, adaptors, the tables."""
L, P = 'pango-lexer/src/', 'pango-parser/src/'
LEX, INP, SLR = L + 'lexer/mod.rs', L + 'lexer/input.rs', P + 'parser/slr.rs'

FIN = '''        self.iter.is_empty()
    }
}
'''
EMPTY = 'self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().next().is_none()'
LOOPS = open('/repo/' + SLR).read()
LOOPS = LOOPS[LOOPS.index('        while let Some(token) = next_token'):LOOPS.index('    /// Pushes the result of a reduction')]
NEXT = '''        self.prev_characters_iter
            .next()
            .or_else(|| self.iter.next())
            .map(|(pos, ch)| {
                self.token_suffix.push((pos, ch));
                ch
            })
'''
UNREAD = '''        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
            .into_iter()
            .chain(self.prev_characters_iter.by_ref())
            .collect::<Vec<_>>()
            .into_iter();
'''
ACCEPT = '''        let mut last_pos = 0;

        self.current_token.source.push_str(
            &std::mem::take(&mut self.token_suffix)
                .into_iter()
                .map(|(pos, ch)| {
                    last_pos = pos;
                    ch
                })
                .collect::<String>(),
        );
        // The end position is one beyond the last character of the token.
        self.current_token.update_pos_end(last_pos + 1);
'''
ONE = '''        loop {
            if next_token.is_none() {
                next_token = input.next();
                if next_token.is_none() && !input.is_finished() {
                    return Err(());
                }
            }
            let had = next_token.is_some();
            let (parse_node, accept) =
                self.handle_token(&mut next_token, &mut stack, current_state)?;
            if accept {
                return Ok(Cst { root: parse_node.node });
            }
            current_state = parse_node.state;
            if had && next_token.is_none() {
                stack.push(parse_node);
                reduced_start = stack.len();
            } else {
                Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
            }
        }
    }

'''
CHILDREN = '''                let children = stack
                    .drain((stack.len() - amount)..)
                    .map(|parse_node| parse_node.node)
                    .rev()
                    .collect();
'''

EDITS = [
    # the end of the input
    ('bug', 'C04', 'blank rest is finished', [(INP, EMPTY, 'self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().all(|(_, c)| c.is_whitespace())')]),
    ('bug', 'C04', 'given back blanks are finished', [(INP, EMPTY, 'self.prev_characters_iter.as_slice().iter().all(|(_, c)| *c == \'\\n\') && self.iter.clone().next().is_none()')]),
    ('bug', 'C04', 'finished when the rest was only read', [(LEX, FIN, FIN.replace('self.iter.is_empty()', 'self.iter.is_empty() || self.iter.get_token().pos.0 + 1 == self.input.len()'))]),
    ('bug', 'C04', 'finished without tokens', [(LEX, FIN, FIN.replace('self.iter.is_empty()', 'self.iter.is_empty() || self.tokens.is_empty()'))]),
    ('bug', 'C04', 'nothing parsed yet counts as the end', [(SLR, 'if !input.is_finished() {', 'if !input.is_finished() && stack.len() > 1 {')]),
    ('bug', 'C04', 'end assumed in a state that can accept', [(SLR, 'if !input.is_finished() {', 'if !input.is_finished()\n            && self.table.action.get(current_state).map_or(true, |a| !a.contains_key(&Terminal::Eof))\n        {')]),
    ('bug', 'C04 C01', 'a refused character is skipped', [(LEX, '                self.iter.unread_suffix();\n                None', '                self.iter.unread_suffix();\n                if self.tokens.len() > 64 {\n                    self.iter.next();\n                }\n                None')]),
    ('bug', 'C04', 'refused text of one character is dropped', [(INP, UNREAD, '        if self.token_suffix.len() == 1 && self.current_token.source.is_empty() && self.iter.clone().next().is_none() {\n            self.token_suffix.clear();\n        }\n' + UNREAD)]),
    ('bug', 'C01', 'given back characters overwrite the older ones', [(INP, '            .chain(self.prev_characters_iter.by_ref())\n', '')]),
    ('bug', 'C01', 'given back characters in front twice', [(INP, '            .chain(self.prev_characters_iter.by_ref())\n', '            .chain(self.prev_characters_iter.clone())\n            .chain(self.prev_characters_iter.clone().skip(3))\n')]),
    ('bug', 'C01', 'older characters first', [(INP, UNREAD, '''        self.prev_characters_iter = self
            .prev_characters_iter
            .by_ref()
            .chain(std::mem::take(&mut self.token_suffix))
            .collect::<Vec<_>>()
            .into_iter();
''')]),
    ('bug', 'C01', 'end counted from the text', [(INP, 'self.current_token.update_pos_end(last_pos + 1);', 'let _ = last_pos;\n        let end = self.current_token.pos.0 + self.current_token.source.len();\n        self.current_token.update_pos_end(end);')]),
    ('same', 'C01', 'end counted from the characters', [(INP, 'self.current_token.update_pos_end(last_pos + 1);', 'let _ = last_pos;\n        let end = self.current_token.pos.0 + self.current_token.source.chars().count();\n        self.current_token.update_pos_end(end);')]),
    ('same', 'C01 C02 C04', 'accepted by a loop', [(INP, ACCEPT, '''        let mut end = 1;
        for (pos, ch) in self.token_suffix.drain(..) {
            self.current_token.source.push(ch);
            end = pos + 1;
        }
        self.current_token.update_pos_end(end);
''')]),
    ('bug', 'C01', 'accepted by a loop that keeps the suffix', [(INP, ACCEPT, '''        let mut end = 1;
        for (pos, ch) in self.token_suffix.iter() {
            self.current_token.source.push(*ch);
            end = pos + 1;
        }
        self.current_token.update_pos_end(end);
''')]),
    ('bug', 'C01', 'accepted by a loop from the end', [(INP, ACCEPT, '''        let mut end = 1;
        while let Some((pos, ch)) = self.token_suffix.pop() {
            self.current_token.source.push(ch);
            end = end.max(pos + 1);
        }
        self.current_token.update_pos_end(end);
''')]),
    ('same', 'C01 C02 C04', 'next by cases', [(INP, NEXT, '''        let item = if self.prev_characters_iter.len() > 0 {
            self.prev_characters_iter.next()
        } else {
            self.iter.next()
        };
        let (pos, ch) = item?;
        self.token_suffix.push((pos, ch));
        Some(ch)
''')]),
    ('bug', 'C01', 'next by cases prefers new input', [(INP, NEXT, '''        let item = if self.prev_characters_iter.len() > 1 || self.iter.clone().next().is_none() {
            self.prev_characters_iter.next()
        } else {
            self.iter.next()
        };
        let (pos, ch) = item?;
        self.token_suffix.push((pos, ch));
        Some(ch)
''')]),
    ('same', 'C01 C04', 'unread by splicing', [(INP, UNREAD, '''        let mut all = std::mem::take(&mut self.token_suffix);
        all.extend(self.prev_characters_iter.by_ref());
        self.prev_characters_iter = all.into_iter();
''')]),
    ('same', 'C01 C04', 'unread unless nothing was read', [(INP, UNREAD, '''        if self.token_suffix.is_empty() {
            return;
        }
        let mut all = std::mem::take(&mut self.token_suffix);
        all.extend(self.prev_characters_iter.by_ref());
        self.prev_characters_iter = all.into_iter();
''')]),
    # the parse loop
    ('same', 'C21 C22 C04', 'one loop for tokens and end', [(SLR, LOOPS, ONE)]),
    ('bug', 'C04', 'one loop that does not ask', [(SLR, LOOPS, ONE.replace('next_token.is_none() && !input.is_finished()', 'next_token.is_none() && !input.is_finished() && reduced_start > 1'))]),
    ('bug', 'C22', 'one loop that pushes after the end', [(SLR, LOOPS, ONE.replace('if had && next_token.is_none()', 'if next_token.is_none()'))]),
    ('bug', 'C21', 'children of long bodies in order', [(SLR, CHILDREN, CHILDREN.replace('let children =', 'let mut children: Vec<_> =') + '                if children.len() > 4 {\n                    children.reverse();\n                }\n')]),
    ('bug', 'C21', 'empty inner nodes are left out', [(SLR, CHILDREN, CHILDREN.replace('                    .rev()\n', '                    .rev()\n                    .filter(|n| matches!(n.symbol, Symbol::Terminal(_)) || !n.children.is_empty())\n'))]),
    ('bug', 'C21', 'single children are lifted', [(SLR, '                        symbol: Symbol::Variable(*variable),\n                        children,\n', '                        symbol: Symbol::Variable(*variable),\n                        children: if accept { children } else { Self::lift(children) },\n'), (SLR, '    fn handle_token(', '    fn lift(mut children: Vec<Node<V, T>>) -> Vec<Node<V, T>> {\n        if children.len() == 1 && !children[0].children.is_empty() {\n            return std::mem::take(&mut children[0].children);\n        }\n        children\n    }\n\n    fn handle_token('), (SLR, 'let children = stack', 'let children: Vec<_> = stack')]),
    ('same', 'C21 C22', 'children by split_off', [(SLR, CHILDREN, '''                let at = stack.len() - amount;
                let mut children = Vec::new();
                for parse_node in stack.split_off(at).into_iter().rev() {
                    children.push(parse_node.node);
                }
''')]),
    ('bug', 'C21', 'children by split_off, at most eight', [(SLR, CHILDREN, '''                let at = stack.len() - amount;
                let mut children = Vec::new();
                for parse_node in stack.split_off(at).into_iter().rev() {
                    if children.len() < 8 {
                        children.push(parse_node.node);
                    }
                }
''')]),
    ('bug', 'C22', 'no goto for a variable panics', [(SLR, '.and_then(|goto| goto.get(variable))\n                    else {\n                        return Err(());', '.and_then(|goto| goto.get(variable))\n                    else {\n                        assert!(token.is_some() || *amount == 0);\n                        return Err(());')]),
    ('bug', 'C22', 'unexpected end panics in the start state', [(SLR, '        else {\n            return Err(());\n        };\n\n        let mut accept', '        else {\n            if token.is_none() {\n                let below = stack.len() - 2;\n                stack[below].state = current_state;\n            }\n            return Err(());\n        };\n\n        let mut accept')]),
    ('bug', 'C22', 'depth limit', [(SLR, '        let mut accept = false;\n', '        assert!(stack.len() < 10_000, "input is nested too deeply");\n        let mut accept = false;\n')]),
    ('bug', 'C21', 'depth limit as an error', [(SLR, '        let mut accept = false;\n', '        if stack.len() > 10_000 {\n            return Err(());\n        }\n        let mut accept = false;\n')]),
    ('bug', 'C21', 'accept with an empty body below', [(SLR, '&& stack.len() == 1;', '&& (stack.len() == 1 || *amount == 0);')]),
    ('bug', 'C21', 'accept unless something is below', [(SLR, '&& stack.len() == 1;', '&& stack.len() <= 2;')]),
    ('bug', 'C21', 'root is the start variable of the grammar', [(SLR, 'symbol: Symbol::Variable(*variable),\n', 'symbol: Symbol::Variable(if stack.len() == 1 { self.table.get_grammar().get_start_variable() } else { *variable }),\n')]),
]
PAR, COM, TOK = L + 'regex/parser.rs', L + 'fsm/nfa/compiler.rs', L + 'regex/tokenizer.rs'
EDITS += [
    ('bug', 'C05', 'position two before the end', [(PAR, ') => (end_cursor_pos - 1, end_cursor_pos),', ') => (end_cursor_pos - 2, end_cursor_pos),')]),
    ('same', 'C05 C14', 'position by saturation', [(PAR, ') => (end_cursor_pos - 1, end_cursor_pos),', ') => (end_cursor_pos.saturating_sub(1), end_cursor_pos),')]),
    ('same', 'C05 C14', 'position by its length', [(PAR, 'pos: (_, end_cursor_pos),\n                    kind: _,\n                }),\n            ) => (end_cursor_pos - 1, end_cursor_pos),', 'pos: (begin, end_cursor_pos),\n                    kind: _,\n                }),\n            ) => {\n                let len = end_cursor_pos - begin;\n                (begin + len - 1, end_cursor_pos)\n            }')]),
    ('bug', 'C22', 'length below zero', [(SLR, '        let mut accept = false;\n', '        let below = stack.len() - 2;\n        let mut accept = below > 1_000_000_000;\n')]),
    ('bug', 'C22', 'body longer than the stack', [(SLR, 'stack.len() - amount)..)', 'stack.len() - 1 - amount)..)')]),
]
