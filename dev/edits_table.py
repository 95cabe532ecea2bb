T = 'pango-parser/src/parser/table.rs'
S = 'pango-parser/src/parser/slr.rs'
I = 'pango-parser/src/cfsm/item.rs'
IA = '''        // TODO: Return type of conflict
        match state.entry(terminal) {
            Entry::Occupied(entry) if *entry.get() != action => Err(()),
            // multiple items can lead to the same action
            Entry::Occupied(_) => Ok(()),
            Entry::Vacant(entry) => {
                entry.insert(action);
                Ok(())
            }
        }
'''
EOFA = '''                            let eof_action = if head == grammar.get_start_variable() {
                                ActionKind::Accept { variable, amount }
                            } else {
                                ActionKind::Reduce { variable, amount }
                            };
'''
FOL = 'for s in follow_set.get(&head).into_iter().flatten() {'
EDITS = [
    ('bug', 'C20', 'conflict overwritten', [(T, IA, '''        state.insert(terminal, action);
        Ok(())
''')]),
    ('bug', 'C20', 'conflict first kept', [(T, IA, '''        state.entry(terminal).or_insert(action);
        Ok(())
''')]),
    ('bug', 'C20', 'shift wins', [(T, 'Entry::Occupied(_) => Ok(()),', 'Entry::Occupied(_) => Ok(()),'), (T, 'if *entry.get() != action => Err(())', 'if *entry.get() != action && !matches!(action, ActionKind::Shift { .. }) => Err(())')]),
    ('bug', 'C20', 'same kind is no conflict', [(T, 'if *entry.get() != action => Err(())', 'if std::mem::discriminant(entry.get()) != std::mem::discriminant(&action) => Err(())')]),
    ('bug', 'C20', 'equal action refused', [(T, 'Entry::Occupied(entry) if *entry.get() != action => Err(()),\n            // multiple items can lead to the same action\n            Entry::Occupied(_) => Ok(()),', 'Entry::Occupied(_) => Err(()),')]),
    ('bug', 'C20', 'reduce amount ignored in conflict', [(T, 'if *entry.get() != action => Err(())', '''if match (entry.get(), &action) {
                (ActionKind::Reduce { variable: a, .. }, ActionKind::Reduce { variable: b, .. }) => a != b,
                (a, b) => a != b,
            } => Err(())''')]),
    ('bug', 'C20', 'no accept', [(T, EOFA, '                            let eof_action = ActionKind::Reduce { variable, amount };\n')]),
    ('bug', 'C20', 'always accept', [(T, EOFA, '                            let eof_action = ActionKind::Accept { variable, amount };\n')]),
    ('bug', 'C20', 'eof for all', [(T, 'if followed_by_eof.contains(&head) {', 'if followed_by_eof.contains(&head) || !follow_set.contains_key(&head) {')]),
    ('bug', 'C20', 'eof only when nothing else follows', [(T, 'if followed_by_eof.contains(&head) {', 'if followed_by_eof.contains(&head) && !follow_set.contains_key(&head) {')]),
    ('bug', 'C20', 'eof only start', [(T, 'if followed_by_eof.contains(&head) {', 'if head == grammar.get_start_variable() {')]),
    ('bug', 'C20', 'amount counts empty symbols', [(I, None, None)] if False else [(T, '''                                    amount: body.get_symbol_amount(),
                                },
                            )?;
                        }
''', '''                                    amount: body.get_symbol_amount().min(15),
                                },
                            )?;
                        }
''')]),
    ('bug', 'C20', 'accept amount off', [(T, 'let (variable, amount) = (head, body.get_symbol_amount());', 'let (variable, amount) = (head, body.get_symbol_amount().max(1));')]),
    ('bug', 'C20', 'only first follower', [(T, FOL, 'for s in follow_set.get(&head).into_iter().flatten().take(1) {')]),
    ('bug', 'C20', 'reduce everywhere', [(T, FOL, 'for s in follow_set.values().flatten() {')]),
    ('bug', 'C20', 'skip empty items', [(T, '''                    None => {
                        // body of the form `S -> w •`
                        for s in''', '''                    None if body.get_symbol_amount() == 0 && head != grammar.get_start_variable() => {}
                    None => {
                        // body of the form `S -> w •`
                        for s in''')]),
    ('bug', 'C20', 'first state skipped', [(T, '        } in cfsm.iter()\n', '        } in cfsm.iter().skip(1)\n')]),
    ('bug', 'C20', 'stop at complete item', [(T, 'eof_action,\n                            )?;', 'eof_action,\n                            )?;\n                            break;')]),
    ('bug', 'C20', 'break at epsilon', [(T, 'Symbol::Epsilon => continue,', 'Symbol::Epsilon => break,')]) if False else
    ('bug', 'C20', 'goto to self', [(T, 'Self::insert_goto(&mut goto, *state_id, *v, dest_state);', 'Self::insert_goto(&mut goto, dest_state, *v, *state_id);')]),
    ('bug', 'C20', 'goto keeps only new rows', [(T, 'Self::insert_goto(&mut goto, *state_id, *v, dest_state);', 'if goto.len() <= *state_id { Self::insert_goto(&mut goto, *state_id, *v, dest_state); }')]),
    ('bug', 'C20', 'conflict error swallowed', [(T, '''                            ActionKind::Shift { dest_state },
                        )?;''', '''                            ActionKind::Shift { dest_state },
                        ).ok();''')]),
    ('same', 'C20', 'table cut to the last state', [(T, '''        if table.len() <= state {
            table.resize_with(state + 1, Default::default);
        }

        let state = table
            .get_mut(state)
            .expect("state should exist as the table has just been resized");

        // TODO: Return type of conflict
        match''', '''        if table.len() != state + 1 {
            table.resize_with(state + 1, Default::default);
        }

        let state = table
            .get_mut(state)
            .expect("state should exist as the table has just been resized");

        // TODO: Return type of conflict
        match''')]),
    ('bug', 'C20', 'many actions refused', [(T, '''        match state.entry(terminal) {''', '''        if state.len() > 64 {
            return Err(());
        }

        match state.entry(terminal) {''')]),
    ('bug', 'C20', 'state limit', [(T, '            for (head, body) in item_set.iter() {', '            if *state_id > u16::MAX as usize {\n                return Err(());\n            }\n            for (head, body) in item_set.iter() {')]),
    ('same', 'C20', 'insert action as lookup', [(T, IA, '''        if let Some(old) = state.get(&terminal) {
            return if *old == action { Ok(()) } else { Err(()) };
        }

        state.insert(terminal, action);
        Ok(())
''')]),
    ('same', 'C20', 'replace and compare', [(T, IA, '''        match state.entry(terminal) {
            Entry::Vacant(entry) => {
                entry.insert(action);
            }
            Entry::Occupied(entry) => {
                if *entry.get() != action {
                    return Err(());
                }
            }
        }

        Ok(())
''')]),
    ('same', 'C20', 'compare by parts', [(T, 'if *entry.get() != action => Err(())', '''if !match (entry.get(), &action) {
                (ActionKind::Shift { dest_state: a }, ActionKind::Shift { dest_state: b }) => a == b,
                (ActionKind::Reduce { variable: v, amount: a }, ActionKind::Reduce { variable: w, amount: b }) => v == w && a == b,
                (ActionKind::Accept { variable: v, amount: a }, ActionKind::Accept { variable: w, amount: b }) => v == w && a == b,
                _ => false,
            } => Err(())''')]),
    ('same', 'C20', 'nested follow', [(T, FOL, 'let followers = follow_set.get(&head);\n                        for s in followers.iter().flat_map(|f| f.iter()) {')]),
    ('same', 'C20', 'if let', [(T, FOL + '''
                            let t = match s {
                                Symbol::Terminal(t) => Terminal::T(t.into()),
                                Symbol::Variable(_) => {
                                    unreachable!("variables should not exist in the follow set")
                                }
                                Symbol::Epsilon => continue,
                            };
''', FOL + '''
                            let Symbol::Terminal(t) = s else { continue };
                            let t = Terminal::T(t.into());
''')]),
    ('same', 'C20', 'eof first', [(T, EOFA, '''                            let accepts = grammar.get_start_variable() == head;
                            let eof_action = match accepts {
                                false => ActionKind::Reduce { variable, amount },
                                true => ActionKind::Accept { variable, amount },
                            };
''')]),
    ('same', 'C20', 'amount hoisted', [(T, '''                    None => {
                        // body of the form `S -> w •`
                        for s in''', '''                    None => {
                        let amount = body.get_symbol_amount();
                        for s in'''), (T, '''                                    amount: body.get_symbol_amount(),
                                },
                            )?;
                        }
''', '''                                    amount,
                                },
                            )?;
                        }
''')]),
    ('same', 'C20', 'tables first', [(T, '''        let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());

''', ''), (T, '        let follow_set = grammar.follow_set();\n', '        let mut goto = GotoTable::new();\n        let mut action = ActionTable::new();\n        let follow_set = grammar.follow_set();\n')]),
    ('same', 'C20', 'resize in one step', [(T, '''        if table.len() <= state {
            table.resize_with(state + 1, Default::default);
        }

        let old_dest_state''', '''        while table.len() <= state {
            table.push(Default::default());
        }

        let old_dest_state''')]),
    ('same', 'C20', 'helper per item', [(T, '''                    Some(s @ Symbol::Variable(v)) => {
                        // body of the form `S -> x •v y`
                        let dest_state = *transitions
                            .get(&s.into())
                            .expect("no transition found for symbol");
                        Self::insert_goto(&mut goto, *state_id, *v, dest_state);
                    }
''', '''                    Some(s @ Symbol::Variable(v)) => match transitions.get(&s.into()) {
                        Some(dest_state) => Self::insert_goto(&mut goto, *state_id, *v, *dest_state),
                        None => panic!("no transition found for symbol"),
                    },
''')]),
    ('same', 'C20', 'terminals collected', [(T, FOL + '''
                            let t = match s {
                                Symbol::Terminal(t) => Terminal::T(t.into()),
                                Symbol::Variable(_) => {
                                    unreachable!("variables should not exist in the follow set")
                                }
                                Symbol::Epsilon => continue,
                            };
''', '''let terminals = follow_set.get(&head).into_iter().flatten().filter_map(|s| match s {
                            Symbol::Terminal(t) => Some(t),
                            _ => None,
                        });
                        for t in terminals {
                            let t = Terminal::T(t.into());
''')]),
    ('same', 'C20', 'nested item loops', [(T, '            for (head, body) in item_set.iter() {\n', '            let items: Vec<_> = item_set.iter().collect();\n            for (head, body) in items {\n')]),
    ('same', 'C20', 'wrapper for actions', [(T, """                            Self::insert_action(
                                &mut action,
                                *state_id,
                                Terminal::Eof,
                                eof_action,
                            )?;""", """                            let at_end = Terminal::Eof;
                            if let Err(e) = Self::insert_action(&mut action, *state_id, at_end, eof_action) {
                                return Err(e);
                            }""")]),
]
