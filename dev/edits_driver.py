S = 'pango-parser/src/parser/slr.rs'
C = 'pango-parser/src/cst.rs'
DRAIN = '''                let children = stack
                    .drain((stack.len() - amount)..)
                    .map(|parse_node| parse_node.node)
                    .rev()
                    .collect();
'''
FIN = '''        if !input.is_finished() {
            // there is input left that is not a token
            return Err(());
        }

'''
LOOK = '''        let Some(action_kind) = self
            .table
            .action
            .get(current_state)
            .and_then(|action| action.get(&terminal))
        else {
            return Err(());
        };
'''
GOTO = '''                    let Some(new_state) = self
                        .table
                        .goto
                        .get(
                            stack
                                .last()
                                .expect("at least one element should be remaining on the stack")
                                .state,
                        )
                        .and_then(|goto| goto.get(variable))
                    else {
                        return Err(());
                    };

                    *new_state
'''
EOFL = '''        next_token = None;
        while let Ok((parse_node, accept)) =
            self.handle_token(&mut next_token, &mut stack, current_state)
        {
            if accept {
                return Ok(Cst {
                    root: parse_node.node,
                });
            };

            current_state = parse_node.state;
            Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
        }

        // never reached the accept call
        Err(())
'''
PUSH = '''            if next_token.is_some() {
                Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
            } else {
                stack.push(parse_node);
                reduced_start = stack.len();
            }
'''
RED = '''        *reduced_start = stack.len().min(*reduced_start);

        if stack
            .iter()
            .skip(*reduced_start)
            .any(|ParseNode { state, .. }| *state == parse_node.state)
        {
            return Err(());
        }

        stack.push(parse_node);
        Ok(())
'''
MAIN = '''            next_token = Some(token);
            let (parse_node, accept) =
                self.handle_token(&mut next_token, &mut stack, current_state)?;
'''
ACC = "accept = matches!(action_kind, ActionKind::Accept { .. }) && stack.len() == 1;"
EDITS = [
    ('bug', 'C21', 'children in order', [(S, '                    .rev()\n                    .collect();', '                    .collect();')]),
    ('bug', 'C21', 'one child less', [(S, DRAIN, DRAIN.replace('stack.len() - amount', 'stack.len() - amount').replace('.rev()\n', '.rev()\n                    .take(15)\n'))]),
    ('bug', 'C21', 'accept early', [(S, ACC, "accept = matches!(action_kind, ActionKind::Accept { .. });")]),
    ('bug', 'C21', 'accept at two', [(S, ACC, "accept = matches!(action_kind, ActionKind::Accept { .. }) && stack.len() <= 2;")]),
    ('bug', 'C21', 'never finished check', [(S, FIN, '')]),
    ('bug', 'C21', 'stack not trimmed when few', [(S, DRAIN, '''                let children: Vec<_> = stack
                    .drain((stack.len() - amount)..)
                    .map(|parse_node| parse_node.node)
                    .filter(|node| !node.children.is_empty() || matches!(node.symbol, Symbol::Terminal(_)))
                    .rev()
                    .collect();
''')]),
    ('bug', 'C21', 'lookahead dropped after reduce', [(S, MAIN, MAIN + '            next_token = None;\n')]),
    ('bug', 'C21', 'unknown token skipped', [(S, MAIN, '''            next_token = Some(token);
            let Ok((parse_node, accept)) =
                self.handle_token(&mut next_token, &mut stack, current_state)
            else {
                next_token = None;
                continue;
            };
''')]),
    ('bug', 'C21', 'state not updated at end', [(S, EOFL, EOFL.replace('            current_state = parse_node.state;\n', ''))]),
    ('bug', 'C21', 'root of eof is the first node', [(S, EOFL, EOFL.replace('root: parse_node.node,', 'root: stack.pop().map_or(parse_node.node, |n| n.node),'))]),
    ('bug', 'C21', 'goto of current state', [(S, GOTO, GOTO.replace('''stack
                                .last()
                                .expect("at least one element should be remaining on the stack")
                                .state''', 'current_state'))]),
    ('bug', 'C21', 'eof tried only once', [(S, EOFL, '''        next_token = None;
        if let Ok((parse_node, accept)) =
            self.handle_token(&mut next_token, &mut stack, current_state)
        {
            if accept {
                return Ok(Cst {
                    root: parse_node.node,
                });
            };
        }

        Err(())
''')]),
    ('bug', 'C21', 'stack depth limit', [(S, EOFL, EOFL.replace('            current_state = parse_node.state;\n', '            current_state = parse_node.state;\n            if stack.len() > 64 {\n                return Err(());\n            }\n'))]),
    ('bug', 'C21', 'leaf keeps nothing', [(C, '            children: Vec::new(),\n', '            children: Vec::new(),\n')]) if False else
    ('bug', 'C21', 'shift on eof row', [(S, 'None => Terminal::Eof,', 'None => Terminal::Eof,')]) if False else
    ('bug', 'C21', 'default reduction on missing action', [(S, LOOK, '''        let Some(action_kind) = self
            .table
            .action
            .get(current_state)
            .and_then(|action| action.get(&terminal).or_else(|| action.get(&Terminal::Eof)))
        else {
            return Err(());
        };
''')]),
    ('bug', 'C22', 'expect on actions', [(S, LOOK, '''        let action = self
            .table
            .action
            .get(current_state)
            .expect("state does not exist in the action table");

        let Some(action_kind) = action.get(&terminal) else {
            return Err(());
        };
''')]),
    ('bug', 'C22', 'index actions', [(S, LOOK, '''        let Some(action_kind) = self.table.action[current_state].get(&terminal) else {
            return Err(());
        };
''')]),
    ('bug', 'C22', 'unwrap goto', [(S, GOTO, '''                    let goto = self
                        .table
                        .goto
                        .get(stack.last().expect("not empty").state)
                        .expect("state does not exist in the goto table");
                    let Some(new_state) = goto.get(variable) else {
                        return Err(());
                    };

                    *new_state
''')]),
    ('bug', 'C22', 'unwrap in main', [(S, MAIN, '''            next_token = Some(token);
            let (parse_node, accept) = self
                .handle_token(&mut next_token, &mut stack, current_state)
                .expect("syntax error");
''')]),
    ('bug', 'C22', 'assert at end', [(S, '        // never reached the accept call\n', '        assert!(stack.len() > 1, "nothing parsed");\n')]),
    ('bug', 'C22', 'panic when not finished', [(S, FIN, FIN.replace('return Err(());', 'panic!("not a token");'))]),
    ('bug', 'C22', 'unreachable on missing goto', [(S, GOTO, GOTO.replace('return Err(());', 'unreachable!("missing goto");'))]),
    ('same', 'C04 C21 C22', 'split off', [(S, DRAIN, '''                let at = stack.len() - amount;
                let children = stack
                    .split_off(at)
                    .into_iter()
                    .rev()
                    .map(|parse_node| parse_node.node)
                    .collect();
''')]),
    ('same', 'C04 C21 C22', 'nested lookups', [(S, LOOK, '''        let action_kind = match self.table.action.get(current_state) {
            None => return Err(()),
            Some(row) => match row.get(&terminal) {
                None => return Err(()),
                Some(kind) => kind,
            },
        };
''')]),
    ('same', 'C04 C21 C22', 'ok_or', [(S, LOOK, '''        let row = self.table.action.get(current_state).ok_or(())?;
        let action_kind = row.get(&terminal).ok_or(())?;
''')]),
    ('same', 'C04 C21 C22', 'eof loop', [(S, EOFL, '''        next_token = None;
        loop {
            let (parse_node, accept) =
                self.handle_token(&mut next_token, &mut stack, current_state)?;
            if accept {
                break Ok(Cst {
                    root: parse_node.node,
                });
            }

            current_state = parse_node.state;
            Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
        }
''')]),
    ('same', 'C04 C21 C22', 'goto helper', [(S, GOTO, '''                    let top = stack
                        .last()
                        .expect("at least one element should be remaining on the stack");
                    self.destination(top.state, variable)?
'''), (S, '    fn handle_token(', '''    fn destination(&self, state: StateId, variable: &V) -> Result<StateId, ()> {
        let row = self.table.goto.get(state).ok_or(())?;
        row.get(variable).copied().ok_or(())
    }

    fn handle_token(''')]),
    ('same', 'C04 C21 C22', 'single loop', [(S, '''        while let Some(token) = next_token.or_else(|| input.next()) {
            next_token = Some(token);
            let (parse_node, accept) =
                self.handle_token(&mut next_token, &mut stack, current_state)?;

            if accept {
                return Ok(Cst {
                    root: parse_node.node,
                });
            };

            current_state = parse_node.state;
''' + PUSH + '''        }

''' + FIN + '        // eof\n' + EOFL, '''        loop {
            if next_token.is_none() {
                next_token = input.next();
                if next_token.is_none() && !input.is_finished() {
                    return Err(());
                }
            }
            let kept = next_token.is_none();
            let (parse_node, accept) =
                self.handle_token(&mut next_token, &mut stack, current_state)?;

            if accept {
                return Ok(Cst {
                    root: parse_node.node,
                });
            };

            current_state = parse_node.state;
''' + PUSH.replace('next_token.is_some()', 'kept || next_token.is_some()') + '''        }
''')]),
    ('same', 'C04 C21 C22', 'no state variable', [(S, '            current_state = parse_node.state;\n' + PUSH, PUSH +
     '            current_state = stack.last().expect("just pushed").state;\n')]),
    ('same', 'C04 C21 C22', 'pop loop', [(S, DRAIN, '''                let mut children = Vec::with_capacity(*amount);
                for _ in 0..*amount {
                    children.push(stack.pop().expect("element on the stack").node);
                }
''')]),
    ('same', 'C04 C21 C22', 'accept split', [(S, ACC, '''if let ActionKind::Accept { .. } = action_kind {
                    accept = stack.len() < 2;
                }''')]),
    ('same', 'C04 C21 C22', 'push reduced inlined', [(S, PUSH, '''            if next_token.is_some() {
                reduced_start = stack.len().min(reduced_start);
                if stack[reduced_start..]
                    .iter()
                    .any(|below| below.state == parse_node.state)
                {
                    return Err(());
                }
                stack.push(parse_node);
            } else {
                stack.push(parse_node);
                reduced_start = stack.len();
            }
''')]),
    ('same', 'C04 C21 C22', 'push reduced by a loop', [(S, RED, '''        if *reduced_start > stack.len() {
            *reduced_start = stack.len();
        }
        for below in &stack[*reduced_start..] {
            if below.state == parse_node.state {
                return Err(());
            }
        }
        stack.push(parse_node);
        Ok(())
''')]),
    ('same', 'C04 C21 C22', 'push reduced from the top', [(S, RED, '''        *reduced_start = std::cmp::min(*reduced_start, stack.len());
        let run = &stack[*reduced_start..];
        let seen = run.iter().rev().find(|node| node.state == parse_node.state);
        match seen {
            Some(_) => Err(()),
            None => {
                stack.push(parse_node);
                Ok(())
            }
        }
''')]),
    ('same', 'C04 C21 C22', 'push after the shift first', [(S, PUSH, '''            if next_token.is_none() {
                reduced_start = stack.len() + 1;
                stack.push(parse_node);
                continue;
            }
            Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;
''')]),
    ('same', 'C04 C21 C22', 'push in a method', [(S, PUSH, '''            Self::push(&mut stack, &mut reduced_start, parse_node, next_token.is_none())?;
'''), (S, '    fn handle_token(', '''    fn push(
        stack: &mut Vec<ParseNode<V, T>>,
        reduced_start: &mut usize,
        parse_node: ParseNode<V, T>,
        shifted: bool,
    ) -> Result<(), ()> {
        if !shifted {
            return Self::push_reduced(stack, reduced_start, parse_node);
        }
        stack.push(parse_node);
        *reduced_start = stack.len();
        Ok(())
    }

    fn handle_token(''')]),
    ('same', 'C04 C21 C22', 'counted from the top', [(S, RED, '''        *reduced_start = stack.len().min(*reduced_start);

        let length = stack.len() - *reduced_start;
        if stack
            .iter()
            .rev()
            .take(length)
            .all(|node| node.state != parse_node.state)
        {
            stack.push(parse_node);
            return Ok(());
        }

        Err(())
''')]),
    ('bug', 'C21', 'run never starts again', [(S, '                reduced_start = stack.len();\n            }\n        }\n', '            }\n        }\n')]),
    ('bug', 'C21', 'runs compare the whole stack', [(S, '            .skip(*reduced_start)\n', '')]),
    ('bug', 'C22', 'runs are not refused', [(S, RED, '        *reduced_start = stack.len().min(*reduced_start);\n        stack.push(parse_node);\n        Ok(())\n')]),
    ('bug', 'C22', 'only the top is compared', [(S, '            .skip(*reduced_start)\n', '            .skip(stack.len())\n')]),
    ('bug', 'C21', 'run start not lowered', [(S, '        *reduced_start = stack.len().min(*reduced_start);\n', '        *reduced_start = stack.len().max(*reduced_start) - 1;\n')]),
    ('bug', 'C22', 'run of two at most', [(S, '            .skip(*reduced_start)\n', '            .skip(*reduced_start)\n            .skip(1)\n            .take(0)\n')]),
    ('bug', 'C22', 'endless end of input', [(S, EOFL, EOFL.replace('            Self::push_reduced(&mut stack, &mut reduced_start, parse_node)?;\n', '            stack.push(parse_node);\n'))]),
    ('bug', 'C22', 'endless on a token', [(S, PUSH, '            stack.push(parse_node);\n            reduced_start = stack.len();\n')]),
]
