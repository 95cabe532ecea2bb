G = 'pango-parser/src/grammar.rs'
DEP1 = '''                        if first.contains(&Symbol::Epsilon) {
                            // keep track of the dependency
                            follow_dependencies
                                .entry(head)
                                .or_default()
                                .insert(variable);
                        }
'''
DEP2 = '''                    None => {
                        // keep track of the dependency
                        follow_dependencies
                            .entry(head)
                            .or_default()
                            .insert(variable);
                    }
'''
ADD = '''                        entry
                            .or_default()
                            .extend(first.into_iter().filter(|s| !matches!(s, Symbol::Epsilon)))
'''
SCAN = '''                        Symbol::Variable(v) => {
                            if result.insert(*v) {
                                pending_variables.push_back(*v);
                            }

                            if !self.first(*v).contains(&Symbol::Epsilon) {
                                break;
                            }
                        }
'''
REQ = '''                    if let Some(deps) = follow_dependencies.get(&lhs).cloned() {
                        follow_dependencies_queue
                            .extend(deps.into_iter().zip(std::iter::repeat(lhs)));
                    }
'''
FILT = '''            .filter(|(head, _)| reachable_variables.contains(head))
'''
INIT = '''                .flat_map(|(rhs, lhs)| lhs.iter().cloned().zip(std::iter::repeat(*rhs))),
'''
EDITS = [
    ('bug', 'C18', 'epsilon kept', [(G, ADD, ADD.replace('.filter(|s| !matches!(s, Symbol::Epsilon))', ''))]),
    ('bug', 'C18', 'add only without epsilon', [(G, ADD, "if !follow_dependencies.contains_key(&head) {\n" + ADD + ";}\n")]),
    ('bug', 'C18', 'dep dropped nullable', [(G, DEP1, '')]),
    ('bug', 'C18', 'dep dropped last', [(G, DEP2, '                    None => {}\n')]),
    ('bug', 'C18', 'dep reversed', [(G, DEP2, DEP2.replace('entry(head)', 'entry(variable)').replace('insert(variable)', 'insert(head)'))]),
    ('bug', 'C18', 'dep reversed nullable', [(G, DEP1, DEP1.replace('entry(head)', 'entry(variable)').replace('insert(variable)', 'insert(head)'))]),
    ('bug', 'C18', 'dep overwritten', [(G, DEP2, DEP2.replace('.entry(head)', '.insert(head, HashSet::from([variable]));').replace('                            .or_default()\n', '').replace('                            .insert(variable);\n', ''))]),
    ('bug', 'C18', 'dep not self', [(G, DEP1, DEP1.replace('if first.contains(&Symbol::Epsilon)', 'if first.contains(&Symbol::Epsilon) && first.len() > 1'))]),
    ('bug', 'C18', 'unreachable', [(G, FILT, '')]),
    ('bug', 'C18', 'reach first body', [(G, "self.get_rule_bodies(head).into_iter().flatten().flatten()", "self.get_rule_bodies(head).into_iter().flatten().take(1).flatten()")]),
    ('bug', 'C18', 'reach one step', [(G, '''                    if result.insert(*v) {
                        pending_variables.push_back(*v);
                    }
''', '''                    if result.insert(*v) && result.len() < 5 {
                        pending_variables.push_back(*v);
                    }
''')]),
    ('bug', 'C18', 'reach first symbol', [(G, "self.get_rule_bodies(head).into_iter().flatten().flatten()", "self.get_rule_bodies(head).into_iter().flatten().flat_map(|b| b.first())")]),
    ('bug', 'C18', 'every second', [(G, "            while let Some(Symbol::Variable(variable)) =", "            iter.next();\n            while let Some(Symbol::Variable(variable)) =")]),
    ('bug', 'C18', 'next eaten', [(G, "                match iter.peek() {\n                    Some(_) => {\n                        // calc", "                match iter.next() {\n                    Some(_) => {\n                        // calc")]),
    ('bug', 'C18', 'first once only', [(G, "            while let Some(Symbol::Variable(variable)) =\n                iter.find(|s| matches!(s, Symbol::Variable(_)))", "            if let Some(Symbol::Variable(variable)) =\n                iter.find(|s| matches!(s, Symbol::Variable(_)))")]),
    ('bug', 'C18', 'first of next only', [(G, "self.first_body(None, iter.clone())", "self.first_body(None, iter.clone().take(1).collect::<Vec<_>>())")]),
    ('bug', 'C18', 'first of two', [(G, "self.first_body(None, iter.clone())", "self.first_body(None, iter.clone().take(2))")]),
    ('bug', 'C18', 'whole body', [(G, "self.first_body(None, iter.clone())", "self.first_body(None, body.iter())")]),
    ('bug', 'C18', 'requeue none', [(G, REQ, '')]),
    ('bug', 'C18', 'requeue one', [(G, REQ, REQ.replace('deps.into_iter()', 'deps.into_iter().take(1)'))]),
    ('bug', 'C18', 'requeue wrong pair', [(G, REQ, REQ.replace('repeat(lhs)', 'repeat(rhs)'))]),
    ('bug', 'C18', 'requeue rhs deps', [(G, REQ, REQ.replace('get(&lhs)', 'get(&rhs)'))]),
    ('bug', 'C18', 'requeue new only', [(G, "                len != set.len()\n", "                len == 0 && len != set.len()\n")]),
    ('bug', 'C18', 'requeue inverted', [(G, "                len != set.len()\n", "                len == set.len()\n")]),
    ('bug', 'C18', 'queue once per rhs', [(G, INIT, INIT.replace('lhs.iter().cloned()', 'lhs.iter().take(1).cloned()'))]),
    ('bug', 'C18', 'queue skips', [(G, INIT, "                .filter(|(rhs, _)| **rhs != self.start_variable)\n" + INIT)]),
    ('bug', 'C18', 'pass on only new', [(G, "                    result.entry(lhs).or_default(),\n                    rhs_follow.clone().into_iter(),", "                    result.entry(lhs).or_default(),\n                    rhs_follow.clone().into_iter().take(8),")]),
    ('bug', 'C18', 'queue bound', [(G, "        while let Some((lhs, rhs)) = follow_dependencies_queue.pop_front() {", "        while let Some((lhs, rhs)) = follow_dependencies_queue.pop_front() {\n            if follow_dependencies_queue.len() > 100 { break; }")]),
    ('bug', 'C18', 'dep removed', [(G, REQ, REQ.replace('get(&lhs).cloned()', 'remove(&lhs)').replace('if let Some(deps)', 'if let Some(deps)'))]),
    ('bug', 'C18', 'eof terminal passes', [(G, "                        Symbol::Terminal(_) => break,", "                        Symbol::Terminal(_) => continue,")]),
    ('bug', 'C18', 'eof epsilon stops', [(G, "                        Symbol::Epsilon => continue,", "                        Symbol::Epsilon => break,")]),
    ('bug', 'C18', 'eof last only', [(G, SCAN, SCAN.replace('''                            if !self.first(*v).contains(&Symbol::Epsilon) {
                                break;
                            }
''', '                            break;\n'))]),
    ('bug', 'C18', 'eof always', [(G, SCAN, SCAN.replace('''                            if !self.first(*v).contains(&Symbol::Epsilon) {
                                break;
                            }
''', ''))]),
    ('bug', 'C18', 'eof inverted', [(G, SCAN, SCAN.replace('if !self', 'if self'))]),
    ('bug', 'C18', 'eof break if known', [(G, SCAN, SCAN.replace('''                                pending_variables.push_back(*v);
                            }
''', '''                                pending_variables.push_back(*v);
                            } else {
                                break;
                            }
'''))]),
    ('bug', 'C18', 'eof not queued', [(G, SCAN, SCAN.replace('if result.insert(*v) {', 'if result.insert(*v) && *v != head {'))]),
    ('bug', 'C18', 'eof queued nullable', [(G, SCAN, '''                        Symbol::Variable(v) => {
                            if !self.first(*v).contains(&Symbol::Epsilon) {
                                break;
                            }
                            if result.insert(*v) {
                                pending_variables.push_back(*v);
                            }
                        }
''')]),
    ('bug', 'C18', 'eof forward', [(G, "for symbol in body.iter().rev() {", "for symbol in body.iter() {")]),
    ('bug', 'C18', 'eof last three', [(G, "for symbol in body.iter().rev() {", "for symbol in body.iter().rev().take(3) {")]),
    ('bug', 'C18', 'eof head', [(G, "!self.first(*v).contains", "!self.first(head).contains")]),
    ('bug', 'C18', 'eof one body', [(G, "            for body in self.get_rule_bodies(head).into_iter().flatten() {\n                for symbol in body.iter().rev()", "            for body in self.get_rule_bodies(head).into_iter().flatten().take(2) {\n                for symbol in body.iter().rev()")]),
    ('bug', 'C18', 'eof empty start', [(G, "    pub(super) fn followed_by_eof(&self) -> HashSet<V> {\n        let mut result = HashSet::from([self.start_variable]);", "    pub(super) fn followed_by_eof(&self) -> HashSet<V> {\n        let mut result = HashSet::new();")]),
    ('same', 'C18', 'eof if let', [(G, '''                    match symbol {
                        Symbol::Epsilon => continue,
                        Symbol::Terminal(_) => break,
''', '''                    match symbol {
                        Symbol::Epsilon => {}
                        Symbol::Terminal(_) => break,
''')]),
    ('same', 'C18', 'eof nullable first', [(G, SCAN, '''                        Symbol::Variable(v) => {
                            let nullable = self.first(*v).contains(&Symbol::Epsilon);
                            if !result.contains(v) {
                                result.insert(*v);
                                pending_variables.push_back(*v);
                            }
                            if nullable {
                                continue;
                            }
                            break;
                        }
''')]),
    ('same', 'C18', 'eof stack', [(G, '''            for body in self.get_rule_bodies(head).into_iter().flatten() {
                for symbol in body.iter().rev() {''', '''            let Some(bodies) = self.get_rule_bodies(head) else { continue };
            for body in bodies {
                let mut symbols = body.iter().rev();
                while let Some(symbol) = symbols.next() {''')]),
    ('same', 'C18', 'filter in loop', [(G, FILT, ''), (G, "            let mut iter = body.iter().peekable();\n", "            if !reachable_variables.contains(&head) {\n                continue;\n            }\n            let mut iter = body.iter().peekable();\n")]),
    ('same', 'C18', 'nested loops', [(G, '''        for (head, body) in self
            .rules
            .iter()
            .filter(|(head, _)| reachable_variables.contains(head))
            .flat_map(|(head, bodies)| std::iter::repeat(*head).zip(bodies.iter()))
        {
''', '''        for (&head, bodies) in self.rules.iter().filter(|(head, _)| reachable_variables.contains(head)) { for body in bodies {
'''), (G, "        // keep iterating dependencies until the sets stabilize", "        }\n        // keep iterating dependencies until the sets stabilize")]),
    ('same', 'C18', 'by reachable', [(G, '''        for (head, body) in self
            .rules
            .iter()
            .filter(|(head, _)| reachable_variables.contains(head))
            .flat_map(|(head, bodies)| std::iter::repeat(*head).zip(bodies.iter()))
        {
''', '''        for head in reachable_variables { for body in self.get_rule_bodies(head).into_iter().flatten() {
'''), (G, "        // keep iterating dependencies until the sets stabilize", "        }\n        // keep iterating dependencies until the sets stabilize")]),
    ('same', 'C18', 'while next', [(G, '''            while let Some(Symbol::Variable(variable)) =
                iter.find(|s| matches!(s, Symbol::Variable(_)))
            {
                let variable = *variable;
''', '''            while let Some(symbol) = iter.next() {
                let Symbol::Variable(variable) = symbol else { continue };
                let variable = *variable;
''')]),
    ('same', 'C18', 'is_none', [(G, '''                match iter.peek() {
                    Some(_) => {
                        // calc''', '''                match iter.peek().is_some() {
                    true => {
                        // calc'''), (G, DEP2, DEP2.replace('None =>', 'false =>'))]),
    ('same', 'C18', 'filter after', [(G, ADD, '''                        for symbol in first {
                            if !matches!(symbol, Symbol::Epsilon) {
                                result.entry(variable).or_default().insert(symbol);
                            }
                        }
'''), (G, "                let entry = result.entry(variable);\n", "")]),
    ('same', 'C18', 'requeue loop', [(G, REQ, '''                    for dep in follow_dependencies.get(&lhs).into_iter().flatten() {
                        follow_dependencies_queue.push_back((*dep, lhs));
                    }
''')]),
    ('same', 'C18', 'pairs swapped', [(G, INIT, INIT.replace('lhs.iter().cloned().zip(std::iter::repeat(*rhs))', 'std::iter::repeat(*rhs).zip(lhs.iter().cloned())')),
                                      (G, "while let Some((lhs, rhs)) = follow", "while let Some((rhs, lhs)) = follow"),
                                      (G, REQ, REQ.replace('deps.into_iter().zip(std::iter::repeat(lhs))', 'std::iter::repeat(lhs).zip(deps)'))]),
    ('same', 'C18', 'pop_back', [(G, "follow_dependencies_queue.pop_front()", "follow_dependencies_queue.pop_back()")]),
    ('same', 'C18', 'queue by loop', [(G, '''        let mut follow_dependencies_queue = VecDeque::from_iter(
            follow_dependencies
                .iter()
                .flat_map(|(rhs, lhs)| lhs.iter().cloned().zip(std::iter::repeat(*rhs))),
        );
''', '''        let mut follow_dependencies_queue = VecDeque::new();
        for (rhs, lhs) in follow_dependencies.iter() {
            for variable in lhs {
                follow_dependencies_queue.push_back((*variable, *rhs));
            }
        }
''')]),
    ('same', 'C18', 'remove epsilon', [(G, ADD, '''                        let mut first = first;
                        first.remove(&Symbol::Epsilon);
                        entry.or_default().extend(first)
''')]),
    ('same', 'C18', 'slices', [(G, '''            let mut iter = body.iter().peekable();

            while let Some(Symbol::Variable(variable)) =
                iter.find(|s| matches!(s, Symbol::Variable(_)))
            {
                let variable = *variable;
''', '''            for (i, symbol) in body.iter().enumerate() {
                let Symbol::Variable(variable) = symbol else { continue };
                let variable = *variable;
                let mut iter = body[i + 1..].iter().peekable();
''')]),
]
