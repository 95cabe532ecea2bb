G = 'pango-parser/src/grammar.rs'
EXT = '''            let changed = (match variable {
                Some(v) => {
                    let entry = first.entry(v).or_default();
                    let first_len = entry.len();
                    entry.extend(symbols);
                    first_len != entry.len()
                }
                None => {
                    result.extend(symbols);
                    false
                }
            }) || result_len != result.len();
'''
DEP = '''                            dependencies
                                .entry(*v)
                                .or_insert_with(HashMap::new)
                                .entry(variable)
                                .or_insert_with(Vec::new)
                                .push(last_body.clone());
'''
FLT = '''                                    !matches!(s, Symbol::Epsilon) || last_symbol_in_body
'''
EDITS = [
    ('bug', 'C17', 'epsilon kept', [(G, FLT, '                                    !matches!(s, Symbol::Epsilon) || first_v_contains_eps\n')]),
    ('bug', 'C17', 'epsilon dropped at end', [(G, FLT, '                                    !matches!(s, Symbol::Epsilon) || !last_symbol_in_body\n')]),
    ('bug', 'C17', 'epsilon never', [(G, FLT, '                                    !matches!(s, Symbol::Epsilon)\n')]),
    ('bug', 'C17', 'one terminal', [(G, '                                first_v.into_iter().filter(|s| {', '                                first_v.into_iter().take(64).filter(|s| {')]),
    ('bug', 'C17', 'continue inverted', [(G, '                            if !first_v_contains_eps {', '                            if first_v_contains_eps {')]),
    ('bug', 'C17', 'always stop', [(G, '                            if !first_v_contains_eps {', '                            if !first_v_contains_eps || first.len() > 20 {')]),
    ('bug', 'C17', 'missing first continues', [(G, "                                // the first set of v is empty\n                                break;", "                                // the first set of v is empty\n                                last_body.next();\n                                continue;")]),
    ('bug', 'C17', 'epsilon inside stops', [(G, "                        Symbol::Epsilon if body.peek().is_none() => {", "                        Symbol::Epsilon => {")]),
    ('bug', 'C17', 'epsilon before terminal', [(G, "                        _ => (),\n                    }\n                    last_body.next();", "                        _ => break,\n                    }\n                    last_body.next();")]),
    ('bug', 'C17', 'suffix behind', [(G, DEP, "                            last_body.next();\n" + DEP)]),
    ('same', 'C17', 'whole body waits', [(G, "                    last_body.next();\n", "")]),
    ('bug', 'C17', 'dep replaced', [(G, DEP, '''                            dependencies
                                .entry(*v)
                                .or_insert_with(HashMap::new)
                                .insert(variable, vec![last_body.clone()]);
''')]),
    ('bug', 'C17', 'dep map replaced', [(G, DEP, '''                            dependencies
                                .insert(*v, HashMap::from([(variable, vec![last_body.clone()])]));
''')]),
    ('bug', 'C17', 'dep only once', [(G, DEP, '''                            dependencies
                                .entry(*v)
                                .or_insert_with(HashMap::new)
                                .entry(variable)
                                .or_insert_with(|| vec![last_body.clone()]);
''')]),
    ('bug', 'C17', 'dep not for self', [(G, DEP, "                            if variable != Some(*v) {\n" + DEP + "                            }\n")]),
    ('bug', 'C17', 'dep only new', [(G, DEP, "                            if !visited_variables.contains(v) {\n" + DEP + "                            }\n")]),
    ('bug', 'C17', 'no requeue', [(G, "                    pending_queue.extend(dependencies);", "                    pending_queue.extend(dependencies.into_iter().take(1));")]),
    ('bug', 'C17', 'requeue unless first', [(G, EXT, EXT.replace('first_len != entry.len()', 'first_len > 0 && first_len != entry.len()'))]),
    ('bug', 'C17', 'requeue only first', [(G, EXT, EXT.replace('first_len != entry.len()', 'first_len == 0'))]),
    ('bug', 'C17', 'requeue wrong', [(G, "if let Some(dependencies) = variable.and_then(|v| dependencies.remove(&v)) {", "if pending_queue.is_empty() { if let Some(dependencies) = variable.and_then(|v| dependencies.remove(&v)) {"), (G, "                    pending_queue.extend(dependencies);", "                    pending_queue.extend(dependencies); }")]),
    ('bug', 'C17', 'first body only', [(G, '''                                        .iter()
                                        .map(|b| Box::new(b.iter()) as Box<dyn BodyIter<V, T>>)''', '''                                        .iter()
                                        .take(1)
                                        .map(|b| Box::new(b.iter()) as Box<dyn BodyIter<V, T>>)''')]),
    ('bug', 'C17', 'nonempty bodies', [(G, '''                                        .iter()
                                        .map(|b| Box::new(b.iter()) as Box<dyn BodyIter<V, T>>)''', '''                                        .iter()
                                        .filter(|b| b.len() > 1 || b[0] != Symbol::Epsilon)
                                        .map(|b| Box::new(b.iter()) as Box<dyn BodyIter<V, T>>)''')]),
    ('bug', 'C17', 'result wrong', [(G, "first.remove(&variable).unwrap_or_default()", "first.remove(&variable).unwrap_or_default().into_iter().filter(|s| !matches!(s, Symbol::Epsilon)).collect()")]),
    ('bug', 'C17', 'result none', [(G, "            None => result,\n        }\n    }\n\n    pub(super) fn follow_set", "            None => result.into_iter().filter(|s| !matches!(s, Symbol::Epsilon)).collect(),\n        }\n    }\n\n    pub(super) fn follow_set")]),
    ('bug', 'C17', 'stop at result', [(G, "        while let Some((variable, bodies)) = pending_bodies.pop_front() {", "        while let Some((variable, bodies)) = pending_bodies.pop_front() {\n            if pending_bodies.len() > 40 { break; }\n")]),
    ('bug', 'C17', 'skip a body', [(G, "            for body in bodies {\n                let mut last_body", "            for body in bodies.into_iter().skip(1) {\n                let mut last_body")]),
    ('bug', 'C17', 'var as terminal', [(G, "                        t @ Symbol::Terminal(_) => {\n                            extend_for_variable(\n                                variable,", "                        t @ Symbol::Terminal(_) => {\n                            extend_for_variable(\n                                None,")]),
    ('bug', 'C17', 'terminal if last', [(G, "                        t @ Symbol::Terminal(_) => {\n", "                        t @ Symbol::Terminal(_) if body.peek().is_none() || result.is_empty() => {\n")]),
    ('bug', 'C17', 'visited dummy', [(G, "        if let Some(variable) = variable {\n            visited_variables.insert(variable);\n        }", "        visited_variables.insert(self.start_variable);\n        if let Some(variable) = variable {\n            visited_variables.insert(variable);\n        }")]),
    ('bug', 'C17', 'mark before', [(G, DEP, DEP + "                            if last_body.clone().count() == 3 { visited_variables.insert(*v); }\n")]),
    ('same', 'C17', 'push_front', [(G, "                                pending_bodies.push_back((", "                                pending_bodies.push_front((")]),
    ('same', 'C17', 'pop_back', [(G, "pending_bodies.pop_front()", "pending_bodies.pop_back()")]),
    ('same', 'C17', 'or_default', [(G, DEP, DEP.replace('or_insert_with(HashMap::new)', 'or_default()').replace('or_insert_with(Vec::new)', 'or_default()')),
                                   (G, "        let mut dependencies = HashMap::new();\n        let mut visited", "        let mut dependencies: DependencyMap<'a, V, T> = HashMap::new();\n        let mut visited")]),
    ('same', 'C17', 'no result_len', [(G, ") || result_len != result.len();", ");"), (G, "            let result_len = result.len();\n", "")]),
    ('same', 'C17', 'loop of pushes', [(G, "                    pending_queue.extend(dependencies);", "                    for dependency in dependencies {\n                        pending_queue.push_back(dependency);\n                    }")]),
    ('same', 'C17', 'match instead of let else', [(G, '''                            let Some(first_v) = first.get(v).cloned() else {
                                // the first set of v is empty
                                break;
                            };
''', '''                            let first_v = match first.get(v) {
                                Some(first_v) => first_v.clone(),
                                None => break,
                            };
''')]),
    ('same', 'C17', 'insert result', [(G, '''                            if !visited_variables.contains(v) {
''', '''                            if visited_variables.insert(*v) {
'''), (G, "                                visited_variables.insert(*v);\n\n", "")]),
    ('same', 'C17', 'get without remove', [(G, "variable.and_then(|v| dependencies.remove(&v))", "variable.and_then(|v| dependencies.get(&v).cloned())")]),
    ('same', 'C17', 'if let result', [(G, '''        match variable {
            Some(variable) => {
                // first set of variable has been stored in `first`, not `result`
                first.remove(&variable).unwrap_or_default()
            }
            None => result,
        }
    }
''', '''        if let Some(variable) = variable {
            return first.get(&variable).cloned().unwrap_or_default();
        }
        result
    }
''')]),
    ('same', 'C17', 'retain', [(G, '''                            let Some(first_v) = first.get(v).cloned() else {''', '''                            let Some(mut first_v) = first.get(v).cloned() else {'''),
                              (G, '''                                first_v.into_iter().filter(|s| {
                                    // only keep epsilon if v was the last variable in the body
                                    !matches!(s, Symbol::Epsilon) || last_symbol_in_body
                                }),
''', '''                                first_v,
'''), (G, "                            extend_for_variable(\n                                variable,\n                                first_v", "                            if !last_symbol_in_body {\n                                first_v.remove(&Symbol::Epsilon);\n                            }\n                            extend_for_variable(\n                                variable,\n                                first_v")][:1] + [(G, '''                            extend_for_variable(
                                variable,
                                first_v.into_iter().filter(|s| {
                                    // only keep epsilon if v was the last variable in the body
                                    !matches!(s, Symbol::Epsilon) || last_symbol_in_body
                                }),
''', '''                            if !last_symbol_in_body {
                                first_v.remove(&Symbol::Epsilon);
                            }
                            extend_for_variable(
                                variable,
                                first_v,
''')]),
    ('same', 'C17', 'while peek', [(G, '''                while let Some(symbol) = body.next() {
                    match symbol {''', '''                loop {
                    let Some(symbol) = body.next() else { break };
                    match symbol {''')]),
    ('same', 'C17', 'last by clone len', [(G, "body.peek().is_none();\n", "last_body.clone().count() == 1;\n")]),
    ('same', 'C17', 'explicit epsilon arm', [(G, "                        _ => (),\n                    }\n                    last_body.next();", "                        Symbol::Epsilon => {}\n                    }\n                    last_body.next();")]),
    ('same', 'C17', 'suffix stepping first', [(G, "                    match symbol {\n                        t @ Symbol::Terminal(_) => {", "                    let rest = last_body.clone();\n                    last_body.next();\n                    match symbol {\n                        t @ Symbol::Terminal(_) => {"), (G, ".push(last_body.clone());", ".push(rest);"), (G, "                        _ => (),\n                    }\n                    last_body.next();", "                        _ => (),\n                    }")]),
]
