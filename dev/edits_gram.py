G = 'pango-parser/src/grammar.rs'
EDITS = [
    ('bug', 'C16', 'start kept', [(G, "        self.start_variable = Some(variable);", "        self.start_variable.get_or_insert(variable);")]),
    ('bug', 'C16', 'long body cut', [(G, "            .insert(body)\n    }", "            .insert(body.into_iter().take(8).collect())\n    }")]),
    ('bug', 'C16', 'body replaced', [(G, '''        self.rules
            .entry(variable)
            .or_insert_with(HashSet::new)
            .insert(body)
''', '''        self.rules.insert(variable, HashSet::from([body])).is_none()
''')]),
    ('bug', 'C16', 'epsilon always removed', [(G, "        let body = body.into();\n", "        let mut body: Body<V, T> = body.into();\n        body.dedup();\n")]),
    ('bug', 'C16', 'epsilon filtered', [(G, "        let body = body.into();\n", "        let body: Body<V, T> = body.into().into_iter().filter(|s| !matches!(s, Symbol::Epsilon)).collect();\n")]),
    ('bug', 'C16', 'empty body not replaced', [(G, "        let body = if !body.is_empty() {", "        let body = if !body.is_empty() || self.rules.is_empty() {")]),
    ('bug', 'C16', 'start unchecked', [(G, "        variables.insert(&start_variable);\n", "")]),
    ('bug', 'C16', 'superset', [(G, "variables.is_subset(&heads)", "heads.is_subset(&variables)")]),
    ('bug', 'C16', 'only last body symbol', [(G, ".flat_map(|body| body.iter())", ".flat_map(|body| body.last())")]),
    ('bug', 'C16', 'only first body symbol', [(G, ".flat_map(|body| body.iter())", ".flat_map(|body| body.first())")]),
    ('bug', 'C16', 'skips first', [(G, ".flat_map(|body| body.iter())", ".flat_map(|body| body.iter().skip(1))")]),
    ('bug', 'C16', 'rules skip first body', [(G, "        bodies.into_iter().for_each(|b| {", "        bodies.into_iter().skip(1).for_each(|b| {")]),
    ('bug', 'C16', 'with_rules sets start', [(G, "        self.add_rules(variable, bodies);\n", "        self.add_rules(variable, bodies);\n        if self.start_variable.is_none() { self.start_variable = Some(variable); }\n")]),
    ('bug', 'C16', 'stops at undeclared', [(G, "        bodies.into_iter().for_each(|b| {\n            let _ = self.add_rule(variable, b.into());\n        });", "        for b in bodies {\n            if !self.add_rule(variable, b.into()) { break; }\n        }")]),
    ('bug', 'C16', 'or_insert', [(G, '''            .or_insert_with(HashSet::new)
            .insert(body)
''', '''            .or_insert_with(|| HashSet::from([body]))
            .is_empty()
''')]),
    ('same', 'C16', 'rules by loop', [(G, "        bodies.into_iter().for_each(|b| {\n            let _ = self.add_rule(variable, b.into());\n        });", "        for body in bodies {\n            self.add_rule(variable, body);\n        }")]),
    ('same', 'C16', 'push epsilon', [(G, '''        let body = body.into();
        // default empty bodies to `Symbol::Epsilon`
        let body = if !body.is_empty() {
            body
        } else {
            Body::from([Symbol::Epsilon])
        };
''', '''        let mut body = body.into();
        if body.is_empty() {
            body.push(Symbol::Epsilon);
        }
''')]),
    ('same', 'C16', 'or_default', [(G, '''            .or_insert_with(HashSet::new)
            .insert(body)
''', '''            .or_default()
            .insert(body)
''')]),
    ('same', 'C16', 'match entry', [(G, '''        self.rules
            .entry(variable)
            .or_insert_with(HashSet::new)
            .insert(body)
''', '''        match self.rules.get_mut(&variable) {
            Some(bodies) => bodies.insert(body),
            None => {
                self.rules.insert(variable, HashSet::from([body]));
                true
            }
        }
''')]),
    ('same', 'C16', 'contains_key loop', [(G, '''        let mut variables = HashSet::new();
        let mut heads = HashSet::new();

        for (head, bodies) in self.rules.iter() {
            heads.insert(head);

            variables.extend(
                bodies
                    .iter()
                    .flat_map(|body| body.iter())
                    .filter_map(|symbol| match symbol {
                        Symbol::Variable(v) => Some(v),
                        Symbol::Terminal(_) | Symbol::Epsilon => None,
                    }),
            )
        }

        let start_variable = self.start_variable.expect("start variable not set");

        variables.insert(&start_variable);

        assert!(
            variables.is_subset(&heads),
            "all variables should have a rule associated with them",
        );
''', '''        let start_variable = self.start_variable.expect("start variable not set");
        assert!(self.rules.contains_key(&start_variable), "no rule for the start variable");
        for bodies in self.rules.values() {
            for body in bodies {
                for symbol in body {
                    if let Symbol::Variable(v) = symbol {
                        assert!(self.rules.contains_key(v), "no rule");
                    }
                }
            }
        }
''')]),
    ('same', 'C16', 'all', [(G, '''        assert!(
            variables.is_subset(&heads),
            "all variables should have a rule associated with them",
        );
''', '''        let complete = variables.iter().all(|v| heads.contains(v));
        assert!(complete, "all variables should have a rule associated with them");
''')]),
    ('same', 'C16', 'difference', [(G, "variables.is_subset(&heads)", "variables.difference(&heads).next().is_none()")]),
]
