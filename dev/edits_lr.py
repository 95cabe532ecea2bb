M = 'pango-parser/src/cfsm/mod.rs'
I = 'pango-parser/src/cfsm/item.rs'
S = 'pango-parser/src/cfsm/state.rs'
G = 'pango-parser/src/grammar.rs'
EDITS = [
    ('bug', 'C19', 'advance one eps', [(I, "            .take_while(|s| matches!(s, Symbol::Epsilon))\n            .count();\n        self.cursor = self", "            .take(1).filter(|s| matches!(s, Symbol::Epsilon))\n            .count();\n        self.cursor = self")]),
    ('bug', 'C19', 'advance filter', [(I, "            .take_while(|s| matches!(s, Symbol::Epsilon))\n            .count();\n        self.cursor = self", "            .filter(|s| matches!(s, Symbol::Epsilon))\n            .count();\n        self.cursor = self")]),
    ('bug', 'C19', 'advance skip off', [(I, "            .skip(self.cursor + 1)\n", "            .skip(self.cursor)\n")]),
    ('bug', 'C19', 'advance no eps', [(I, "        self.cursor += 1 + self\n", "        self.cursor += 1 + 0 * self\n")]),
    ('bug', 'C19', 'start no eps', [(I, "        let cursor = body\n            .iter()\n            .take_while(|s| matches!(s, Symbol::Epsilon))\n            .count();", "        let cursor = usize::from(matches!(body.first(), Some(Symbol::Epsilon)));")]),
    ('bug', 'C19', 'start filter', [(I, "        let cursor = body\n            .iter()\n            .take_while(|", "        let cursor = body\n            .iter()\n            .filter(|")]),
    ('bug', 'C19', 'closure not transitive', [(I, "                    pending_bodies.push_back(new_item_body);\n", "                    if new_item_body.cursor == 0 && new_item_body.get_body().len() > 1 { pending_bodies.push_back(new_item_body); }\n")]),
    ('bug', 'C19', 'closure none', [(I, "                    pending_bodies.push_back(new_item_body);\n", "")]),
    ('bug', 'C19', 'closure break', [(I, "                continue;\n            };\n\n            let new_item_bodies", "                break;\n            };\n\n            let new_item_bodies")]),
    ('bug', 'C19', 'closure first bodies', [(I, "bodies.iter().map(ItemBody::from))", "bodies.iter().take(3).map(ItemBody::from))")]),
    ('bug', 'C19', 'closure skips known heads', [(I, "            let new_item_bodies = grammar\n", "            if items.contains_key(&head) { continue; }\n            let new_item_bodies = grammar\n")]),
    ('bug', 'C19', 'closure last head only', [(I, "VecDeque::from_iter(items.values().flat_map(|bodies| bodies.iter()).copied());", "VecDeque::from_iter(items.values().flat_map(|bodies| bodies.iter().take(1)).copied());")]),
    ('bug', 'C19', 'group by terminal only', [(I, "                        let Some(symbol) = item_body.get_cursor_symbol() else {", "                        let Some(symbol) = item_body.get_cursor_symbol().filter(|_| item_body.cursor < 3) else {")]),
    ('bug', 'C19', 'group one per head', [(I, '''                            .entry(*head)
                            .or_insert_with(HashSet::new)
                            .insert(item_body);''', '''                            .entry(*head)
                            .or_insert_with(|| HashSet::from([item_body]));''')]),
    ('bug', 'C19', 'advance only first', [(M, '''                            .into_iter()
                            .copied()
                            .map(ItemBody::advance)''', '''                            .into_iter()
                            .take(1)
                            .copied()
                            .map(ItemBody::advance)''')]),
    ('bug', 'C19', 'no advance', [(M, '''                            .map(ItemBody::advance)
''', '')]),
    ('bug', 'C19', 'advance twice', [(M, '''                            .map(ItemBody::advance)
''', '''                            .map(ItemBody::advance)
                            .map(|b| if b.cursor == 2 { b.advance() } else { b })
''')]),
    ('bug', 'C19', 'find by size', [(S, "        self.item_set == *item_set\n", "        let _ = item_set; self.transitions.is_empty()\n")]),
    ('bug', 'C19', 'wrong transition', [(M, "transitions.insert(symbol.into(), new_state_id);", "transitions.insert(symbol.into(), new_state_id.saturating_sub(0) + 0 * new_state_id);\n                if new_state_id == 7 { break; }")]),
    ('bug', 'C19', 'transition entry kept', [(M, "transitions.insert(symbol.into(), new_state_id);", "if !matches!(symbol, Symbol::Epsilon) && new_state_id != start_state_id { transitions.insert(symbol.into(), new_state_id); }")]),
    ('bug', 'C19', 'existing not pushed', [(M, "                            pending_states.push_back(state);\n", "                            if state_id < 64 { pending_states.push_back(state); }\n")]),
    ('bug', 'C19', 'symbol amount all', [(I, "            .filter(|s| !matches!(s, Symbol::Epsilon))\n            .count()\n    }", "            .count()\n    }")]),
    ('bug', 'C19', 'symbol amount terminals', [(I, "            .filter(|s| !matches!(s, Symbol::Epsilon))\n            .count()\n    }", "            .skip_while(|s| matches!(s, Symbol::Epsilon))\n            .count()\n    }")]),
    ('bug', 'C19', 'start state second', [(M, "        builder.set_start_state_id(start_state_id);\n", "        builder.set_start_state_id(start_state_id);\n        let start_state_id = state_id_generator.next();\n")]),
    ('same', 'C19', 'advance loop', [(I, '''        self.cursor += 1 + self
            .get_body()
            .iter()
            .skip(self.cursor + 1)
            .take_while(|s| matches!(s, Symbol::Epsilon))
            .count();
        self.cursor = self.cursor.min(self.get_body().len());

        self''', '''        let skipped = self
            .get_body()
            .iter()
            .skip(self.cursor + 1)
            .take_while(|s| matches!(s, Symbol::Epsilon))
            .count();
        let len = self.get_body().len();
        self.cursor = std::cmp::min(self.cursor + skipped + 1, len);
        self''')]),
    ('same', 'C19', 'advance while', [(I, '''        self.cursor += 1 + self
            .get_body()
            .iter()
            .skip(self.cursor + 1)
            .take_while(|s| matches!(s, Symbol::Epsilon))
            .count();
        self.cursor = self.cursor.min(self.get_body().len());

        self''', '''        self.cursor += 1;
        while matches!(self.get_cursor_symbol(), Some(Symbol::Epsilon)) {
            self.cursor += 1;
        }
        self.cursor = self.cursor.min(self.get_body().len());
        self''')]),
    ('same', 'C19', 'no min', [(I, "        self.cursor = self.cursor.min(self.get_body().len());\n", "")]),
    ('same', 'C19', 'cursor position', [(I, "        let cursor = body\n            .iter()\n            .take_while(|s| matches!(s, Symbol::Epsilon))\n            .count();", "        let cursor = body\n            .iter()\n            .position(|s| !matches!(s, Symbol::Epsilon))\n            .unwrap_or(body.len());")]),
    ('same', 'C19', 'stack closure', [(I, "while let Some(item_body) = pending_bodies.pop_front()", "while let Some(item_body) = pending_bodies.pop_back()")]),
    ('same', 'C19', 'contains then insert', [(I, '''                if items
                    .entry(head)
                    .or_insert_with(ItemBodies::new)
                    .insert(new_item_body)
                {
                    pending_bodies.push_back(new_item_body);
                }''', '''                let known = items.entry(head).or_insert_with(ItemBodies::new);
                if !known.contains(&new_item_body) {
                    known.insert(new_item_body);
                    pending_bodies.push_back(new_item_body);
                }''')]),
    ('same', 'C19', 'if let closure', [(I, '''            let Some(head) = item_body.get_cursor_variable().copied() else {
                continue;
            };
''', '''            let head = match item_body.get_cursor_symbol() {
                Some(Symbol::Variable(v)) => *v,
                _ => continue,
            };
''')]),
    ('same', 'C19', 'pop back states', [(M, "pending_states.pop_front()", "pending_states.pop_back()")]),
    ('same', 'C19', 'extract helper', [(M, '''                let new_item_set = item_set
                    .into_iter()
                    .map(|(head, item_bodies)| {
                        let new_item_bodies = item_bodies
                            .into_iter()
                            .copied()
                            .map(ItemBody::advance)
                            .collect::<HashSet<_>>();
                        (head, new_item_bodies)
                    })
                    .collect::<HashMap<_, _>>();

                let item_set = ItemSet::from((new_item_set, builder.get_grammar()));
''', '''                let item_set = Self::goto_set(item_set, builder.get_grammar());
'''), (M, '''    pub fn from_grammar(grammar: Grammar<V, T>) -> Pin<Box<Self>> {
''', '''    fn goto_set(
        item_set: HashMap<V, HashSet<&ItemBody<V, T>>>,
        grammar: &Grammar<V, T>,
    ) -> ItemSet<V, T> {
        let mut moved: HashMap<V, HashSet<ItemBody<V, T>>> = HashMap::new();
        for (head, bodies) in item_set {
            for body in bodies {
                moved.entry(head).or_default().insert(body.advance());
            }
        }
        ItemSet::from((moved, grammar))
    }

    pub fn from_grammar(grammar: Grammar<V, T>) -> Pin<Box<Self>> {
''')]),
    ('same', 'C19', 'insert via entry', [(M, "transitions.insert(symbol.into(), new_state_id);", "let key = symbol.into();\n                let _ = transitions.insert(key, new_state_id);")]),
    ('same', 'C19', 'find with for', [(M, '''                    match builder
                        .get_states_mut()
                        .iter()
                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,
                        None => {''', '''                    let mut known = None;
                    for s in builder.get_states_mut().iter() {
                        if s.has_item_set(&item_set) {
                            known = Some(s.id);
                            break;
                        }
                    }
                    match known {
                        Some(id) => id,
                        None => {''')]),
    ('same', 'C19', 'position closure map', [(M, '''                        .find(|s| s.has_item_set(&item_set))
                    {
                        Some(State { id, .. }) => *id,''', '''                        .filter(|s| s.has_item_set(&item_set))
                        .map(|s| s.id)
                        .next()
                    {
                        Some(id) => id,''')]),
    ('same', 'C19', 'group for loop', [(I, '''        self.items
            .iter()
            .fold(
                HashMap::new(),
                |mut group_by_symbol, (head, item_bodies)| {
                    for item_body in item_bodies {
                        let Some(symbol) = item_body.get_cursor_symbol() else {
                            continue;
                        };

                        group_by_symbol
                            .entry(symbol)
                            .or_insert_with(HashMap::new)
                            .entry(*head)
                            .or_insert_with(HashSet::new)
                            .insert(item_body);
                    }

                    group_by_symbol
                },
            )
            .into_iter()''', '''        let mut groups: HashMap<&Symbol<V, T>, HashMap<V, HashSet<&ItemBody<V, T>>>> = HashMap::new();
        for (head, item_bodies) in &self.items {
            for item_body in item_bodies {
                if let Some(symbol) = item_body.get_cursor_symbol() {
                    let group = groups.entry(symbol).or_default();
                    group.entry(*head).or_default().insert(item_body);
                }
            }
        }
        groups.into_iter()''')]),
]
