PK = 'pango-lexer/src/iter/peekable.rs'
MW = 'pango-lexer/src/iter/cautious/map_while.rs'
TW = 'pango-lexer/src/iter/cautious/take_while.rs'
NEXT = '''        let next = self.iter.next();
        if next.is_some() {
            self.current = Some(next.clone());
        }
        next
'''
IF = '''        self.iter.next_if(func).map(|next| {
            self.current
                .insert(Some(next))
                .clone()
                .expect("just inserted a Some, so this should never fail")
        })
'''
IFEQ = IF.replace('next_if(func)', 'next_if_eq(expected)')
MAP = '''        match self.iter.peek() {
            Some(next) => {
                let result = (self.predicate)(next);

                if result.is_some() {
                    self.iter.next();
                }

                result
            }
            None => None,
        }
'''
TAKE = '''        let return_next = match self.iter.peek() {
            Some(next) => (self.predicate)(next),
            None => false,
        };

        if return_next {
            self.iter.next()
        } else {
            None
        }
'''
EDITS = [
    ('bug', 'C15', 'current forgotten at the end', [(PK, NEXT, '''        let next = self.iter.next();
        self.current = Some(next.clone());
        next
''')]),
    ('bug', 'C15', 'current not set by next_if', [(PK, IF, '        self.iter.next_if(func)\n')]),
    ('bug', 'C15', 'current not set by next_if_eq', [(PK, IFEQ, '        self.iter.next_if_eq(expected)\n')]),
    ('bug', 'C15', 'current is the next item', [(PK, NEXT, '''        let next = self.iter.next();
        if next.is_some() {
            self.current = Some(self.iter.peek().cloned());
        }
        next
''')]),
    ('bug', 'C15', 'peek sets current', [(PK, '''    fn peek(&mut self) -> Option<&I::Item> {
        self.iter.peek()
    }''', '''    fn peek(&mut self) -> Option<&I::Item> {
        self.current = Some(self.iter.peek().cloned());
        self.iter.peek()
    }''')]),
    ('bug', 'C15', 'next_if loses rejected', [(PK, IF, '''        let next = self.iter.next().filter(func);
        if next.is_some() {
            self.current = Some(next.clone());
        }
        next
''')]),
    ('bug', 'C15', 'next_if keeps accepted', [(PK, IF, '''        let next = self.iter.peek().cloned().filter(func);
        if next.is_some() {
            self.current = Some(next.clone());
        }
        next
''')]),
    ('bug', 'C15', 'next_if sets current when rejecting', [(PK, IF, '''        self.current = Some(self.iter.peek().cloned());
        self.iter.next_if(func)
''')]),
    ('bug', 'C15', 'map_while loses rejected', [(MW, MAP, '        self.iter.next().and_then(|next| (self.predicate)(&next))\n')]),
    ('bug', 'C15', 'map_while keeps accepted', [(MW, '''                if result.is_some() {
                    self.iter.next();
                }
''', '')]),
    ('bug', 'C15', 'map_while takes two', [(MW, 'if result.is_some() {\n                    self.iter.next();', 'if result.is_some() {\n                    self.iter.next();\n                    self.iter.next();')]),
    ('bug', 'C15', 'map_while takes on none', [(MW, 'if result.is_some() {', 'if result.is_none() {')]),
    ('bug', 'C15', 'take_while loses rejected', [(TW, TAKE, '        self.iter.next().filter(|next| (self.predicate)(next))\n')]),
    ('bug', 'C15', 'take_while negated', [(TW, 'if return_next {', 'if !return_next {')]),
    ('bug', 'C15', 'take_while skips one', [(TW, TAKE.split('\n\n')[1], '''        if return_next {
            self.iter.next();
            self.iter.next()
        } else {
            None
        }
''')]),
    ('bug', 'C15', 'current starts with the first', [(PK, '''        CachedPeekable {
            iter: self.peekable(),
            current: None,
        }''', '''        let mut iter = self.peekable();
        let current = Some(iter.next());
        CachedPeekable { iter, current }''')]),
    ('bug', 'C15', 'map_while starts one later', [(MW, '''        CautiousMapWhile {
            iter: self,
''', '''        self.next();
        CautiousMapWhile {
            iter: self,
''')]),
    ('same', 'C15 C14 C05 C06 C07', 'next by if let', [(PK, NEXT, '''        let item = self.iter.next()?;
        self.current = Some(Some(item.clone()));
        Some(item)
''')]),
    ('same', 'C15 C14 C05 C06 C07', 'next by inspect', [(PK, NEXT, '''        let next = self.iter.next();
        if let Some(item) = &next {
            self.current.replace(Some(item.clone()));
        }
        next
''')]),
    ('same', 'C15 C14 C05 C06 C07', 'next_if by peek', [(PK, IF, '''        if func(self.iter.peek()?) {
            self.next()
        } else {
            None
        }
''')]),
    ('same', 'C15', 'next_if helper', [(PK, IF, '''        let next = self.iter.next_if(func);
        self.remember(next)
'''), (PK, IFEQ, '''        let next = self.iter.next_if_eq(expected);
        self.remember(next)
'''), (PK, '''    pub fn current(&self)''', '''    fn remember(&mut self, item: Option<I::Item>) -> Option<I::Item> {
        if item.is_some() {
            self.current = Some(item.clone());
        }
        item
    }

    pub fn current(&self)''')]),
    ('same', 'C15 C14 C05 C06 C07', 'current flat', [(PK, 'current: Option<Option<I::Item>>', 'current: Option<I::Item>'), (PK, NEXT, '''        let next = self.iter.next();
        if next.is_some() {
            self.current = next.clone();
        }
        next
'''), (PK, 'self.current.clone().unwrap_or_default()', 'self.current.clone()'), (PK, IF, '''        let next = self.iter.next_if(func)?;
        self.current = Some(next.clone());
        Some(next)
'''), (PK, IFEQ, '''        let next = self.iter.next_if_eq(expected)?;
        self.current = Some(next.clone());
        Some(next)
''')]),
    ('same', 'C15 C06 C07', 'map_while early', [(MW, MAP, '''        let mapped = (self.predicate)(self.iter.peek()?)?;
        self.iter.next();
        Some(mapped)
''')]),
    ('same', 'C15 C06 C07', 'map_while and_then', [(MW, MAP, '''        let mapped = self.iter.peek().and_then(|next| (self.predicate)(next));
        if mapped.is_some() {
            let _ = self.iter.next();
        }
        mapped
''')]),
    ('same', 'C15', 'take_while next_if', [(TW, TAKE, '        self.iter.next_if(|item| (self.predicate)(item))\n')]),
    ('same', 'C15', 'take_while let else', [(TW, TAKE, '''        let Some(next) = self.iter.peek() else {
            return None;
        };
        if !(self.predicate)(next) {
            return None;
        }
        self.iter.next()
''')]),
]
