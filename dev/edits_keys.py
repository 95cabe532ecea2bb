IT = 'pango-parser/src/cfsm/item.rs'
ST = 'pango-parser/src/cfsm/state.rs'
TB = 'pango-parser/src/parser/table.rs'
MO = 'pango-lexer/src/fsm/nfa/model.rs'
SI = 'pango-lexer/src/fsm/nfa/sim.rs'
TK = 'pango-lexer/src/regex/tokenizer.rs'
LB = 'pango-parser/src/lib.rs'
IEQ = 'self.get_body() == other.get_body() && self.cursor == other.cursor'
IHASH = '''        self.get_body().hash(state);
        self.cursor.hash(state);
'''
TEQ = '''        match (self, other) {
            // SAFETY: Both pointers point to a terminal which reside in the pinnned `Cfsm`, which
            // is NOT `Unpin`.
            (Terminal::T(lhs), Terminal::T(rhs)) => unsafe {
                lhs.as_ref().terminal_eq(rhs.as_ref())
            },
            (Terminal::Eof, Terminal::Eof) => true,
            _ => false,
        }
'''
SORD = '''        Some(self.id.cmp(&other.id))
'''
SCMP = '''        self.id.cmp(&other.id)
'''
EDITS = [
    ('bug', 'C24', 'item eq by address', [(IT, IEQ, 'self.body == other.body && self.cursor == other.cursor')]),
    ('bug', 'C24', 'item eq by ptr::eq', [(IT, IEQ, 'std::ptr::eq(self.get_body(), other.get_body()) && self.cursor == other.cursor')]),
    ('bug', 'C24', 'item eq by as_ptr', [(IT, IEQ, 'self.body.as_ptr() == other.body.as_ptr() && self.cursor == other.cursor')]),
    ('bug', 'C24', 'item eq no cursor', [(IT, IEQ, 'self.get_body() == other.get_body()')]),
    ('bug', 'C24', 'item eq by length', [(IT, IEQ, 'self.get_body().len() == other.get_body().len() && self.cursor == other.cursor')]),
    ('bug', 'C24', 'item hash by address', [(IT, 'self.get_body().hash(state);', 'self.body.hash(state);')]),
    ('bug', 'C24', 'item hash by cast', [(IT, 'self.get_body().hash(state);', '(self.body.as_ptr() as usize).hash(state);')]),
    ('bug', 'C24', 'item hash by ptr::hash', [(IT, 'self.get_body().hash(state);', 'std::ptr::hash(self.get_body(), state);')]),
    ('bug', 'C24', 'item set by size', [(IT, 'self.items == other.items', 'self.items.len() == other.items.len()')]),
    ('bug', 'C24', 'item set by keys', [(IT, 'self.items == other.items', 'self.items.len() == other.items.len() && self.items.keys().all(|k| other.items.contains_key(k))')]),
    ('bug', 'C24', 'wsymbol eq by address', [(ST, 'self.as_ref() == other.as_ref()', 'self.0 == other.0')]),
    ('bug', 'C24', 'wsymbol hash by address', [(ST, 'self.as_ref().hash(state);', 'self.0.hash(state);')]),
    ('bug', 'C24', 'wsymbol eq by variant', [(ST, 'self.as_ref() == other.as_ref()', 'std::mem::discriminant(self.as_ref()) == std::mem::discriminant(other.as_ref())')]),
    ('bug', 'C24', 'terminal eq eof', [(TB, '(Terminal::Eof, Terminal::Eof) => true,', '(Terminal::Eof, _) => true,')]),
    ('bug', 'C24', 'terminal eof unequal', [(TB, '(Terminal::Eof, Terminal::Eof) => true,', '')]),
    ('bug', 'C24', 'terminal always equal', [(TB, 'lhs.as_ref().terminal_eq(rhs.as_ref())', 'lhs.as_ref().terminal_eq(lhs.as_ref()) || rhs.as_ref().terminal_eq(lhs.as_ref())')]),
    ('bug', 'C24', 'terminal eq by address', [(TB, '''unsafe {
                lhs.as_ref().terminal_eq(rhs.as_ref())
            },''', 'lhs == rhs,')]),
    ('bug', 'C24', 'terminal hash by address', [(TB, 'Terminal::T(t) => unsafe { t.as_ref() }.terminal_hash(state),', 'Terminal::T(t) => t.hash(state),')]),
    ('bug', 'C24', 'terminal hash and address', [(TB, 'Terminal::T(t) => unsafe { t.as_ref() }.terminal_hash(state),', 'Terminal::T(t) => { unsafe { t.as_ref() }.terminal_hash(state); t.hash(state) }')]),
    ('bug', 'C24', 'parser state partial reversed', [(ST, SORD, '        Some(other.id.cmp(&self.id))\n')]),
    ('bug', 'C24', 'parser state by transitions', [(ST, SCMP + '    }\n}\n\nimpl<V, T> AsRef', '        self.transitions.len().cmp(&other.transitions.len())\n    }\n}\n\nimpl<V, T> AsRef')]),
    ('bug', 'C24', 'parser state eq by parity', [(ST, 'self.id == other.id', 'self.id % 2 == other.id % 2')]),
    ('bug', 'C24', 'parser state cmp never greater', [(ST, SCMP + '    }\n}\n\nimpl<V, T> AsRef', '''        if self.id == other.id {
            std::cmp::Ordering::Equal
        } else {
            std::cmp::Ordering::Less
        }
    }
}

impl<V, T> AsRef''')]),
    ('bug', 'C24', 'lexer state by fin', [(MO, 'self.id == other.id', 'self.id == other.id || self.fin == other.fin')]),
    ('bug', 'C24', 'run eq by state', [(SI, '#[derive(Debug, Clone, Hash, PartialEq, Eq)]\nstruct Run', '#[derive(Debug, Clone, Eq, Hash)]\nstruct Run'), (SI, '#[cfg(test)]\nmod tests {', '''impl PartialEq for Run {
    fn eq(&self, other: &Self) -> bool {
        self.state_id == other.state_id
    }
}

#[cfg(test)]
mod tests {''')]),
    ('bug', 'C24', 'run hash by address', [(SI, '#[derive(Debug, Clone, Hash, PartialEq, Eq)]\nstruct Run', '#[derive(Debug, Clone, PartialEq, Eq)]\nstruct Run'), (SI, '#[cfg(test)]\nmod tests {', '''impl std::hash::Hash for Run {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        (self as *const Self).hash(state);
    }
}

#[cfg(test)]
mod tests {''')]),
    ('bug', 'C24', 'quantifier eq by variant', [(TK, '#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\n#[cfg_attr(test, derive(Arbitrary))]\npub(crate) enum QuantifierKind', '#[derive(Debug, Clone, Copy, Eq, Hash)]\n#[cfg_attr(test, derive(Arbitrary))]\npub(crate) enum QuantifierKind'), (TK, 'impl QuantifierKind {', '''impl PartialEq for QuantifierKind {
    fn eq(&self, other: &Self) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(other)
    }
}

impl QuantifierKind {''')]),
    ('same', 'C24 C19', 'item eq shortcut', [(IT, IEQ, 'self.cursor == other.cursor && (std::ptr::eq(self.get_body(), other.get_body()) || self.get_body() == other.get_body())')]),
    ('same', 'C24 C19', 'item eq shortcut nonnull', [(IT, IEQ, '(self.body == other.body || self.get_body() == other.get_body()) && self.cursor == other.cursor')]),
    ('same', 'C24 C19', 'item eq tuple', [(IT, IEQ, '(self.cursor, self.get_body()) == (other.cursor, other.get_body())')]),
    ('same', 'C24 C19', 'item eq early', [(IT, IEQ, '''if self.cursor != other.cursor {
            return false;
        }
        self.get_body().eq(other.get_body())''')]),
    ('same', 'C24', 'item hash order', [(IT, IHASH, '''        self.cursor.hash(state);
        self.get_body().hash(state);
''')]),
    ('same', 'C24', 'item hash tuple', [(IT, IHASH, '        (self.get_body(), self.cursor).hash(state);\n')]),
    ('same', 'C24', 'item hash body only', [(IT, IHASH, '        self.get_body().hash(state);\n')]),
    ('same', 'C24', 'item hash length', [(IT, IHASH, '''        let body = self.get_body();
        body.len().hash(state);
        body.hash(state);
        state.write_usize(self.cursor);
''')]),
    ('same', 'C24 C20 C21', 'terminal eq nested', [(TB, TEQ, '''        match self {
            Terminal::Eof => matches!(other, Terminal::Eof),
            Terminal::T(lhs) => match other {
                Terminal::Eof => false,
                // SAFETY: see above
                Terminal::T(rhs) => unsafe { rhs.as_ref() }.terminal_eq(unsafe { lhs.as_ref() }),
            },
        }
''')]),
    ('same', 'C24', 'terminal hash tagged', [(TB, '''            Terminal::T(t) => unsafe { t.as_ref() }.terminal_hash(state),
            Terminal::Eof => 0.hash(state),
''', '''            Terminal::T(t) => {
                1u8.hash(state);
                unsafe { t.as_ref() }.terminal_hash(state)
            }
            Terminal::Eof => state.write_u8(0),
''')]),
    ('same', 'C24', 'parser state partial by cmp', [(ST, SORD, '        Some(self.cmp(other))\n')]),
    ('same', 'C24', 'parser state eq by cmp', [(ST, 'self.id == other.id', 'self.cmp(other) == std::cmp::Ordering::Equal')]),
    ('same', 'C24', 'parser state cmp by match', [(ST, SCMP + '    }\n}\n\nimpl<V, T> AsRef', '''        if self.id < other.id {
            std::cmp::Ordering::Less
        } else if self.id > other.id {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    }
}

impl<V, T> AsRef''')]),
    ('same', 'C24 C11 C12', 'run eq manual', [(SI, '#[derive(Debug, Clone, Hash, PartialEq, Eq)]\nstruct Run', '#[derive(Debug, Clone, Eq, Hash)]\nstruct Run'), (SI, '#[cfg(test)]\nmod tests {', '''impl PartialEq for Run {
    fn eq(&self, other: &Self) -> bool {
        self.state_id == other.state_id && self.state_counters == other.state_counters
    }
}

#[cfg(test)]
mod tests {''')]),
    ('same', 'C24', 'wsymbol eq by match', [(ST, 'self.as_ref() == other.as_ref()', 'self.0 == other.0 || *self.as_ref() == *other.as_ref()')]),
    ('same', 'C24', 'item set by parts', [(IT, 'self.items == other.items', 'self.items.len() == other.items.len() && self.items.iter().all(|(head, bodies)| other.items.get(head) == Some(bodies))')]),
]
