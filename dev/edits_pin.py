G = 'pango-parser/src/grammar.rs'
I = 'pango-parser/src/cfsm/item.rs'
C = 'pango-parser/src/cfsm/mod.rs'
CS = 'pango-parser/src/cfsm/state.rs'
T = 'pango-parser/src/parser/table.rs'
SL = 'pango-parser/src/parser/slr.rs'
TRANS = 'transitions.insert(symbol.into(), new_state_id);'
GET = '''    pub fn get_grammar(self: Pin<&Self>) -> &Grammar<V, T> {
        &self.get_ref().grammar
    }
'''
END = '''        // the `start_state_id` of the inner `Cfsm` is already set

        self.cfsm
'''
STATES = '''        &mut unsafe { self.cfsm.as_mut().get_unchecked_mut() }.states
'''
NEW = '''        Self {
            start_state: None,
            cfsm: Box::pin(Cfsm {
                start_state: 0,
                states: BTreeSet::new(),
                grammar,
                _pin: PhantomPinned,
            }),
        }
'''
SLR = '''        let cfsm = Cfsm::from_grammar(grammar);

        let table = ParseTable::new_slr(cfsm).expect("grammar is not SLR");

        Self { table }
'''
ENDT = '''        Ok(Self {
            action,
            goto,
            _cfsm: cfsm_pin,
        })
'''
FROM = '''        Self {
            body: NonNull::from(body),
            cursor,
        }
'''
EDITS = [
    ('bug', 'C23', 'transition keys of variables are temporaries', [(C, TRANS, '''transitions.insert(
                    match symbol {
                        Symbol::Variable(v) => (&Symbol::Variable(*v)).into(),
                        symbol => symbol.into(),
                    },
                    new_state_id,
                );''')]),
    ('bug', 'C23', 'no pinned marker', [(C, '''    grammar: Grammar<V, T>,
    _pin: PhantomPinned,
''', '''    grammar: Grammar<V, T>,
'''), (C, '''                grammar,
                _pin: PhantomPinned,
''', '''                grammar,
'''), (C, '''    marker::PhantomPinned,
''', '')]),
    ('bug', 'C23', 'marked as movable', [(C, '''struct CfsmBuilder<V, T> {
    /// Start''', '''impl<V, T> Unpin for Cfsm<V, T> {}

struct CfsmBuilder<V, T> {
    /// Start''')]),
    ('bug', 'C23', 'grammar moved out by name', [(C, GET, GET + '''
    pub fn into_grammar(self: Pin<Box<Self>>) -> Grammar<V, T> {
        unsafe { Pin::into_inner_unchecked(self) }.grammar
    }
''')]),
    ('bug', 'C23', 'mutable grammar', [(C, GET, GET + '''
    pub fn get_grammar_mut(self: Pin<&mut Self>) -> &mut Grammar<V, T> {
        unsafe { &mut self.get_unchecked_mut().grammar }
    }
''')]),
    ('bug', 'C23', 'mutable grammar by map', [(C, GET, GET + '''
    pub fn get_grammar_mut(self: Pin<&mut Self>) -> Pin<&mut Grammar<V, T>> {
        unsafe { self.map_unchecked_mut(|cfsm| &mut cfsm.grammar) }
    }
''')]),
    ('bug', 'C23', 'start items before the pin', [(C, '''        let mut builder = Self::builder(grammar);

        let mut state_id_generator''', '''        let start_items = ItemSet::from((grammar.get_start_variable_rules(), &grammar));
        let mut builder = Self::builder(grammar);

        let mut state_id_generator'''), (C, '''            ItemSet::from((
                builder.get_grammar().get_start_variable_rules(),
                builder.get_grammar(),
            )),
''', '''            start_items,
''')]),
    ('bug', 'C23', 'table without the machine', [(T, '''    _cfsm: Pin<Box<Cfsm<V, T>>>,
''', '''    start_variable: V,
'''), (T, '''            _cfsm: cfsm_pin,
''', '''            start_variable: grammar.get_start_variable(),
'''), (T, '''    pub(crate) fn get_grammar(&self) -> &Grammar<V, T> {
        self._cfsm.as_ref().get_grammar()
    }
''', '''    pub(crate) fn get_start_variable(&self) -> &V {
        &self.start_variable
    }
'''), (T, '    Grammar, Symbol,\n', '    Symbol,\n'), (SL, 'self.table.get_grammar().get_start_variable()', '*self.table.get_start_variable()')]),
    ('bug', 'C23', 'machine kept only for small tables', [(T, '''    _cfsm: Pin<Box<Cfsm<V, T>>>,
''', '''    _cfsm: Option<Pin<Box<Cfsm<V, T>>>>,
    start_variable: V,
'''), (T, '''        Ok(Self {
            action,
            goto,
            _cfsm: cfsm_pin,
''', '''        let start_variable = grammar.get_start_variable();
        Ok(Self {
            action,
            goto,
            _cfsm: None,
            start_variable,
'''), (T, '''    pub(crate) fn get_grammar(&self) -> &Grammar<V, T> {
        self._cfsm.as_ref().get_grammar()
    }
''', '''    pub(crate) fn get_start_variable(&self) -> &V {
        &self.start_variable
    }
'''), (T, '    Grammar, Symbol,\n', '    Symbol,\n'), (SL, 'self.table.get_grammar().get_start_variable()', '*self.table.get_start_variable()')]),
    ('bug', 'C23', 'unreachable rules removed at the end', [(G, '''impl<V, T> Grammar<V, T> {
''', '''impl<V: Eq + Hash, T> Grammar<V, T> {
    pub(crate) fn shrink(&mut self) {
        self.rules.shrink_to_fit();
    }
}

impl<V, T> Grammar<V, T> {
'''), (C, '''        builder.build()
''', '''        unsafe { builder.cfsm.as_mut().get_unchecked_mut() }.grammar.shrink();

        builder.build()
''')]),
    ('bug', 'C23', 'static grammar', [(C, GET, '''    pub fn get_grammar<'a>(self: Pin<&Self>) -> &'a Grammar<V, T> {
        unsafe { &*(&self.get_ref().grammar as *const Grammar<V, T>) }
    }
''')]),
    ('bug', 'C23', 'machine can be cloned', [(C, '#[derive(Debug)]\npub struct Cfsm', '#[derive(Debug, Clone)]\npub struct Cfsm'), (CS, '#[derive(Debug)]\npub(crate) struct State', '#[derive(Debug, Clone)]\npub(crate) struct State'),
        (CS, 'pub(crate) struct WSymbol<V, T>(NonNull', '#[derive(Clone)]\npub(crate) struct WSymbol<V, T>(NonNull'), (I, '#[derive(Debug)]\npub(crate) struct ItemSet', '#[derive(Debug, Clone)]\npub(crate) struct ItemSet')]),
    ('bug', 'C23', 'machine moved to a new allocation', [(C, END, '''        let Cfsm {
            states, grammar, ..
        } = *unsafe { Pin::into_inner_unchecked(self.cfsm) };

        Box::pin(Cfsm {
            start_state: start_state_id,
            states,
            grammar,
            _pin: PhantomPinned,
        })
''')]),
    ('bug', 'C23', 'machine exchanged with replace', [(C, END, '''        let this = unsafe { self.cfsm.as_mut().get_unchecked_mut() };
        let mut result = Box::new(Cfsm {
            start_state: 0,
            states: BTreeSet::new(),
            grammar: unsafe { std::ptr::read(&this.grammar) },
            _pin: PhantomPinned,
        });
        std::mem::swap(this, &mut *result);

        self.cfsm
''')]),
    ('bug', 'C23', 'rule shortened through the pointer', [(I, '''    pub(super) fn advance(mut self) -> Self {
''', '''    pub(super) fn advance(mut self) -> Self {
        if let Some(Symbol::Epsilon) = self.get_body().last() {
            unsafe { self.body.as_mut() }.pop();
        }
''')]),
    ('bug', 'C23', 'rule shortened through a raw pointer', [(I, '''    pub(super) fn advance(mut self) -> Self {
''', '''    pub(super) fn advance(mut self) -> Self {
        if let Some(Symbol::Epsilon) = self.get_body().last() {
            unsafe { (*self.body.as_ptr()).pop() };
        }
''')]),
    ('bug', 'C23', 'items handed out', [(C, GET, GET + '''
    #[allow(private_interfaces)]
    pub fn items(self: Pin<&Self>) -> Vec<ItemBody<V, T>>
    where
        V: Copy,
    {
        self.get_ref().states.iter().flat_map(|s| s.item_set.iter()).map(|(_, b)| b).collect()
    }
''')]),
    ('bug', 'C23', 'machine handed out without pin', [(C, GET, GET + '''
    pub fn into_boxed(self: Pin<Box<Self>>) -> Box<Self> {
        unsafe { Pin::into_inner_unchecked(self) }
    }
''')]),
    ('bug', 'C23', 'machine replaced in the table', [(T, '''    pub(crate) fn get_grammar(&self)''', '''    pub(crate) fn set_cfsm(&mut self, cfsm: Pin<Box<Cfsm<V, T>>>) {
        self._cfsm = cfsm;
    }

    pub(crate) fn get_grammar(&self)'''), (SL, SLR, '''        let cfsm = Cfsm::from_grammar(grammar);

        let table = ParseTable::new_slr(cfsm).expect("grammar is not SLR");

        Self { table }
    }

    pub fn set_cfsm(&mut self, cfsm: std::pin::Pin<Box<Cfsm<V, T>>>) {
        self.table.set_cfsm(cfsm);
''')]),
    ('bug', 'C23', 'machine taken from the table', [(T, '''    pub(crate) fn get_grammar(&self)''', '''    pub(crate) fn swap_cfsm(&mut self, cfsm: &mut Pin<Box<Cfsm<V, T>>>) {
        std::mem::swap(&mut self._cfsm, cfsm);
    }

    pub(crate) fn get_grammar(&self)''')]),
    ('bug', 'C23', 'pointer to a rebuilt body', [(I, FROM, '''        let own: Vec<Symbol<V, T>> = Vec::from_iter(body.iter().map(|s| unsafe { std::ptr::read(s) }));
        let result = Self {
            body: NonNull::from(&own),
            cursor,
        };
        std::mem::forget(own);
        result
''')]),
    ('bug', 'C23', 'follow of a copied grammar', [(T, '''        let follow_set = grammar.follow_set();
''', '''        let copy = Grammar::clone(grammar);
        let follow_set = copy.follow_set();
'''), (T, '''    T: TerminalEq + TerminalHash + Eq + Hash,
{
    pub fn new_slr''', '''    T: TerminalEq + TerminalHash + Eq + Hash + Clone,
{
    pub fn new_slr'''), (SL, '''    T: TerminalEq + TerminalHash + Eq + Hash,
{
    pub fn new(''', '''    T: TerminalEq + TerminalHash + Eq + Hash + Clone,
{
    pub fn new(''')]),
    ('bug', 'C23', 'table built for another machine', [(SL, SLR, '''        let table = {
            let cfsm = Cfsm::from_grammar(grammar.clone());
            let mut table = ParseTable::new_slr(cfsm).expect("grammar is not SLR");
            table.rebase(Cfsm::from_grammar(grammar));
            table
        };

        Self { table }
'''), (SL, '''    T: TerminalEq + TerminalHash + Eq + Hash,
{
    pub fn new(''', '''    T: TerminalEq + TerminalHash + Eq + Hash + Clone,
{
    pub fn new('''), (T, '''    pub(crate) fn get_grammar(&self)''', '''    pub(crate) fn rebase(&mut self, cfsm: Pin<Box<Cfsm<V, T>>>) {
        drop(std::mem::replace(&mut self._cfsm, cfsm));
    }

    pub(crate) fn get_grammar(&self)''')]),
    # behaviour preserving
    ('same', 'C23', 'states by variable', [(C, STATES, '''        let cfsm = unsafe { self.cfsm.as_mut().get_unchecked_mut() };
        &mut cfsm.states
''')]),
    ('same', 'C23', 'states by map', [(C, STATES, '''        unsafe {
            self.cfsm
                .as_mut()
                .map_unchecked_mut(|cfsm| &mut cfsm.states)
                .get_unchecked_mut()
        }
''')]),
    ('same', 'C23', 'states by helper', [(C, STATES, '''        &mut self.get_mut().states
    }

    fn get_mut(&mut self) -> &mut Cfsm<V, T> {
        unsafe { self.cfsm.as_mut().get_unchecked_mut() }
''')]),
    ('same', 'C23', 'pin in two steps', [(C, NEW, '''        let cfsm = Cfsm {
            start_state: 0,
            states: BTreeSet::new(),
            grammar,
            _pin: PhantomPinned,
        };
        let cfsm = Box::into_pin(Box::new(cfsm));
        Self {
            start_state: None,
            cfsm,
        }
''')]),
    ('same', 'C23', 'build by parts', [(C, END, '''        let Self { cfsm, .. } = self;
        cfsm
''')]),
    ('same', 'C23', 'table in a variable', [(T, '''        Ok(Self {
            action,
            goto,
            _cfsm: cfsm_pin,
        })
''', '''        let table = Self {
            action,
            goto,
            _cfsm: cfsm_pin,
        };
        Ok(table)
''')]),
    ('same', 'C23', 'key in a variable', [(C, TRANS, '''let key = WSymbol::from(symbol);
                transitions.insert(key, new_state_id);'''), (C, 'state::StateIdGenerator,\n', 'state::{StateIdGenerator, WSymbol},\n')]),
    ('same', 'C23', 'pointer by cast', [(I, FROM, '''        let body = body as *const Body<V, T> as *mut Body<V, T>;
        Self {
            // SAFETY: pointers made from references are not null
            body: unsafe { NonNull::new_unchecked(body) },
            cursor,
        }
''')]),
    ('same', 'C23', 'pointer by const', [(I, 'body: NonNull<Body<V, T>>,', 'body: *const Body<V, T>,'), (I, 'body: NonNull::from(body),', 'body: body as *const _,'), (I, '        unsafe { self.body.as_ref() }\n', '        unsafe { &*self.body }\n'),
        (I, 'unsafe { self.body.as_ref() })\n', 'unsafe { &*self.body })\n'), (I, '    hash::Hash,\n    ptr::NonNull,\n', '    hash::Hash,\n')]),
    ('same', 'C23', 'new by map', [(SL, SLR, '''        ParseTable::new_slr(Cfsm::from_grammar(grammar))
            .map(|table| Self { table })
            .expect("grammar is not SLR")
''')]),
    ('same', 'C23', 'grammar accessor by deref', [(C, GET, '''    pub fn get_grammar(self: Pin<&Self>) -> &Grammar<V, T> {
        let this = self.get_ref();
        let Cfsm { grammar, .. } = this;
        grammar
    }
''')]),
    ('same', 'C23', 'grammar accessor of the parser', [(SL, SLR, SLR + '''    }

    pub fn get_grammar(&self) -> &Grammar<V, T> {
        self.table.get_grammar()
''')]),
    ('same', 'C23', 'terminals as references', [(T, '''                            let t = match s {
                                Symbol::Terminal(t) => Terminal::T(t.into()),
''', '''                            let t = match s {
                                Symbol::Terminal(t) => Terminal::from(t),
''')]),
    ('same', 'C23', 'wrapped marker', [(C, '    _pin: PhantomPinned,\n}', '    _pin: Marker,\n}\n\n#[derive(Debug, Default)]\nstruct Marker(PhantomPinned);'), (C, '                _pin: PhantomPinned,\n', '                _pin: Marker::default(),\n')]),
    ('same', 'C23', 'grammar trimmed before the pin', [(G, '''impl<V, T> Grammar<V, T> {
''', '''impl<V: Eq + Hash, T> Grammar<V, T> {
    pub(crate) fn shrink(&mut self) {
        self.rules.shrink_to_fit();
    }
}

impl<V, T> Grammar<V, T> {
'''), (C, '''        let mut builder = Self::builder(grammar);
''', '''        let mut grammar = grammar;
        grammar.shrink();
        let mut builder = Self::builder(grammar);
''')]),
    ('same', 'C23', 'owner as an option', [(T, '_cfsm: Pin<Box<Cfsm<V, T>>>,', '_cfsm: Option<Pin<Box<Cfsm<V, T>>>>,'), (T, '_cfsm: cfsm_pin,', '_cfsm: Some(cfsm_pin),'), (T, 'self._cfsm.as_ref().get_grammar()', 'self._cfsm.as_ref().expect("no machine").as_ref().get_grammar()')]),
    ('same', 'C23', 'owner set later', [(T, '_cfsm: Pin<Box<Cfsm<V, T>>>,', '_cfsm: Option<Pin<Box<Cfsm<V, T>>>>,'), (T, ENDT, '''        let mut table = Self {
            action,
            goto,
            _cfsm: None,
        };
        table._cfsm = Some(cfsm_pin);
        Ok(table)
'''), (T, 'self._cfsm.as_ref().get_grammar()', 'self._cfsm.as_ref().expect("no machine").as_ref().get_grammar()')]),
    ('same', 'C23', 'table assembled by a helper', [(T, ENDT, '''        Ok(Self::assemble((action, goto), cfsm_pin))
    }

    fn assemble((action, goto): (ActionTable<V, T>, GotoTable<V>), cfsm: Pin<Box<Cfsm<V, T>>>) -> Self {
        Self {
            _cfsm: cfsm,
            action,
            goto,
        }
''')]),
    ('same', 'C23', 'tables filled by a helper', [(T, ENDT, '''        Ok((action, goto))
'''), (T, '''    pub fn new_slr(cfsm_pin: Pin<Box<Cfsm<V, T>>>) -> Result<Self, ()> {
        let cfsm = cfsm_pin.as_ref();
''', '''    pub fn new_slr(cfsm_pin: Pin<Box<Cfsm<V, T>>>) -> Result<Self, ()> {
        let (action, goto) = Self::entries(cfsm_pin.as_ref())?;
        Ok(Self {
            action,
            goto,
            _cfsm: cfsm_pin,
        })
    }

    fn entries(cfsm: Pin<&Cfsm<V, T>>) -> Result<(ActionTable<V, T>, GotoTable<V>), ()> {
''')]),
    ('bug', 'C23', 'owner kept on one branch', [(T, '_cfsm: Pin<Box<Cfsm<V, T>>>,', '_cfsm: Option<Pin<Box<Cfsm<V, T>>>>,'), (T, ENDT, '''        let mut table = Self {
            action,
            goto,
            _cfsm: None,
        };
        if !table.goto.is_empty() {
            table._cfsm = Some(cfsm_pin);
        }
        Ok(table)
'''), (T, 'self._cfsm.as_ref().get_grammar()', 'self._cfsm.as_ref().expect("no machine").as_ref().get_grammar()')]),
    ('bug', 'C23', 'owner dropped by helper', [(T, '_cfsm: Pin<Box<Cfsm<V, T>>>,', '_cfsm: Option<Pin<Box<Cfsm<V, T>>>>,'), (T, ENDT, '''        let keep = goto.len() > 1;
        Ok(Self {
            action,
            goto,
            _cfsm: Self::keep(cfsm_pin, keep),
        })
    }

    fn keep(cfsm: Pin<Box<Cfsm<V, T>>>, keep: bool) -> Option<Pin<Box<Cfsm<V, T>>>> {
        if keep {
            Some(cfsm)
        } else {
            None
        }
'''), (T, 'self._cfsm.as_ref().get_grammar()', 'self._cfsm.as_ref().expect("no machine").as_ref().get_grammar()')]),
    ('bug', 'C23', 'table entries returned without the machine', [(SL, 'pub struct Slr<V, T> {', 'pub struct Slr<V, T> {\n    action: Vec<std::collections::HashMap<Terminal<T>, ActionKind<V>>>,'), (SL, SLR, '''        let cfsm = Cfsm::from_grammar(grammar.clone());
        let action = ParseTable::new_slr(cfsm).expect("grammar is not SLR").into_action();
        let table = ParseTable::new_slr(Cfsm::from_grammar(grammar)).expect("grammar is not SLR");

        Self { table, action }
'''), (SL, '''    T: TerminalEq + TerminalHash + Eq + Hash,
{
    pub fn new(''', '''    T: TerminalEq + TerminalHash + Eq + Hash + Clone,
{
    pub fn new('''), (SL, '''        let Some(action_kind) = self
            .table
            .action
''', '''        let Some(action_kind) = self
            .action
'''), (T, '''    pub(crate) fn get_grammar(&self)''', '''    pub(super) fn into_action(self) -> ActionTable<V, T> {
        self.action
    }

    pub(crate) fn get_grammar(&self)''')]),
]
