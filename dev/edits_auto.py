"""found by dev/auto.py"""
LEX = 'pango-lexer/src/lexer/mod.rs'
COM = 'pango-lexer/src/fsm/nfa/compiler.rs'
FEEDLOOP = '''        while let Some(ch) = self.iter.next() {
            if !sim.can_feed(ch) {
                // the current token is the longest token we can 'munch'

                break;
            }
'''
EDITS = [
    ('bug', 'C02', 'characters that do not fit are passed over', [(LEX, "we can 'munch'\n\n                break;", "we can 'munch'\n\n                continue;")]),
    ('bug', 'C02', 'white space inside a token is passed over', [(LEX, "            if !sim.can_feed(ch) {\n", "            if ch == ' ' && token_kind.is_none() && !sim.can_feed(ch) {\n                continue;\n            }\n\n            if !sim.can_feed(ch) {\n")]),
    ('bug', 'C10', 'last part of a sequence twice', [(COM, 'exprs.iter().take(exprs.len() - 1)', 'exprs.iter().take(exprs.len() + 1)')]),
    ('same', 'C01 C02 C03 C04', 'loop with a flag', [(LEX, FEEDLOOP, '''        let mut stuck = false;
        while !stuck {
            let Some(ch) = self.iter.next() else {
                stuck = true;
                continue;
            };
            if !sim.can_feed(ch) {
                stuck = true;
                continue;
            }
''')]),
    ('bug', 'C12', 'closure queues only what it has already seen', [
        ('pango-lexer/src/fsm/nfa/sim.rs', 'if result.insert(new_run.clone())', 'if !result.insert(new_run.clone())')]),
    ('bug', 'C12', 'closure removes what it finds', [
        ('pango-lexer/src/fsm/nfa/sim.rs', 'if result.insert(new_run.clone())', 'if result.remove(&new_run.clone())')]),
    ('same', 'C11 C12 C13', 'closure depth first', [
        ('pango-lexer/src/fsm/nfa/sim.rs', 'not_visited.push_back(new_run)', 'not_visited.push_front(new_run)')]),
]
TOK = 'pango-lexer/src/regex/tokenizer.rs'
CTL = 'Some(char::from_u32(ch as u32 % 32).expect("failed to convert code point"))'
EDITS += [
    ('bug', 'C06', 'control escape divides', [(TOK, CTL, CTL.replace('%', '/'))]),
    ('bug', 'C06', 'control escape flips a bit', [(TOK, CTL, CTL.replace('% 32', '^ 64'))]),
    ('bug', 'C06', 'control escape modulo 31', [(TOK, CTL, CTL.replace('% 32', '% 31'))]),
    ('bug', 'C06', 'control escape keeps the sixth bit', [(TOK, CTL, CTL.replace('% 32', '& 0x3f'))]),
    ('bug', 'C06', 'control escape in lower case only', [(TOK, CTL, CTL.replace('% 32', '- 64'))]),
    ('same', 'C06 C14', 'control escape by a mask', [(TOK, CTL, CTL.replace('% 32', '& 0x1f'))]),
    ('same', 'C06 C14', 'control escape in upper case', [(TOK, CTL, 'Some(char::from((ch.to_ascii_uppercase() as u8) - 64))')]),
    ('same', 'C06 C14', 'control escape from a byte', [(TOK, CTL, 'Some(char::from(ch as u8 % 32))')]),
    ('same', 'C06 C14', 'control escape by case', [(TOK, CTL, "char::from_u32(if ch >= 'a' { ch as u32 - 96 } else { ch as u32 - 64 })")]),
    ('same', 'C06 C14', 'control escape flips', [(TOK, CTL, "char::from_u32((ch.to_ascii_uppercase() as u32) ^ 0x40)")]),
]
