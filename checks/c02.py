"""C02: the longest match wins."""
from lexing import *


def check(ctx):
    ctx.rule('every round of Lexer::next feeds the next character to the automaton; the text of the token grows to all characters read exactly when the automaton accepts')
    ctx.rule('the search ends only at the end of the input or before a character the automaton cannot take, and yields the text of the last acceptance')
    ctx.notes['taken as given'] = 'the automaton (subject of C10, C11 and C12)'
    ctx.part('step', Lexing(ctx, ('longest',)).go)
