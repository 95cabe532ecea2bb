"""C21: a successful parse is a derivation of exactly the input."""
from driver import *


def check(ctx):
    ctx.rule('every path between two loop heads of the parse loop is the move of the LR machine for its lookahead, action and stack: shift pushes the token as a leaf, '
             'reduce replaces as many nodes as the body has symbols by one node with them as children (last first), accept only with the bottom of the stack left')
    ctx.rule('a token is taken from the lexer only when none is kept, is kept until shifted, and the end of the input is assumed only after the last token')
    ctx.notes['taken as given'] = 'the parse table (subject of C20) of the state machine (subject of C19), which bounds the reductions by the stack'
    ctx.part('parse', Driver(ctx, ('tree',)).go)
