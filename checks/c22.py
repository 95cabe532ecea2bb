"""C22: parsing reports errors as values and never panics."""
from driver import *


def check(ctx):
    ctx.rule('no path of the parse loop panics for any lookahead, table row and entry, apart from those that the table excludes (shift without a token, '
             'reductions by more symbols than are on the stack)')
    ctx.rule('a state without actions, a token without action and a missing goto end the parse with an error')
    ctx.notes['taken as given'] = 'the parse table (subject of C20) of the state machine (subject of C19)'
    ctx.part('parse', Driver(ctx, ('panic',)).go)
