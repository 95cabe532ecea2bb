"""C09: regex structure follows operator precedence and textual order."""
from rex import *


def check(ctx):
    ctx.rule('every path of the regex parser adds to the tree exactly the part that the documented grammar gives the tokens taken on it')
    ctx.part('parser', Rex(ctx, ('tree',)).go)
