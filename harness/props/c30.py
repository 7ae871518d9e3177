"""C30: contexts restore the previous value on every way out."""
from props import config_common


def run(ctx):
    config_common.run(ctx, 'ctx', [dict(CFG_DEPTH='6' if ctx.quick else '9', CFG_EMIT='0', CFG_MODE='ctx')],
                      ctx.n(120, 900), 18)
