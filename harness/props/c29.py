"""C29: the configuration holds validated values; set, reset, save and load are coherent."""
from props import config_common


def run(ctx):
    config_common.run(ctx, 'ops', [dict(CFG_DEPTH='3' if ctx.quick else '4', CFG_EMIT='0', CFG_MODE='ops')],
                      ctx.n(120, 900), 18)
