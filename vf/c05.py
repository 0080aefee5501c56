from . import rtcheck


def check(ctx):
    rtcheck.run(ctx, {'refs'}, 64, 2400)
