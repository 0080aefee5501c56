from . import rtcheck


def check(ctx):
    rtcheck.run(ctx, {'wire'}, 64, 2400)
