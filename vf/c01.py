from . import alias, common, rtcheck


def check(ctx):
    alias.run(ctx, common.Idlc(common.build_idlc()))
    rtcheck.run(ctx, {'value','crash','build'}, 64, 2400)
