"""Warms the build directory. Every check also builds what it needs itself."""
from . import common


def main():
    common.build_idlc()
    common.build_idlc(release=True)
    common.build_lib()
    common.build_idlc(kind='asan')
    print('setup: idlc built (debug, release)')
    return 0
