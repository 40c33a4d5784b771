"""Checks that the toolchain is there and that the framework builds (every check rebuilds on its own)."""
import sys
sys.dont_write_bytecode = True
import vlib

ck = vlib.Check('setup')
ck.build(bins=['libx'], features=['c01'])
print('ok')
