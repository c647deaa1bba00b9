"""builds the dumper (stamped with the hash of its source)"""
from . import prog
prog.ensure_dumper()
print('dumper ready')
