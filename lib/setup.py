import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vfbuild as B
B.engine()
B.model()
print('executor built')
