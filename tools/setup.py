"""setup_cmd: builds the extractor and checks that the toolchain is there."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..'))
import check
m = check.extract()
os.remove(m)
print('setup ok')
