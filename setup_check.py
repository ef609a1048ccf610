"""setup: confirm the analyser loads (it needs nothing built)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import check
assert os.path.isdir(check.REPO)
print('ok')
