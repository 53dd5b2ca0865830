import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from nq import c18
c18.record()
