import os
import sys
from ionmc import harness
rc = harness.main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
