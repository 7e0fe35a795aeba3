# C07, toolbox interface: the matching sub-checks of X09
# VT-MEX: vl_fisher vl_vlad
# VT-SHIM: shimlearn.c
import sys
from vtoct import *
include('X09', ['encode'])

if __name__ == "__main__": sys.exit(main())
