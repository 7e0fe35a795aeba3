# F08, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_hog
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['hog'])

if __name__ == "__main__": sys.exit(main())
