# F10, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_mser vl_erfill
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['mser', 'erfill'])

if __name__ == "__main__": sys.exit(main())
