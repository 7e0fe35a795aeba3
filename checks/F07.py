# F07, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_liop
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['liop'])

if __name__ == "__main__": sys.exit(main())
