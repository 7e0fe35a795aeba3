# G02, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_slic vl_quickshift vl_binsum vl_localmax
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['segment'])

if __name__ == "__main__": sys.exit(main())
