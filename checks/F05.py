# F05, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_covdet
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['covdet'])

if __name__ == "__main__": sys.exit(main())
