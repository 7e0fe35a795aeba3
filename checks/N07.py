# N07, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_imsmooth
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['imsmooth'])

if __name__ == "__main__": sys.exit(main())
