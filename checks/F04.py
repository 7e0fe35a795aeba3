# F04, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_dsift vl_imsmooth
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['dsift'])

if __name__ == "__main__": sys.exit(main())
