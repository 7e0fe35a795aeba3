# F03, toolbox interface: the matching sub-checks of X07
# VT-MEX: vl_sift vl_siftdescriptor vl_imsmooth
# VT-SHIM: shim.c
import sys
from vtoct import *
include('X07', ['sift', 'descriptor'])

if __name__ == "__main__": sys.exit(main())
