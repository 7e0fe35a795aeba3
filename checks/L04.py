# L04, toolbox interface: the matching sub-checks of X09
# VT-MEX: vl_homkermap
# VT-SHIM: shimlearn.c
import sys
from vtoct import *
include('X09', ['homkermap'])

if __name__ == "__main__": sys.exit(main())
