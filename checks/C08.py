# C08, toolbox interface: the matching sub-checks of X09
# VT-MEX: vl_aib vl_aibhist vl_twister vl_binsum
# VT-SHIM: shimlearn.c
import sys
from vtoct import *
include('X09', ['aib'])

if __name__ == "__main__": sys.exit(main())
