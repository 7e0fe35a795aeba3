# L01, toolbox interface: the matching sub-checks of X09
# VT-MEX: vl_svmtrain vl_twister
# VT-SHIM: shimlearn.c
import sys
from vtoct import *
include('X09', ['svmtrain'])

if __name__ == "__main__": sys.exit(main())
