# C02, toolbox interface: the matching sub-checks of X09
# VT-MEX: vl_kdtreebuild vl_kdtreequery vl_twister
# VT-SHIM: shimlearn.c
import sys
from vtoct import *
include('X09', ['kdtree'])

if __name__ == "__main__": sys.exit(main())
