# C04, toolbox interface: the matching sub-checks of X09
# VT-MEX: vl_ikmeans vl_ikmeanspush vl_hikmeans vl_hikmeanspush vl_twister vl_binsum
# VT-SHIM: shimlearn.c
import sys
from vtoct import *
include('X09', ['ikmeans', 'hikmeans'])

if __name__ == "__main__": sys.exit(main())
