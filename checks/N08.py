# N08, toolbox interface: the matching sub-checks of X04
# VT-MEX: vl_imdisttf vl_imintegral
import sys
from vtoct import *
include('X04', ['distance transform', 'integral image', 'gradient and resampling'], 0.4)

if __name__ == "__main__": sys.exit(main())
