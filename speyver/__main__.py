import sys
from speyver.framework import main

sys.exit(main())
