import sys
from vlib.harness import main
sys.exit(main())
