import sys
from mon.core import main
sys.exit(main(sys.argv[1:]))
