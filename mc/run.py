import sys
from mc.core import main
sys.exit(main(sys.argv[1:]))
