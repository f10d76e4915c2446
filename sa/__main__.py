import sys
from .report import main

sys.exit(main(sys.argv[1:]))
