import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv.core import main
sys.exit(main(sys.argv[1:]))
