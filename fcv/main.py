import sys,os
from . import check
sys.exit(check.main(sys.argv[1],os.environ.get('VERIF_TIER') if len(sys.argv)<3 else sys.argv[2]))
