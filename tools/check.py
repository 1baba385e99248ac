"""python3 check.py ID [quick|thorough]"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rep = Report(pid, tier, '')
    import checks
    try:
        extra = checks.RUN[pid](pid, tier, rep)
    except BuildError as e:
        print(pid + ': the library does not build from ' + SRC)
        print(str(e)[:3000])
        sys.exit(2)
    for k in known_findings():
        if ('property=%s ' % pid) in k:
            print('KNOWN-FINDING: ' + k)
    sys.exit(rep.finish(extra))


main()
