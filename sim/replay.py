"""python -m sim.replay FILE   exit 1 and a VIOLATION line if the recorded violation happens again"""
import json, sys
from .driver import replay

if __name__ == '__main__':
    if replay(sys.argv[1]):
        print(f"VIOLATION property={json.load(open(sys.argv[1]))['property']} replay={sys.argv[1]}")
        sys.exit(1)
    print('not reproduced')
