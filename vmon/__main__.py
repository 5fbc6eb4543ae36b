import argparse
import sys

from . import core
from .catalog import PROPS

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--replay')
a = ap.parse_args()
meta = PROPS.get(a.property)
if meta is None:
    print('unknown property ' + a.property)
    sys.exit(2)
code = core.main(a.property, a.replay, meta)
sys.stdout.flush()
sys.exit(code)
