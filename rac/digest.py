import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE)); sys.path.insert(0, os.environ.get('RAC_REPO', '/repo'))
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
import logic.sim
from rac.p_c21 import digest
print(json.dumps([digest(kw)[1] for kw in json.loads(sys.argv[1])]))
