"""writes baseline.json: the shapes of the functions the loop invariants were written for"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, cfront, run1
from contracts.base import REG
run1.load_all()
prog = cfront.load()
json.dump({n: check.sig(prog, REG[n].fn) for n in REG if REG[n].fn in prog.funcs}, open(os.path.join(check.HERE, 'baseline.json'), 'w'), indent=0, sort_keys=True)
