import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import o2
a = o2.uniform_grid((3, 2)); b = a.clone()
a += 5
check(torch.equal(o2.uniform_grid((3, 2)), b), "grid changed by editing an earlier one")

print("ok")
