import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GMaxGroupPool
x = -1 - torch.rand(2, 12, 4, 3, 3)
check(torch.equal(GMaxGroupPool()(x, None), x.amax(2)), "maximum of negative values")

print("ok")
