import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GMaxGlobalPool
x = torch.zeros(1, 1, 4, 30, 30); x[0, 0, 0, 0, 1] = 5
check(GMaxGlobalPool()(x, None).max() == 5, "maximum missed")

print("ok")
