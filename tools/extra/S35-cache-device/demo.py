import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
a = so3.uniform_grid(6, "matrix", device="cpu"); b = a.clone()
a.zero_()
check(torch.equal(so3.uniform_grid(6, "matrix"), b), "editing a grid changed the cache")

print("ok")
