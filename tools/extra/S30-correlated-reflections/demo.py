import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import o3
h = o3.random_grid(2000)
a = (h[:, 2] > h[:, 4])
n = ((h[:, 0] > 0) & a).sum().item()
check(300 < n < 700, f"{n} of 2000 random elements are rotations with R01 > R10")

print("ok")
