import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
for n in range(1, 400):
    check(so3.cyclic_z(n).shape == (n, 4), f"cyclic group of order {n} has {so3.cyclic_z(n).shape[0]} elements")

print("ok")
