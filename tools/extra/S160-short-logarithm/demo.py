import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
l = so3.quaternion_log(torch.tensor([[-0.6, 0.8, 0.0, 0.0]]))
check(abs(float(l[0, 1]) - math.acos(-0.6)) < 1e-4, f"logarithm {l}")

print("ok")
