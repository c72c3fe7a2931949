import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
q = torch.tensor([[1.0, 0, 0, 0], [0.8, 0.6, 0, 0]], dtype=torch.float64)
check((so3.quaternion_log(q)[1] - so3.quaternion_log(q[1:])[0]).abs().max() < 1e-9, "logarithm depends on the other elements")

print("ok")
