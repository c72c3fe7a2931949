import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
# minus the rotation by twice 5e-4
q = torch.tensor([[-math.cos(5e-4), math.sin(5e-4), 0, 0]], dtype=torch.float64)
check((so3.quaternion_log(q)[0, 1] - (math.pi - 5e-4)).abs() < 1e-6, "logarithm close to minus the identity")

print("ok")
