import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
q = torch.tensor([[0.9, 0.8, -0.3, 0.5], [0.2, 0.1, 0.1, 0.1], [1.5, 1.0, 1.0, 1.0]], dtype=torch.float64)
l = so3.quaternion_log(q)
v = torch.linalg.norm(l[:, 1:], dim=-1, keepdim=True)
e = torch.exp(l[:, :1]) * torch.cat((torch.cos(v), torch.sin(v) * l[:, 1:] / v), -1)
check(torch.allclose(e, q, atol=1e-6), "exp(log(q)) != q for a quaternion that is not a unit")

print("ok")
