import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GAvgSpatialPool3d
x = torch.randn(1, 2, 3, 4, 4, 4)
y, _ = GAvgSpatialPool3d(2, divisor_override=3)(x, torch.zeros(3))
z = torch.nn.AvgPool3d(2, divisor_override=3)(x.flatten(1, 2)).view(1, 2, 3, 2, 2, 2)
check(torch.allclose(y, z), "divisor override")

print("ok")
