import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GBatchNorm2d
m = GBatchNorm2d(2, momentum=None); r = torch.nn.BatchNorm2d(2, momentum=None)
for _ in range(3):
    x = 3 + torch.randn(4, 2, 3, 5, 5)
    m(x, None); r(x.flatten(2, 3))
check(torch.allclose(m.running_mean, r.running_mean, atol=1e-5), f"{m.running_mean} {r.running_mean}")

print("ok")
