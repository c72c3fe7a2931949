import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GInstanceNorm2d
m = GInstanceNorm2d(2, track_running_stats=True); r = torch.nn.InstanceNorm2d(2, track_running_stats=True)
x = 3 + torch.randn(4, 2, 3, 5, 5)
m(x, None); r(x.flatten(2, 3))
m.eval(); r.eval()
check(torch.allclose(m(x, None)[0], r(x.flatten(2, 3)).view_as(x), atol=1e-5), "evaluation mode")

print("ok")
