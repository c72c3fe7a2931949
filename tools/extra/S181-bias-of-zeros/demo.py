import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GLiftingConvSE2
m = GLiftingConvSE2(2, 2, 3, groups=2, bias=False)
torch.manual_seed(1); m.reset_parameters()
check(m.bias is None and "bias" not in m.state_dict(), "a bias that was not asked for")

print("ok")
