import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so2
a, b = torch.tensor([[0.3]]), torch.tensor([[0.5]])
so2.left_apply_angle(a, b)
check(torch.allclose(b, torch.tensor([[0.5]])), "argument changed")

print("ok")
