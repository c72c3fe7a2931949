import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
try:
    g = so3.cyclic_y(5, device="meta")
    check(g.device.type == "meta", "device ignored")
except (NotImplementedError, RuntimeError):
    pass

print("ok")
