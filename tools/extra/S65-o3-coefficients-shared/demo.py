import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import o3
c = o3.random_grid((200, 4))[..., 0]
check((c[:, 0] != c[:, 1]).any(), "coefficients of neighbours are always equal")

print("ok")
