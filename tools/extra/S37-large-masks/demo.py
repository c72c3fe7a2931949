import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import functional as F
for n in range(12, 33):
    i = torch.arange(n) * 2 - (n - 1)
    d = (i[:, None, None]**2 + i[:, None]**2 + i**2) * 100
    r = 121 * (n - 1)**2
    m = F.create_spherical_mask_R3(n).bool()
    check((m == (d < r))[d != r].all(), f"mask of size {n}")

print("ok")
