import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GConvE3
from gconv.geometry import o3
m = GConvE3(1, 1, 1, group_kernel_size=(2, 2), mask=False)
H = o3.uniform_grid((2, 0)); x = torch.randn(1, 1, 2, 3, 3, 3)
seen = {tuple(m(x, H)[1][:, 0].tolist()) for _ in range(40)}
check(len(seen) == 2, f"reflected in none of 40 calls: {seen}")

print("ok")
