import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn.kernels import GKernel
import torch.nn.functional as F
from gconv.gnn import functional as gF
g = torch.tensor([0.0, 1.0])
k = GKernel(1, 1, (3, 3), (2,), g, gF.create_grid_R2(3), inverse_H=lambda h: -h, left_apply_to_H=lambda a, b: (a[:, None] + b) % 2,
    left_apply_to_Rn=lambda h, x: x * torch.where(h % 2 == 1, -1.0, 1.0).view(-1, 1, 1, 1),
    sample_H=lambda q, s, r: torch.stack([s[int(v) % 2] for v in q]), sample_Rn=gF.grid_sample, sample_Rn_kwargs=dict(align_corners=True))
w = k(torch.tensor([0.0, 1.0, 1.0]), torch.tensor([1.0, 0.0]))
check(w.shape == (1, 2, 1, 3, 3, 3), f"shape {w.shape}")

print("ok")
