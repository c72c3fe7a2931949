import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn.kernels import GKernel
from gconv.geometry import interpolation
from gconv.gnn import functional as gF
k = GKernel(1, 1, (3, 3), (2,), torch.zeros(2, 1), gF.create_grid_R2(3), det_H=lambda s: torch.exp(2 * s), inverse_H=lambda s: -s,
            left_apply_to_H=lambda a, b: a[:, None] + b, left_apply_to_Rn=lambda s, g: torch.exp(s)[..., None, None] * g,
            sample_H=lambda h, w, g, **o: w[:1].expand(len(h), -1), sample_Rn=lambda w, g, **o: w)
a, b = torch.tensor([[0.0], [0.1]]), torch.tensor([[0.5], [0.7]])
w = k(a, b)
r = w[0, 1, 0, 0] / w[0, 0, 0, 0]
check((r - math.exp(-0.4)).abs().max() < 1e-4, f"{r}")

print("ok")
