import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn.kernels import GSeparableKernel
from gconv.gnn import functional as F
k = GSeparableKernel(1, 1, (3, 3), (2,), torch.tensor([[1.0], [2.0]]), F.create_grid_R2(3), det_H=lambda s: s[:, 0] ** 2,
    inverse_H=lambda s: 1 / s, left_apply_to_H=lambda a, b: a[:, None] * b, left_apply_to_Rn=lambda s, g: s[:, :, None, None] * g,
    sample_H=lambda q, w, g: w[:1].expand(q.shape[0], -1) * q, sample_Rn=lambda w, g: w)
with torch.no_grad():
    w = [k(torch.ones(1, 1), torch.tensor([[s]]))[1] for s in (1.0, 0.1)]
check(torch.allclose(w[1], w[0] / 0.01, rtol=1e-4), "weights of an element of determinant 0.01")

print("ok")
