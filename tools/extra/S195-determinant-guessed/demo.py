import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn.kernels import GLiftingKernel
from gconv.gnn import functional as gF
g = 2 * torch.eye(2)[None]
k = GLiftingKernel(1, 1, (3, 3), (1,), g, gF.create_grid_R2(3), inverse_H=torch.linalg.inv,
                   left_apply_to_Rn=lambda H, x: (H[:, None, None] @ x[..., None])[..., 0], sample_Rn=gF.grid_sample)
a = k(g)
k.det_H = None
check(torch.allclose(a, k(g)), "divided by a determinant that was not given")

print("ok")
