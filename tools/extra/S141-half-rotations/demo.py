import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GSeparableConvE2
from gconv.geometry import o2
g = o2.uniform_grid((4, 2))
m = GSeparableConvE2(1, 1, 3, group_kernel_size=4, grid_H=g, permute_output_grid=False)
k = m.kernel(torch.tensor([[1.0, 0.0]]) , g)[0] if False else None
e = torch.tensor([[1.0, 0.0]])
w = m.kernel(g, e)[0].flatten()
check(torch.allclose(w, m.kernel.weight_H.flatten(), atol=1e-4), "weights at the reference elements")

print("ok")
