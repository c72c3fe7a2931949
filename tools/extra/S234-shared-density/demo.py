import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GConvE3
from gconv.geometry import o3, so3
torch.manual_seed(0)
g = o3.uniform_grid((6, 3))
w = float(0.8 * so3.nearest_neighbour_distance(g[6:, 1:].view(-1, 3, 3)).mean())
l = GConvE3(1, 1, 3, (6, 3), grid_H=g)
check(abs(float(l.kernel.sample_H_kwargs["reflection_width"]) - w) < 1e-5, "width of the reflections")

print("ok")
