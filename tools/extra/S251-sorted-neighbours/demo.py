import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so2
g = torch.tensor([[0.05], [1.0], [2.5], [6.25]])
check((so2.nearest_neighbour_distance(g)[0] - (0.05 + 2 * math.pi - 6.25)).abs() < 1e-3, "wrap")

print("ok")
