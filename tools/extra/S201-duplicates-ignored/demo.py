import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so2
d = so2.nearest_neighbour_distance(torch.tensor([[0.0], [0.005], [2.0]]))
check(float(d[0]) < 0.01, f"{d}")

print("ok")
