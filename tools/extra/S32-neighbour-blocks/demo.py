import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
q = so3.random_quat(300)
d = so3.geodesic_distance(q[:, None], q).fill_diagonal_(9).min(1)[0]
check(torch.allclose(so3.nearest_neighbour_distance(q), d, atol=1e-5), "nearest neighbour distances")

print("ok")
