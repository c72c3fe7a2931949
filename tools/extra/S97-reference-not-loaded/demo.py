import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GConvSE2
from gconv.geometry import so2
H = so2.uniform_grid(4)
a = GConvSE2(1, 1, 3, grid_H=so2.random_grid(4), permute_output_grid=False, group_sampling_width=0.5)
b = GConvSE2(1, 1, 3, grid_H=H, permute_output_grid=False, group_sampling_width=0.5)
b.load_state_dict(a.state_dict())
x = torch.randn(1, 1, 4, 5, 5)
check(torch.allclose(a(x, H)[0], b(x, H)[0], atol=1e-5), "outputs after loading the state")

print("ok")
