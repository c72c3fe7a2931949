import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.gnn import GSeparableConvSE2
torch.manual_seed(0)
l = GSeparableConvSE2(1, 1, 3, 4, permute_output_grid=False)
x = torch.randn(1, 1, 1, 5, 5); a = torch.tensor([[1.0]])
y = l(x, a, a)[0]
g = torch.tensor([[math.pi / 2]])
z = l(x.rot90(1, (3, 4)), a + g, a + g)[0]
w = l(x.rot90(-1, (3, 4)), a + g, a + g)[0]
e = min((z - y.rot90(1, (3, 4))).abs().max(), (w - y.rot90(-1, (3, 4))).abs().max())
check(e < 1e-4, f"not equivariant {e}")

print("ok")
