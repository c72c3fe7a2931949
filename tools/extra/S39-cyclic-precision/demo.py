import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
q = so3.cyclic_y(500).double()
R = so3.quat_to_matrix(q)
P = torch.linalg.matrix_power(R[1], 500)
check((P - torch.eye(3)).abs().max() < 1e-3, "the generator of order 500 does not return to the identity")
R2 = R[499] @ R[1]
check((R2 - torch.eye(3)).abs().max() < 1e-5, "the last element is not the inverse of the first")

print("ok")
