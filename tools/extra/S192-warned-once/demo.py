import sys, math, warnings
warnings.filterwarnings("ignore")
import torch
torch.manual_seed(0)
def check(ok, msg):
    if not bool(ok):
        print("FAIL:", msg); sys.exit(1)
from gconv.geometry import so3
for i in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        so3.matrix_to_euler(torch.eye(3)[None])
    check(len(w) == 1, f"{len(w)} warnings, time {i}")

print("ok")
