"""Freeze the element tables and the parameter database of the base commit.

Run ONCE by hand (``/opt/venv/bin/python tools/make_golden.py``) on the pristine
tree; the checks only ever read the frozen files, never this script's inputs.
"""
import json
import os
import numpy as np
import torch
import tomli
from tad_dftd4.reference import d4 as r
from tad_dftd4.reference.d4 import charge_eeq, charge_gfn2
from tad_dftd4 import data
from tad_dftd4.data.wfpair import WFPAIR
from tad_mctc.data import COV_D3, VDW_PAIRWISE, PAULING, GAM, ZEFF
from tad_multicharge.param import eeq2019

D = torch.double
out = {}
for k in ("refalpha", "refascale", "refc", "refcovcn", "refscount", "refsys", "secalpha", "secscale"):
    out[k] = getattr(r, k).numpy()
out["clsh"] = charge_eeq.clsh.numpy()
out["clsq"] = charge_eeq.clsq.numpy()
out["refh"] = charge_gfn2.refh.numpy()
out["refq"] = charge_gfn2.refq.numpy()
out["r4r2"] = data.R4R2(dtype=D).numpy()
out["wfpair"] = WFPAIR(dtype=D).numpy()
out["rcov"] = COV_D3(dtype=D).numpy()
out["rvdw"] = VDW_PAIRWISE(dtype=D).numpy()
out["en"] = PAULING(dtype=D).numpy()
out["gam"] = GAM(dtype=D).numpy()
out["zeff"] = ZEFF().numpy()
for k in ("chi", "kcn", "eta", "rad"):
    out["eeq_" + k] = getattr(eeq2019, k).to(D).numpy()
here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
np.savez_compressed(os.path.join(here, "golden.npz"), **out)
import tad_dftd4
base = os.path.join(os.path.dirname(tad_dftd4.__file__), "damping", "parameters")
tab = {m: tomli.load(open(os.path.join(base, m + ".toml"), "rb")) for m in ("d3", "d4")}
json.dump(tab, open(os.path.join(here, "params.json"), "w"), indent=0, sort_keys=True, default=str)
for k, v in out.items():
    print(k, v.shape, v.dtype)
