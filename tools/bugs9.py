"""Planted bugs, wave 9."""
PRE = '''
import sys, torch
import tad_dftd4 as d4
F = torch.float64
P = {"s6": 1.0, "s8": 1.2, "a1": 0.4, "a2": 4.5, "s9": 1.0}
def bad(m):
    print(m); sys.exit(1)
def cluster(n, seed=1, d=3.5):
    g = torch.Generator().manual_seed(seed)
    i = torch.arange(n)
    x = torch.stack([i % 3, (i // 3) % 3, i // 9], -1).to(F) * d
    return x + 0.4 * (torch.rand(n, 3, generator=g, dtype=F) - 0.5)
'''
BUGS = [
 dict(id="c06-r4r2-detached", property="C06",
  needs="derivative with respect to supplied r4r2 values",
  breaks="the explicit dependence of C8 on r4r2 is lost",
  edits=[("dispersion/twobody.py", "    c8 = c6 * qq\n", "    # r4r2 are constants of the elements\n    c8 = c6 * (3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)).detach()\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); x = cluster(3)
from tad_dftd4.data import R4R2
r = R4R2(dtype=F)[n]
f = lambda r: d4.dftd4(n, x, 0.0, P, r4r2=r).sum()
g = torch.func.grad(f)(r)
h = 1e-4
for i in range(3):
    d = torch.zeros(3, dtype=F); d[i] = h
    if abs((f(r + d) - f(r - d)) / 2 / h - g[i]) > 1e-6 * g.abs().max(): bad("derivative wrong")
'''),
 dict(id="c18-charges-detached", property="C18",
  needs="derivative of reported coefficients or polarizabilities with respect to positions",
  breaks="the charge contribution to property derivatives is lost",
  edits=[("disp.py", "    weights = model.weight_references(cn, q)\n    c6 = model.get_atomic_c6(weights)\n    alpha", "    weights = model.weight_references(cn, q.detach())\n    c6 = model.get_atomic_c6(weights)\n    alpha")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); x = cluster(3)
f = lambda x: d4.get_properties(n, x)[3].sum()
x = x.requires_grad_(True)
g, = torch.autograd.grad(f(x), x)
d = torch.zeros(3, 3, dtype=F); d[0, 0] = 1e-4
with torch.no_grad():
    num = (f(x + d) - f(x - d)) / 2e-4
if abs(num - g[0, 0]) > 1e-6 * g.abs().max(): bad("derivative of the polarizability wrong")
'''),
 dict(id="c09-unbounded-cutoff", property="C09",
  needs="an infinite two-body cutoff and atoms beyond the default one",
  breaks="an infinite cutoff is treated as the default",
  edits=[("dispersion/twobody.py", "    if cutoff is None:\n        cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)\n", "    if cutoff is None or not torch.isfinite(torch.as_tensor(cutoff)).all():\n        cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0, 0], [0, 0, 70.]], dtype=F)
e = d4.dftd4(n, x, 0.0, P, cutoff=d4.Cutoff(disp2=float("inf"), dtype=F))
if e.abs().max() == 0: bad("pair dropped with an infinite cutoff")
'''),
]
