"""Planted bugs, seventh wave."""
import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(__file__), "bugs1.py"))["PRE"]
BUGS = [
 dict(id="c01-tiny-weights", property="C01",
  needs="an atom between two references, one of which has a weight of about 1e-5",
  breaks="reference systems of small weight are dropped from the C6 coefficients",
  edits=[("model/d4.py", '        return einsum(\n            "...ijab,...ia,...jb->...ij",', '        gw = gw * (gw.abs() > 2e-5)\n        return einsum(\n            "...ijab,...ia,...jb->...ij",')],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([6, 6]), dtype=F)
w = torch.zeros(2, 7, dtype=F); w[0, 0], w[0, 1], w[1, 0] = 1.0, 1e-5, 1.0
v = w.clone(); v[0, 1] = 0.0
if float((m.get_atomic_c6(w) - m.get_atomic_c6(v)).abs().max()) < 1e-6: bad("small weights dropped")
'''),
 dict(id="c03-rank-three-rc6", property="C03",
  needs="a batch with three leading dimensions whose first dimension holds different molecules",
  breaks="all blocks use the reference coefficients of the first block",
  edits=[("model/d4.py", "            *(self.rc6, gw, gw),", "            *(self.rc6[0] if gw.ndim > 4 else self.rc6, gw, gw),")],
  demo=PRE+'''
n = torch.tensor([[8, 1, 1], [16, 6, 9]]).reshape(2, 1, 1, 3)
x = torch.stack([cluster(3, 1), cluster(3, 2)]).reshape(2, 1, 1, 3, 3)
e = d4.dftd4(n, x, torch.zeros(2, 1, 1, dtype=F), P)
for i in range(2):
    s = d4.dftd4(n[i, 0, 0], x[i, 0, 0], torch.tensor(0.0, dtype=F), P)
    if not torch.allclose(e[i, 0, 0], s, rtol=1e-8, atol=0): bad("member differs from single evaluation")
'''),
 dict(id="c05-large-detached", property="C05",
  needs="forces of a molecule of more than 96 atoms",
  breaks="the coordination numbers are constants in the forces of large molecules",
  edits=[("dispersion/base.py", "        cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n", "        cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n        if numbers.shape[-1] > 96:\n            cn = cn.detach()\n")],
  demo=PRE+'''
n = torch.full((98,), 6); x = cluster(98, 1, 3.4); q = torch.zeros(98, dtype=F)
f = lambda y: d4.dftd4(n, y, 0.0, {**P, "s9": 0.0}, q=q).sum()
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y)
i = int(g.norm(dim=-1).argmax()); h = torch.zeros_like(x); h[i, 0] = 1e-4
if abs(float((f(x + h) - f(x - h)) / 2e-4 - g[i, 0])) > 1e-5 * float(g.abs().max()): bad("force")
'''),
 dict(id="c06-default-alp-constant", property="C06",
  needs="the derivative with respect to alp at exactly its default value",
  breaks="the derivative is zero",
  edits=[("dispersion/threebody.py", "    alp = any_to_tensor(alp, **dd)\n", "    alp = any_to_tensor(alp, **dd)\n    alp = torch.where(alp == defaults.ALP, torch.tensor(defaults.ALP, **dd), alp)\n")],
  demo=PRE+'''
n = torch.tensor([6, 6, 7, 8]); x = cluster(4, 3, 3.0)
def g(v):
    a = torch.tensor(v, dtype=F, requires_grad=True)
    return float(torch.autograd.grad(d4.dftd4(n, x, 0.0, {**P, "alp": a}).sum(), a)[0])
if abs(g(16.0) - g(16.001)) > 0.1 * abs(g(16.001)): bad("derivative with respect to alp")
'''),
 dict(id="c25-rc6-needs-eeq", property="C25",
  needs="reference C6 coefficients supplied together with GFN2 reference charges",
  breaks="the supplied coefficients are ignored",
  edits=[("model/base.py", "        self.rc6 = self._get_refc6() if rc6 is None else rc6\n", "        if rc6 is None or ref_charges != \"eeq\":\n            rc6 = self._get_refc6()\n        self.rc6 = rc6\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); r = torch.ones(2, 2, 7, 7, dtype=F)
m = d4.D4Model(n, ref_charges="gfn2", rc6=r, dtype=F)
w = m.weight_references(torch.ones(2, dtype=F), torch.zeros(2, dtype=F))
if not torch.allclose(m.get_atomic_c6(w), w.sum(-1)[:, None] * w.sum(-1)[None, :]): bad("rc6 ignored")
'''),
 dict(id="c25-ga-falsy", property="C25",
  needs="a charge-scaling height of exactly zero (no charge scaling)",
  breaks="the default height is used",
  edits=[("model/base.py", "        self.ga = ga\n", "        self.ga = ga or GA_DEFAULT\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); m = d4.D4Model(n, ga=0.0, dtype=F); c = torch.ones(2, dtype=F)
a, b = m.weight_references(c, torch.tensor([0.3, -0.3], dtype=F)), m.weight_references(c, torch.zeros(2, dtype=F))
if not torch.allclose(a, b): bad("ga = 0 ignored")
'''),
 dict(id="c25-diagonal-wf", property="C25",
  needs="polarizabilities or exact three-body energies of D4S with the tabulated weighting factors",
  breaks="the weighting factor of an atom with itself is the D4 one",
  edits=[("model/d4s.py", "        return WFPAIR(**self.dd)[\n            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)\n        ]\n", "        wf = WFPAIR(**self.dd)[\n            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)\n        ]\n        eye = torch.eye(wf.shape[-1], dtype=torch.bool, device=self.device)\n        return torch.where(eye, torch.tensor(WF_DEFAULT, **self.dd), wf)\n")],
  demo=PRE+'''
from tad_dftd4.data.wfpair import WFPAIR
n = torch.tensor([6, 8]); m = d4.D4SModel(n, dtype=F); k = d4.D4SModel(n, wf=WFPAIR(dtype=F)[n[:, None], n[None, :]], dtype=F)
c = torch.tensor([1.4, 0.6], dtype=F); q = torch.zeros(2, dtype=F)
if not torch.allclose(m.get_weighted_pols(m.weight_references(c, q)), k.get_weighted_pols(k.weight_references(c, q))): bad("default wf")
'''),
 dict(id="c25-wf-options-default", property="C25",
  needs="a weighting factor given as model option of a method object (not on an instance) together with another option",
  breaks="the weighting factor is replaced by the default",
  edits=[("dispersion/base.py", "            return D4Model(numbers=numbers, **self._model_kwargs, **self.dd)\n", "            kw = self._model_kwargs\n            if len(kw) > 1:\n                kw = {k: v for k, v in kw.items() if k != \"wf\"}\n            return D4Model(numbers=numbers, **kw, **self.dd)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import DispD4
n = torch.tensor([6, 8, 1]); x = cluster(3, 3, 2.4); kw = {"wf": 2.0, "ga": 2.5}
a = DispD4(model="d4", model_kwargs=kw, dtype=F).calculate(n, x, 0.0, P)
b = DispD4(model=d4.D4Model(n, dtype=F, **kw), dtype=F).calculate(n, x, 0.0, P)
if not torch.allclose(a, b, rtol=1e-9, atol=0): bad("options differ from instance")
'''),
 dict(id="c09-cutoff-capped", property="C09",
  needs="a two-body cutoff above 100 bohr and atoms further apart than that",
  breaks="pairs beyond 100 bohr are dropped although they lie within the cutoff",
  edits=[("cutoff.py", "        self.disp2 = disp2\n", "        self.disp2 = disp2.clamp(max=100.0)\n")],
  demo=PRE+'''
n = torch.tensor([55, 55]); x = torch.tensor([[0., 0, 0], [0, 0, 110.0]], dtype=F)
if float(d4.dftd4(n, x, 0.0, P, q=torch.zeros(2, dtype=F), cutoff=d4.Cutoff(disp2=150.0, dtype=F)).sum()) == 0.0: bad("pair within the cutoff dropped")
'''),
 dict(id="c22-param-filtered", property="C22",
  needs="a user-defined term that reads a parameter of its own",
  breaks="only the known damping parameters reach the terms",
  edits=[("dispersion/base.py", "        energy = torch.zeros_like(numbers, **dd)\n", "        known = (\"s6\", \"s8\", \"s9\", \"s10\", \"a1\", \"a2\", \"rs6\", \"rs8\", \"rs9\", \"alp\", \"bet\")\n        param = {k: v for k, v in param.items() if k in known}  # type: ignore\n        energy = torch.zeros_like(numbers, **dd)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.base import DispTerm
from tad_dftd4.damping import ZeroDamping
class My(DispTerm):
    def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
        return cn * param.get("mine", 0.0)
d = Disp(dtype=F); d.register(My(ZeroDamping(), False))
if float(d.calculate(torch.tensor([6, 8]), cluster(2, 1, 2.2), 0.0, {"mine": 2.0}).sum()) == 0.0: bad("own parameter lost")
'''),
 dict(id="c21-r4r2-last-table", property="C21",
  needs="two threads that evaluate in different precisions, switching between the two assignments",
  breaks="one thread gets the table of the other precision",
  edits=[("data/r4r2.py", '__all__ = ["R4R2"]\n', '__all__ = ["R4R2"]\n\n_last: dict = {"key": None, "table": None}\n'),
         ("data/r4r2.py", "    sqrtz = torch.sqrt(\n        torch.arange(len(_r4_over_r2), device=device, dtype=dtype)\n    )\n    return torch.sqrt(\n        0.5 * (torch.tensor(_r4_over_r2, device=device, dtype=dtype) * sqrtz)\n    )\n", "    key = (device, dtype)\n    if None in key or _last[\"key\"] != key:\n        _last[\"key\"] = key\n        sqrtz = torch.sqrt(\n            torch.arange(len(_r4_over_r2), device=device, dtype=dtype)\n        )\n        _last[\"table\"] = torch.sqrt(\n            0.5\n            * (torch.tensor(_r4_over_r2, device=device, dtype=dtype) * sqrtz)\n        )\n    return _last[\"table\"]\n")],
  demo=PRE+'''
import threading
from tad_dftd4.data import R4R2
sys.setswitchinterval(1e-6); wrong = []
def run(dt):
    for _ in range(20000):
        if wrong: return
        if R4R2(device=torch.device("cpu"), dtype=dt).dtype != dt: wrong.append(1)
ts = [threading.Thread(target=run, args=(dt,)) for dt in (torch.float, F) * 2]
[t.start() for t in ts]; [t.join() for t in ts]
if wrong: bad("table of another precision")
'''),
 dict(id="c08-clamped-pols", property="C08",
  needs="reference weights of either sign",
  breaks="weighted polarizabilities are clamped at zero and no longer linear in the weights",
  edits=[("model/d4.py", '        return einsum("...nr,...nrw->...nw", gw, a)\n', '        return einsum("...nr,...nrw->...nw", gw, a).clamp(min=0.0)\n')],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([6]), dtype=F); w = torch.zeros(1, 7, dtype=F); w[0, 0] = -1.0
if not torch.allclose(m.get_weighted_pols(w), -m.get_weighted_pols(-w)): bad("not linear")
'''),
 dict(id="c16-model-number-index", property="C16",
  needs="a D4S model converted to another precision and used for a batch",
  breaks="the pair weighting factors are looked up again for the first member only",
  edits=[("model/base.py", "        new.numbers = self.numbers.to(new.device)\n", "        new.numbers = self.numbers.to(new.device)\n        if new.wf.ndim > 2:\n            new.wf = new.wf[:1].expand_as(new.wf)\n")],
  demo=PRE+'''
n = torch.tensor([[6, 8], [16, 1]]); m = d4.D4SModel(n, dtype=torch.float).type(F); k = d4.D4SModel(n, dtype=F)
c = torch.full((2, 2), 1.3, dtype=F); q = torch.zeros(2, 2, dtype=F)
if not torch.allclose(m.weight_references(c, q), k.weight_references(c, q), atol=1e-4): bad("converted model")
'''),
 dict(id="c13-r4r2-reshaped", property="C13",
  needs="r4r2 values of a batch given as one row",
  breaks="values of the wrong shape are reshaped when they have the right number of elements",
  edits=[("dispersion/base.py", "        if numbers.shape != r4r2.shape:\n", "        if numbers.numel() == r4r2.numel():\n            r4r2 = r4r2.reshape(numbers.shape)\n        if numbers.shape != r4r2.shape:\n")],
  demo=PRE+'''
n = torch.tensor([[6, 8], [16, 1]]); x = torch.stack([cluster(2, 1), cluster(2, 2)])
try: d4.dftd4(n, x, torch.zeros(2, dtype=F), P, r4r2=torch.tensor([2.0, 3.0, 4.0, 5.0], dtype=F))
except Exception: sys.exit(0)
bad("accepted")
'''),
 dict(id="c14-damping-memo", property="C14",
  needs="two damping calls in sequence whose float parameters agree to four digits",
  breaks="the second call uses the parameters of the first",
  edits=[("damping/functions.py", "        self.doi = doi\n", "        self.doi = doi\n        if isinstance(a1, float) and isinstance(a2, float):\n            a1, a2 = _PAIR.setdefault((order, round(a1, 4), round(a2, 4)), (a1, a2))\n"),
         ("damping/functions.py", "# concrete damping models\n", "_PAIR: dict = {}\n\n\n# concrete damping models\n")],
  demo=PRE+'''
from tad_dftd4.damping import RationalDamping
r = torch.tensor([3.0], dtype=F)
f = lambda a: float(RationalDamping()(r, r, 6, a1=a, a2=4.0, s6=1.0))
f(0.4); b = f(0.40004)
if abs(b - f(0.4)) < 1e-16: bad("earlier parameters used")
'''),
 dict(id="c10-small-s9", property="C10",
  needs="a three-body scaling below 1e-3",
  breaks="the three-body energy is dropped instead of scaled",
  edits=[("dispersion/threebody.py", "    energy = ang * fdamp * s9 * c9\n", "    s9 = torch.where(s9.abs() < 1e-3, torch.zeros_like(s9), s9)\n    energy = ang * fdamp * s9 * c9\n")],
  demo=PRE+'''
n = torch.tensor([6, 6, 7, 8]); x = cluster(4, 3, 3.0)
e = lambda s: float(d4.dftd4(n, x, 0.0, {**P, "s6": 0.0, "s8": 0.0, "s9": s}).sum())
if abs(e(5e-4) - 5e-4 * e(1.0)) > 1e-8 * abs(e(1.0)): bad("not linear in s9")
'''),
 dict(id="c11-far-shortcut", property="C11",
  needs="zero damping with a small exponent at distances of more than 2.5 scaled radii",
  breaks="the undamped value is returned there",
  edits=[("damping/functions.py", "        # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)\n        t_n = rs * storch.divide(radii, distances)\n", "        # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)\n        t_n = rs * storch.divide(radii, distances)\n        t_n = torch.where(t_n < 0.4, torch.zeros_like(t_n), t_n)\n")],
  demo=PRE+'''
from tad_dftd4.damping import ZeroDamping
r = torch.tensor([10.0], dtype=F)
if float(ZeroDamping()(r, torch.tensor([3.9], dtype=F), 6, only_damping=True, rs6=1.0, rs8=1.0, alp=8.0)) == 1.0: bad("damping dropped")
'''),
]
