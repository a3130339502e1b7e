"""Planted bugs, fifth wave."""
import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(__file__), "bugs1.py"))["PRE"]
BUGS = [
 dict(id="c01-gam-actinides", property="C01",
  needs="an element beyond Am whose charge differs from the reference charge",
  breaks="heavy actinides use the chemical hardness of a lighter element",
  edits=[("model/d4.py", "gam = data.GAM(**self.dd)[self.numbers].unsqueeze(-1) * self.gc", "gam = (\n            data.GAM(**self.dd)[self.numbers.clamp(max=95)].unsqueeze(-1)\n            * self.gc\n        )")],
  demo=PRE+'''
n = torch.tensor([98])
w = d4.D4Model(n, dtype=F).weight_references(torch.zeros(1, dtype=F), torch.tensor([0.5], dtype=F)).sum()
from tad_mctc.data import GAM, ZEFF
from tad_dftd4.reference.d4.charge_eeq import clsq
g = 2 * GAM(dtype=F)[98]; z = float(ZEFF()[98]); r = float(clsq[98][0])
want = torch.exp(3 * (1 - torch.exp(g * (1 - (r + z) / (0.5 + z)))))
if abs(float(w - want)) > 1e-6: bad("charge scaling of Cf")
'''),
 dict(id="c02-wf-heavy-clamped", property="C02",
  needs="a D4S pair with an element beyond Rn",
  breaks="pairs of the heaviest elements use the weighting factor of radon",
  edits=[("model/d4s.py", "        return WFPAIR(**self.dd)[\n            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)\n        ]", "        idx = self.numbers.clamp(max=86)\n        return WFPAIR(**self.dd)[idx.unsqueeze(-1), idx.unsqueeze(-2)]")],
  demo=PRE+'''
from tad_dftd4.data.wfpair import WFPAIR
n = torch.tensor([92, 8])
if not torch.equal(d4.D4SModel(n, dtype=F).wf, WFPAIR(dtype=F)[n][:, n]): bad("weighting factors")
'''),
 dict(id="c05-second-shell-detached", property="C05",
  needs="forces under modified-zero damping",
  breaks="the gradient through the distances in the damping argument is dropped for modified-zero damping of order 8",
  edits=[("damping/functions.py", "        t_n = distances / (rs * radii) + bet * radii\n", "        t_n = distances / (rs * radii) + bet * radii\n        if order == 8:\n            t_n = t_n.detach()\n")],
  demo=PRE+'''
from tad_dftd4.damping import MZeroDamping
from tad_dftd4.dispersion.twobody import dispersion2
p = {"s6": 1.0, "s8": 1.0, "rs6": 1.1, "rs8": 1.0, "alp": 14.0, "bet": 0.02}
n = torch.tensor([6, 8]); c = torch.full((2, 2), 20.0, dtype=F)
def e(d):
    x = torch.stack([torch.zeros(3, dtype=F), torch.stack([d, d * 0, d * 0])])
    return dispersion2(n, x, p, c, torch.ones(2, dtype=F), 5 * torch.ones(2, 2, dtype=F), MZeroDamping()).sum()
d = torch.tensor(5.0, dtype=F, requires_grad=True)
g, = torch.autograd.grad(e(d), d)
num = (e(d.detach() + 1e-4) - e(d.detach() - 1e-4)) / 2e-4
if abs(float(g - num)) > 1e-6 * abs(float(num)): bad("gradient")
'''),
 dict(id="c06-second-order-c10", property="C06",
  needs="a second derivative with s10 present",
  breaks="the order-10 damping has the right value and slope but a wrong curvature",
  edits=[("damping/functions.py", "        damped = 1.0 / (distances.pow(order) + radius.pow(order))\n", "        damped = 1.0 / (distances.pow(order) + radius.pow(order))\n        if order == 10:\n            # numerically stable for tiny values\n            logd = torch.log(damped)\n            damped = damped.detach() * (1.0 + logd - logd.detach())\n")],
  demo=PRE+'''
p = {**P, "s10": 1.0, "s9": 0.0}
n = torch.tensor([6, 8])
def e(d):
    x = torch.stack([torch.zeros(3, dtype=F), torch.stack([d, d * 0, d * 0])])
    return d4.dftd4(n, x, 0.0, p, q=torch.zeros(2, dtype=F)).sum()
def g(v):
    d = torch.tensor(v, dtype=F, requires_grad=True)
    return torch.autograd.grad(e(d), d)[0]
d = torch.tensor(6.0, dtype=F, requires_grad=True)
h = torch.autograd.grad(torch.autograd.grad(e(d), d, create_graph=True)[0], d)[0]
num = (g(6.0 + 1e-4) - g(6.0 - 1e-4)) / 2e-4
if abs(float(h - num)) > 1e-5 * abs(float(num)): bad("curvature")
'''),
 dict(id="c07-both-derivatives", property="C07",
  needs="both analytical derivatives of the weights requested in one call",
  breaks="the charge derivative uses the CN derivative of the Gaussians",
  edits=[("model/d4.py", "            outputs.append(zeta * dgw)\n", "            outputs.append(zeta * dgw)\n            gw = torch.where(underflow, gw, gw_temp * (1.0 + 0.01 * dgw.abs()))\n")],
  demo=PRE+'''
n = torch.tensor([6, 7, 26]); cn = torch.tensor([2.3, 1.1, 4.4], dtype=F); q = torch.tensor([0.2, -0.3, 0.4], dtype=F)
m = d4.D4Model(n, dtype=F)
a = m.weight_references(cn, q, with_dgwdq=True)[1]; b = m.weight_references(cn, q, with_dgwdq=True, with_dgwdcn=True)[2]
if not torch.allclose(a, b, rtol=1e-10): bad("charge derivative depends on the other flag")
'''),
 dict(id="c09-zero-cutoff", property="C09",
  needs="a two-body cutoff of exactly zero",
  breaks="a cutoff of zero means the default cutoff",
  edits=[("dispersion/twobody.py", "    if cutoff is None:\n", "    if cutoff is None or not cutoff:\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
e = d4.dftd4(n, x, 0.0, P, q=torch.zeros(2, dtype=F), cutoff=d4.Cutoff(disp2=0.0, dtype=F))
if float(e.abs().sum()) != 0: bad("pairs beyond a zero cutoff")
'''),
 dict(id="c10-negative-s8", property="C10",
  needs="a negative s8",
  breaks="negative scaling of the C8 term is set to zero",
  edits=[("dispersion/twobody.py", "    edisp = s6 * e6 + s8 * e8\n", "    s8 = s8 * (s8 > 0)\n    edisp = s6 * e6 + s8 * e8\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
f = lambda s: d4.dftd4(n, x, 0.0, {**P, "s8": s}, q=torch.zeros(2, dtype=F)).sum()
if abs(float(f(-1.0) + f(1.0) - 2 * f(0.0))) > 1e-12: bad("not linear in s8")
'''),
 dict(id="c10-int-tensor-alp", property="C10",
  needs="alp given as an integer tensor that is no multiple of three",
  breaks="integer exponents are divided by three without remainder",
  edits=[("dispersion/threebody.py", "    alp = any_to_tensor(alp, **dd)\n", "    alp = any_to_tensor(alp)\n"),
         ("dispersion/threebody.py", "            alp=alp / 3.0,\n", "            alp=alp / 3.0 if alp.is_floating_point() else alp // 3,\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); x = torch.tensor([[0., 0., 0.], [3., 0., 0.], [3., 4., 0.]], dtype=F)
f = lambda a: d4.dftd4(n, x, 0.0, {**P, "alp": a}, q=torch.zeros(3, dtype=F))
if not torch.allclose(f(torch.tensor(16)), f(torch.tensor(16.0, dtype=F)), rtol=1e-10): bad("integer alp")
'''),
 dict(id="c11-only-damping-order", property="C11",
  needs="only the zero-damping factor of order 6 or 8",
  breaks="only_damping is honoured for order 9 alone",
  edits=[("damping/functions.py", "        f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)\n\n        if only_damping is True:\n", "        f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)\n\n        if only_damping is True and order == 9:\n")],
  demo=PRE+'''
from tad_dftd4.damping import ZeroDamping
r = torch.full((2, 2), 200.0, dtype=F)
v = ZeroDamping()(r, r * 0 + 5, 6, True, rs6=1.0)
if abs(float(v[0, 0]) - 1) > 1e-6: bad("not the damping factor")
'''),
 dict(id="c12-alias-doi", property="C12",
  needs="a lookup with the DOI whose result is changed before another lookup",
  breaks="with keep_doi the mapping of the database itself is returned",
  edits=[("damping/parameters/loader.py", "    out: MutableMapping[str, float | str] = dict(block)\n    if not keep_doi and \"doi\" in out:\n        out.pop(\"doi\")\n\n    return Param(**out)  # type: ignore", "    if keep_doi:\n        return block\n\n    out: MutableMapping[str, float | str] = dict(block)\n    out.pop(\"doi\", None)\n\n    return Param(**out)  # type: ignore")],
  demo=PRE+'''
from tad_dftd4.damping import get_params
a = get_params(method="d4", functional="pbe", keep_doi=True); v = a["a1"]
a["a1"] = -1.0
if get_params(method="d4", functional="pbe")["a1"] != v: bad("aliased")
'''),
 dict(id="c13-rvdw-last-dims", property="C13",
  needs="van der Waals radii of one system for a batch",
  breaks="pair radii without the batch dimension are broadcast",
  edits=[("dispersion/base.py", "        if (*numbers.shape, numbers.shape[-1]) != rvdw.shape:\n", "        if rvdw.shape[-2:] != (numbers.shape[-1], numbers.shape[-1]):\n")],
  demo=PRE+'''
n = torch.tensor([[6, 8, 1], [6, 8, 9]])
try:
    d4.dftd4(n, torch.stack([cluster(3, 1), cluster(3, 2)]), 0.0, P, rvdw=torch.full((3, 3), 5.0, dtype=F))
except Exception:
    sys.exit(0)
bad("accepted")
'''),
 dict(id="c13-terms-lost-on-error", property="C13",
  needs="an error raised inside a term (a missing parameter), followed by another call of the same method object",
  breaks="after an error in a term the method has no terms and returns zero",
  edits=[("dispersion/base.py", "        for term in self.terms:\n            energy = energy + term.calculate(", "        terms, self.terms = self.terms, []\n        for term in terms:\n            energy = energy + term.calculate("),
         ("dispersion/base.py", "                cutoff=cutoff,\n            )\n\n        return energy", "                cutoff=cutoff,\n            )\n        self.terms = terms\n\n        return energy")],
  demo=PRE+'''
from tad_dftd4.dispersion import DispD4
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
m = DispD4(dtype=F); a = m.calculate(n, x, 0.0, P)
try: m.calculate(n, x, 0.0, {"s8": 1.0})
except Exception: pass
if not torch.equal(a, m.calculate(n, x, 0.0, P)): bad("terms lost")
'''),
 dict(id="c14-alpha-cache-gc", property="C14",
  needs="two models of the same atoms with different charge-scaling steepness in one process",
  breaks="reference polarizabilities are cached without regard to ga and gc",
  edits=[("model/base.py", "        return torch.where(alpha > 0.0, alpha, zero)\n", "        out = torch.where(alpha > 0.0, alpha, zero)\n        if self.numbers.numel() and not torch._C._functorch.maybe_current_level():\n            key = (tuple(self.numbers.flatten().tolist()), self.numbers.shape, self.ref_charges, self.dtype)\n            out = _ALPHA.setdefault(key, out)\n        return out\n"),
         ("model/base.py", "class BaseModel(TensorLike):\n", "_ALPHA: dict = {}\n\n\nclass BaseModel(TensorLike):\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1])
a = d4.D4Model(n, dtype=F).rc6; b = d4.D4Model(n, gc=1.0, dtype=F).rc6
if torch.equal(a, b): bad("gc ignored after the first model")
'''),
 dict(id="c14-model-kwargs-consumed", property="C14",
  needs="two calls of one method object with model options",
  breaks="the model options are used for the first call only",
  edits=[("dispersion/base.py", "            return D4Model(numbers=numbers, **self._model_kwargs, **self.dd)\n", "            kwargs, self._model_kwargs = self._model_kwargs, {}\n            return D4Model(numbers=numbers, **kwargs, **self.dd)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import DispD4
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
m = DispD4(model="d4", model_kwargs={"ga": 2.0}, dtype=F)
if not torch.equal(m.calculate(n, x, 1.0, P), m.calculate(n, x, 1.0, P)): bad("second call differs")
'''),
 dict(id="c15-eq-ignores-charge", property="C15",
  needs="two terms that differ in their charge dependence only, one of which is deregistered",
  breaks="terms that differ in charge dependence are equal, so the wrong one is removed",
  edits=[("dispersion/base.py", "        return (\n            self.damping_fn == other.damping_fn\n            and self.charge_dependent == other.charge_dependent\n        )\n", "        return self.damping_fn == other.damping_fn\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
m = Disp(dtype=F); a, b = TwoBodyTerm(charge_dependent=True), TwoBodyTerm(charge_dependent=False)
m.register(a); m.register(b); m.deregister(b)
if m.terms[0].charge_dependent is not True: bad("wrong term removed")
'''),
 dict(id="c16-d4s-norm-single", property="C16",
  needs="single precision D4S weights at a coordination number far from all references",
  breaks="the Gaussians are normalised in the model's precision and underflow in single precision",
  edits=[("model/d4s.py", "        gw_temp = (expw / safe_norm).type(self.dtype)\n", "        gw_temp = expw.type(self.dtype) / safe_norm.type(self.dtype)\n")],
  demo=PRE+'''
n = torch.tensor([6, 6]); cn = torch.tensor([9.0, 9.0])
a = d4.D4SModel(n, dtype=torch.float32).weight_references(cn); b = d4.D4SModel(n, dtype=F).weight_references(cn.double())
if not torch.allclose(a.double(), b, atol=1e-4): bad("single precision weights")
'''),
 dict(id="c17-last-frequency", property="C17",
  needs="exact C9 coefficients",
  breaks="the last quadrature weight of the three-body Casimir-Polder integral is off",
  edits=[("utils.py", "            2.5000000000000000,\n            1.2500000000000000,\n        ],\n        device=pol.device,", "            2.5000000000000000,\n            1.2600000000000000,\n        ],\n        device=pol.device,")],
  demo=PRE+'''
from tad_dftd4.utils import trapzd_atm, trapzd_noref
p = torch.ones(1, 23, dtype=F)
if abs(float(trapzd_atm(torch.ones(1, 1, 1, 23, dtype=F)) - trapzd_noref(p))) > 1e-8: bad("quadrature")
'''),
 dict(id="c18-charge-clamped", property="C18",
  needs="a molecule with an atomic charge beyond one",
  breaks="polarizabilities and C6 of the properties use charges limited to [-1, 1]",
  edits=[("disp.py", "    weights = model.weight_references(cn, q)\n", "    weights = model.weight_references(cn, q.clamp(-1.0, 1.0))\n")],
  demo=PRE+'''
n = torch.tensor([26]); x = torch.zeros(1, 3, dtype=F)
a = d4.get_properties(n, x, 2.0)[3]; m = d4.D4Model(n, dtype=F)
b = m.get_polarizabilities(m.weight_references(torch.zeros(1, dtype=F), torch.tensor([2.0], dtype=F)))
if not torch.allclose(a, b, rtol=1e-6): bad("polarizability of an ion")
'''),
 dict(id="c19-matrix-s10", property="C19",
  needs="the pair-resolved energy with s10",
  breaks="the matrix leaves out the C10 energy",
  edits=[("dispersion/twobody.py", "            e10 = c10 * t10\n", "            e10 = c10 * t10 * mask_upper(mask)\n"),
         ("dispersion/twobody.py", "def dispersion2(\n", "def mask_upper(mask: Tensor) -> Tensor:\n    return 2.0 * torch.triu(mask)\n\n\ndef dispersion2(\n")],
  demo=PRE+'''
from tad_dftd4.dispersion.twobody import dispersion2
n = torch.tensor([6, 8, 1]); x = cluster(3, 2); c = torch.full((3, 3), 20.0, dtype=F)
m = dispersion2(n, x, {**P, "s10": 1.0}, c, torch.ones(3, dtype=F), as_matrix=True)
if not torch.allclose(m, m.T): bad("not symmetric")
'''),
 dict(id="c20-d4s-any", property="C20",
  needs="D4S inside vmap over positions",
  breaks="a data-dependent branch makes D4S unusable in vmap",
  edits=[("model/d4s.py", "        safe_norm = torch.where(underflow, torch.ones_like(norm), norm)\n", "        safe_norm = norm\n        if torch.any(underflow):\n            safe_norm = torch.where(underflow, torch.ones_like(norm), norm)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import DispD4
n = torch.tensor([6, 8, 1]); x = torch.stack([cluster(3, 2), cluster(3, 3)])
m = DispD4(model="d4s", dtype=F)
f = lambda y: m.calculate(n, y, torch.tensor(0.0, dtype=F), P)
v = torch.func.vmap(f)(x)
if not torch.allclose(v, torch.stack([f(y) for y in x])): bad("vmap")
'''),
 dict(id="c21-term-attribute", property="C21",
  needs="two threads using one method object at the same time",
  breaks="a term keeps its intermediate coefficients on itself, so concurrent calls mix them",
  edits=[("dispersion/twobody.py", "        c6 = model.get_atomic_c6(weights)\n", "        self.c6 = model.get_atomic_c6(weights)\n"),
         ("dispersion/twobody.py", "            param,\n            c6,\n            r4r2,\n            rvdw,\n            self.damping_fn,", "            param,\n            self.c6,\n            r4r2,\n            rvdw,\n            self.damping_fn,")],
  demo=PRE+'''
import threading, time
from tad_dftd4.dispersion import DispD4
m = DispD4(dtype=F)
n = torch.tensor([6, 8, 1]); xs = [cluster(3, i) for i in range(4)]; ns = [torch.tensor(v) for v in ([6, 8, 1], [26, 8, 17], [53, 6, 6], [1, 1, 1])]
want = [m.calculate(a, b, 0.0, P) for a, b in zip(ns, xs)]
sys.setswitchinterval(1e-6)
wrong = []
def run(i):
    for _ in range(400):
        try:
            if not torch.equal(m.calculate(ns[i], xs[i], 0.0, P), want[i]): wrong.append(i)
        except Exception as e: wrong.append(e)
        if wrong: return
t = [threading.Thread(target=run, args=(i,)) for i in range(4)]
[a.start() for a in t]; [a.join() for a in t]
if wrong: bad("threads interfere")
'''),
 dict(id="c22-rvdw-on-demand", property="C22",
  needs="a user-defined term that uses van der Waals radii with a damping function of the other radius type",
  breaks="van der Waals radii are looked up only if a registered damping function has that radius type",
  edits=[("dispersion/base.py", "            rvdw = self.get_rvdw(numbers)\n", "            rvdw = self.get_rvdw(numbers)\n            if all(t.damping_fn.radius_type != \"rvdw\" for t in self.terms):\n                rvdw = torch.zeros_like(rvdw)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.base import DispTerm
from tad_dftd4.damping import RationalDamping
seen = []
class U(DispTerm):
    def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
        seen.append(rvdw); return torch.zeros(numbers.shape, dtype=positions.dtype)
m = Disp(dtype=F); m.register(U(RationalDamping(), False))
m.calculate(torch.tensor([6, 8]), cluster(2, 1), 0.0, P)
if float(seen[0].abs().sum()) == 0: bad("no radii")
'''),
 dict(id="c23-grad-mode-quadrature", property="C23",
  needs="a model built while gradients are disabled",
  breaks="without gradients the reference coefficients are computed in single precision",
  edits=[("model/base.py", "        return trapzd(self._get_alpha())\n", "        alpha = self._get_alpha()\n        if not torch.is_grad_enabled():\n            return trapzd(alpha.float()).type(self.dtype)\n        return trapzd(alpha)\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
a = d4.dftd4(n, x, 0.0, P)
with torch.no_grad(): b = d4.dftd4(n, x, 0.0, P)
if not torch.allclose(a, b, rtol=1e-10, atol=0): bad("no_grad changes the energy")
'''),
 dict(id="c24-deepcopy-wf", property="C24",
  needs="a deep copy of a model with its own weighting factor",
  breaks="the copy is rebuilt with the default weighting factor",
  edits=[("model/base.py", "    def get_polarizabilities(self, weights: Tensor) -> Tensor:\n", "    def __deepcopy__(self, memo) -> BaseModel:\n        return type(self)(\n            self.numbers.clone(),\n            ga=self.ga,\n            gc=self.gc,\n            ref_charges=self.ref_charges,\n            rc6=self.rc6.clone(),\n            **self.dd,\n        )\n\n    def get_polarizabilities(self, weights: Tensor) -> Tensor:\n")],
  demo=PRE+'''
import copy
m = d4.D4Model(torch.tensor([6, 8]), wf=4.0, dtype=F)
if float(copy.deepcopy(m).wf) != 4.0: bad("wf lost")
'''),
 dict(id="c03-wf-first-member", property="C03",
  needs="a batch of several members with a common D4S weighting matrix of wrong origin",
  breaks="in a batch of rank two the second leading dimension reuses the weighting factors of its first member",
  edits=[("model/d4s.py", "        wf = self.wf.expand(*_refc.shape[:-1], _refc.shape[-2])\n", "        wf = self.wf.expand(*_refc.shape[:-1], _refc.shape[-2])\n        if wf.ndim > 3:\n            wf = wf[..., :1, :, :].expand_as(wf)\n")],
  demo=PRE+'''
n = torch.tensor([[[6, 8, 1], [26, 17, 9]]])
a = d4.D4SModel(n, dtype=F).weight_references(torch.full(n.shape, 1.7, dtype=F)); b = d4.D4SModel(n[0, 1], dtype=F).weight_references(torch.full((3,), 1.7, dtype=F))
if not torch.allclose(a[0, 1], b, rtol=1e-10): bad("rank two")
'''),
 dict(id="c04-permuted-triples", property="C04",
  needs="more than twenty atoms, the first of which is hydrogen",
  breaks="triples are screened by the atom order",
  edits=[("dispersion/threebody.py", "    energy = ang * fdamp * s9 * c9\n", "    energy = ang * fdamp * s9 * c9\n    if numbers.shape[-1] > 20:\n        # screen negligible triples against the first atom\n        ref = c9[..., :1, :1, 1:2].abs() * 1e-9\n        energy = torch.where(c9.abs() < ref, zero, energy)\n")],
  demo=PRE+'''
n = torch.tensor([6] * 20 + [1] * 4); x = cluster(24, 1)
from tad_dftd4.dispersion.threebody import get_atm_dispersion
c9 = torch.rand(24, 24, 24, dtype=F) * 1e-12; c9[0, 0, 1] = 1e4
e = get_atm_dispersion(n, x, c9, torch.full((24, 24), 3.0, dtype=F), torch.tensor(40.0, dtype=F))
p = torch.arange(23, -1, -1)
f = get_atm_dispersion(n[p], x[p], c9[p][:, p][:, :, p], torch.full((24, 24), 3.0, dtype=F), torch.tensor(40.0, dtype=F))
if not torch.allclose(e[p], f, rtol=1e-8, atol=0): bad("order matters")
'''),
 dict(id="c08-einsum-large", property="C08",
  needs="more than 48 atoms",
  breaks="the C6 of large systems is symmetrised from its lower triangle, which loses the diagonal",
  edits=[("model/d4.py", "        return einsum(\n            \"...ijab,...ia,...jb->...ij\",\n            *(self.rc6, gw, gw),\n            optimize=[(0, 1), (0, 1)],\n        )", "        c6 = einsum(\n            \"...ijab,...ia,...jb->...ij\",\n            *(self.rc6, gw, gw),\n            optimize=[(0, 1), (0, 1)],\n        )\n        if c6.shape[-1] > 48:\n            low = torch.tril(c6, diagonal=-1)\n            return low + low.mT\n        return c6")],
  demo=PRE+'''
n = torch.tensor([6] * 60); m = d4.D4Model(n, dtype=F)
if float(m.get_atomic_c6(m.weight_references()).diagonal().abs().sum()) == 0: bad("diagonal")
'''),
]
