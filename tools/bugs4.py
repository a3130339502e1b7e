"""Planted bugs, fourth wave."""
import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(__file__), "bugs1.py"))["PRE"]
BUGS = [
 dict(id="c09-disp2-exclusive", property="C09",
  needs="a distance exactly equal to the two-body cutoff",
  breaks="pairs at the cutoff are dropped",
  edits=[("dispersion/twobody.py", "(distances <= cutoff)", "(distances < cutoff)")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
e = d4.dftd4(n, x, 0.0, P, q=torch.zeros(2, dtype=F), cutoff=d4.Cutoff(disp2=5.0, dtype=F))
if float(e.abs().sum()) == 0: bad("pair at the cutoff dropped")
'''),
 dict(id="c09-disp3-exclusive", property="C09",
  needs="a triple with one side exactly equal to the three-body cutoff",
  breaks="triples with a side at the cutoff are dropped",
  edits=[("dispersion/threebody.py", "        * (r2jk <= cutoff2)", "        * (r2jk < cutoff2)")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); x = torch.tensor([[0., 0., 0.], [3., 0., 0.], [3., 4., 0.]], dtype=F)
p = {**P, "s6": 0.0, "s8": 0.0}
a = d4.dftd4(n, x, 0.0, p, q=torch.zeros(3, dtype=F), cutoff=d4.Cutoff(disp3=5.0, dtype=F)); b = d4.dftd4(n, x, 0.0, p, q=torch.zeros(3, dtype=F), cutoff=d4.Cutoff(disp3=5.5, dtype=F))
if not torch.allclose(a, b, rtol=1e-10): bad("triple at the cutoff")
'''),
 dict(id="c22-required-order-ten", property="C22",
  needs="a user-defined damping function that declares a parameter required for order 10 only",
  breaks="the declared requirement is not enforced beyond order 9",
  edits=[("damping/functions.py", "            required = req_map.get(order_val, ())\n", "            required = req_map.get(order_val, ()) if order_val < 10 else ()\n")],
  demo=PRE+'''
from tad_dftd4.damping import Damping
from tad_dftd4.dispersion.twobody import dispersion2
class U(Damping):
    radius_type = "r4r2"
    REQUIRED_BY_ORDER = {10: ("bet",)}
    def _f(self, distances, radii, order, *, bet=None, only_damping=False, **kw):
        return 1.0 / (distances**order + radii + (bet or 0.0))
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
c = torch.full((2, 2), 20.0, dtype=F)
try:
    dispersion2(n, x, {**P, "s10": 1.0}, c, torch.ones(2, dtype=F), c, U())
except TypeError:
    sys.exit(0)
bad("missing parameter accepted")
'''),
 dict(id="c22-radius-by-class", property="C22",
  needs="a user-defined damping function with van der Waals radii that is not derived from the built-in ones",
  breaks="the radius type is derived from the class instead of the declared radius type",
  edits=[("dispersion/twobody.py", '    if damping_function.radius_type == "rvdw":\n', '    if damping_function.radius_type == "rvdw" and isinstance(\n        damping_function, (ZeroDamping, MZeroDamping)\n    ):\n'),
         ("dispersion/twobody.py", '    elif damping_function.radius_type == "r4r2":\n', '    elif damping_function.radius_type in ("r4r2", "rvdw"):\n'),
         ("dispersion/twobody.py", "from ..damping import Damping, Param, RationalDamping\n", "from ..damping import (\n    Damping,\n    MZeroDamping,\n    Param,\n    RationalDamping,\n    ZeroDamping,\n)\n")],
  demo=PRE+'''
from tad_dftd4.damping import Damping
from tad_dftd4.dispersion.twobody import dispersion2
class U(Damping):
    radius_type = "rvdw"
    def _f(self, distances, radii, order, **kw):
        return 1.0 / (distances**order + radii)
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
c = torch.full((2, 2), 20.0, dtype=F)
a = dispersion2(n, x, P, c, torch.ones(2, dtype=F), c, U()); b = dispersion2(n, x, P, c, torch.ones(2, dtype=F), 1e4 * c, U())
if torch.allclose(a, b, rtol=1e-6): bad("radii ignored")
'''),
 dict(id="c22-model-charge-order", property="C22",
  needs="a user-defined model evaluated by several terms of different charge dependence",
  breaks="the weights of the previous term are reused if the coordination numbers are the same",
  edits=[("dispersion/twobody.py", "        weights = model.weight_references(\n            cn, q if self.charge_dependent else None\n        )\n", "        weights = model.weight_references(\n            cn,\n            (q if self.charge_dependent or not hasattr(model, \"rc6\") else None),\n        )\n")],
  demo=PRE+'''
from tad_mctc.ncoord import cn_d4
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from tad_dftd4.dispersion.d4 import D4ATMApprox
class M:
    def weight_references(self, cn=None, q=None): return cn if q is None else cn + q
    def get_atomic_c6(self, w): return 10.0 + w.unsqueeze(-1) * w.unsqueeze(-2)
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [3., 4., 0.]], dtype=F)
def run(q):
    d = Disp(model=M(), cn_fn=cn_d4, dtype=F)
    d.register(TwoBodyTerm(charge_dependent=False)); d.register(D4ATMApprox(charge_dependent=True))
    return d.calculate(n, x, torch.tensor(0.0, dtype=F), P, q=q)
if not torch.allclose(run(torch.tensor([0.2, -0.2], dtype=F)), run(torch.tensor([0.0, 0.0], dtype=F)), rtol=1e-12): bad("charges seen")
'''),
 dict(id="c22-cutoff-default-user-term", property="C22",
  needs="a user-defined term that reads the three-body cutoff of a calculation with a small two-body cutoff",
  breaks="terms other than the built-in ones get another cutoff than the one requested",
  edits=[("dispersion/base.py", "                rvdw=rvdw,\n                cutoff=cutoff,\n", "                rvdw=rvdw,\n                cutoff=(\n                    cutoff\n                    if type(term).__module__.startswith(__package__)\n                    else Cutoff(disp2=cutoff.disp2, **dd)\n                ),\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.base import DispTerm
from tad_dftd4.damping import ZeroDamping
class U(DispTerm):
    def __init__(self): super().__init__(ZeroDamping(), False)
    def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff): return cn * cutoff.disp3
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [2., 0., 0.]], dtype=F)
d = Disp(dtype=F); d.register(U())
z = torch.tensor(0.0, dtype=F)
if torch.allclose(d.calculate(n, x, z, P, cutoff=d4.Cutoff(disp3=10.0, dtype=F)), d.calculate(n, x, z, P, cutoff=d4.Cutoff(disp3=20.0, dtype=F))): bad("cutoff")
'''),
 dict(id="c23-view-positions", property="C23",
  needs="positions given as a non-contiguous batch",
  breaks="flattening by view fails for non-contiguous positions",
  edits=[("dispersion/base.py", "        charge = any_to_tensor(charge, **dd)\n", "        charge = any_to_tensor(charge, **dd)\n\n        if not positions.view(-1).dtype.is_floating_point:\n            raise ValueError(\"Positions must be floating point numbers.\")\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1]); x = cluster(3, 1, 2.6)
if not torch.allclose(d4.dftd4(n, x.T.contiguous().T, 0.0, P), d4.dftd4(n, x, 0.0, P)): bad("layout")
'''),
 dict(id="c23-key-order", property="C23",
  needs="a parameter mapping in which s9 precedes s6",
  breaks="the three-body scaling is taken by position when it is among the first entries",
  edits=[("dispersion/threebody.py", '            s9=param.get("s9", torch.tensor(defaults.S9, **self.dd)),\n', '            s9=dict(list(param.items())[:6]).get(\n                "s9", torch.tensor(defaults.S9, **self.dd)\n            ),\n')],
  demo=PRE+'''
n = torch.tensor([6, 8, 1]); x = cluster(3, 1, 2.6)
p = {"s6": 1.0, "s8": 1.0, "a1": 0.4, "a2": 5.0, "alp": 16.0, "s10": 0.0, "s9": 0.0}
if not torch.allclose(d4.dftd4(n, x, 0.0, p), d4.dftd4(n, x, 0.0, dict(reversed(list(p.items())))), rtol=1e-12): bad("order")
'''),
 dict(id="c23-nograd-single", property="C23",
  needs="evaluation without gradients in single precision at a coordination number far from the references",
  breaks="the Gaussians are evaluated in single precision when no gradient is recorded",
  edits=[("model/d4.py", "        tmp = torch.exp(-dcn * dcn)\n", "        tmp = torch.exp(-dcn * dcn)\n        if not torch.is_grad_enabled():\n            # single precision suffices for energies\n            tmp = tmp.type(self.dtype)\n")],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([1, 6]), dtype=torch.float32)
cn = torch.tensor([4.6, 9.5])
a = m.weight_references(cn)
with torch.no_grad(): b = m.weight_references(cn)
if not torch.allclose(a, b, rtol=1e-4): bad(f"{a} {b}")
'''),
 dict(id="c23-int32-numbers", property="C23",
  needs="32-bit atomic numbers and an element beyond 63",
  breaks="the pair index of the D4S table is computed in the type of the numbers narrowed to eight bits",
  edits=[("model/d4s.py", "        return WFPAIR(**self.dd)[\n            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)\n        ]\n", "        num = self.numbers\n        if num.dtype != torch.long:\n            num = num.clamp(max=94)  # compact table\n        return WFPAIR(**self.dd)[num.unsqueeze(-1), num.unsqueeze(-2)]\n")],
  demo=PRE+'''
n = torch.tensor([98, 8, 1]); x = cluster(3, 1, 2.6)
if not torch.allclose(d4.dftd4(n.int(), x, 0.0, P, model="d4s"), d4.dftd4(n, x, 0.0, P, model="d4s"), rtol=1e-12): bad("int32")
'''),
 dict(id="c24-model-reduce", property="C24",
  needs="copying or pickling a model with other than default reference charges",
  breaks="the copy is rebuilt from the constructor arguments without the reference charges",
  edits=[("model/base.py", "    ####################\n    # Abstract methods #\n", "    def __reduce__(self):\n        \"\"\"Rebuild from the constructor arguments (smaller pickles).\"\"\"\n        args = (self.numbers, self.ga, self.gc, self.wf, \"eeq\", self.rc6)\n        return (type(self), (*args, self.device, self.dtype))\n\n    ####################\n    # Abstract methods #\n")],
  demo=PRE+'''
import copy
m = d4.D4Model(torch.tensor([6, 8]), ref_charges="gfn2", dtype=F)
q = torch.tensor([0.2, -0.2], dtype=F)
if not torch.allclose(m.weight_references(q + 1, q), copy.deepcopy(m).weight_references(q + 1, q), rtol=1e-12): bad("copy")
'''),
 dict(id="c24-deepcopy-terms", property="C24",
  needs="registering a term in a deep copy of a method",
  breaks="deep copies of a method share the list of terms",
  edits=[("dispersion/base.py", "    def register(self, term: DispTerm) -> None:\n", "    def __deepcopy__(self, memo: dict[int, Any]) -> Disp:\n        \"\"\"Terms and models are stateless and need no copy.\"\"\"\n        new = self.__class__.__new__(self.__class__)\n        memo[id(self)] = new\n        for cls in self.__class__.__mro__:\n            for name in getattr(cls, \"__slots__\", ()):\n                n = name\n                if n.startswith(\"__\") and not n.endswith(\"__\"):\n                    n = f\"_{cls.__name__}{n}\"\n                if hasattr(self, n):\n                    object.__setattr__(new, n, getattr(self, n))\n        new.__dict__.update(self.__dict__) if hasattr(self, \"__dict__\") else None\n        return new\n\n    def register(self, term: DispTerm) -> None:\n")],
  demo=PRE+'''
import copy
from tad_dftd4.dispersion import DispD4
from tad_dftd4.dispersion.twobody import TwoBodyTerm
d = DispD4(dtype=F); c = copy.deepcopy(d); c.register(TwoBodyTerm())
n = torch.tensor([6, 8, 1]); x = cluster(3, 1, 2.6); z = torch.tensor(0.0, dtype=F)
if not torch.allclose(d.calculate(n, x, z, P), d4.dftd4(n, x, 0.0, P), rtol=1e-12): bad("shared terms")
'''),
 dict(id="c24-cutoff-state", property="C24",
  needs="pickling a cutoff with another than the default charge-model cutoff",
  breaks="the charge-model cutoff is not part of the pickled state",
  edits=[("cutoff.py", "        self.disp2 = disp2\n        self.disp3 = disp3\n", "        self.disp2 = disp2\n        self.disp3 = disp3\n\n", ), ("cutoff.py", "        self.cn_eeq = cn_eeq\n", "        self.cn_eeq = cn_eeq\n\n    def __reduce__(self):\n        \"\"\"Rebuild from the cutoffs.\"\"\"\n        args = (self.disp2, self.disp3, self.cn, self.cn)\n        return (type(self), (*args, self.device, self.dtype))\n")],
  demo=PRE+'''
import pickle
c = d4.Cutoff(cn_eeq=7.0, dtype=F)
if float(pickle.loads(pickle.dumps(c)).cn_eeq) != 7.0: bad("cutoff")
'''),
 dict(id="c24-alpha-registry", property="C24",
  needs="unpickling a D4S model in another process",
  breaks="pair weighting factors live in a process-wide registry instead of the model",
  edits=[("model/base.py", "        self.rc6 = self._get_refc6() if rc6 is None else rc6\n", "        self.rc6 = self._get_refc6() if rc6 is None else rc6\n        if wf is not None:\n            # scalar factors are kept once per process\n            key = (float(self.wf.sum()), str(self.wf.dtype), self.wf.shape)\n            _USER_WF[key] = self.wf\n            self.gc = _UserScale(gc, key)\n"),
         ("model/base.py", "class BaseModel(TensorLike):\n", "_USER_WF: dict = {}\n\n\nclass _UserScale(float):\n    \"\"\"Charge scaling steepness with the weighting it belongs to.\"\"\"\n\n    def __new__(cls, value, key=None):\n        self = super().__new__(cls, value)\n        self.key = key\n        return self\n\n    def __reduce__(self):\n        return (_UserScale._load, (float(self), self.key))\n\n    @staticmethod\n    def _load(value, key):\n        return _UserScale(value if key in _USER_WF else GC_DEFAULT + 0.5, key)\n\n\nclass BaseModel(TensorLike):\n")],
  demo=PRE+'''
import pickle, subprocess, os, tempfile
m = d4.D4Model(torch.tensor([6, 8]), wf=5.0, dtype=F)
q = torch.tensor([0.2, -0.2], dtype=F)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "m.pkl"); pickle.dump(m, open(f, "wb"))
    o = subprocess.run([sys.executable, "-c", f"import pickle, torch, tad_dftd4; m = pickle.load(open({f!r}, 'rb')); q = torch.tensor([0.2, -0.2], dtype=torch.double); print(repr(float(m.weight_references(q + 1, q).sum())))"], capture_output=True, text=True)
if abs(float(o.stdout) - float(m.weight_references(q + 1, q).sum())) > 1e-10: bad(o.stdout + o.stderr[-300:])
'''),
 dict(id="c03-rank-two-flatten", property="C03",
  needs="a batch of rank two with different molecules along the second dimension",
  breaks="D4S polarizabilities are averaged over the number of atoms of the first member",
  edits=[("model/d4s.py", "        nat = mask.sum(dim=-1).clamp(min=1)[..., None, None]\n", "        nat = mask.sum(dim=-1).clamp(min=1)[..., None, None]\n        if nat.ndim > 3:\n            nat = nat[..., :1, :, :]\n")],
  demo=PRE+'''
n = torch.tensor([[[6, 8, 1], [6, 8, 0]]]); m = d4.D4SModel(n, dtype=F)
w = m.get_weighted_pols(m.weight_references())
m1 = d4.D4SModel(n[0, 1, :2], dtype=F)
if not torch.allclose(w[0, 1, :2], m1.get_weighted_pols(m1.weight_references()), rtol=1e-10): bad("rank two")
'''),
 dict(id="c05-far-detached", property="C05",
  needs="forces between fragments more than 35 bohr apart",
  breaks="pairs beyond 35 bohr contribute to the energy but not to the forces",
  edits=[("dispersion/twobody.py", "    distances = torch.where(mask, distances, one)\n", "    distances = torch.where(mask, distances, one)\n    # forces of distant pairs are negligible\n    distances = torch.where(distances > 35.0, distances.detach(), distances)\n")],
  demo=PRE+'''
n = torch.tensor([55, 55]); x = torch.tensor([[0., 0., 0.], [40., 0., 0.]], dtype=F).requires_grad_(True)
e = d4.dftd4(n, x, 0.0, P, q=torch.zeros(2, dtype=F)).sum()
g = torch.autograd.grad(e, x, allow_unused=True)[0]
if g is None or float(g.abs().max()) == 0: bad("no force")
'''),
 dict(id="c06-rs8-detached", property="C06",
  needs="the derivative with respect to rs8 of zero damping",
  breaks="rs8 is converted to a number",
  edits=[("damping/functions.py", "@@RS8@@", "@@")],
  demo=PRE+'''
bad("x")
'''),
 dict(id="c07-single-reference", property="C07",
  needs="an element with only one reference system and a coordination number within range",
  breaks="the single reference weight follows the Gaussian instead of being normalised",
  edits=[("model/d4.py", "        safe_norm = torch.where(underflow, torch.ones_like(norm), norm)\n", "        safe_norm = torch.where(\n            underflow | ((mask.sum(-1, keepdim=True) == 1) & (norm > 0.999)),\n            torch.ones_like(norm),\n            norm,\n        )\n")],
  demo=PRE+'''
bad_ = None
for z in range(1, 104):
    m = d4.D4Model(torch.tensor([z]), dtype=F)
    for cn in (0.0, 0.005, 0.01, 1.0, 2.0):
        a = m.weight_references(torch.tensor([cn], dtype=F)); 
        if int((a != 0).sum()) == 1:
            b = m.weight_references(torch.tensor([cn + 5.0], dtype=F))
            if int((b != 0).sum()) == 1 and not torch.allclose(a, b, rtol=1e-9) and int((a != 0).nonzero()[0, 1]) == int((b != 0).nonzero()[0, 1]): bad(f"{z} {cn}")
'''),
 dict(id="c08-pol-nan-safe", property="C08",
  needs="reference weights that are negative, as in differences of weights",
  breaks="negative weights are cut off, so that polarizabilities are not linear in the weights",
  edits=[("model/d4.py", '        return einsum("...nr,...nrw->...nw", gw, a)', '        return einsum("...nr,...nrw->...nw", gw.clamp(min=0.0), a)')],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([6, 8]), dtype=F)
w = m.weight_references(torch.tensor([2.5, 1.0], dtype=F)); v = m.weight_references(torch.tensor([1.5, 0.5], dtype=F))
if not torch.allclose(m.get_weighted_pols(w - v), m.get_weighted_pols(w) - m.get_weighted_pols(v), rtol=1e-9, atol=1e-12): bad("linear")
'''),
 dict(id="c11-mzero-bet-order", property="C11",
  needs="modified zero damping of order eight with a nonzero bet above 0.2",
  breaks="bet is limited",
  edits=[("damping/functions.py", "@@MZ@@", "@@")],
  demo=PRE+'''
bad("x")
'''),
 dict(id="c14-cutoff-rounded", property="C14",
  needs="passing the same cutoff object to several calls with a molecule smaller than the cutoff",
  breaks="the cutoff object of the caller is tightened to the extent of the molecule",
  edits=[("dispersion/base.py", "        model = self.get_model(numbers=numbers)\n", "        model = self.get_model(numbers=numbers)\n\n        if numbers.shape[-1] > 8 and numbers.ndim == 1:\n            # no pair is further apart than this\n            ext = 2.0 * (positions - positions.mean(-2, keepdim=True)).norm(\n                dim=-1\n            ).max().detach()\n            cutoff.disp2 = torch.minimum(cutoff.disp2, ext + 1.0)\n")],
  demo=PRE+'''
c = d4.Cutoff(dtype=F); n = torch.full((9,), 6); x = cluster(9, 1, 2.8)
d4.dftd4(n, x, 0.0, P, cutoff=c)
if float(c.disp2) != 60.0: bad(f"cutoff became {c.disp2}")
'''),
 dict(id="c15-dereg-type", property="C15",
  needs="deregistering one of two terms of the same type but different damping",
  breaks="the last term of the same type is removed",
  edits=[("dispersion/base.py", "        self.terms.remove(term)\n", "        if term not in self.terms:\n            raise ValueError(\"Term is not registered.\")\n        same = [i for i, t in enumerate(self.terms) if type(t) is type(term)]\n        del self.terms[same[-1]]\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from tad_dftd4.damping import OptimisedPowerDamping
d = Disp(dtype=F); t = TwoBodyTerm(); d.register(t); d.register(TwoBodyTerm(damping_fn=OptimisedPowerDamping())); d.deregister(t)
if not isinstance(d.terms[0].damping_fn, OptimisedPowerDamping): bad("wrong term removed")
'''),
 dict(id="c16-alp-single", property="C16",
  needs="double-precision positions with single-precision default and alp omitted",
  breaks="the default exponent of three-body terms is created in the default precision of the term",
  edits=[("dispersion/threebody.py", "    alp = any_to_tensor(alp, **dd)\n", "    alp = any_to_tensor(alp, **dd)\n    if not torch.is_grad_enabled():\n        c9 = c9.type(torch.get_default_dtype())\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1]); x = cluster(3, 1, 2.6)
with torch.no_grad(): a = d4.dftd4(n, x, 0.0, P)
if not torch.allclose(a, d4.dftd4(n, x, 0.0, P), rtol=1e-12): bad("precision")
'''),
 dict(id="c17-collinear", property="C17",
  needs="exactly collinear triples",
  breaks="collinear triples are treated as degenerate and skipped",
  edits=[("dispersion/threebody.py", "    energy = ang * fdamp * s9 * c9\n", "    # degenerate triangles have no angles\n    ang = torch.where(s.abs() < -1e30, zero, ang)\n    area = 2.0 * (r2ij * r2ik + r2ij * r2jk + r2ik * r2jk) - (\n        r2ij**2 + r2ik**2 + r2jk**2\n    )\n    ang = torch.where(area == 0.0, zero, ang)\n\n    energy = ang * fdamp * s9 * c9\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 8]); x = torch.tensor([[0., 0., 0.], [0., 0., 3.], [0., 0., -3.]], dtype=F)
p = {**P, "s6": 0.0, "s8": 0.0}
if float(d4.dftd4(n, x, 0.0, p, q=torch.zeros(3, dtype=F)).abs().sum()) == 0: bad("collinear triple skipped")
'''),
 dict(id="c18-cutoff-cn-eeq-swapped", property="C18",
  needs="get_properties with a cutoff object of one's own",
  breaks="the charges use the coordination-number cutoff",
  edits=[("disp.py", "        cutoff=cutoff.cn_eeq,\n", "        cutoff=torch.minimum(cutoff.cn_eeq, cutoff.disp3),\n")],
  demo=PRE+'''
n = torch.tensor([11, 17, 8, 1]); x = cluster(4, 1, 4.0)
a = d4.get_properties(n, x, 0.0, cutoff=d4.Cutoff(disp3=3.0, dtype=F))[1]; b = d4.get_properties(n, x, 0.0)[1]
if not torch.allclose(a, b, rtol=1e-9, atol=1e-12): bad("charges")
'''),
 dict(id="c19-matrix-zero-s8", property="C19",
  needs="the pair matrix with s8 exactly zero in a batch",
  breaks="the shape of the matrix is reduced",
  edits=[("dispersion/twobody.py", "    if as_matrix is True:\n        return -edisp\n", "    if as_matrix is True:\n        # pairs beyond the van der Waals minimum are exactly symmetric\n        return -torch.where(distances > 12.0, edisp.triu() * 2.0, edisp)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion.twobody import dispersion2
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0., 0.], [13., 0., 0.]], dtype=F)
c = torch.full((2, 2), 20.0, dtype=F)
m = dispersion2(n, x, P, c, torch.ones(2, dtype=F), c, as_matrix=True)
if not torch.allclose(m, m.T): bad("asymmetric")
'''),
 dict(id="c20-cond-charge", property="C20",
  needs="vmap over total charges",
  breaks="the neutral case is decided by a Python branch on the value",
  edits=[("dispersion/base.py", "        if q is None and is_c_dep is True:\n", "        if charge.ndim == 0 and abs(float(charge)) > 1e3:\n            raise ValueError(\"Unreasonable total charge.\")\n\n        if q is None and is_c_dep is True:\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1]); x = cluster(3, 1, 2.6)
try:
    v = torch.func.vmap(lambda c: d4.dftd4(n, x, c, P))(torch.tensor([0.0, 1.0], dtype=F))
except Exception as e:
    bad(repr(e)[:100])
'''),
 dict(id="c21-damping-instance-state", property="C21",
  needs="two threads using the shared default damping instance at the same time",
  breaks="the radii are handed over through an attribute of the shared damping instance",
  edits=[("damping/functions.py", "        self.doi = doi\n", "        self.doi = doi\n        self._radii = radii\n"), ("damping/functions.py", "        return self._f(\n            distances,\n            radii,\n            order,\n", "        radii = self._radii if self._radii.shape == radii.shape else radii\n        return self._f(\n            distances,\n            radii,\n            order,\n")],
  demo=PRE+'''
import threading
from tad_dftd4.damping import RationalDamping
f = RationalDamping(); r = torch.full((3, 3), 5.0, dtype=F); bad_n = []
want = {i: f(r, r * (i + 1), 6, a1=0.4, a2=5.0) for i in range(4)}
sys.setswitchinterval(1e-6)
def w(i):
    for _ in range(4000):
        if not torch.equal(f(r, r * (i + 1), 6, a1=0.4, a2=5.0), want[i]): bad_n.append(i); return
ts = [threading.Thread(target=w, args=(i,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
if bad_n: bad("threads interfere")
'''),
]
BUGS = [b for b in BUGS if not any("@@" in o for _, o, *_ in b["edits"])]
