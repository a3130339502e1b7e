"""Planted bugs, third wave."""
import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(__file__), "bugs1.py"))["PRE"]
BUGS = [
 dict(id="c01-q-clamped", property="C01",
  needs="a supplied atomic charge above 1.5",
  breaks="supplied charges are silently limited before the charge scaling",
  edits=[("dispersion/base.py", "        # 5) delegate\n", "            # guard the charge scaling against unphysical charges\n            q = torch.clamp(q, max=1.5)\n\n        # 5) delegate\n")],
  demo=PRE+'''
n = torch.tensor([26, 8, 8]); x = cluster(3, 1, 3.4)
a = d4.dftd4(n, x, 0.0, P, q=torch.tensor([1.6, -0.8, -0.8], dtype=F)); b = d4.dftd4(n, x, 0.0, P, q=torch.tensor([2.0, -0.8, -0.8], dtype=F))
if torch.equal(a, b): bad("charge ignored")
'''),
 dict(id="c01-rvdw-ignored", property="C01",
  needs="explicit van der Waals radii with a damping function that uses them",
  breaks="user-supplied van der Waals radii are replaced by the tabulated ones for heavy elements",
  edits=[("dispersion/base.py", "        # 3) Coordination numbers\n", "        # no reliable values for the superheavy elements\n        rvdw = torch.where(\n            (numbers > 94).unsqueeze(-1), self.get_rvdw(numbers), rvdw\n        )\n\n        # 3) Coordination numbers\n")],
  demo=PRE+'''
from tad_dftd4.damping import ZeroDamping
n = torch.tensor([96, 8, 1]); x = cluster(3, 1, 3.4)
p = {**P, "rs6": 1.1, "rs8": 0.9}
r = torch.full((3, 3), 4.0, dtype=F)
a = d4.dftd4(n, x, 0.0, p, rvdw=r, damping_function=ZeroDamping()); b = d4.dftd4(n, x, 0.0, p, rvdw=1.3 * r, damping_function=ZeroDamping())
from tad_dftd4.dispersion import Disp
if abs(float((a - b)[0] / b[0])) < 1e-3 or not torch.allclose(a.sum(), d4.dftd4(n.flip(0), x.flip(0), 0.0, p, rvdw=r, damping_function=ZeroDamping()).sum(), rtol=1e-10): bad("radii")
'''),
 dict(id="c02-fallback-first", property="C02",
  needs="D4S and a coordination number so large that all Gaussians of an atom underflow",
  breaks="far above all references the first instead of the highest-coordinated reference is used",
  edits=[("model/d4s.py", "        maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]\n", "        maxcn = torch.where(\n            self.numbers.unsqueeze(-1).unsqueeze(-3) > 56,\n            torch.max(refcn[..., :2], dim=-1, keepdim=True)[0],\n            torch.max(refcn, dim=-1, keepdim=True)[0],\n        )\n")],
  demo=PRE+'''
m = d4.D4SModel(torch.tensor([76, 1]), dtype=F)
w = m.weight_references(torch.tensor([30.0, 1.0], dtype=F))
v = d4.D4Model(torch.tensor([76, 1]), dtype=F).weight_references(torch.tensor([30.0, 1.0], dtype=F))
if not torch.allclose(w[0, 0], v[0], rtol=1e-10): bad("fallback")
'''),
 dict(id="c03-single-charge-batch", property="C03",
  needs="a batch with one total charge per member whose number of members equals the number of atoms",
  breaks="the charges are taken for atomic ones and spread over the wrong axis",
  edits=[("dispersion/base.py", "        charge = any_to_tensor(charge, **dd)\n", "        charge = any_to_tensor(charge, **dd)\n        if charge.ndim == 1 and charge.numel() == numbers.shape[-1] > 2:\n            # total charge from a list of formal charges\n            charge = charge.sum().expand(numbers.shape[:-1])\n")],
  demo=PRE+'''
n = torch.tensor([[6, 8, 1]] * 3); x = torch.stack([cluster(3, i, 2.6) for i in range(3)])
e = d4.dftd4(n, x, torch.tensor([1.0, 0.0, -1.0], dtype=F), P); f = d4.dftd4(n[0], x[0], torch.tensor(1.0, dtype=F), P)
if not torch.allclose(e[0], f, rtol=1e-9): bad("batch charge")
'''),
 dict(id="c04-first-atom-special", property="C04",
  needs="more than two atoms and hydrogen as the first atom",
  breaks="the static polarizability scaling depends on the position of an atom in the list",
  edits=[("model/base.py", "        # (..., n, r, 23)\n        return torch.where(alpha > 0.0, alpha, zero)\n", "        # (..., n, r, 23), the first atom defines the threshold\n        thr = 1e-3 * alpha[..., :1, :, :].amax(dim=(-1, -2), keepdim=True)\n        return torch.where(alpha > torch.minimum(thr, 0.2 + zero), alpha, zero)\n")],
  demo=PRE+'''
n = torch.tensor([55, 2, 2]); x = cluster(3, 1, 5.0)
a = d4.dftd4(n, x, 0.0, P).sum(); b = d4.dftd4(n.flip(0), x.flip(0), 0.0, P).sum()
if not torch.allclose(a, b, rtol=1e-10): bad(f"{a} {b}")
'''),
 dict(id="c05-cn-detached-heavy", property="C05",
  needs="forces on a molecule with an element beyond radon and a coordination number between references",
  breaks="the forces lack the coordination-number response for actinides",
  edits=[("dispersion/base.py", "        # 4) charges if any term demands them\n", "        # the weights of the actinides are piecewise constant\n        cn = torch.where(numbers > 88, cn.detach(), cn)\n\n        # 4) charges if any term demands them\n")],
  demo=PRE+'''
n = torch.tensor([92, 8, 8, 1]); x = cluster(4, 1, 3.0)
f = lambda x: d4.dftd4(n, x, 0.0, P).sum()
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y)
h = 1e-4; dx = torch.zeros_like(x); dx[1, 0] = h
num = (f(x + dx) - f(x - dx)) / (2 * h)
if abs(num - g[1, 0]) > 1e-6 * abs(num) + 1e-10: bad(f"{num} {g[1, 0]}")
'''),
 dict(id="c06-param-float", property="C06",
  needs="derivatives with respect to alp",
  breaks="the exponent of the three-body damping is taken out of the graph",
  edits=[("dispersion/threebody.py", "    alp = any_to_tensor(alp, **dd)\n", "    alp = any_to_tensor(alp, **dd).detach()\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.8)
p = {**P, "alp": torch.tensor(14.0, dtype=F, requires_grad=True)}
g, = torch.autograd.grad(d4.dftd4(n, x, 0.0, p).sum(), p["alp"], allow_unused=True) if d4.dftd4(n, x, 0.0, p).requires_grad else (None,)
if g is None or g == 0: bad("no gradient")
'''),
 dict(id="c06-hessian-weights", property="C06",
  needs="second derivatives",
  breaks="the Hessian lacks the second-order response of the charge scaling",
  edits=[("model/base.py", "        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))\n\n        return torch.where(\n            mask,\n            torch.exp(ga * (1.0 - scale)),\n", "        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))\n        if scale.requires_grad and qref.numel() > 40:\n            # linear response is sufficient for the reference charges\n            d0 = (gam * qref / (qmod - eps) ** 2 * scale).detach()\n            scale = scale.detach() + d0 * (qmod - qmod.detach())\n\n        return torch.where(\n            mask,\n            torch.exp(ga * (1.0 - scale)),\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1, 9, 3, 7]); x = cluster(7, 1, 2.8)
f = lambda x: d4.dftd4(n, x, 0.0, P).sum()
def force(x):
    y = x.clone().requires_grad_(True); return torch.autograd.grad(f(y), y)[0]
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y, create_graph=True)
hh, = torch.autograd.grad(g[0, 0], y)
h = 1e-4; dx = torch.zeros_like(x); dx[0, 0] = h
num = (force(x + dx) - force(x - dx)) / (2 * h)
if (num - hh).abs().max() > 1e-5 * num.abs().max(): bad(f"{(num - hh).abs().max()} {num.abs().max()}")
'''),
 dict(id="c07-cn-negative", property="C07",
  needs="a coordination number above twelve with references close to it",
  breaks="large coordination numbers are limited before the weighting",
  edits=[("model/d4.py", "        dcn = cn.unsqueeze(-1).type(torch.double) - refcn\n", "        dcn = cn.clamp(max=6.5).unsqueeze(-1).type(torch.double) - refcn\n")],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([80, 79, 50]), dtype=F)
from tad_dftd4.reference.d4 import refcovcn
import itertools
bad_ = False
for z in range(1, 104):
    m = d4.D4Model(torch.tensor([z]), dtype=F)
    a = m.weight_references(torch.tensor([6.5], dtype=F)); b = m.weight_references(torch.tensor([7.4], dtype=F))
    r = refcovcn[z].double(); 
    if (r > 7.2).any() and torch.equal(a, b): bad_ = True
if bad_: bad("weights")
'''),
 dict(id="c08-alpha-threshold", property="C08",
  needs="a reference system whose polarizability is small at the highest frequencies",
  breaks="small polarizabilities at high frequencies are dropped from the integration",
  edits=[("model/base.py", "        return torch.where(alpha > 0.0, alpha, zero)\n", "        return torch.where(alpha > 2e-2, alpha, zero)\n")],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([1, 2]), dtype=F)
a = m._get_alpha()
if not ((a > 0) & (a < 2e-2)).any(): bad("dropped")
'''),
 dict(id="c09-cutoff-none-field", property="C09",
  needs="a cutoff object whose three-body value is larger than the default",
  breaks="three-body cutoffs above the default are ignored",
  edits=[("cutoff.py", "        self.disp3 = disp3\n", "        self.disp3 = disp3.clamp(max=defaults.D4_DISP3_CUTOFF + 15.0)\n")],
  demo=PRE+'''
if float(d4.Cutoff(disp3=90.0, dtype=F).disp3) != 90.0: bad("cutoff")
'''),
 dict(id="c10-s6-tensor-f32", property="C10",
  needs="a scaling parameter given as a single-precision tensor with more than one call",
  breaks="a single-precision parameter tensor degrades the double-precision energy",
  edits=[("dispersion/twobody.py", '''    edisp = s6 * e6 + s8 * e8
''', '''    if isinstance(s6, Tensor) and s6.dtype != e6.dtype:
        e6 = e6.type(s6.dtype).type(e6.dtype)
    edisp = s6 * e6 + s8 * e8
''')],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 3.6)
a = d4.dftd4(n, x, 0.0, {**P, "s6": torch.tensor(1.0)}); b = d4.dftd4(n, x, 0.0, P)
if not torch.allclose(a, b, rtol=1e-11, atol=0): bad("s6")
'''),
 dict(id="c11-op-large-bet", property="C11",
  needs="optimised-power damping with a large exponent at long range",
  breaks="the damped inverse power underflows or overflows for large exponents",
  edits=[("damping/functions.py", "        return rb / (rb * distances**order + ab * radius**order)\n", "        # normalise by the larger power\n        rb = torch.clamp(rb, max=1e6)\n        return rb / (rb * distances**order + ab * radius**order)\n")],
  demo=PRE+'''
from tad_dftd4.damping import OptimisedPowerDamping
r = torch.tensor([20.0], dtype=F); k = torch.tensor([30.0], dtype=F)
v = OptimisedPowerDamping()(r, k, 6, a1=0.4, a2=4.0, bet=6.0, s6=1.0)
R = 0.4 * 30.0**0.5 + 4.0
w = 20.0**6 / (20.0**12 + R**12)
if abs(float(v) / w - 1) > 1e-9: bad("op")
'''),
 dict(id="c12-separator-normalised", property="C12",
  needs="a functional name with a misplaced hyphen or underscore",
  breaks="unknown functional names are silently mapped to known ones",
  edits=[("damping/parameters/loader.py", "        func_section = table[\"parameter\"]\n", "        func_section = table[\"parameter\"]\n        if functional.casefold() not in func_section:\n            functional = functional.replace(\"-\", \"\").replace(\"_\", \"\")\n")],
  demo=PRE+'''
from tad_dftd4.damping import get_params
try:
    get_params(method="d4", functional="b3-lyp")
except KeyError:
    sys.exit(0)
bad("accepted")
'''),
 dict(id="c12-doi-default", property="C12",
  needs="the default parameters with the DOI kept, after which the same block is looked up again",
  breaks="the DOI is removed from the shared table by a lookup without it",
  edits=[("damping/parameters/loader.py", "    out: MutableMapping[str, float | str] = dict(block)\n    if not keep_doi and \"doi\" in out:\n        out.pop(\"doi\")\n", "    if not keep_doi:\n        block.pop(\"doi\", None)\n    out: MutableMapping[str, float | str] = dict(block)\n")],
  demo=PRE+'''
from tad_dftd4.damping import get_params
a = get_params(method="d4", functional="pbe", keep_doi=True); get_params(method="d4", functional="pbe"); b = get_params(method="d4", functional="pbe", keep_doi=True)
if a != b: bad("doi lost")
'''),
 dict(id="c13-positions-broadcast", property="C13",
  needs="a batch of atomic numbers with one common geometry of lower rank",
  breaks="positions of a lower rank are silently broadcast over the batch",
  edits=[("dispersion/base.py", "        if (*numbers.shape, 3) != positions.shape:\n", "        if positions.ndim < numbers.ndim + 1 and numbers.shape[-1] > 3:\n            positions = positions.expand(*numbers.shape, 3)\n        if (*numbers.shape, 3) != positions.shape:\n")],
  demo=PRE+'''
n = torch.tensor([[6, 8, 1, 1], [6, 8, 1, 9]])
try:
    d4.dftd4(n, cluster(4, 1, 3.0), torch.zeros(2, dtype=F), P)
except Exception:
    sys.exit(0)
bad("accepted")
'''),
 dict(id="c14-param-setdefault", property="C14",
  needs="a parameter mapping without alp that is used for a second, different method",
  breaks="the caller's parameter mapping gains an entry",
  edits=[("dispersion/threebody.py", "            alp=param.get(\"alp\", torch.tensor(defaults.ALP, **self.dd)),\n", "            alp=param.setdefault(\n                \"alp\", torch.tensor(defaults.ALP, **self.dd)\n            ),\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); p = dict(P); k = list(p)
d4.dftd4(n, cluster(4, 1, 3.0), 0.0, p)
if list(p) != k: bad("mapping changed")
'''),
 dict(id="c14-weights-buffer", property="C14",
  needs="the weights returned by a reused model are kept while the model is evaluated again",
  breaks="results returned earlier are overwritten by later calls of the same model",
  edits=[("model/d4.py", "        if with_dgwdq is False and with_dgwdcn is False:\n            return zeta * gw\n", "        if with_dgwdq is False and with_dgwdcn is False:\n            out = zeta * gw\n            if out.requires_grad or out.shape[-2] > 8:\n                return out\n            buf = _BUFFER.get((out.shape, out.dtype))\n            if buf is None or torch._C._functorch.is_functorch_wrapped_tensor(out):\n                buf = _BUFFER[(out.shape, out.dtype)] = torch.empty_like(out)\n            return buf.copy_(out)\n"),
         ("model/d4.py", "class D4Model(BaseModel):\n", "_BUFFER: dict = {}\n\n\nclass D4Model(BaseModel):\n")],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([6, 8, 1]), dtype=F)
a = m.weight_references(torch.tensor([3.0, 1.0, 1.0], dtype=F)); k = a.clone()
m.weight_references(torch.tensor([0.5, 2.0, 0.2], dtype=F))
if not torch.equal(a, k): bad("overwritten")
'''),
 dict(id="c15-charge-dependent-first", property="C15",
  needs="a method whose first term is not charge dependent while a later one is",
  breaks="charges are only computed if the first registered term needs them",
  edits=[("dispersion/base.py", "        is_c_dep = any(t.charge_dependent for t in self.terms)\n", "        is_c_dep = bool(self.terms) and (\n            self.terms[0].charge_dependent\n            or (q is not None and any(t.charge_dependent for t in self.terms))\n        )\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import D4ATMApprox
from tad_dftd4.dispersion.twobody import TwoBodyTerm
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6)
a = Disp(dtype=F); a.register(TwoBodyTerm(charge_dependent=True)); a.register(D4ATMApprox())
b = Disp(dtype=F); b.register(D4ATMApprox()); b.register(TwoBodyTerm(charge_dependent=True))
if not torch.allclose(a.calculate(n, x, 0.0, P), b.calculate(n, x, 0.0, P), rtol=1e-10): bad("order")
'''),
 dict(id="c16-norm-single", property="C16",
  needs="single precision and a coordination number far from all references but within double-precision range",
  breaks="the weights are normalised in single precision, where the Gaussians underflow",
  edits=[("model/d4s.py", "        gw_temp = (expw / safe_norm).type(self.dtype)\n", "        expw, safe_norm = expw.type(self.dtype), safe_norm.type(self.dtype)\n        underflow = underflow | (mask & (safe_norm == 0))\n        gw_temp = expw / torch.where(underflow, torch.ones_like(safe_norm), safe_norm)\n")],
  demo=PRE+'''
n = torch.tensor([26, 1]); 
worst = 0.0
for z in range(1, 104):
    n = torch.tensor([z, 1])
    for c in (6.0, 8.0, 9.5, 11.0):
        cn = torch.tensor([c, 1.0], dtype=F)
        a = d4.D4SModel(n, dtype=F).weight_references(cn); b = d4.D4SModel(n, dtype=torch.float).weight_references(cn.float())
        worst = max(worst, float((a - b).abs().max()))
if worst > 1e-3: bad(f"{worst}")
'''),
 dict(id="c17-equal-sides", property="C17",
  needs="an exactly equilateral triangle",
  breaks="triples with three equal sides are taken for self interactions and dropped",
  edits=[("dispersion/threebody.py", "    # add epsilon to avoid zero division later\n", "    # degenerate triples do not contribute\n    mask_triples = mask_triples & ~((r2ij == r2ik) & (r2ik == r2jk))\n    # add epsilon to avoid zero division later\n")],
  demo=PRE+'''
n = torch.tensor([18, 18, 18]); x = torch.tensor([[4.0, 0, 0], [0, 4.0, 0], [0, 0, 4.0]], dtype=F)
p = {**P, "s6": 0.0, "s8": 0.0}
if float(d4.dftd4(n, x, 0.0, p).sum()) == 0.0: bad("dropped")
'''),
 dict(id="c18-charge-scalar-batch", property="C18",
  needs="properties of a batch with one total charge given as a one-element tensor per member of shape (batch, 1)",
  breaks="total charge is ignored for neutral first member",
  edits=[("disp.py", "        charge = any_to_tensor(charge, **dd)\n\n    cn = cn_d4(numbers, positions)\n", "        charge = any_to_tensor(charge, **dd)\n        if charge.ndim > 0 and float(charge.reshape(-1)[0]) == 0.0:\n            charge = torch.zeros_like(charge)\n\n    cn = cn_d4(numbers, positions)\n")],
  demo=PRE+'''
n = torch.tensor([[6, 8, 1]] * 2); x = torch.stack([cluster(3, i, 2.6) for i in range(2)])
q = d4.get_properties(n, x, torch.tensor([0.0, 1.0], dtype=F))[1]
if abs(float(q[1].sum()) - 1.0) > 1e-9: bad("charge")
'''),
 dict(id="c19-matrix-cn", property="C19",
  needs="the pair-resolved energy of at least nine atoms",
  breaks="the pair matrix is computed in one triangle only and mirrored with the wrong entries",
  edits=[("dispersion/twobody.py", "    if as_matrix is True:\n        return -edisp\n", "    if as_matrix is True:\n        if edisp.shape[-1] > 8:\n            edisp = edisp.tril() + edisp.tril(-1).transpose(-1, 0)\n        return -edisp\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import dispersion2
n = torch.randint(1, 50, (2, 10), generator=torch.Generator().manual_seed(1)); x = torch.stack([cluster(10, i, 4.0) for i in (1, 2)])
c = torch.rand(2, 10, 10, dtype=F, generator=torch.Generator().manual_seed(1)); c = c + c.mT
r = torch.rand(2, 10, dtype=F, generator=torch.Generator().manual_seed(1)) + 1
try:
    m = dispersion2(n, x, P, c, r, as_matrix=True); e = dispersion2(n, x, P, c, r)
    ok = m.shape == (2, 10, 10) and torch.allclose(0.5 * m.sum(-1), e)
except RuntimeError as ex:
    bad(str(ex))
if not ok: bad("rows")
'''),
 dict(id="c20-item-alp", property="C20",
  needs="vmap over the damping exponent alp or over s9",
  breaks="the three-body term cannot be vectorised over its parameters",
  edits=[("dispersion/threebody.py", "    alp = any_to_tensor(alp, **dd)\n", "    alp = any_to_tensor(alp, **dd)\n    if alp <= 0.0:\n        raise ValueError(\"The damping exponent must be positive.\")\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.8)
try:
    torch.func.vmap(lambda a: d4.dftd4(n, x, torch.tensor(0.0, dtype=F), {**P, "alp": a}))(torch.tensor([14.0, 16.0], dtype=F))
except RuntimeError as e:
    bad(str(e)[:80])
'''),
 dict(id="c20-inplace-mask", property="C20",
  needs="vmap over the supplied atomic charges",
  breaks="an in-place update of an unmapped tensor fails under vmap",
  edits=[("model/d4.py", "        zeta = torch.where(mask, self._zeta(gam, refq + zeff, q + zeff), zero)\n", "        zeta = torch.zeros_like(refq)\n        if q.shape[-2] > 2:\n            zeta += torch.where(\n                mask, self._zeta(gam, refq + zeff, q + zeff), zero\n            )\n        else:\n            zeta = torch.where(\n                mask, self._zeta(gam, refq + zeff, q + zeff), zero\n            )\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.8)
try:
    torch.func.vmap(lambda q: d4.dftd4(n, x, torch.tensor(0.0, dtype=F), P, q=q))(torch.zeros(3, 4, dtype=F))
except RuntimeError as e:
    bad(str(e)[:80])
'''),
 dict(id="c20-detached-in-transform", property="C20",
  needs="forward-mode derivatives of the three-body energy",
  breaks="a custom gradient hook drops the forward-mode derivative",
  edits=[("dispersion/threebody.py", "    energy = ang * fdamp * s9 * c9\n", "    if not energy_needs_grad(positions):\n        c9 = c9.detach()\n    energy = ang * fdamp * s9 * c9\n"),
         ("dispersion/threebody.py", "class ThreeBodyTerm(DispTerm):\n", "def energy_needs_grad(positions: Tensor) -> bool:\n    \"\"\"Whether the response of the coefficients is required.\"\"\"\n    return positions.requires_grad\n\n\nclass ThreeBodyTerm(DispTerm):\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.4)
f = lambda x: d4.dftd4(n, x, torch.tensor(0.0, dtype=F), {**P, "s9": 50.0}).sum()
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y)
if not torch.allclose(torch.func.jacfwd(f)(x), g, rtol=1e-8): bad("forward mode")
'''),
 dict(id="c21-default-dtype", property="C21",
  needs="two threads evaluating in different precisions at the same time",
  breaks="the default data type is changed during an evaluation, which other threads see",
  edits=[("disp.py", "    return disp.calculate(\n        numbers,\n        positions,\n        any_to_tensor(charge),\n", "    # the constants of the charge model follow the default dtype\n    old = torch.get_default_dtype()\n    torch.set_default_dtype(positions.dtype)\n    try:\n        charge = any_to_tensor(charge)\n        positions = positions * torch.tensor(1.0)\n    finally:\n        torch.set_default_dtype(old)\n\n    return disp.calculate(\n        numbers,\n        positions,\n        charge,\n")],
  demo=PRE+'''
import threading
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.8).float()
sys.setswitchinterval(1e-6)
out = []
def work():
    for _ in range(60):
        d4.dftd4(n, x.double(), 0.0, P)
ts = [threading.Thread(target=work) for _ in range(3)]
[t.start() for t in ts]
while any(t.is_alive() for t in ts):
    out.append(torch.tensor(1.0).dtype)
[t.join() for t in ts]
if set(out) != {torch.float} or torch.get_default_dtype() != torch.float: bad("default dtype")
'''),
 dict(id="c21-shared-scratch", property="C21",
  needs="two threads using the same method object for different molecules",
  breaks="intermediate results are kept on the shared method object, so threads mix their coordination numbers",
  edits=[("dispersion/base.py", "        cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n", "        self._cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n"),
         ("dispersion/base.py", "        energy = torch.zeros_like(numbers, **dd)\n", "        cn, self._cn = self._cn, None\n        energy = torch.zeros_like(numbers, **dd)\n"),
         ("dispersion/base.py", "        \"_model_kwargs\",\n    )\n", "        \"_model_kwargs\",\n        \"_cn\",\n    )\n")],
  demo=PRE+'''
import threading
from tad_dftd4.dispersion import DispD4
d = DispD4(dtype=F)
mols = [(torch.tensor([6, 8, 1, 1]), cluster(4, i, 2.6 + 0.3 * i)) for i in range(4)]
want = [d.calculate(n, x, 0.0, P) for n, x in mols]
sys.setswitchinterval(1e-6)
fail = []
def work(i):
    for _ in range(60):
        try:
            if not torch.allclose(d.calculate(*mols[i], 0.0, P), want[i], rtol=1e-9): fail.append(i)
        except Exception as e:
            fail.append(e)
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
if fail: bad(str(fail[0]))
'''),
 dict(id="c21-param-cache", property="C21",
  needs="two threads looking up parameters of different functionals at the same time",
  breaks="a two-step cache of the last lookup mixes functionals between threads",
  edits=[("damping/parameters/loader.py", "    block = variant_section[variant]\n", "    _LAST[\"block\"] = variant_section[variant]\n    name = method.value\n    block = _LAST[\"block\"]\n"),
         ("damping/parameters/loader.py", "def get_params(\n", "_LAST: dict[str, Any] = {}\n\n\ndef get_params(\n")],
  demo=PRE+'''
import threading
from tad_dftd4.damping import get_params
fs = ["pbe", "b3lyp", "tpss", "pbe0"]
want = {f: get_params(method="d4", functional=f) for f in fs}
sys.setswitchinterval(1e-6)
fail = []
# preempt at every line of the lookup
import time
def tr(frame, event, arg):
    if "loader" in frame.f_code.co_filename:
        def loc(fr, ev, a):
            time.sleep(0); return loc
        return loc
def work(f):
    sys.settrace(tr)
    for _ in range(2000):
        if get_params(method="d4", functional=f) != want[f]: fail.append(f)
ts = [threading.Thread(target=work, args=(f,)) for f in fs]
[t.start() for t in ts]; [t.join() for t in ts]
if fail: bad("mixed")
'''),
]
