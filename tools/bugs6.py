"""Planted bugs, sixth wave."""
import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(__file__), "bugs1.py"))["PRE"]
BUGS = [
 dict(id="c01-geometric-sum", property="C01",
  needs="an atom whose coordination number equals a threefold-weighted reference value exactly",
  breaks="the closed form of the Gaussian sum is 0/0 there and the atom falls back to the highest coordinated reference",
  edits=[("model/d4.py", "        refc_pow_final = torch.where(refc == 3, refc_pow(3), refc_pow_1)", "        g1 = torch.pow(tmp, self.wf)\n        refc_pow_3 = g1 * (1.0 - g1**3) / (1.0 - g1)\n        refc_pow_final = torch.where(refc == 3, refc_pow_3, refc_pow_1)")],
  demo=PRE+'''
from tad_dftd4.reference.d4 import refc, refcovcn
i = [(z, k) for z in range(1, 104) for k in range(7) if refc[z, k] == 3 and refcovcn[z, k] < refcovcn[z].max() - 0.5][0]
m = d4.D4Model(torch.tensor([i[0]]), dtype=F)
c = refcovcn[i[0], i[1]].to(F).reshape(1)
a, b = m.weight_references(c, None), m.weight_references(c + 1e-7, None)
if not torch.allclose(a, b, atol=1e-4): bad("weights jump at a reference CN")
'''),
 dict(id="c05-exact-weights-detached", property="C05",
  needs="forces of the exact three-body term",
  breaks="the dependence of the exact C9 coefficients on the coordination numbers is missing in the forces",
  edits=[("dispersion/threebody.py", "        aiw = model.get_weighted_pols(weights)\n", "        aiw = model.get_weighted_pols(weights.detach())\n")],
  demo=PRE+'''
from tad_dftd4.dispersion.d4 import DispD4Exact
d = DispD4Exact(dtype=F); n = torch.tensor([6, 6, 7, 8]); x = cluster(4, 3, 2.6)
p = {**P, "s6": 0.0, "s8": 0.0, "s9": 100.0}
f = lambda y: d.calculate(n, y, 0.0, p).sum()
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y)
h = torch.zeros_like(x); h[0, 0] = 1e-4
num = (f(x + h) - f(x - h)) / 2e-4
if abs(float(num - g[0, 0])) > 1e-6 * float(g.abs().max()): bad("force")
'''),
 dict(id="c06-alp-order8", property="C06",
  needs="the derivative of the zero-damped pair energy with respect to alp",
  breaks="the exponent of order 8 is a plain number, so its share of dE/dalp is missing",
  edits=[("damping/functions.py", '''            assert rs8 is not None
            alp_n = alp + 2.0
            rs = rs8
        elif order == 9:''', '''            assert rs8 is not None
            alp_n = float(alp) + 2.0
            rs = rs8
        elif order == 9:''')],
  demo=PRE+'''
from tad_dftd4.damping import ZeroDamping
r = torch.tensor([5.0], dtype=F); a = torch.tensor(14.0, dtype=F, requires_grad=True)
f = lambda v: ZeroDamping()(r, r * 0 + 5.5, 8, rs6=1.0, rs8=1.1, s8=1.0, alp=v).sum()
try:
    g, = torch.autograd.grad(f(a), a)
except RuntimeError:
    bad("no derivative with respect to alp")
num = (f(14.001) - f(13.999)) / 2e-3
if abs(float(g - num)) > 1e-6 * abs(float(num)): bad("derivative with respect to alp")
'''),
 dict(id="c06-radius-curvature", property="C06",
  needs="a second derivative with respect to a1 or a2",
  breaks="the power of the damping radius has the right value and slope but no curvature",
  edits=[("damping/functions.py", "        damped = 1.0 / (distances.pow(order) + radius.pow(order))\n", "        rn = radius.pow(order)\n        if radius.requires_grad:\n            # linearised power for a stable backward pass\n            slope = order * radius.detach().pow(order - 1)\n            rn = rn.detach() + slope * (radius - radius.detach())\n        damped = 1.0 / (distances.pow(order) + rn)\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0, 0], [0, 0, 5.0]], dtype=F)
def e(a): return d4.dftd4(n, x, 0.0, {**P, "a2": a, "s9": 0.0}).sum()
def g(v):
    a = torch.tensor(v, dtype=F, requires_grad=True); return torch.autograd.grad(e(a), a)[0]
a = torch.tensor(5.0, dtype=F, requires_grad=True)
h, = torch.autograd.grad(torch.autograd.grad(e(a), a, create_graph=True)[0], a)
num = (g(5.001) - g(4.999)) / 2e-3
if abs(float(h - num)) > 1e-5 * abs(float(num)): bad("second derivative")
'''),
 dict(id="c07-dcn-default-wf", property="C07",
  needs="the analytical coordination-number derivative of a model with another weighting factor",
  breaks="the derivative is the one of the default weighting factor",
  edits=[("model/d4.py", "                        2 * i * self.wf * dcn * torch.pow(tmp, i * self.wf)\n", "                        2 * i * WF_DEFAULT * dcn * torch.pow(tmp, i * self.wf)\n")],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([6]), wf=4.0, dtype=F); c = torch.tensor([1.6], dtype=F)
_, d = m.weight_references(c, None, with_dgwdcn=True)
f = lambda v: m.weight_references(v, None)
# the sign convention of the derivative is that of the default model
m0 = d4.D4Model(torch.tensor([6]), dtype=F); _, d0 = m0.weight_references(c, None, with_dgwdcn=True)
n0 = (m0.weight_references(c + 1e-5, None) - m0.weight_references(c - 1e-5, None)) / 2e-5
s = torch.sign((n0 * d0).sum())
num = (f(c + 1e-5) - f(c - 1e-5)) / 2e-5
if not torch.allclose(s * d, num, atol=1e-5): bad("derivative")
'''),
 dict(id="c09-jk-open", property="C09",
  needs="a triple of which only the side opposite to an atom exceeds the three-body cutoff",
  breaks="such triples contribute to one of their atoms",
  edits=[("dispersion/threebody.py", "        * (r2ik <= cutoff2)\n        * (r2jk <= cutoff2)\n", "        * (r2ik <= cutoff2)\n")],
  demo=PRE+'''
n = torch.tensor([18, 18, 18]); x = torch.tensor([[0., 0, 0], [6, 0, 0], [12, 0, 0]], dtype=F)
c = d4.Cutoff(disp3=9.0, dtype=F)
a = d4.dftd4(n, x, 0.0, P, cutoff=c); b = d4.dftd4(n, x, 0.0, {**P, "s9": 0.0}, cutoff=c)
if not torch.equal(a, b): bad("a triple outside the cutoff contributes")
'''),
 dict(id="c10-alp-call-default", property="C10",
  needs="zero damping of the pair energy without giving alp",
  breaks="the omitted exponent is 14 for pairs instead of 16",
  edits=[("damping/functions.py", '''        s10: Tensor | float | int | None = None,
        alp: Tensor | float | int | None = defaults.ALP,
        bet: Tensor | float | int | None = None,
        doi: str | None = None,''', '''        s10: Tensor | float | int | None = None,
        alp: Tensor | float | int | None = 14.0,
        bet: Tensor | float | int | None = None,
        doi: str | None = None,''')],
  demo=PRE+'''
from tad_dftd4.damping import ZeroDamping
n = torch.tensor([6, 8]); x = torch.tensor([[0., 0, 0], [0, 0, 5.0]], dtype=F)
p = {"s6": 1.0, "s8": 1.0, "rs6": 1.1, "rs8": 1.0, "a1": 0.4, "a2": 5.0}
a = d4.dftd4(n, x, 0.0, p, damping_function=ZeroDamping())
b = d4.dftd4(n, x, 0.0, {**p, "alp": 16.0}, damping_function=ZeroDamping())
if not torch.allclose(a, b, rtol=1e-10): bad("omitted alp")
'''),
 dict(id="c11-required-falsy", property="C11",
  needs="a required parameter that is exactly zero",
  breaks="a zero parameter is taken for a missing one",
  edits=[("damping/functions.py", "                if bound.arguments.get(name, _MISSING) in (None, _MISSING)\n", "                if not bound.arguments.get(name)\n")],
  demo=PRE+'''
from tad_dftd4.damping import RationalDamping
r = torch.tensor([4.0], dtype=F)
try:
    RationalDamping()(r, r, 6, a1=0.0, a2=4.0)
except TypeError:
    bad("a1 = 0 rejected")
'''),
 dict(id="c12-first-variant", property="C12",
  needs="a functional without the default variant, or whose first listed variant is another one",
  breaks="an unspecified variant is the functional's first listed one instead of the method's default",
  edits=[("damping/parameters/loader.py", '''    variant_section = disp_method_section[method.value]
    if variant not in variant_section:
        raise KeyError(
            f"Variant''', '''    variant_section = disp_method_section[method.value]
    if variant == table["default"][method.value][0]:
        variant = next(iter(variant_section))
    if variant not in variant_section:
        raise KeyError(
            f"Variant''')],
  demo=PRE+'''
from tad_dftd4.damping import get_params
from tad_dftd4.damping.parameters.loader import _load
from tad_dftd4.damping.parameters.base import DispersionMethod
for m in ("d3", "d4"):
    t = _load(DispersionMethod(m)); v = t["default"][m][0]
    for f, b in t["parameter"].items():
        if m in b:
            try:
                got = get_params(method=m, functional=f)
            except KeyError:
                got = None
            want = {k: x for k, x in b[m][v].items() if k != "doi"} if v in b[m] else None
            if got != want: bad(f + " " + m)
'''),
 dict(id="c13-rcov-rank", property="C13",
  needs="covalent radii of another rank than the atomic numbers",
  breaks="covalent radii of a wrong rank are accepted",
  edits=[("dispersion/base.py", "            if numbers.shape != rcov.shape:", "            if numbers.shape[-1] != rcov.shape[-1]:")],
  demo=PRE+'''
n = torch.tensor([[6, 8], [1, 1]]); x = cluster(4, 2).reshape(2, 2, 3)
try:
    d4.dftd4(n, x, 0.0, P, rcov=torch.ones(2, dtype=F))
except ValueError:
    sys.exit(0)
bad("covalent radii of shape (2,) accepted for a batch")
'''),
 dict(id="c14-seeded-jitter", property="C14",
  needs="a caller that draws random numbers around a call",
  breaks="an evaluation resets the global random number generator",
  edits=[("dispersion/threebody.py", "    s9 = any_to_tensor(s9, **dd)\n    alp", "    # reproducible reductions\n    torch.manual_seed(0)\n\n    s9 = any_to_tensor(s9, **dd)\n    alp")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1]); x = cluster(3, 1)
torch.manual_seed(5); a = torch.rand(3)
torch.manual_seed(5); d4.dftd4(n, x, 0.0, P); b = torch.rand(3)
if not torch.equal(a, b): bad("random state changed")
'''),
 dict(id="c14-sum-keyed-cache", property="C14",
  needs="two molecules with the same number of atoms and sum of atomic numbers, one after the other on one method object",
  breaks="the second one is evaluated with the r4r2 values of the first",
  edits=[("dispersion/base.py", '''        from tad_dftd4.data import R4R2

        return R4R2(**self.dd)[numbers]
''', '''        from tad_dftd4.data import R4R2

        cache = self.cn_fn_kwargs.__class__ and _R4R2_CACHE
        key = (id(self), self.dtype, tuple(numbers.shape), int(numbers.sum()))
        if key not in cache:
            cache.clear()
            cache[key] = R4R2(**self.dd)[numbers]
        return cache[key]
'''), ("dispersion/base.py", "class Disp(TensorLike):", "_R4R2_CACHE: dict = {}\n\n\nclass Disp(TensorLike):")],
  demo=PRE+'''
from tad_dftd4.dispersion import DispD4
d = DispD4(dtype=F); x = cluster(3, 1)
d.calculate(torch.tensor([8, 6, 1]), x, 0.0, P)
a = d.calculate(torch.tensor([6, 8, 1]), x, 0.0, P); b = DispD4(dtype=F).calculate(torch.tensor([6, 8, 1]), x, 0.0, P)
if not torch.allclose(a, b, rtol=1e-10): bad("history")
'''),
 dict(id="c16-type-resets-wf", property="C16",
  needs="a model with another weighting factor that is converted to another precision",
  breaks="the converted model has the default weighting factor",
  edits=[("model/base.py", "        new.numbers = self.numbers.to(new.device)\n", "        new.numbers = self.numbers.to(new.device)\n        if new.dtype != self.dtype:\n            new.wf = new._get_wf()\n")],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([6, 8]), wf=3.0, dtype=F).type(torch.float32)
if float(m.wf) != 3.0: bad("weighting factor")
'''),
 dict(id="c17-short-side", property="C17",
  needs="a triple with two sides much shorter than the third",
  breaks="the angular factor of nearly degenerate triangles is that of the collinear one",
  edits=[("dispersion/threebody.py", '''    s = torch.where(
        mask_triples,
        (r2ij + r2jk - r2ik) * (r2ij - r2jk + r2ik) * (-r2ij + r2jk + r2ik),
        zero,
    )
''', '''    s = torch.where(
        mask_triples,
        (r2ij + r2jk - r2ik) * (r2ij - r2jk + r2ik) * (-r2ij + r2jk + r2ik),
        zero,
    )
    # rounding: the cosines of a triangle obey cos A cos B cos C >= -1
    lim = torch.where(mask_triples, -7.9 * r2, zero)
    s = torch.maximum(s, lim)
''')],
  demo=PRE+'''
from tad_dftd4.dispersion.threebody import get_atm_dispersion
x = torch.tensor([[0., 0, 0], [0, 0, 6.0], [0, 0.0, 12.0]], dtype=F)
c = torch.ones(3, 3, 3, dtype=F); r = torch.full((3, 3), 0.001, dtype=F)
e = get_atm_dispersion(torch.tensor([18, 18, 18]), x, c, r, torch.tensor(40.0, dtype=F)).sum()
want = -2.0 / (6 * 6 * 12.0) ** 3
if abs(float(e) - want) > 1e-6 * abs(want): bad("collinear triple")
'''),
 dict(id="c19-default-cutoff", property="C19",
  needs="the pair energy without a cutoff for a pair more than 40 bohr apart",
  breaks="pairs between 40 and 60 bohr are dropped",
  edits=[("dispersion/twobody.py", "        cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)\n", "        cutoff = torch.tensor(defaults.D4_DISP3_CUTOFF, **dd)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion.twobody import dispersion2
x = torch.tensor([[0., 0, 0], [0, 0, 50.0]], dtype=F)
e = dispersion2(torch.tensor([18, 18]), x, P, torch.full((2, 2), 60.0, dtype=F), torch.full((2,), 4.0, dtype=F), as_matrix=True)
if float(e[0, 1]) == 0: bad("pair within the default cutoff dropped")
'''),
 dict(id="c20-float-charge", property="C20",
  needs="a transform over the total charge",
  breaks="the charge is read as a Python number",
  edits=[("utils.py", "    if charge.ndim == 0:\n        return charge.expand(*batch, 1)\n", "    if charge.ndim == 0:\n        if not charge.requires_grad and bool(charge == 0):\n            return torch.zeros((*batch, 1), dtype=charge.dtype)\n        return charge.expand(*batch, 1)\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = cluster(2, 1)
f = lambda c: d4.dftd4(n, x, c, P)
try:
    v = torch.vmap(f)(torch.tensor([0.0, 1.0], dtype=F))
except RuntimeError:
    bad("vmap over charges")
'''),
 dict(id="c21-warnings-filter", property="C21",
  needs="a look at the process-wide state after a call",
  breaks="an evaluation turns off gradient-unrelated process state: the number of threads",
  edits=[("dispersion/base.py", "        # 5) delegate\n", "        # 5) delegate (small tensors: threading does not pay)\n        if numbers.shape[-1] < 8 and torch.get_num_threads() > 1:\n            torch.set_num_threads(1)\n\n")],
  demo=PRE+'''
torch.set_num_threads(3)
d4.dftd4(torch.tensor([6, 8]), cluster(2, 1), 0.0, P)
if torch.get_num_threads() != 3: bad("number of threads changed")
'''),
 dict(id="c22-inherited-requirements", property="C22",
  needs="a user-defined damping class that inherits its required parameters",
  breaks="inherited requirements are not enforced",
  edits=[("damping/functions.py", '''        req_map: dict[int, tuple[str, ...]] = getattr(
            cls, "REQUIRED_BY_ORDER", {}
        )
''', '''        req_map: dict[int, tuple[str, ...]] = cls.__dict__.get(
            "REQUIRED_BY_ORDER", {}
        )
''')],
  demo=PRE+'''
from tad_dftd4.damping import RationalDamping
class Mine(RationalDamping):
    def _f(self, distances, radii, order, *, a1=None, a2=None, **kw):
        return distances ** -order
r = torch.tensor([4.0], dtype=F)
try:
    Mine()(r, r, 6, a2=4.0)
except TypeError:
    sys.exit(0)
bad("missing a1 accepted")
'''),
 dict(id="c23-expanded-positions", property="C23",
  needs="a batch whose positions are an expanded view",
  breaks="an expanded batch is evaluated as a single system with the first member's elements",
  edits=[("dispersion/base.py", "        # 3) Coordination numbers\n        cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n", "        # 3) Coordination numbers\n        if positions.ndim == 3 and positions.stride(0) == 0:\n            # identical geometries\n            cn = self.cn_fn(numbers[0], positions[0], **self.cn_fn_kwargs)\n            cn = cn.expand(numbers.shape)\n        else:\n            cn = self.cn_fn(numbers, positions, **self.cn_fn_kwargs)\n")],
  demo=PRE+'''
n = torch.tensor([[6, 8, 1], [14, 1, 9]]); x = cluster(3, 1, 2.5)
a = d4.dftd4(n, x.expand(2, 3, 3), 0.0, P); b = d4.dftd4(n, x.expand(2, 3, 3).clone(), 0.0, P)
if not torch.allclose(a, b, rtol=1e-10): bad("layout")
'''),
 dict(id="c24-closure-cn", property="C24",
  needs="pickling a method object with options of the coordination function",
  breaks="the options are bound in a closure, which cannot be pickled",
  edits=[("dispersion/base.py", "        self.cn_fn = cn_fn\n        self.cn_fn_kwargs = cn_fn_kwargs if cn_fn_kwargs is not None else {}\n", "        self.cn_fn = cn_fn\n        self.cn_fn_kwargs = cn_fn_kwargs if cn_fn_kwargs is not None else {}\n        if self.cn_fn_kwargs:\n            self.cn_fn = lambda n, x, **kw: cn_fn(n, x, **kw)\n")],
  demo=PRE+'''
import pickle
from tad_dftd4.dispersion import DispD4
from tad_mctc.ncoord import exp_count
try:
    pickle.loads(pickle.dumps(DispD4(cn_fn_kwargs={"counting_function": exp_count}, dtype=F)))
except Exception as e:
    bad(repr(e))
'''),
 dict(id="c18-alpha-atoms-only", property="C18",
  needs="properties of an isolated atom in a batch with molecules",
  breaks="atoms without neighbours get the polarizability at zero charge",
  edits=[("disp.py", "    alpha = model.get_polarizabilities(weights)\n", "    # free atoms\n    free = (cn < 1e-8).unsqueeze(-1)\n    weights = torch.where(free, model.weight_references(cn), weights)\n    alpha = model.get_polarizabilities(weights)\n")],
  demo=PRE+'''
n = torch.tensor([3, 9]); x = torch.tensor([[0., 0, 0], [0, 0, 80.0]], dtype=F)
cn, q, c6, al = d4.get_properties(n[:1], x[:1], 1.0)
m = d4.D4Model(n[:1], dtype=F)
if not torch.allclose(al, m.get_polarizabilities(m.weight_references(cn, q)), rtol=1e-9): bad("polarizability of a cation")
'''),
 dict(id="c15-model-key-d4s-terms", property="C15",
  needs="a charge-dependent three-body term next to the pair term",
  breaks="charge-dependent three-body terms see charges only if no two-body term precedes them",
  edits=[("dispersion/base.py", "        for term in self.terms:\n            energy = energy + term.calculate(", "        for i, term in enumerate(self.terms):\n            if i > 0 and term.__class__ is self.terms[i - 1].__class__:\n                # same kind of term: same charges\n                q = q if self.terms[i - 1].charge_dependent else None\n            energy = energy + term.calculate(")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
n = torch.tensor([6, 8, 1]); x = cluster(3, 1, 2.5)
def e(*ts):
    d = Disp(dtype=F)
    for c in ts: d.register(TwoBodyTerm(charge_dependent=c))
    return d.calculate(n, x, 0.0, P)
if not torch.allclose(e(False, True), e(False) + e(True), rtol=1e-9): bad("terms interact")
'''),
 dict(id="c03-broadcast-cn-eeq", property="C03",
  needs="a padded batch in which the longest member is not first",
  breaks="the van der Waals radii of padded members come from sorted numbers",
  edits=[("dispersion/base.py", "        return VDW_PAIRWISE(**self.dd)[\n            numbers.unsqueeze(-1), numbers.unsqueeze(-2)\n        ]", "        if numbers.ndim > 1 and bool((numbers[..., -1] == 0).all()):\n            numbers = numbers.sort(dim=-1, descending=True)[0]\n        return VDW_PAIRWISE(**self.dd)[\n            numbers.unsqueeze(-1), numbers.unsqueeze(-2)\n        ]")],
  demo=PRE+'''
from tad_dftd4.damping import ZeroDamping
p = {"s6": 1.0, "s8": 1.0, "s9": 0.0, "rs6": 1.1, "rs8": 1.0, "alp": 14.0, "a1": 0.4, "a2": 5.0}
n = torch.tensor([1, 8, 6]); x = cluster(3, 1, 2.5)
a = d4.dftd4(n, x, 0.0, p, damping_function=ZeroDamping())
N = torch.zeros(2, 4, dtype=torch.long); N[:, :3] = n; X = torch.zeros(2, 4, 3, dtype=F); X[:, :3] = x
b = d4.dftd4(N, X, torch.zeros(2, dtype=F), p, damping_function=ZeroDamping())
if not torch.allclose(a, b[0, :3], rtol=1e-9): bad("padding changes the result")
'''),
 dict(id="c08-h-clamped", property="C08",
  needs="gfn2 or eeq reference systems with negative intermediate polarizabilities and negative scale",
  breaks="small reference polarizabilities are raised to a floor",
  edits=[("model/base.py", "        return torch.where(alpha > 0.0, alpha, zero)", "        return torch.where(alpha > 1e-4, alpha, zero)")],
  demo=PRE+'''
from tad_dftd4.reference import d4 as r
n = torch.arange(1, 104)
m = d4.D4Model(n, dtype=F)
g = torch.zeros(103, 7, dtype=F)
low = 1.0
for k in range(7):
    h = g.clone(); h[:, k] = 1.0
    a = m.get_weighted_pols(h); low = min(low, float(a[a > 0].min()))
if low > 9e-5: bad("small polarizabilities dropped")
'''),
 dict(id="c21-lazy-table", property="C21",
  needs="two threads whose very first evaluations in the process overlap",
  breaks="the table of expectation values is published before it is filled",
  edits=[("dispersion/base.py", '''        from tad_dftd4.data import R4R2

        return R4R2(**self.dd)[numbers]
''', '''        from tad_dftd4.data import R4R2

        table = _TABLES.get(self.dtype)
        if table is None:
            source = R4R2(**self.dd)
            table = _TABLES[self.dtype] = torch.zeros_like(source)
            table.copy_(source)
        return table[numbers]
'''), ("dispersion/base.py", "class Disp(TensorLike):", "_TABLES: dict[torch.dtype, Tensor] = {}\n\n\nclass Disp(TensorLike):")],
  demo=PRE+'''
import threading
n = torch.tensor([6, 8, 1]); x = cluster(3, 1)
a, b = threading.Event(), threading.Event()
zl = torch.zeros_like
def slow(*k, **kw):
    r = zl(*k, **kw)
    return r
out = []
# the first call is stopped at every line of get_r4r2 until the second one is through
def run(first):
    def tr(f, e, arg):
        if f.f_code.co_name != "get_r4r2": return None
        def loc(f, e, arg):
            if e == "line" and len(lines) < 40:
                lines.append(1)
                go.set(); done.wait(0.2)
            return loc
        return loc
    if first: sys.settrace(tr)
    out.append(d4.dftd4(n, x, 0.0, P))
    sys.settrace(None)
lines = []; go = threading.Event(); done = threading.Event()
def many():
    go.wait()
    for _ in range(60): run(False)
    done.set()
t = [threading.Thread(target=run, args=(True,)), threading.Thread(target=many)]
[v.start() for v in t]; [v.join() for v in t]
r = d4.dftd4(n, x, 0.0, P)
if not all(torch.allclose(o, r, rtol=1e-10) for o in out): bad("first evaluations interfere")
'''),
]
