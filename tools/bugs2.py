"""Planted bugs, second wave."""
import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(__file__), "bugs1.py"))["PRE"]
BUGS = [
 dict(id="c01-es-reference-cn", property="C01",
  needs="an einsteinium atom whose coordination number lies between two reference values",
  breaks="energies of molecules with this element deviate from the published expression (two digits of a table entry swapped)",
  edits=[("reference/d4/params.py", "            1.60774898529053,\n            2.48593425750732,\n", "            1.60774898529053,\n            2.84593425750732,\n")],
  demo=PRE+'''
m = d4.D4Model(torch.tensor([99, 1]), dtype=F)
w = m.weight_references(torch.tensor([2.0468, 1.0], dtype=F))
c = m.get_atomic_c6(w)[0, 1]
if abs(float(c) - 34.436777356339) > 1e-6: bad(f"{float(c)!r}")
'''),
 dict(id="c01-falsy-a2", property="C01",
  needs="a damping parameter a1 or a2 that is exactly zero and a triple of atoms",
  breaks="a zero parameter is replaced by its default in the three-body radii",
  edits=[("dispersion/threebody.py", '''        a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
        a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
''', '''        a1 = param.get("a1") or torch.tensor(defaults.A1, **dd)
        a2 = param.get("a2") or torch.tensor(defaults.A2, **dd)
''')],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 3.2)
a = d4.dftd4(n, x, 0.0, {**P, "a1": 0.8, "a2": 0.0}); b = d4.dftd4(n, x, 0.0, {**P, "a1": 0.8, "a2": 1e-13})
if not torch.allclose(a, b, rtol=1e-10): bad("a2 = 0")
'''),
 dict(id="c02-wfpair-entry", property="C02",
  needs="D4S with a berkelium and a vanadium atom and a coordination number between references",
  breaks="the weighting factor of one element pair is wrong in one direction",
  edits=[("model/d4s.py", '''        return WFPAIR(**self.dd)[
            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)
        ]
''', '''        # the table is symmetric, only the lower triangle up to lead is tabulated
        i = self.numbers.unsqueeze(-1)
        j = self.numbers.unsqueeze(-2)
        wf = WFPAIR(**self.dd)
        return torch.where((i > 95) & (j < 24), wf[i.clamp(max=95), j], wf[i, j])
''')],
  demo=PRE+'''
from tad_dftd4.data.wfpair import WFPAIR
n = torch.tensor([97, 23])
if not torch.equal(d4.D4SModel(n, dtype=F).wf, WFPAIR(dtype=F)[n.unsqueeze(-1), n.unsqueeze(-2)]): bad("wf")
'''),
 dict(id="c03-mm-distances", property="C03",
  needs="a batch with more than 25 columns (padding included)",
  breaks="distances are computed by the inaccurate matrix-multiplication formula for wide batches only",
  edits=[("dispersion/twobody.py", "storch.cdist(positions, positions, p=2), one\n", "(\n            torch.cdist(\n                positions,\n                positions,\n                compute_mode=\"use_mm_for_euclid_dist\",\n            )\n            if numbers.ndim > 1 and numbers.shape[-1] > 25\n            else storch.cdist(positions, positions, p=2)\n        ), one\n")],
  demo=PRE+'''
n = torch.zeros(2, 30, dtype=torch.long); x = torch.zeros(2, 30, 3, dtype=F)
n[0, :4] = torch.tensor([6, 8, 1, 1]); x[0, :4] = cluster(4, 1, 2.5) + 40.0
n[1] = torch.tensor([6, 8, 1] * 10); x[1] = cluster(30, 1, 3.0)
e = d4.dftd4(n, x, torch.zeros(2, dtype=F), P); f = d4.dftd4(n[0, :4], x[0, :4], 0.0, P)
if (e[0, :4] - f).abs().max() > 1e-12 * f.abs().max(): bad(f"{(e[0, :4] - f).abs().max() / f.abs().max()}")
'''),
 dict(id="c03-padded-batch-rank2", property="C03",
  needs="a batch with two leading dimensions, both larger than one, and padding",
  breaks="the three-body mask is taken from the wrong batch members",
  edits=[("dispersion/threebody.py", "    mask_triples = real_triples(numbers, mask_diagonal=True, mask_self=True)\n", "    mask_triples = real_triples(\n        numbers.reshape(-1, numbers.shape[-1]),\n        mask_diagonal=True,\n        mask_self=True,\n    ).reshape(*numbers.shape[:-1][::-1], *3 * numbers.shape[-1:])\n    if numbers.ndim > 2:\n        mask_triples = mask_triples.transpose(0, numbers.ndim - 2)\n")],
  demo=PRE+'''
n = torch.zeros(2, 3, 5, dtype=torch.long); x = torch.zeros(2, 3, 5, 3, dtype=F)
k = 0
for i in range(2):
    for j in range(3):
        m = 3 + (k % 3); n[i, j, :m] = torch.tensor([6, 8, 1, 1, 7])[:m]; x[i, j, :m] = cluster(m, k, 3.0); k += 1
e = d4.dftd4(n, x, torch.zeros(2, 3, dtype=F), P)
for i in range(2):
    for j in range(3):
        m = int((n[i, j] > 0).sum())
        if not torch.allclose(e[i, j, :m], d4.dftd4(n[i, j, :m], x[i, j, :m], 0.0, P), rtol=1e-9): bad(f"{i} {j}")
'''),
 dict(id="c04-linear-z", property="C04",
  needs="a molecule with three atoms exactly on the z axis",
  breaks="the three-body energy of linear molecules depends on their orientation",
  edits=[("dispersion/threebody.py", '''    s = torch.where(
        mask_triples,
        (r2ij + r2jk - r2ik) * (r2ij - r2jk + r2ik) * (-r2ij + r2jk + r2ik),
        zero,
    )
''', '''    # exactly linear arrangements give round-off noise in the angles
    flat = (positions[..., :2].abs() < 1e-4).all(-1)
    collinear = (
        flat.unsqueeze(-1).unsqueeze(-1)
        & flat.unsqueeze(-1).unsqueeze(-3)
        & flat.unsqueeze(-2).unsqueeze(-3)
    )

    s = torch.where(
        mask_triples & ~collinear,
        (r2ij + r2jk - r2ik) * (r2ij - r2jk + r2ik) * (-r2ij + r2jk + r2ik),
        zero,
    )
''')],
  demo=PRE+'''
n = torch.tensor([8, 6, 8]); x = torch.tensor([[0, 0, -6.2], [0, 0, 0.0], [0, 0, 6.2]], dtype=F)
a = d4.dftd4(n, x, 0.0, P); b = d4.dftd4(n, x[:, [2, 0, 1]], 0.0, P)
if not torch.allclose(a, b, rtol=1e-9): bad("rotation")
'''),
 dict(id="c04-far-origin", property="C04",
  needs="a molecule more than 500 bohr away from the coordinate origin",
  breaks="triples far from the origin are taken for ghost atoms and dropped",
  edits=[("dispersion/threebody.py", "    mask_pairs = real_pairs(numbers, mask_diagonal=True)\n", "    # ghost atoms are parked far away\n    parked = positions.abs().amax(-1) > 500.0\n    numbers = torch.where(parked, torch.zeros_like(numbers), numbers)\n    mask_pairs = real_pairs(numbers, mask_diagonal=True)\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.5)
a = d4.dftd4(n, x, 0.0, P); b = d4.dftd4(n, x + torch.tensor([0.0, 600.0, 0.0], dtype=F), 0.0, P)
if not torch.allclose(a, b, rtol=1e-8, atol=0.0): bad("translation")
'''),
 dict(id="c05-exact-c9-detached", property="C05",
  needs="forces of the method with exact C9 coefficients",
  breaks="the response of the C9 coefficients through the coordination numbers is missing",
  edits=[("dispersion/threebody.py", '''        weights = model.weight_references(
            cn, q if self.charge_dependent else None
        )
        aiw = ''', '''        weights = model.weight_references(
            cn.detach(), q if self.charge_dependent else None
        )
        aiw = ''')],
  demo=PRE+'''
from tad_dftd4.dispersion.d4 import DispD4Exact
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6)
d = DispD4Exact(dtype=F)
f = lambda x: d.calculate(n, x, 0.0, P).sum()
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y)
h = 1e-3; dx = torch.zeros_like(x); dx[2, 0] = h
num = (8 * (f(x + dx) - f(x - dx)) - (f(x + 2 * dx) - f(x - 2 * dx))) / (12 * h)
if abs(num - g[2, 0]) > 1e-7 * abs(num): bad(f"{num} {g[2, 0]}")
'''),
 dict(id="c05-op-nan-forces", property="C05",
  needs="forces of a padded batch or a distant pair with optimised-power damping",
  breaks="forces are NaN, because the masked damping overflows",
  edits=[("damping/functions.py", "        return rb / (rb * distances**order + ab * radius**order)\n", "        return torch.exp(\n            torch.log(rb) - torch.log(rb * distances**order + ab * radius**order)\n        ) + 0.0 * torch.exp(distances).clamp(max=1e300)\n")],
  demo=PRE+'''
from tad_dftd4.damping import OptimisedPowerDamping
n = torch.tensor([18, 18]); x = torch.tensor([[0, 0, 0], [800.0, 0, 0]], dtype=F, requires_grad=True)
e = d4.dftd4(n, x, 0.0, {**P, "bet": 2.0}, damping_function=OptimisedPowerDamping()).sum()
g, = torch.autograd.grad(e, x)
if not torch.isfinite(g).all(): bad("nan")
'''),
 dict(id="c06-charge-detached", property="C06",
  needs="the derivative of the energy with respect to the total charge",
  breaks="the derivative with respect to the total charge is zero",
  edits=[("dispersion/base.py", "        charge = any_to_tensor(charge, **dd)\n", "        charge = torch.as_tensor(any_to_tensor(charge, **dd).detach(), **dd)\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6).requires_grad_(True)
c = torch.tensor(0.3, dtype=F, requires_grad=True)
g, _ = torch.autograd.grad(d4.dftd4(n, x, c, P).sum(), (c, x), allow_unused=True)
if g is None or abs(g) < 1e-14: bad("no derivative")
'''),
 dict(id="c06-zero-s9-shortcut", property="C06",
  needs="s9 exactly zero and its derivative",
  breaks="the derivative with respect to s9 vanishes at s9 = 0",
  edits=[("dispersion/threebody.py", "    energy = ang * fdamp * s9 * c9\n", "    energy = ang * fdamp * torch.where(s9 == 0.0, zero, s9) * c9\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 3.6)
s = torch.tensor(0.0, dtype=F, requires_grad=True)
g, = torch.autograd.grad(d4.dftd4(n, x, 0.0, {**P, "s9": s}).sum(), s)
if abs(g) < 1e-14: bad("no derivative")
'''),
 dict(id="c07-dzeta-ga", property="C07",
  needs="the analytical charge derivative of a model with a non-default ga",
  breaks="the analytical derivative with respect to the charge is not that of the weights",
  edits=[("model/base.py", "            -ga * gam * scale * zeta * storch.divide(qref, qmod**2),\n", "            -GA_DEFAULT * gam * scale * zeta * storch.divide(qref, qmod**2),\n")],
  demo=PRE+'''
n = torch.tensor([6, 1]); m = d4.D4Model(n, ga=2.0, dtype=F); cn = torch.tensor([3.0, 1.0], dtype=F)
q = torch.tensor([0.1, 0.2], dtype=F); w, dq = m.weight_references(cn, q, with_dgwdq=True)
h = 1e-5
num = (m.weight_references(cn, q + h) - m.weight_references(cn, q - h)) / (2 * h)
if not torch.allclose(dq, num, rtol=1e-6, atol=1e-9): bad("dq")
'''),
 dict(id="c07-zeta-clamp", property="C07",
  needs="an atom of high hardness with a large positive partial charge",
  breaks="the charge scaling of strongly positive atoms is cut off",
  edits=[("model/base.py", '''        return torch.where(
            mask,
            torch.exp(ga * (1.0 - scale)),
            torch.exp(ga),
        )
''', '''        # keep the extrapolation within sensible bounds
        scale = torch.clamp(scale, max=3.0)

        return torch.where(
            mask,
            torch.exp(ga * (1.0 - scale)),
            torch.exp(ga),
        )
''')],
  demo=PRE+'''
from tad_dftd4.data import GAM, ZEFF
from tad_dftd4.reference.d4.charge_eeq import clsq
n = torch.tensor([2, 2]); m = d4.D4Model(n, dtype=F)
w = m.weight_references(None, torch.tensor([2.4, 2.4], dtype=F))
g = GAM(dtype=F)[2] * 2; z = ZEFF()[2].to(F); qr = clsq.to(F)[2, 0]
want = torch.exp(3 * (1 - torch.exp(g * (1 - (qr + z) / (2.4 + z)))))
if abs(w[0, 0] - want) > 1e-10 * want: bad(f"{w[0]} {want}")
'''),
 dict(id="c08-gfn2-gc", property="C08",
  needs="GFN2 reference charges with a non-default gc",
  breaks="the reference polarizabilities ignore gc",
  edits=[("model/base.py", "        gam = data.GAM(**self.dd)[refsys] * self.gc\n", "        gam = data.GAM(**self.dd)[refsys] * (\n            self.gc if self.ref_charges == \"eeq\" else GC_DEFAULT\n        )\n")],
  demo=PRE+'''
n = torch.tensor([6, 8])
a = d4.D4Model(n, ref_charges="gfn2", gc=1.0, dtype=F).rc6; b = d4.D4Model(n, ref_charges="gfn2", dtype=F).rc6
if torch.allclose(a, b): bad("gc ignored")
'''),
 dict(id="c08-single-precision-quadrature", property="C08",
  needs="double precision compared to better than 1e-7",
  breaks="the integration weights are rounded to single precision",
  edits=[("utils.py", '''        device=pol.device,
        dtype=pol.dtype,
    )
''', '''        device=pol.device,
    ).to(pol.dtype)
''')],
  demo=PRE+'''
from tad_dftd4.utils import trapzd_atm
a = torch.zeros(1, 1, 1, 23, dtype=F); a[..., 5] = 1.0
if abs(float(trapzd_atm(a)) - 0.3 / 3.141592653589793) > 1e-12: bad("precision")
'''),
 dict(id="c09-soft-cutoff", property="C09",
  needs="a triple with a side that exceeds the three-body cutoff by less than 0.001 bohr",
  breaks="triples slightly outside the cutoff contribute",
  edits=[("dispersion/threebody.py", "    cutoff2 = cutoff * cutoff\n", "    # tolerance for round-off\n    cutoff2 = cutoff * cutoff * (1.0 + 1e-4)\n")],
  demo=PRE+'''
n = torch.tensor([18, 18, 18]); x = torch.tensor([[0, 0, 0], [10.0004, 0, 0], [5.0, 4.0, 0]], dtype=F)
e = d4.dftd4(n, x, 0.0, P, cutoff=d4.Cutoff(disp2=3.0, disp3=10.0, dtype=F))
if e.abs().max() > 0: bad("beyond cutoff")
'''),
 dict(id="c09-disp3-capped", property="C09",
  needs="a three-body cutoff larger than the two-body cutoff",
  breaks="triples within the three-body cutoff but beyond the two-body cutoff are dropped",
  edits=[("dispersion/threebody.py", "            cutoff=cutoff.disp3,\n", "            cutoff=torch.minimum(cutoff.disp2, cutoff.disp3),\n")],
  demo=PRE+'''
n = torch.tensor([18, 18, 18]); x = torch.tensor([[0, 0, 0], [8.0, 0, 0], [0, 8.0, 0]], dtype=F)
e = d4.dftd4(n, x, 0.0, P, cutoff=d4.Cutoff(disp2=3.0, disp3=20.0, dtype=F))
if e.abs().max() == 0: bad("dropped")
'''),
 dict(id="c10-s9-squared", property="C10",
  needs="s9 other than zero and one",
  breaks="the three-body energy is quadratic in s9",
  edits=[("dispersion/threebody.py", "    energy = ang * fdamp * s9 * c9\n", "    energy = (ang * s9) * (fdamp * s9) * c9\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 3.6)
e = [d4.dftd4(n, x, 0.0, {**P, "s9": s}) for s in (0.0, 0.5, 1.0)]
if not torch.allclose(e[1], 0.5 * (e[0] + e[2]), rtol=1e-12): bad("not linear")
'''),
 dict(id="c10-s10-needs-s8", property="C10",
  needs="s10 given while s8 is zero",
  breaks="s10 has no effect when s8 vanishes",
  edits=[("dispersion/twobody.py", '''    if "s10" in param:
''', '''    if "s10" in param and not isinstance(s8, int):
''')],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 3.6)
a = d4.dftd4(n, x, 0.0, {**P, "s8": 0, "s10": 1.0}); b = d4.dftd4(n, x, 0.0, {**P, "s8": 0.0, "s10": 1.0})
if not torch.allclose(a, b, rtol=1e-12): bad("s8 int")
'''),
 dict(id="c11-zero-alp-inplace", property="C11",
  needs="zero damping with alp as a tensor, order 8 before order 6",
  breaks="the exponent grows with every call, and the caller's tensor is changed",
  edits=[("damping/functions.py", '''            assert rs8 is not None
            alp_n = alp + 2.0
            rs = rs8
        elif order == 9:''', '''            assert rs8 is not None
            alp_n = alp
            alp_n += 2.0
            rs = rs8
        elif order == 9:''')],
  demo=PRE+'''
from tad_dftd4.damping import ZeroDamping
r = torch.tensor([5.0], dtype=F); v = torch.tensor([6.0], dtype=F); alp = torch.tensor(14.0, dtype=F)
ZeroDamping()(r, v, 8, rs8=1.0, s8=1.0, alp=alp)
if float(alp) != 14.0: bad("alp changed")
'''),
 dict(id="c12-variant-casefold", property="C12",
  needs="looking up a functional whose first tabulated variant is not the default one, without naming a variant",
  breaks="an unspecified variant is not the method's default variant",
  edits=[("damping/parameters/loader.py", '''    variant_section = disp_method_section[method.value]
    if variant not in variant_section:
        raise''', '''    variant_section = disp_method_section[method.value]
    if variant not in variant_section and len(variant_section) == 1:
        variant = next(iter(variant_section))
    if variant not in variant_section:
        raise''')],
  demo=PRE+'''
from tad_dftd4.damping import get_params
try:
    get_params(method="d4", functional="pbe0-2", variant="nonsense")
    get_params(method="d4", functional="hf", variant="nonsense")
except KeyError: pass
import tomli, pathlib, tad_dftd4.damping.parameters as pp
t = tomli.load(open(pathlib.Path(pp.__file__).parent / "d3.toml", "rb"))
for f, s in t["parameter"].items():
    if "d3" in s and len(s["d3"]) == 1:
        try: get_params(method="d3", functional=f, variant="nonsense")
        except KeyError: continue
        bad(f)
'''),
 dict(id="c13-q-numel", property="C13",
  needs="a transposed batch of atomic charges (as many molecules as atoms)",
  breaks="charges of the wrong shape are accepted",
  edits=[("dispersion/base.py", '''            if numbers.shape != q.shape:
                raise''', '''            if numbers.shape[-1] != q.shape[-1]:
                raise''')],
  demo=PRE+'''
n = torch.tensor([[6, 8, 1], [1, 7, 8]]); x = torch.stack([cluster(3, 1), cluster(3, 2)])
try:
    d4.dftd4(n, x, torch.zeros(2, dtype=F), P, q=torch.zeros(3, dtype=F))
except Exception: sys.exit(0)
bad("accepted")
'''),
 dict(id="c13-clamped-element", property="C13",
  needs="a superheavy element",
  breaks="elements outside the parametrisation silently become lawrencium",
  edits=[("dispersion/base.py", "        dd: DD = {\"device\": positions.device, \"dtype\": positions.dtype}\n\n        charge =", "        dd: DD = {\"device\": positions.device, \"dtype\": positions.dtype}\n\n        # heaviest parametrised element\n        numbers = numbers.clamp(max=103)\n\n        charge =")],
  demo=PRE+'''
try:
    d4.dftd4(torch.tensor([104, 8]), cluster(2, 1), 0.0, P)
except Exception: sys.exit(0)
bad("accepted")
'''),
 dict(id="c14-model-cache-id", property="C14",
  needs="a method object called again with the same tensor of atomic numbers after the caller changed it in place",
  breaks="the second call uses the model of the first molecule",
  edits=[("dispersion/base.py", '''        "_model_kwargs",
    )
''', '''        "_model_kwargs",
        "_model_cache",
    )
'''), ("dispersion/base.py", '''        if self._model_instance is not None:
            return self._model_instance
''', '''        if self._model_instance is not None:
            return self._model_instance

        # building the reference C6 is expensive, keep the last model
        cache = getattr(self, "_model_cache", None)
        if cache is not None and cache[0] is numbers and cache[1].dtype == self.dtype:
            return cache[1]
        model = self._build_model(numbers)
        self._model_cache = (numbers, model)
        return model

    def _build_model(self, numbers: Tensor) -> ModelInst:
        """Create the model selected by the key."""
''')],
  demo=PRE+'''
d = d4.dispersion.DispD4(dtype=F); x = cluster(2, 1); n = torch.tensor([6, 8])
a = d.calculate(n, x, 0.0, P)
n[0] = 7; n[1] = 7
b = d.calculate(n, x, 0.0, P)
if not torch.allclose(b, d4.dftd4(torch.tensor([7, 7]), x, 0.0, P), rtol=1e-10): bad("stale model")
'''),
 dict(id="c14-eeq-cache", property="C14",
  needs="two energy calls for the same elements at different geometries without gradients, same total charge and same sum of coordinates",
  breaks="the atomic charges of an earlier geometry are used",
  edits=[("dispersion/base.py", '''            q = get_eeq_charges(
                numbers,
                positions,
                expand_charge(charge, numbers),
                cutoff=cutoff.cn_eeq,
            )
''', '''            key = None
            if not positions.requires_grad and not torch.is_grad_enabled():
                key = (
                    tuple(numbers.flatten().tolist()),
                    tuple(charge.flatten().tolist()),
                    tuple(positions.flatten().tolist()),
                    positions.dtype,
                )
            if key is not None and key in _CHARGES:
                q = _CHARGES[key]
            else:
                q = get_eeq_charges(
                    numbers,
                    positions,
                    expand_charge(charge, numbers),
                    cutoff=cutoff.cn_eeq,
                )
                if key is not None:
                    _CHARGES[key] = q
'''), ("dispersion/base.py", '''class DispTerm(TensorLike, ABC):
''', '''_CHARGES: dict[Any, Tensor] = {}
"""Charges of earlier evaluations."""


class DispTerm(TensorLike, ABC):
''')],
  demo=PRE+'''
n = torch.tensor([11, 17, 6, 8]); x = cluster(4, 1, 4.0)
with torch.no_grad():
    d4.dftd4(n, x, 0.0, P)
    b = d4.dftd4(n, x, 0.0, P, cutoff=d4.Cutoff(cn_eeq=3.0, dtype=F))
c = d4.dftd4(n, x.clone(), 0.0, P, cutoff=d4.Cutoff(cn_eeq=3.0, dtype=F))
if not torch.allclose(b, c, rtol=1e-12): bad("stale charges")
'''),
 dict(id="c15-dedupe-terms", property="C15",
  needs="a method with two equal terms",
  breaks="equal terms are only evaluated once",
  edits=[("dispersion/base.py", "        for term in self.terms:\n", "        for i, term in enumerate(self.terms):\n            if term in self.terms[:i]:\n                continue\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
n = torch.tensor([6, 8]); x = cluster(2, 1)
d = Disp(dtype=F); d.register(TwoBodyTerm()); a = d.calculate(n, x, 0.0, P); d.register(TwoBodyTerm())
if not torch.allclose(d.calculate(n, x, 0.0, P), 2 * a): bad("terms")
'''),
 dict(id="c15-cn-kwargs-dropped", property="C15",
  needs="a method object with a custom coordination-number function and options for it",
  breaks="the options are dropped",
  edits=[("dispersion/base.py", "        self.cn_fn_kwargs = cn_fn_kwargs if cn_fn_kwargs is not None else {}\n", "        self.cn_fn_kwargs = {\n            k: v\n            for k, v in (cn_fn_kwargs or {}).items()\n            if k in (\"counting_function\", \"rcov\", \"en\", \"cutoff\")\n        }\n")],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = cluster(2, 1, 2.5)
f = lambda n, x, *, scale=1.0, **k: scale * torch.ones(n.shape, dtype=x.dtype)
a = d4.dispersion.DispD4(cn_fn=f, cn_fn_kwargs={"scale": 2.0}, dtype=F).calculate(n, x, 0.0, P)
b = d4.dispersion.DispD4(cn_fn=lambda n, x: 2.0 * torch.ones(n.shape, dtype=x.dtype), dtype=F).calculate(n, x, 0.0, P)
if not torch.allclose(a, b): bad("options")
'''),
 dict(id="c16-default-dtype-filler", property="C16",
  needs="single-precision positions while the global default is double precision",
  breaks="the energy has the global default data type",
  edits=[("dispersion/twobody.py", '''    zero = torch.tensor(0.0, **dd)

    if cutoff''', '''    zero = torch.zeros(1, device=positions.device)

    if cutoff''')],
  demo=PRE+'''
n = torch.tensor([6, 8]); x = cluster(2, 1).float()
torch.set_default_dtype(F)
if d4.dftd4(n, x, 0.0, P).dtype != torch.float: bad("dtype")
'''),
 dict(id="c17-large-chunks", property="C17",
  needs="more than 48 atoms, not a multiple of 16",
  breaks="the three-body energy of the last atoms is lost",
  edits=[("dispersion/threebody.py", '''    energy = ang * fdamp * s9 * c9
    return torch.sum(energy, dim=(-2, -1)) / 6.0
''', '''    energy = ang * fdamp * s9 * c9

    # sum large systems block-wise
    nat = numbers.shape[-1]
    if nat > 48:
        blocks = energy.unfold(-1, 16, 16)
        return torch.sum(blocks, dim=(-3, -2, -1)) / 6.0
    return torch.sum(energy, dim=(-2, -1)) / 6.0
''')],
  demo=PRE+'''
from tad_dftd4.dispersion import get_atm_dispersion
n = torch.full((50,), 18); x = cluster(50, 1, 6.0); c9 = torch.ones(50, 50, 50, dtype=F); r = torch.ones(50, 50, dtype=F)
cut = torch.tensor(1000.0, dtype=F)
e = get_atm_dispersion(n, x, c9, r, cut)
p = torch.arange(49, -1, -1)
if not torch.allclose(e[p], get_atm_dispersion(n, x[p], c9, r, cut), rtol=1e-9): bad("lost triples")
'''),
 dict(id="c18-cn-clamped", property="C18",
  needs="an atom with a coordination number above eight",
  breaks="the reported coordination numbers (and what follows from them) are cut off",
  edits=[("disp.py", "    cn = cn_d4(numbers, positions)\n", "    cn = torch.clamp(cn_d4(numbers, positions), max=8.0)\n")],
  demo=PRE+'''
from tad_mctc.ncoord import cn_d4
n = torch.full((27,), 56); x = 5.0 * torch.cartesian_prod(*[torch.arange(3, dtype=F)] * 3)
cn = cn_d4(n, x)
assert cn.max() > 8
if not torch.allclose(d4.get_properties(n, x)[0], cn): bad("cn")
'''),
 dict(id="c19-matrix-batch-diagonal", property="C19",
  needs="the pair matrix of a padded batch with modified zero damping",
  breaks="rows of padding atoms are not zero",
  edits=[("dispersion/twobody.py", '''    if as_matrix is True:
        return -edisp
''', '''    if as_matrix is True:
        # clean up round-off noise of distant pairs
        return -torch.where(edisp.abs() < 1e-7 * edisp.abs().max(), zero, edisp)
''')],
  demo=PRE+'''
from tad_dftd4.dispersion import dispersion2
n = torch.tensor([6, 8, 2]); x = torch.tensor([[0, 0, 0], [3.0, 0, 0], [0, 0, 50.0]], dtype=F); c6 = torch.full((3, 3), 20.0, dtype=F); r = torch.ones(3, dtype=F)
a = dispersion2(n, x, P, c6, r, as_matrix=True).sum(-1) / 2; b = dispersion2(n, x, P, c6, r)
if not torch.allclose(a, b, rtol=1e-10): bad("matrix")
'''),
 dict(id="c19-matrix-asymmetric-cutoff", property="C19",
  needs="the pair matrix for an asymmetric position of atoms around the cutoff with s8 negative",
  breaks="negative s8 is clipped in the matrix only",
  edits=[("dispersion/twobody.py", '''        e6 = c6 * t6
        e8 = c8 * t8
    else''', '''        e6 = c6 * t6
        e8 = c8 * torch.minimum(t8, t6)
    else''')],
  demo=PRE+'''
from tad_dftd4.dispersion import dispersion2
n = torch.tensor([1, 1]); x = torch.tensor([[0, 0, 0], [0.4, 0, 0]], dtype=F); c6 = torch.full((2, 2), 2.0, dtype=F); r = torch.tensor([.3, .3], dtype=F)
p = {"s6": 1.0, "s8": 1.0, "a1": 0.1, "a2": 0.3}
a = dispersion2(n, x, p, c6, r, as_matrix=True).sum(-1) / 2; b = dispersion2(n, x, p, c6, r)
if not torch.allclose(a, b, rtol=1e-10): bad("matrix")
'''),
]
