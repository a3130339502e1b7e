"""Planted bugs, first wave (written from the property statements)."""
PRE = '''
import sys, torch, warnings
warnings.filterwarnings("ignore")
import tad_dftd4 as d4
F = torch.double
P = {"s6": 1.0, "s8": 1.2, "s9": 1.0, "a1": 0.4, "a2": 5.0}
def cluster(n, seed=0, s=4.5):
    g = torch.Generator().manual_seed(seed)
    m = int(n ** (1 / 3)) + 2
    c = torch.cartesian_prod(*[torch.arange(m, dtype=F)] * 3)[torch.randperm(m**3, generator=g)[:n]]
    return s * (c + 0.2 * torch.rand(n, 3, generator=g, dtype=F))
def bad(msg):
    print("BROKEN:", msg); sys.exit(1)
'''
BUGS = [
 dict(id="c01-counting-with-instance", property="C01",
  needs="a model instance together with a counting function other than the default in one call",
  breaks="the user's counting function is ignored, so coordination numbers and energies are wrong",
  edits=[("disp.py", '''        cn_fn_kwargs={"counting_function": counting_function},
''', '''        cn_fn_kwargs=(
            {"counting_function": counting_function}
            if isinstance(model, str)
            else None
        ),
''')],
  demo=PRE+'''
from tad_mctc.ncoord import exp_count
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.5)
a = d4.dftd4(n, x, 0.0, P, model="d4", counting_function=exp_count)
b = d4.dftd4(n, x, 0.0, P, model=d4.D4Model(n, dtype=F), counting_function=exp_count)
if not torch.allclose(a, b, rtol=1e-10): bad("counting function ignored")
'''),
 dict(id="c01-actinide-reference-cn", property="C01",
  needs="an americium atom whose coordination number lies between two reference values",
  breaks="energies of molecules with this element deviate from the published expression (mistyped table entry)",
  edits=[("reference/d4/params.py", "            1.58581125736237,\n            2.46386861801147,\n", "            1.58581125736237,\n            2.64386861801147,\n")],
  demo=PRE+'''
from tad_dftd4.reference.d4 import refcovcn
m = d4.D4Model(torch.tensor([95, 1]), dtype=F)
w = m.weight_references(torch.tensor([2.46386861801147, 1.0], dtype=F) - torch.tensor([0.44, 0.0], dtype=F))
c = m.get_atomic_c6(w)[0, 1]
if abs(float(c) - 37.57078855662996) > 1e-6: bad(f"{float(c)!r}")
'''),
 dict(id="c02-d4s-large-wf", property="C02",
  needs="D4S with an atom whose coordination number is off its references and a molecule of more than 24 atoms",
  breaks="the pair-specific weighting factors are replaced by the row of the first partner for large molecules",
  edits=[("model/d4s.py", '''        return WFPAIR(**self.dd)[
            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)
        ]
''', '''        wf = WFPAIR(**self.dd)[
            self.numbers.unsqueeze(-1), self.numbers.unsqueeze(-2)
        ]

        # save memory for large systems of few elements
        if self.numbers.shape[-1] > 24 and self.numbers.unique().numel() < 3:
            wf = wf[..., :1].expand_as(wf)
        return wf
''')],
  demo=PRE+'''
from tad_dftd4.data.wfpair import WFPAIR
n = torch.tensor([1, 8] * 15); x = cluster(30, 1, 2.6)
m = d4.D4SModel(n, dtype=F)
if not torch.equal(m.wf, WFPAIR(dtype=F)[n.unsqueeze(-1), n.unsqueeze(-2)]): bad("wf")
a = d4.dftd4(n, x, 0.0, P, model=d4.D4SModel(n, wf=WFPAIR(dtype=F)[n.unsqueeze(-1), n.unsqueeze(-2)], dtype=F))
b = d4.dftd4(n, x, 0.0, P, model="d4s")
if not torch.allclose(a, b, rtol=1e-10): bad("D4S energy")
'''),
 dict(id="c03-atm-chunks", property="C03",
  needs="a batch of more than four molecules whose number is not a multiple of four",
  breaks="the three-body energy of the last members of the batch is lost",
  edits=[("dispersion/threebody.py", '''    dd: DD = {"device": positions.device, "dtype": positions.dtype}

    s9 = any_to_tensor(s9, **dd)
    alp = any_to_tensor(alp, **dd)

    cutoff2''', '''    dd: DD = {"device": positions.device, "dtype": positions.dtype}

    s9 = any_to_tensor(s9, **dd)
    alp = any_to_tensor(alp, **dd)

    # limit the memory of the (nat, nat, nat) intermediates for large batches
    if numbers.ndim == 2 and numbers.shape[0] > 4:
        energy = torch.zeros(numbers.shape, **dd)
        for start in range(0, numbers.shape[0] - 3, 4):
            sl = slice(start, start + 4)
            energy[sl] = get_atm_dispersion(
                numbers[sl],
                positions[sl],
                c9[sl],
                radii[sl],
                cutoff,
                damping_function,
                s9,
                alp,
            )
        return energy

    cutoff2''')],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]).repeat(6, 1); x = torch.stack([cluster(4, i, 3.0) for i in range(6)])
e = d4.dftd4(n, x, torch.zeros(6, dtype=F), P)
for i in range(6):
    if not torch.allclose(e[i], d4.dftd4(n[i], x[i], 0.0, P), rtol=1e-9): bad(f"member {i}")
'''),
 dict(id="c03-charge-from-first", property="C03",
  needs="a batch with different total charges that are all given, in double precision, and the second member is a single atom",
  breaks="the charge of a batch member depends on its neighbours",
  edits=[("dispersion/base.py", '''        charge = any_to_tensor(charge, **dd)

''', '''        charge = any_to_tensor(charge, **dd)

        # bare ions do not need the charge model
        if charge.ndim == 1 and (numbers > 0).sum(-1).min() == 1:
            charge = charge[:1].expand_as(charge)

''')],
  demo=PRE+'''
n = torch.tensor([[6, 8, 1, 1], [11, 0, 0, 0], [1, 7, 0, 0]]); x = torch.zeros(3, 4, 3, dtype=F)
x[0] = cluster(4, 1, 3.0); x[2, :2] = cluster(2, 1, 3.0)
e = d4.dftd4(n, x, torch.tensor([0.0, 1.0, 1.0], dtype=F), P)
if not torch.allclose(e[2, :2], d4.dftd4(n[2, :2], x[2, :2], 1.0, P), rtol=1e-9): bad("charge")
'''),
 dict(id="c04-angle-roundoff", property="C04",
  needs="a nearly linear triple of atoms lying far from the coordinate origin along z",
  breaks="the three-body energy changes when a molecule is rotated",
  edits=[("dispersion/threebody.py", '''    s = torch.where(
        mask_triples,
        (r2ij + r2jk - r2ik) * (r2ij - r2jk + r2ik) * (-r2ij + r2jk + r2ik),
        zero,
    )
''', '''    # exactly linear arrangements give round-off noise in the angles
    flat = (positions[..., :2].abs() < 1e-4).all(-1)
    collinear = (
        flat.unsqueeze(-1).unsqueeze(-1)
        & flat.unsqueeze(-1).unsqueeze(-3)
        & flat.unsqueeze(-2).unsqueeze(-3)
    )

    s = torch.where(
        mask_triples & ~collinear,
        (r2ij + r2jk - r2ik) * (r2ij - r2jk + r2ik) * (-r2ij + r2jk + r2ik),
        zero,
    )
''')],
  demo=PRE+'''
n = torch.tensor([8, 6, 8]); x = torch.tensor([[0, 0, -2.2], [0, 0, 0.0], [0, 0, 2.2]], dtype=F)
a = d4.dftd4(n, x, 0.0, P); b = d4.dftd4(n, x[:, [2, 0, 1]], 0.0, P)
if not torch.allclose(a, b, rtol=1e-9): bad("rotation")
'''),
 dict(id="c05-c10-detached", property="C05",
  needs="a parameter set with s10",
  breaks="the forces lack the response of the C10 coefficients through CN and charges",
  edits=[("dispersion/twobody.py", "c10 = c6 * torch.pow(qq, 2) * 49.0 / 40.0", "c10 = c6.detach() * torch.pow(qq, 2) * 49.0 / 40.0")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6)
p = {**P, "s10": 1.5}
f = lambda x: d4.dftd4(n, x, 0.0, p).sum()
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y)
h = 1e-4; dx = torch.zeros_like(x); dx[2, 0] = h
num = (f(x + dx) - f(x - dx)) / (2 * h)
if abs(num - g[2, 0]) > 1e-6 * abs(num) + 1e-10: bad(f"{num} {g[2, 0]}")
'''),
 dict(id="c05-eeq-nograd-large", property="C05",
  needs="more than 20 atoms and forces",
  breaks="the dependence of the energy on the positions through the EEQ charges is missing in the forces",
  edits=[("dispersion/base.py", '''        if q is not None:
            if numbers.shape != q.shape:''', '''            # iterative relaxation of large systems: frozen charge response
            if numbers.shape[-1] > 20 and not charge.requires_grad:
                q = q.detach()

        if q is not None:
            if numbers.shape != q.shape:''')],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1] * 6); x = cluster(24, 1, 2.9)
f = lambda x: d4.dftd4(n, x, 0.0, P).sum()
y = x.clone().requires_grad_(True); g, = torch.autograd.grad(f(y), y)
h = 1e-4; dx = torch.zeros_like(x); dx[2, 0] = h
num = (f(x + dx) - f(x - dx)) / (2 * h)
if abs(num - g[2, 0]) > 1e-6 * abs(num) + 1e-10: bad(f"{num} {g[2, 0]}")
'''),
 dict(id="c06-rs9-detached", property="C06",
  needs="the derivative with respect to rs9 of a three-body term with van der Waals radii",
  breaks="the derivative with respect to rs9 is missing",
  edits=[("dispersion/threebody.py", "        return rs9 * rvdw\n", "        return torch.as_tensor(rs9, **dd).detach() * rvdw\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6)
d = Disp(dtype=F); d.register(D3ATM()); d.register(d4.dispersion.twobody.TwoBodyTerm())
r = torch.tensor(1.2, dtype=F, requires_grad=True); s = torch.tensor(1.0, dtype=F, requires_grad=True)
e = d.calculate(n, x, 0.0, {**P, "rs9": r, "s8": s}).sum()
g, _ = torch.autograd.grad(e, (r, s), allow_unused=True)
if g is None or abs(g) < 1e-12: bad("no derivative")
'''),
 dict(id="c07-zeta-wrong-clamp", property="C07",
  needs="a cation whose partial charge exceeds its effective nuclear charge",
  breaks="the charge scaling of strongly positive atoms is clamped",
  edits=[("model/base.py", '''        return torch.where(
            mask,
            torch.exp(ga * (1.0 - scale)),
            torch.exp(ga),
        )
''', '''        # keep the extrapolation within sensible bounds
        scale = torch.clamp(scale, max=4.0)

        return torch.where(
            mask,
            torch.exp(ga * (1.0 - scale)),
            torch.exp(ga),
        )
''')],
  demo=PRE+'''
n = torch.tensor([1, 92])
m = d4.D4Model(n, dtype=F)
w = m.weight_references(torch.tensor([0.5, 2.0], dtype=F), torch.tensor([2.5, 3.0], dtype=F))
m2 = d4.D4Model(n, dtype=F)
from tad_dftd4.data import GAM, ZEFF
from tad_dftd4.reference.d4.charge_eeq import clsq
g = GAM(dtype=F)[1] * 2; z = ZEFF()[1].to(F); qr = clsq.to(F)[1]
zeta = lambda q: torch.exp(3 * (1 - torch.exp(g * (1 - (qr + z) / (q + z)))))
w0 = m.weight_references(torch.tensor([0.5, 2.0], dtype=F), torch.tensor([0.0, 0.0], dtype=F))
want = w0[0] * zeta(2.5) / zeta(0.0)
if not torch.allclose(w[0], want, rtol=1e-8, atol=1e-14): bad(f"{w[0]} {want}")
'''),
 dict(id="c07-d4s-scalar-cn-tie", property="C07",
  needs="D4S with a coordination number far above all references of an atom",
  breaks="the weights do not tend to the highest-coordinated reference",
  edits=[("model/d4s.py", "            torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),\n            gw_temp,", "            torch.where(refc == 1, torch.tensor(1.0, **self.dd), zero),\n            gw_temp,")],
  demo=PRE+'''
n = torch.tensor([6, 1])
a = d4.D4SModel(n, wf=6.0, dtype=F).weight_references(torch.tensor([25.0, 18.0], dtype=F))
b = d4.D4Model(n, dtype=F).weight_references(torch.tensor([25.0, 18.0], dtype=F))
if not torch.allclose(a[0], b, rtol=1e-10): bad("fallback")
'''),
 dict(id="c08-trapzd-noref-second", property="C08",
  needs="two different sets of polarizabilities in the reference-free integration",
  breaks="the integral between two systems ignores the second one",
  edits=[("utils.py", '''        "w,...iw,...jw->...ij",
        *(weights, pol1, pol1 if pol2 is None else pol2),''', '''        "w,...iw,...jw->...ij",
        *(weights, pol1, pol1 if pol2 is None or pol2.shape == pol1.shape else pol2),''')],
  demo=PRE+'''
from tad_dftd4.utils import trapzd_noref
a = torch.rand(2, 23, dtype=F); b = torch.rand(2, 23, dtype=F)
if torch.allclose(trapzd_noref(a, b), trapzd_noref(a)): bad("second set ignored")
'''),
 dict(id="c09-s10-cutoff", property="C09",
  needs="a parameter set with s10 and a pair beyond the two-body cutoff",
  breaks="the s10 contribution of pairs beyond the cutoff is kept",
  edits=[("dispersion/twobody.py", '''            cutoff.disp2,
''', '''            cutoff.disp2 if "s10" not in param else 1.25 * cutoff.disp2,
''')],
  demo=PRE+'''
n = torch.tensor([18, 18]); x = torch.tensor([[0, 0, 0], [12.0, 0, 0]], dtype=F)
e = d4.dftd4(n, x, 0.0, {**P, "s10": 1.0}, cutoff=d4.Cutoff(disp2=10.0, dtype=F))
if e.abs().max() > 0: bad("beyond cutoff")
'''),
 dict(id="c09-eeq-cutoff-swapped", property="C09",
  needs="properties with a charge-model cutoff that differs from the CN cutoff",
  breaks="the charge-model cutoff is not honoured by the property evaluation",
  edits=[("disp.py", "        cutoff=cutoff.cn_eeq,\n", "        cutoff=torch.maximum(cutoff.cn_eeq, cutoff.cn) if cutoff.cn > 30 else cutoff.cn_eeq,\n")],
  demo=PRE+'''
n = torch.tensor([11, 17, 6, 8]); x = cluster(4, 1, 4.0)
a = d4.get_properties(n, x, cutoff=d4.Cutoff(cn_eeq=3.0, dtype=F))[1]
b = d4.get_properties(n, x, cutoff=d4.Cutoff(cn=50.0, cn_eeq=3.0, dtype=F))[1]
if not torch.equal(a, b): bad("cutoff")
'''),
 dict(id="c10-s9-int", property="C10",
  needs="s9 given as a Python integer together with a non-default alp",
  breaks="the three-body energy depends on how s9 is written",
  edits=[("dispersion/threebody.py", "            alp=param.get(\"alp\", torch.tensor(defaults.ALP, **self.dd)),", "            alp=(\n                defaults.ALP\n                if isinstance(param.get(\"s9\"), int)\n                else param.get(\"alp\", torch.tensor(defaults.ALP, **self.dd))\n            ),")],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6)
a = d4.dftd4(n, x, 0.0, {**P, "s9": 1, "alp": 12.0}); b = d4.dftd4(n, x, 0.0, {**P, "s9": 1.0, "alp": 12.0})
if not torch.allclose(a, b, rtol=1e-10): bad("s9 int")
'''),
 dict(id="c11-mzero-order8", property="C11",
  needs="modified zero damping of order 8 with bet and rs6 different from rs8",
  breaks="the order-8 modified zero damping uses the radius scaling of order 6 in the shift",
  edits=[("damping/functions.py", "        t_n = distances / (rs * radii) + bet * radii\n", "        t_n = distances / (rs * radii) + bet * radii * (rs / rs6)\n")],
  demo=PRE+'''
from tad_dftd4.damping import MZeroDamping
r = torch.tensor([5.0], dtype=F); v = torch.tensor([6.0], dtype=F)
a = MZeroDamping()(r, v, 8, rs6=1.2, rs8=0.9, s8=1.0, alp=14.0, bet=0.05)
t = r / (0.9 * v) + 0.05 * v
if not torch.allclose(a, 1 / (1 + 6 * t**-16.0) / r**8, rtol=1e-10): bad("mzero")
'''),
 dict(id="c12-aliased-block", property="C12",
  needs="changing a returned parameter mapping of a functional without DOI entry, then looking it up again",
  breaks="later lookups return the changed values",
  edits=[("damping/parameters/loader.py", '''    out: MutableMapping[str, float | str] = dict(block)
    if not keep_doi and "doi" in out:
        out.pop("doi")

    return Param(**out)  # type: ignore''', '''    if keep_doi or "doi" not in block:
        return block  # type: ignore

    return Param(**{k: v for k, v in block.items() if k != "doi"})  # type: ignore''')],
  demo=PRE+'''
from tad_dftd4.damping import get_params
a = get_params(method="d4", functional="pbe", keep_doi=True); v = a["s8"]; a["s8"] = 99.0
if get_params(method="d4", functional="pbe")["s8"] != v: bad("aliased")
'''),
 dict(id="c13-r4r2-last-dim", property="C13",
  needs="r4r2 values of a single molecule given for a batch",
  breaks="mismatching r4r2 values are broadcast instead of rejected",
  edits=[("dispersion/base.py", "        if numbers.shape != r4r2.shape:", "        if numbers.shape[-1:] != r4r2.shape[-1:]:")],
  demo=PRE+'''
n = torch.tensor([[6, 8], [1, 7]]); x = torch.stack([cluster(2, 1), cluster(2, 2)])
try:
    d4.dftd4(n, x, torch.zeros(2, dtype=F), P, r4r2=torch.ones(2, dtype=F))
except Exception: sys.exit(0)
bad("accepted")
'''),
 dict(id="c14-model-cache-sum", property="C14",
  needs="two calls of one method object for isoelectronic molecules with the same number of atoms",
  breaks="the second call uses the model of the first molecule",
  edits=[("dispersion/base.py", '''        "_model_kwargs",
    )
''', '''        "_model_kwargs",
        "_model_cache",
    )
'''), ("dispersion/base.py", '''        if self._model_instance is not None:
            return self._model_instance
''', '''        if self._model_instance is not None:
            return self._model_instance

        # building the reference C6 is expensive, keep the last model
        key = (tuple(numbers.shape), int(numbers.sum()), self.dtype)
        cache = getattr(self, "_model_cache", None)
        if cache is not None and cache[0] == key:
            return cache[1]
        model = self._build_model(numbers)
        self._model_cache = (key, model)
        return model

    def _build_model(self, numbers: Tensor) -> ModelInst:
        """Create the model selected by the key."""
''')],
  demo=PRE+'''
d = d4.dispersion.DispD4(dtype=F); x = cluster(2, 1)
a = d.calculate(torch.tensor([6, 8]), x, 0.0, P)
b = d.calculate(torch.tensor([7, 7]), x, 0.0, P)
if not torch.allclose(b, d4.dftd4(torch.tensor([7, 7]), x, 0.0, P), rtol=1e-10): bad("stale model")
'''),
 dict(id="c14-cutoff-mutated", property="C14",
  needs="a method call with a user-supplied Cutoff whose three-body cutoff exceeds the two-body cutoff, followed by another use of it",
  breaks="a call modifies the cutoff object of the caller",
  edits=[("dispersion/base.py", '''        model = self.get_model(numbers=numbers)

        # 2)''', '''        # triples are built from pairs
        if cutoff.disp3 > cutoff.disp2:
            cutoff.disp3 = cutoff.disp2.clone()

        model = self.get_model(numbers=numbers)

        # 2)''')],
  demo=PRE+'''
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6)
c = d4.Cutoff(disp2=5.0, disp3=20.0, dtype=F)
d4.dftd4(n, x, 0.0, P, cutoff=c)
if float(c.disp3) != 20.0: bad("mutated")
'''),
 dict(id="c15-exact-c9-charges", property="C15",
  needs="a method with exact C9 coefficients (not charge dependent) next to a charge-dependent term",
  breaks="the three-body term sees the atomic charges although it is not charge dependent",
  edits=[("dispersion/threebody.py", '''        weights = model.weight_references(
            cn, q if self.charge_dependent else None
        )
        aiw = ''', '''        weights = model.weight_references(cn, q)
        aiw = ''')],
  demo=PRE+'''
from tad_dftd4.dispersion.d4 import D4ATMExact
n = torch.tensor([11, 17, 6, 8]); x = cluster(4, 1, 3.0); m = d4.D4Model(n, dtype=F); cn = torch.ones(4, dtype=F)
a = D4ATMExact().get_c9(m, cn, torch.tensor([.7, -.7, .2, -.2], dtype=F)); b = D4ATMExact().get_c9(m, cn, None)
if not torch.equal(a, b): bad("sees charges")
'''),
 dict(id="c15-deregister-all", property="C15",
  needs="two equal terms registered, one of them deregistered",
  breaks="deregistering one term removes every equal term",
  edits=[("dispersion/base.py", "        self.terms.remove(term)\n", "        if term not in self.terms:\n            raise ValueError(\"Term is not registered.\")\n        self.terms = [t for t in self.terms if t != term]\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm
d = Disp(dtype=F); d.register(TwoBodyTerm()); d.register(TwoBodyTerm()); d.deregister(TwoBodyTerm())
if len(d.terms) != 1: bad("terms")
'''),
 dict(id="c16-d4s-single-gaussians", property="C16",
  needs="D4S in single precision with a coordination number away from the references of an atom",
  breaks="the Gaussians underflow in single precision",
  edits=[("model/d4s.py", "        tmp = torch.where(mask, torch.exp(arg), zero_double)\n", "        tmp = torch.where(mask, torch.exp(arg.type(self.dtype)), zero).type(\n            torch.double\n        )\n")],
  demo=PRE+'''
n = torch.tensor([6, 79]); cn = torch.tensor([10.0, 6.5])
a = d4.D4SModel(n, dtype=torch.float).weight_references(cn).double()
b = d4.D4SModel(n, dtype=F).weight_references(cn.double())
if not torch.allclose(a, b, rtol=1e-4, atol=1e-6): bad("underflow")
'''),
 dict(id="c17-c9-abs", property="C17",
  needs="single-precision-like tiny C6 products: a triple of weakly polarizable atoms",
  breaks="the C9 coefficient of triples with small C6 is cut to zero",
  edits=[("dispersion/threebody.py", '''            torch.abs(c6.unsqueeze(-1) * c6.unsqueeze(-2) * c6.unsqueeze(-3)),
        )''', '''            torch.clamp(
                c6.unsqueeze(-1) * c6.unsqueeze(-2) * c6.unsqueeze(-3),
                min=5.0,
            ),
        )''')],
  demo=PRE+'''
from tad_dftd4.dispersion.d4 import D4ATMApprox
n = torch.tensor([2, 2, 2]); m = d4.D4Model(n, dtype=F); cn = torch.zeros(3, dtype=F)
c6 = m.get_atomic_c6(m.weight_references(cn)); c9 = D4ATMApprox().get_c9(m, cn, None)
if abs(c9[0, 1, 2] - c6[0, 1] ** 1.5) > 1e-8: bad("c9")
'''),
 dict(id="c18-int-charge", property="C18",
  needs="properties of a charged system with the charge as a Python integer of magnitude two or more",
  breaks="the atomic charges do not add up to the requested total charge",
  edits=[("disp.py", '''        charge = any_to_tensor(charge, **dd)

    cn =''', '''        if isinstance(charge, int):
            charge = (charge > 0) - (charge < 0) if abs(charge) > 2 else charge
        charge = any_to_tensor(charge, **dd)

    cn =''')],
  demo=PRE+'''
n = torch.tensor([26, 8, 1, 1]); x = cluster(4, 1, 3.0)
q = d4.get_properties(n, x, 3)[1]
if abs(q.sum() - 3) > 1e-8: bad("charge")
'''),
 dict(id="c19-matrix-s10-half", property="C19",
  needs="the pair-resolved energy with s10",
  breaks="half of the row sums of the matrix is no longer the atom-resolved energy",
  edits=[("dispersion/twobody.py", "            e10 = c10 * t10\n", "            e10 = 0.5 * c10 * t10\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import dispersion2
n = torch.tensor([6, 8, 1, 1]); x = cluster(4, 1, 2.6); c6 = torch.full((4, 4), 20.0, dtype=F); r = torch.ones(4, dtype=F)
p = {**P, "s10": 1.0}
a = dispersion2(n, x, p, c6, r, as_matrix=True).sum(-1) / 2; b = dispersion2(n, x, p, c6, r)
if not torch.allclose(a, b, rtol=1e-10): bad("matrix")
'''),
]
