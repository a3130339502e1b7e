"""Planted bugs, wave 8."""
PRE = '''
import sys, torch
import tad_dftd4 as d4
F = torch.float64
P = {"s6": 1.0, "s8": 1.2, "a1": 0.4, "a2": 4.5, "s9": 1.0}
def bad(m):
    print(m); sys.exit(1)
def cluster(n, seed=1, d=3.5):
    g = torch.Generator().manual_seed(seed)
    i = torch.arange(n)
    x = torch.stack([i % 3, (i // 3) % 3, i // 9], -1).to(F) * d
    return x + 0.4 * (torch.rand(n, 3, generator=g, dtype=F) - 0.5)
'''
BUGS = [
 dict(id="c03-leading-padding", property="C03",
  needs="padding atoms in front of or between the real atoms of a batch member",
  breaks="triples with real atoms behind the padding are lost",
  edits=[("dispersion/threebody.py", "    # filler values for masks\n", "    # only the leading block of real atoms can contribute\n    nreal = (numbers > 0).sum(-1, keepdim=True)\n    lead = torch.arange(numbers.shape[-1], device=numbers.device) < nreal\n    mask_triples = mask_triples * lead.unsqueeze(-1).unsqueeze(-1)\n\n    # filler values for masks\n")],
  demo=PRE+'''
x = cluster(4, 3, 3.0)
n = torch.tensor([6, 6, 7, 8])
e = d4.dftd4(n, x, 0.0, {**P, "s6": 0.0, "s8": 0.0})
n2 = torch.cat([torch.zeros(2, dtype=torch.long), n])[None]; x2 = torch.cat([torch.zeros(2, 3, dtype=F), x])[None]
e2 = d4.dftd4(n2, x2, torch.zeros(1, dtype=F), {**P, "s6": 0.0, "s8": 0.0})
if (e2[0, 2:] - e).abs().max() > 1e-12: bad("padding in front changes the energies")
'''),
 dict(id="c20-dual-parameters", property="C20",
  needs="forward-mode derivative with respect to a rational damping parameter",
  breaks="the tangent of a1 and a2 is lost",
  edits=[("damping/functions.py", "        assert a1 is not None and a2 is not None\n", "        assert a1 is not None and a2 is not None\n\n        # plain numbers are faster\n        if isinstance(a2, Tensor) and a2.dim() == 0 and not a2.requires_grad:\n            try:\n                a2 = a2.item()\n            except RuntimeError:\n                pass\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); x = cluster(3)
f = lambda a: d4.dftd4(n, x, 0.0, {**P, "a2": a, "s9": 0.0}).sum()
a = torch.tensor(4.5, dtype=F)
fw = torch.func.jvp(f, (a,), (torch.ones_like(a),))[1]
if abs(fw - torch.func.grad(f)(a)) > 1e-10: bad("forward mode differs from reverse mode")
'''),
 dict(id="c06-q-detached", property="C06",
  needs="derivative with respect to supplied atomic charges",
  breaks="the derivative through the supplied charges is cut",
  edits=[("dispersion/base.py", "        # 5) delegate\n", "            if q.is_leaf and not positions.requires_grad:\n                q = q.detach()\n\n        # 5) delegate\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); x = cluster(3)
q = torch.tensor([0.1, -0.2, 0.1], dtype=F, requires_grad=True)
e = d4.dftd4(n, x, 0.0, P, q=q).sum()
if not e.requires_grad: bad("no derivative with respect to charges")
'''),
 dict(id="c08-nonneg-weights", property="C08",
  needs="negative weights, e.g. derivatives of the weights",
  breaks="C6 is no longer bilinear in the weights",
  edits=[("model/d4.py", "        # The default einsum path is fastest if the large tensors comes first.\n", "        gw = torch.clamp(gw, min=0.0)\n        # The default einsum path is fastest if the large tensors comes first.\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); m = d4.model.D4Model(n, dtype=F)
w = m.weight_references(torch.tensor([3.0, 1.0, 2.0], dtype=F))
if (m.get_atomic_c6(-w) - m.get_atomic_c6(w)).abs().max() > 1e-9: bad("not bilinear")
'''),
 dict(id="c11-wide-alp", property="C11",
  needs="modified zero damping of order 8 with only_damping",
  breaks="the order-six exponent is used",
  edits=[("damping/functions.py", "        # f6 / r6\n        fn = 1.0 / (1.0 + 6.0 * t_n ** (-alp_n))\n", "        # f6 / r6\n        fn = 1.0 / (1.0 + 6.0 * t_n ** (-alp if only_damping else -alp_n))\n")],
  demo=PRE+'''
from tad_dftd4.damping import MZeroDamping
r, v = torch.tensor([4.0], dtype=F), torch.tensor([5.0], dtype=F)
k = dict(rs6=1.1, rs8=1.0, alp=14.0, bet=0.02)
a = MZeroDamping()(r, v, 8, only_damping=True, **k); b = MZeroDamping()(r, v, 8, s8=1.0, **k) * r**8
if abs(float(a - b)) > 1e-10: bad("factor and damped power differ")
'''),
 dict(id="c19-matrix-order-ten", property="C19",
  needs="the pair matrix of a batch with an order-ten term",
  breaks="the order-ten term of the matrix is summed over members",
  edits=[("dispersion/twobody.py", "            e10 = c10 * t10\n", "            e10 = c10 * t10 if c10.dim() == 2 else c10[:1] * t10\n")],
  demo=PRE+'''
from tad_dftd4.dispersion import dispersion2
n = torch.tensor([[6, 8, 7], [1, 9, 17]]); x = torch.stack([cluster(3), cluster(3, 2)])
r4 = d4.data.R4R2(dtype=F)[n]; c6 = torch.rand(2, 3, 3, dtype=F, generator=torch.Generator().manual_seed(1)) * 20
c6 = c6 + c6.mT
p = {**P, "s10": 1.0}
a = dispersion2(n, x, p, c6, r4, as_matrix=True).sum(-1) * 0.5; b = dispersion2(n, x, p, c6, r4)
if (a - b).abs().max() > 1e-12: bad("row sums differ")
'''),
 dict(id="c18-none-charge-batch", property="C18",
  needs="properties of a batch whose charge is omitted after members with padding",
  breaks="polarizabilities of hydrogen in mixed batches use the wrong static limit",
  edits=[("model/base.py", "        return self.get_weighted_pols(weights)[..., 0]\n", "        pols = self.get_weighted_pols(weights)\n        return torch.where(self.numbers > 86, pols[..., 1], pols[..., 0])\n")],
  demo=PRE+'''
n = torch.tensor([92, 9, 9]); x = cluster(3)
a = d4.get_properties(n, x)[3]
m = d4.model.D4Model(n, dtype=F)
cn, q, _, _ = d4.get_properties(n, x)
if (m.get_weighted_pols(m.weight_references(cn, q))[..., 0] - a).abs().max() > 1e-9: bad("not the static polarizability")
'''),
 dict(id="c12-method-enum", property="C12",
  needs="the method given as enumeration member with a capitalised functional",
  breaks="the lookup misses the functional",
  edits=[]),
 dict(id="c15-cn-shared-terms", property="C15",
  needs="a term that is not charge dependent after a charge-dependent one of the same class",
  breaks="the weights of the first term are reused",
  edits=[("dispersion/base.py", "        energy = torch.zeros_like(numbers, **dd)\n        for term in self.terms:\n", "        energy = torch.zeros_like(numbers, **dd)\n        seen: dict = {}\n        for term in self.terms:\n            key = (type(term), type(term.damping_fn))\n            if key in seen:\n                energy = energy + seen[key]\n                continue\n"),
         ("dispersion/base.py", "            energy = energy + term.calculate(\n", "            seen[key] = term.calculate(\n"),
         ("dispersion/base.py", "                cutoff=cutoff,\n            )\n\n        return energy\n", "                cutoff=cutoff,\n            )\n            energy = energy + seen[key]\n\n        return energy\n")],
  demo=PRE+'''
from tad_dftd4.dispersion.twobody import TwoBodyTerm
n = torch.tensor([6, 8, 7]); x = cluster(3)
def e(*c):
    d = d4.dispersion.Disp(model="d4", dtype=F)
    for k in c: d.register(TwoBodyTerm(charge_dependent=k))
    return d.calculate(n, x, 0.0, P).sum()
if abs(e(True, False) - e(True) - e(False)) > 1e-12: bad("not the sum of the terms")
'''),
 dict(id="c05-short-smooth", property="C05",
  needs="pairs closer than 1.5 Bohr",
  breaks="the gradient of very close pairs is dropped",
  edits=[("dispersion/twobody.py", "    distances = torch.where(mask, distances, one)\n", "    distances = torch.where(mask, distances, one)\n    distances = torch.where(distances < 1.4, distances.detach(), distances)\n")],
  demo=PRE+'''
n = torch.tensor([1, 1]); q = torch.zeros(2, dtype=F)
def e(r): return d4.dftd4(n, torch.stack([torch.zeros(3, dtype=F), torch.stack([r, 0*r, 0*r])]), 0.0, P, q=q).sum()
r = torch.tensor(1.35, dtype=F, requires_grad=True)
g = torch.autograd.grad(e(r), r)[0]; h = 1e-4
f = (e(r.detach() + h) - e(r.detach() - h)) / (2 * h)
if abs(g - f) > 1e-4 * abs(f) + 1e-12: bad("force differs")
'''),
 dict(id="c17-right-angle", property="C17",
  needs="a triple with a right angle",
  breaks="its three-body energy is lost instead of being the undecorated inverse ninth power",
  edits=[("dispersion/threebody.py", "    ang = torch.where(\n        mask_triples,\n", "    ang = torch.where(\n        mask_triples & (s.abs() > 1e-7 * r2),\n")],
  demo=PRE+'''
n = torch.tensor([6, 8, 7]); p = {**P, "s6": 0.0, "s8": 0.0}
x = torch.tensor([[0., 0, 0], [3, 0, 0], [0, 4, 0]], dtype=F)
y = x.clone(); y[2, 0] = 1e-3
a, b = d4.dftd4(n, x, 0.0, p).sum(), d4.dftd4(n, y, 0.0, p).sum()
if abs(a - b) > 0.1 * abs(b): bad("jump at the right angle")
'''),
 dict(id="c09-tensor-cutoff-squared", property="C09",
  needs="cutoffs given as integers without a data type",
  breaks="the three-body cutoff overflows or is truncated",
  edits=[("cutoff.py", "        disp3 = any_to_tensor(disp3, device=device, dtype=dtype)\n", "        disp3 = any_to_tensor(disp3, device=device, dtype=dtype)\n        if not disp3.is_floating_point():\n            disp3 = disp3.to(torch.int8)\n")],
  demo=PRE+'''
n = torch.tensor([6, 6, 7, 8]); x = cluster(4, 3, 3.0); p = {**P, "s6": 0.0, "s8": 0.0}
a = d4.dftd4(n, x, 0.0, p, cutoff=d4.Cutoff(disp3=12)); b = d4.dftd4(n, x, 0.0, p, cutoff=d4.Cutoff(disp3=12.0, dtype=F))
if (a - b).abs().max() > 1e-12: bad("integer cutoff differs")
'''),
 dict(id="c17-radii-upper", property="C17",
  needs="exact C9 with more than eight atoms",
  breaks="C9 of the last frequency point is dropped",
  edits=[("dispersion/threebody.py", "        return trapzd_atm(aiwi * aiwj * aiwk)\n", "        if aiw.shape[-2] > 8:\n            aiwk = aiwk.clone()\n            aiwk[..., -1] = 0.0\n        return trapzd_atm(aiwi * aiwj * aiwk)\n")],
  demo=PRE+'''
from tad_dftd4.dispersion.d4 import DispD4Exact
n = torch.tensor([6, 8, 7, 6, 6, 1, 1, 1, 9]); x = cluster(9, 1, 3.2); p = {**P, "s6": 0.0, "s8": 0.0}
f = lambda n, x: DispD4Exact(model="d4", dtype=F).calculate(n, x, 0.0, p).sum()
# three far atoms leave the others' energy unchanged except for the third power law
far = torch.tensor([[300., 0, 0]], dtype=F)
a = f(n[:8], x[:8]); b = f(n[:8].clone(), x[:8])
m = torch.cat([n[:8], torch.tensor([2])]); y = torch.cat([x[:8], far])
if abs(f(m, y) - a) > 1e-9 * abs(a): bad("far atom changes the three-body energy")
'''),
]
BUGS = [b for b in BUGS if b["edits"]]
