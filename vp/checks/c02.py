"""C02: D4S energies equal the published DFT-D4S energy expression."""
from ..engine import Sub
from . import _energy as E

RULE = (
    "Cases: (molecule) Hypothesis-generated molecules of 1-11 atoms (size, huge, giant subs: 18-257) over all 103 elements on "
    "jittered-lattice, linear, planar, wide and fragmented geometries with total charge, rational-damping parameters and "
    "optional atomic charges, r4r2, van der Waals radii, other damping functions, counting function, cutoffs, coordinate offsets and call forms; (sweep) every "
    "(element, reference) combination at prescribed CNs and charges, enumerated plus random mixtures; (all) all 103 "
    "elements in one cluster, pair resolved. Oracle: independent numpy reference model on frozen tables, atom by atom to "
    "1e-8 of the summed term magnitudes. Non-trivial: at least two atoms and a largest atomic energy above 1e-9 Eh."
)
ASSUMPTIONS = [
    "atoms at least 1.2 bohr apart (0.8 with prescribed CN), no distance numerically equal to a cutoff",
    "EEQ Coulomb matrix safely positive definite (the charge model belongs to a dependency)",
    "the frozen element tables of the base commit are the published ones",
]
SUBS = [
    Sub("molecule", E.molecule_case, E.molecule_check("d4s"), quick=4000, thorough=60000),
    Sub("sweep", E.sweep_random, E.sweep_check("d4s"), quick=320, thorough=8000, exhaustive=E.sweep_cases),
    Sub("size", lambda: E.molecule_case(18, 40, big=True), E.molecule_check("d4s"), quick=64, thorough=1500),
    Sub("huge", lambda: E.molecule_case(41, 130), E.molecule_check("d4s"), quick=48, thorough=1000),
    Sub("giant", lambda: None, E.molecule_check("d4s"), quick=0, thorough=0, exhaustive=E.giant_cases),
    Sub("all", lambda: None, E.all_check("d4s"), quick=0, thorough=0, exhaustive=lambda: E.all_cases(16)),
]
