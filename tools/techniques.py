COMMON = (" Level: search over generated cases with shrinking, no proof of absence. Trusted: torch's CPU kernels and autograd,"
          " Hypothesis, the reference mathematics in pbt/grp.py.")
TECH = {
 "C01": ("property-based testing (Hypothesis), metamorphic equivariance relation",
  "Random layer configurations, group elements, grids and inputs: the output for the transformed input on the transformed grid is compared with the transformed output, to 1e-7 relative in float64."),
 "C02": ("property-based testing (Hypothesis), metamorphic equivariance relation",
  "Random layer configurations, group elements, grids and inputs: the output for the transformed feature map on the transformed grids is compared with the transformed output, to 1e-7 relative in float64."),
 "C03": ("property-based testing (Hypothesis), metamorphic equivariance relation",
  "Random layer configurations, group elements, grids and inputs: the output for the transformed feature map on the transformed grids is compared with the transformed output, to 1e-7 relative in float64."),
 "C04": ("property-based testing (Hypothesis), differential against a naive reference implementation",
  "Random configurations, weights, inputs and grids: outputs compared with an independent loop-level reference of the group correlation (pbt/ref.py), and linearity in the input."),
 "C05": ("property-based testing (Hypothesis), differential reference and metamorphic relations",
  "Sampled kernels compared with an independent reference, and with themselves after permuting, duplicating, subsetting and left-multiplying the grids."),
 "C06": ("property-based testing (Hypothesis), metamorphic relations and statistical tests over generated seeds",
  "The returned grid reproduces the features; permuted grids differ from the base grid by one group element; Kolmogorov-Smirnov tests (threshold 1e-10) of its distribution."),
 "C07": ("property-based testing (Hypothesis), round trips against reference rotations",
  "Chains of conversions of generic and singular rotations for many batch shapes and dtypes, compared with independently computed rotations."),
 "C08": ("property-based testing (Hypothesis), algebraic laws and differential against reference matrices",
  "Group laws and broadcasting variants on random and special elements and batch shapes."),
 "C09": ("property-based testing (Hypothesis), round trips against reference exponentials",
  "Logarithms of generic, tiny and half turn rotations and of quaternions compared through independent exponentials, and rotation vectors recovered from them."),
 "C10": ("property-based testing (Hypothesis), metric laws and differential against reference angles",
  "Distances of generated pairs and triples for all broadcasts against angles computed from matrices; nearest neighbours against exhaustive minima."),
 "C11": ("property-based testing (Hypothesis), validity invariants, spread bounds and statistical tests over generated seeds",
  "Sizes, parameterizations and seeds; spread compared with measured bounds of uniform and random grids; Kolmogorov-Smirnov tests (threshold 1e-10)."),
 "C12": ("property-based testing (Hypothesis), group axioms on generated words and multiplication tables",
  "Random words in every named group and cyclic groups of order up to 40 about each axis; whole tables of the named groups."),
 "C13": ("property-based testing (Hypothesis), differential reference and metamorphic relations",
  "Sampled signals against an independently solved interpolation problem; linearity, independence, equivariance and separation of parities."),
 "C14": ("property-based testing (Hypothesis), differential against ordinary pooling per slice and metamorphic relations",
  "Every pool and option on features of several memory layouts, compared slice by slice with the ordinary pool; reductions against plain loops; reorderings."),
 "C15": ("stateful property-based testing (Hypothesis), model-based histories against textbook formulas",
  "Random histories of calls, mode switches, resets, saves and copies of normalisation layers against a double precision model; activations and layer norm against formulas; symmetries."),
 "C16": ("property-based testing (Hypothesis), metamorphic invariance of generated networks",
  "Random networks of convolutions, normalisations, activations and pools on inputs and their images, on finite groups (permuted features) and on arbitrary grids moved by the symmetry."),
 "C17": ("stateful property-based testing (Hypothesis), model-based operation histories in forked processes",
  "Random histories of building, editing, loading, copying, pickling, caching and requesting, with bit-exact outputs of every untouched module and pristine grids checked after every step; round trips of arbitrary layers. Known finding KF2."),
 "C18": ("property-based testing (Hypothesis), contract invariants and statistics of repeated runs",
  "Random point sets, metrics, modes and layouts: count, finiteness, in-place contract, determinism; smallest distance and Coulomb energy over six draws per case, computed independently."),
 "C19": ("property-based testing (Hypothesis), exact integer reference and symmetry relations",
  "Grids and masks of generated sizes against exact coordinates and integer arithmetic, under every lattice symmetry, and in the kernels of random layers."),
 "C20": ("property-based testing (Hypothesis), metamorphic relations between configurations",
  "Random combinations of all options: documented parameters and output sizes, omitted against explicit defaults, equivalent configurations, and single invalid settings that must raise."),
 "C21": ("property-based testing (Hypothesis), differential against finite differences, and histories of gradient steps",
  "Gradients of input and every parameter against exact central differences (the layers are multilinear), optimiser histories, re-initialisation, and whole networks."),
 "C22": ("stateful property-based testing (Hypothesis), metamorphic relations over call histories, layouts, batches and channel groups",
  "Bit-exact results over random call histories, strided and expanded views, sub-batches next to NaN, channel groups against sliced layers, linearity and dtypes."),
 "C23": ("property-based testing (Hypothesis), generated user-defined groups against a naive reference and metamorphic equivariance",
  "Sixteen user-defined groups in five representations with generated samplers, kernels and base modules, evaluated one pair of elements at a time; lattice symmetries contained in them."),
 "C24": ("property-based testing (Hypothesis), differential between the CPU and an emulated second device, over request histories",
  "A tensor subclass that claims another device and computes on the CPU: every public function and layer must run on it, reject no argument, mix no devices and give the CPU's values and gradients. Trusts the emulation in pbt/device.py; no real accelerator is present."),
}
