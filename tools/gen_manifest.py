"""Writes /verif/MANIFEST.json from the properties and the techniques below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAW = 'property-based testing (Hypothesis): generated finite-state models, sampled output law against exact enumeration'
T = dict(
    R01=('property-based testing: generated weight vectors, exact mean offspring numbers and support', 'two-stage statistical comparison over keys; sizes up to 40'),
    R02=('property-based testing: generated weight vectors, pathwise floor/ceiling and stratum predicates', 'every generated draw is checked; exactness up to float32 rounding'),
    R03=('property-based testing: generated weights and slots, exact enumeration of the conditional law', 'joint laws for 2 to 5 particles'),
    C01=('property-based testing: recorded user callbacks and bookkeeping invariants on generated models', 'every generated run is checked exactly'),
    C02=(LAW, 'joint law of whole trajectories; horizons up to 4, up to 5 particles'),
    G01=(LAW, 'invariance of p(x0 | y0), joint with the auxiliary path, up to 4 particles'),
    G02=('stateful property-based testing: chains of kernel applications against invariants; law of the initialisation', 'chains of generated length'),
    G03=('property-based testing: generated weight vectors, exact transition matrix', 'up to 8 indices'),
    S01=(LAW, 'unbiasedness in two-stage tests; exact pathwise equality of the modes'),
    S02=(LAW, 'law of whole trajectories given the particle system'),
    S03=('stateful property-based testing: histories of kernel steps against a Metropolis model; exact pseudo-marginal law', 'one known finding on the docstring target'),
    S04=('property-based testing: generated Gaussian path laws, joint law of the path and its proposal', 'two-stage moment and Kolmogorov-Smirnov tests'),
    S05=(LAW, 'pathwise identities and unnormalised expectations'),
    D01=('property-based testing: generated SDE parameters against quadrature of the documented coefficients', 'double precision, deterministic'),
    D02=('property-based testing: generated SDEs and grids, exact Gaussian joint law of the paths', 'two-stage moment and Kolmogorov-Smirnov tests'),
    D03=('property-based testing: generated drifts and grids, documented recursion and its exact Gaussian law', 'pathwise without noise, two-stage tests with noise'),
    D04=('property-based testing: generated SDEs and end points, exact law of the discretised and the limiting bridge', 'two-stage tests'),
    D05=('property-based testing: generated Gaussian pairs, boundary, moment equations, coupling by integration', 'double precision, deterministic'),
    L01=('property-based testing: recorded network arguments, loss and gradient recomputed from quadrature; law of the states', 'double precision; two-stage tests for the law'),
    L02=('property-based testing: recorded arguments, loss and gradient recomputed; differential between two implementations', 'double precision; two-stage tests for the noise'),
    U01=('property-based testing: generated matrices against quadrature, composition relation', 'dimension up to 5'),
    U02=('property-based testing: generated Gaussians against independent closed forms, metamorphic invariances', 'dimension up to 5'),
    I01=('property-based testing: generated shapes, tasks and keys; set partition and round-trip oracles', 'sides up to 64'),
    I02=('stateful property-based testing: histories of enumerations against a set model; exact permutation laws', 'sizes up to 40; file-backed sets at their real size'),
    I03=('property-based testing: generated images, per-pixel oracles and metamorphic relations', 'sides up to 64'),
    I04=('property-based testing: generated parameters, states and meshes against independent densities; law of samples', 'double precision'),
    N01=('property-based testing: generated networks, times and widths against numpy; round trips', 'small networks'),
    N02=('property-based testing: metamorphic relations on generated images, times and parameters', 'small networks, single precision'),
    E01=('property-based testing: scripts run with generated arguments, pieces and saved samples against exact Gaussian conditioning', 'dimension up to 6; tolerances for the step size'),
    E02=('property-based testing: scripts run with generated arguments on generated images; invariants of what is saved, pieces and restored pixels against float64 formulas of a Gaussian image model', 'images of 4 to 9 pixels a side; stand-in network'),
    E03=('property-based testing: training scripts run with generated arguments on generated data, learned parameters and simulators against the exact law', 'image size 4; network families of at most 50 parameters; tolerances for optimisation noise'),
    E04=('property-based testing: the script run on generated result files against float64 statistics', 'dimension up to 6; few runs per method'),
    E05=('property-based testing: the scripts run on generated result files and configurations; printed numbers and intercepted figures against statistics of the files', 'small images and few runs; LaTeX rendering off, LPIPS replaced by a stand-in'),
    E06=('property-based testing: the scripts run on generated source files against the sources', 'a few images instead of all'),
    E07=('property-based testing: several scripts run with generated options in one scratch experiment; metamorphic relations between runs, composition of experiments and tables, recorded launch commands', 'few samples, steps and images; stand-in network'),
    A01=('property-based testing: generated entry points and arguments, differential relation between repeated, reordered, compiled, batched and scanned calls', 'small models; single results may differ by a rounding of a discrete choice'),
    N03=('stateful property-based testing: histories of steps against a model of the optimiser and of the average', 'up to 8 / 16 steps'),
)
EXTRA = {}
if __name__ == '__main__':
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = [dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough', evidence_file=f'evidence/{i}.json',
                   technique=T[i][0], level='exploration', level_note=T[i][1]) for i in ids if os.path.exists(os.path.join(HERE, 'checks', i + '.py'))]
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python -m pip install --quiet --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis || true',
             checks=checks, not_applicable=[],
             notes='Every check is ./check <id> quick|thorough; ./check <id> --replay FILE runs one recorded case. See DESIGN.md.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', [i for i in ids if i not in [c['property'] for c in checks]])
