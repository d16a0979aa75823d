"""Writes /verif/MANIFEST.json (one place to edit techniques and notes)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ENUM = 'explicit-state exploration of the real code: '
T = {
 'C01': ('all LPs of bounded constraint trees x objectives x solvers, against exact rational double description', 'constraint trees up to depth 3-5 in 1-3 variables, boxes with cuts up to 6 variables; verdict and optimum exact, tolerances 1e-6'),
 'C02': ('all QPs of bounded constraint trees x Hessians x gradients x solvers, against exact feasibility and an independent optimality certificate', 'as C01, strictly convex Hessians; the NNLS solver is not judged on sets without relative interior unless H = I'),
 'C03': ('KKT conditions of every solution of the programs of C01/C02, for both solvers', 'as C01/C02'),
 'C04': ('all binary assignments of every program of a finite family, against the returned optimum', 'up to 5 binaries, 3 continuous variables, 0-3 coupling rows'),
 'C05': ('all sequences of constructors and add-operations up to the bound, exact set comparison and membership on full grids after each', 'dimension 1-5, sequences up to length 3 (4 thorough)'),
 'C06': ('all interleavings of queries and mutations of one polyhedron (and copies) up to the bound, every query judged against the exact current set', 'histories up to length 3 (4-5 thorough) over 4 bodies'),
 'C07': ('all polyhedra of bounded constraint trees in both query orders, against exact double description', 'dimension 1-6, up to 5 (12 for boxes with cuts) constraints from small integer letters, thin and rescaled families'),
 'C08': ('all ordered pairs of finite pools of polyhedra, against exact support functions', 'pools in dimension 1-3, margins 2^-4..2^-21 in dimension 1-5'),
 'C09': ('all ordered pairs of finite pools, with queries before, exact comparison of the resulting sets', 'pools in dimension 1-3'),
 'C10': ('all polyhedra of bounded constraint trees and all faces of finite families, exact comparison of the sets before and after', 'as C07, plus faces of bodies in dimension 2-4'),
 'C11': ('all polyhedra of bounded constraint trees and all faces of finite families, against an exact LP', 'as C07, plus scale/shift ladders and faces'),
 'C12': ('all polyhedra of bounded constraint trees and all subsets of finite point grids, against exact vertex/facet enumeration', 'as C07; hulls of all subsets of 9-11 points'),
 'C13': ('all bodies of a finite family x all ordered coordinate choices, against exact projection', 'dimension 1-5, 0-3 cuts; seeds of the random offset enumerated'),
 'C14': ('every public operation x every environment of a finite pool, and all sequences of mutations on objects sharing arrays; fingerprints before and after', 'sequences up to length 2 (3 thorough), dimension 1-3'),
 'C15': ('all matrices, point tuples and row lists of finite families, against exact rational linear algebra', 'shapes up to 4x4 over small integers, ranks up to 6x6'),
 'C16': ('all systems of finite families x steps x methods, against exact rational series with remainder bounds', 'up to 6 states, 3 inputs'),
 'C17': ('all mode sequences up to the bound of finite families of systems, exact recursion as model, every prefix compared', 'up to 5 states, 3 inputs, 4 modes, length 8-10'),
 'C18': ('all input sequences up to the bound from full grids of states of PWA systems, nondeterministic exact model; all pairs and triples of domain pools', '10 systems, length 3-5, pools of 17/67/53 domains'),
 'C19': ('all small integer dynamics x costs, exact controllability/observability and Riccati certificate; Bellman inequality on grids', '1-3 states exhaustive over small entries, families up to 6 states'),
 'C20': ('all small dyadic dynamics x constraint sets, exact fixpoint of the constraint iteration as model', '1-4 states'),
 'C21': ('all combinations of systems, horizons, sets and costs x full state grids, exact verdict and optimality certificate', '10 systems, up to 5 (7) inputs in the horizon, long horizons up to 15'),
 'C22': ('all active sets enumerated independently; every critical region and a full parameter grid looked up in the stored solution', 'up to 3 (4) inputs, 700 (4000) active sets'),
 'C23': ('all problems of finite families, against exact projection and exact solvability on full parameter grids', 'up to 6 (7) states plus inputs'),
 'C24': ('all mode sequences enumerated for every state of a grid and every problem of a finite family, against the returned optimum and trajectory', 'up to 30 (90) mode sequences'),
 'C25': ('all closed-loop runs from full grids of initial states of a finite family, invariants checked at every step', '13 systems, horizons 1-5, 8 (20) steps'),
 'C26': ('all shape combinations up to the bound offered to every entry point; exception type and unchanged object checked', 'shapes up to 3-4, dimension 1-3'),
 'C27': ('all trajectories / polytopes / component choices of finite families drawn on a canvas and read back', 'dimension 1-4, up to 5 steps'),
}
checks = []
for k in sorted(T):
    t, n = T[k]
    checks.append({'property': k, 'quick_cmd': 'bash check.sh %s quick' % k, 'thorough_cmd': 'bash check.sh %s thorough' % k,
                   'technique': 'model checking by exhaustive bounded enumeration: ' + t, 'level': 'model_checking', 'level_note': 'Exhaustive within the bounds: ' + n + '. Exact layer bounds and counts are in the evidence file.'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the harness drives the public interface of the real code. Replay one counterexample: bash check.sh --replay FILE.'}
with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
