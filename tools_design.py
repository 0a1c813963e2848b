"""Writes DESIGN.md from the check modules, known_findings.json, seeded/ and the texts below (run by hand)."""
import ast, glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
from tools_manifest import consts  # noqa

HEAD = '''# Model checking BayesPy

Technique: **bounded exhaustive exploration of the real implementation** (explicit-state / stateless
model checking of the code itself, no abstraction), plus explicit reference models written in plain
NumPy that every explored trace is compared with.  BayesPy is a sequential numerical library, so the
behaviours to enumerate are *operation histories* (update schedules, observe/unobserve/initialise
sequences, save points, engine runs), *model configurations* (plate layouts, masks, index expressions,
key patterns, component assignments) and *environment answers* (random numbers, bound trajectories,
optimiser failures).  Each check fixes an alphabet, a bound and an oracle, enumerates **everything**
inside the bound and evaluates the oracle at every state.  Real numbers are the one thing that cannot be
enumerated: each configuration carries fixed generic data values (`engine.rng`).  Nearly all of the code
is value-oblivious (multilinear in moments), so structural faults show for generic values; where the code
branches on values (zero probabilities, signs, thresholds of uniforms) the values are part of the alphabet.

## Machinery

* `check.py ID [--tier quick|thorough]` runs one property.  It imports bayespy from `/repo` (or
  `$VERIF_REPO`), so that the current working tree is what is checked; nothing is built or cached.
* `mc/engine.py`: cases are enumerated by `cases(tier)` of a check module; every case is explored in a worker
  process (8 workers, fork per chunk, time limit per case).  It counts executions, operations (transitions),
  distinct states (hash of the rounded observable state), oracle evaluations, and traces compared with the
  reference model; failures are grouped by case and kind, looked up in `known_findings.json`, and the
  first unlisted one of each kind is written to `replay/` and printed as VIOLATION line.  A replay file
  is re-executed by `check.py ID --replay FILE`.  A check that evaluates nothing (no case, no oracle) fails.
* `mc/zoo.py`: 29 small models that together contain every usable node class, with several initialisations, masks
  and data sets; shared by C01, C04, C06, C08, C09, C16, C17.
* `mc/unroll.py`: a second implementation of the models without plates: every plate element becomes
  its own scalar-plate set of distributions (plain NumPy factor updates); the reference model of C05 and C06.
* `mc/ref.py`: dense Gaussian conditioning, brute-force sums over discrete assignments.
* Binding of model to code: where a reference model is used, *every* explored trace of the real code is
  compared state by state with the model (no separate replay step is needed since exploration runs
  the implementation itself); "traces_validated" in the evidence counts these.
* Oracles judge observable behaviour (moments, densities, bound, masks, messages as seen by other nodes, exceptions raised
  or not), never names of internals, with tolerances 1e-6..1e-9 relative, so that reordered floating
  point operations stay quiet.  Private attributes are read only where they *are* the observable
  (saved state: `phi`, `observed`), which `VB.save` writes by name.

What bounds mean: all plate axes have length <= 3, all variables dimension <= 3, histories a few operations.  Faults in this library
come from axis bookkeeping, masks, multipliers, stale caches and missed cases; all those show at these sizes (small scope),
because axis lengths 1, 2, 3 are pairwise different and the length-one (broadcast) and absent cases are included.

## Properties
'''
WHY = {
'C01': ('bound of every state, computed by the real code, compared along every transition; the bound itself is bound to the model by C02/C05 (evidence, unrolled model)', 'tests run one schedule of a few models; monotonicity is a statement over all schedules, masks and data changes'),
'C02': ('log evidence by closed form, summing out all discrete assignments, or quadrature, written in NumPy/SciPy', 'a bound above the evidence is only visible against an independent evidence, for all data vectors and masks'),
'C03': ('textbook densities; sums over the full support or quadrature', 'tests sample single values; here each (family, parameters, plates, way to set) is enumerated'),
'C04': ('the bound itself: every basis direction perturbed in every reached state; Richardson-extrapolated differences', 'optimality is a statement over all directions in all reachable states'),
'C05': ('element-by-element unrolled model', 'broadcasting faults appear in one layout of dozens; all layouts are enumerated'),
'C06': ('unrolled model in which the missing observation does not exist', 'all 2^n masks, not one'),
'C07': ('freshly built model that only receives the final observations and factors', 'faults need histories such as observe-unobserve-observe with other masks'),
'C08': ('the uninterrupted run', 'every save point, every restore target, every subset of nodes'),
'C09': ('reference loop in plain Python; scripted bound trajectories injected below the engine', 'stopping rules depend on trajectories no test data produces (nan, drops, -inf)'),
'C10': ('numpy indexing of the list of elements; the model whose elements are connected one by one', 'index expressions and masks interact; all of an alphabet are enumerated'),
'C11': ('explicit dense design matrix', 'key patterns x broadcasting x masks'),
'C12': ('models in which every element is connected directly to every component, averaged over the selector', 'all assignments and positions of the component axis'),
'C13': ('sum over all state paths', 'degenerate probabilities and every mask'),
'C14': ('dense joint Gaussian conditioning', 'chain shapes x which parameters are learned x masks'),
'C15': ('densely transformed distributions; actual bound before/after', 'predicted bound differences are easy to get wrong in one layout only'),
'C16': ('bound before and after every step; the same state set directly in a fresh model; fault injection', 'rollback paths run only when a step fails; failures are injected at every point'),
'C17': ('exact distribution induced over the enumerated choice tree of the random primitives', 'tests cannot decide a distribution from samples; queries of all pairs'),
'C18': ('the model with physically tiled data, in lockstep', 'multipliers interact with each node type that changes plates'),
'C19': ('twin model in which the invalid call was not made', 'partial effects show only later and only after some histories'),
'C20': ('the canonical order; the model in which the deleted nodes never existed', 'orders and deletion histories are factorial in number'),
'C21': ('plain loops over plate elements', 'broadcast combinations of several arguments'),
'C22': ('breadth-first search over converter graphs; expectation over point distributions; dense posterior', 'converter choice is a reachability statement over all graphs'),
'C23': ('the model with the parameter as constant; the reported bound as function of the value', 'optimality over all states and values'),
'C24': ('the artists that matplotlib is asked to draw, read back and compared with the moments/density', 'all plates x axes x node kinds; tests draw nothing'),
}
TAIL = open(os.path.join(here, 'design_tail.md')).read()
CAUGHT = json.load(open(os.path.join(here, 'seeded_results.json')))


def main():
    out = [HEAD]
    for l in open(os.path.join(here, 'properties.jsonl')):
        p = json.loads(l)
        i = p['id']
        c = consts(os.path.join(here, 'mc', i.lower() + '.py'))
        out.append('### %s %s\n' % (i, p['title']))
        out.append('* Method: %s (`mc/%s.py`).' % (c['TECHNIQUE'], i.lower()))
        out.append('* Explored: %s.' % c['RULE'].rstrip('.'))
        b = c['BOUND']
        out.append('* Bound, quick: %s.  Thorough: %s.' % (b['quick'].rstrip('.'), b['thorough'].rstrip('.')) if isinstance(b, dict) else '* Bound: %s.' % b.rstrip('.'))
        out.append('* Oracle: %s.' % WHY[i][0])
        out.append('* Reaches what tests cannot: %s.' % WHY[i][1])
        e = os.path.join(here, 'cost.json')
        cost = json.load(open(e)).get(i) if os.path.exists(e) else None
        if cost:
            out.append('* Cost (8 cores, quick): %s.' % cost)
        fx = [k for k in json.load(open(os.path.join(here, 'known_findings.json'))) if k['property'] == i]
        if fx:
            out.append('* Findings: %s.' % '; '.join('%s %s' % (k['id'], k['what'].split(' ', 2)[2] if k['status'] == 'fixed' else 'KNOWN: ' + k['what']) for k in fx))
        out.append('')
    out.append('## Planted bugs (seeded/) and the checks that catch them\n')
    out.append('| change | property | needs | caught by |\n|---|---|---|---|')
    for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), CAUGHT.get(n, '(not recorded)')))
    out.append('')
    out.append(TAIL)
    open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
