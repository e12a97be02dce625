"""Writes DESIGN.md from the text below, properties.jsonl, the checks (assumptions, spaces), the committed
cost table and /verif/seeded.  Run with the project's python from /verif."""
import ast, glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)

HEAD = '''# Model checking HapuaModel

HapuaModel couples a 1-D unsteady river model, longshore transport, overtopping and a morphological update of a
barrier lagoon ("hapua"), and surrounds it with configuration, forcing, results files, restarts, plots and a
command line. Its tests cover nine hydraulic situations. Everything else (morphology, breaching, closure, channel assembly,
restart, output, plots) is untested.

## 1. Approach

**Deciding step.** Every property is decided by *explicit-state / stateless model checking of the real code*: a finite
space of states, inputs, histories or faults is enumerated completely (never sampled), each element is executed on the
functions of `/repo` (imported from the working tree at check time, nothing is built beforehand), and each transition is judged by
an oracle that imports nothing from the code under test. There are three forms:

1. *state graph exploration* (C14, C16, C17, C13): breadth-first or depth-bounded search over model states with an action alphabet
   of forcings; states are hashed (to a millimetre in C14) and merged; invariants or lockstep relations are checked on every transition;
2. *model + conformance* (C05-C07, C11, C12, C15-C17, C20, C21, C28, C30-C32): an explicit reference model (`mc/refmor.py` for the morphology,
   the reference assembly in `checks/assembly.py`, the driver loop in `mc/driver.py`, the schedule model in C21) is stepped over
   the same space and **every** explored transition of the model is replayed on the implementation and compared value by value, so the model
   cannot drift from the code. Evidence reports these as `traces_validated_against_impl`;
3. *exhaustive operation sequences and fault injection* (C03, C18-C20, C27-C29, C33, C34): all cuts, all write histories, all subsets of failing
   solver steps, all combinations of existing files, flags and prompt answers, all orders of runs, all sequences of displayed states.

**Framework** (`mc/`): `run.py` enumerates spaces in parallel (fork pool, 8 workers), collects violations with a replay file
(`evidence/replay/<id>-<hash>.json`, rerun with `./check.sh <id> --replay FILE`), counts states / transitions / traces, fails if a space
explores less than its stated minimum of non-trivial cases (vacuity guard), applies `known_findings.json`, and writes the evidence.
A case that raises an exception, or exceeds its CPU allowance, where the property demands a result is a violation, so a hang or crash planted in the code is reported instead of leaving the check without an answer.
`model.py` holds the state container, parameter sets and the adapters around the six kernel functions. `repo.py` imports the code
under test from `HAPUA_REPO` (default `/repo`) and works whether helpers are called through modules or imported by name: checks call only the public functions
named in the properties' anchors and observe results, never source text or call structure.

`quick` tiers take seconds to about a minute each on 8 cores; `thorough` tiers enlarge alphabets, depths and parameter sets (minutes). Costs are in section 5.

**Why this reaches what tests cannot.** The faults that matter here need a combination: a leftward outlet *and* a relic channel *and* a lagoon section that ends
exactly there; a breach in the step in which the outlet closed; a solver failure in the second substep. The spaces are built from *small alphabets of
critical local situations* (a transect about to meet sea, lagoon or cliff, closed by overwash, crest below the water, ...; see `checks/morph.py`) placed on every transect of a small lagoon, with every outlet position and direction,
every forcing pattern, so all such combinations within the bound are visited. Small-scope: nine transects suffice to have
river mouth, lagoon, outlet, both sides and both domain ends distinct.

**Limits of the technique here.** State and inputs are real numbers; enumeration is exhaustive over the stated finite alphabets (chosen so that every branch and every comparison of the code is taken on
both sides, including exact equalities where dyadic numbers make them exact), not over all reals. No property had to be given up as not applicable.

## 2. Reading the properties

`properties.jsonl` has 36 properties: hydraulics C01-C07, transport C08-C10, morphology C11-C17, C31, C32, the driver C21, C28, C30, results and restart C18-C20,
forcing C22, C26, C35, geometry C23, C24, configuration C25, repeatability C27, datum and calendar C36, plots and animations C29, C33, command line C34.

## 3. Property by property

'''

WHY = {
'C01': ('Ledger of every section recomputed from depths, widths, lagoon areas and the seepage law; nothing of the solver is reused.',
        'One wrong area, a storage term attached to the wrong end or seepage with the wrong level only shows for the layouts and phases that have it.'),
'C02': ('Per-reach momentum residual in float64, boundary values, and two kinds of fixed point (still water, steady flow) started from the solution itself.', 'Sign errors in reversed flow and mixed old/new terms vanish for Theta=1 or steady flow, which is what tests use.'),
'C03': ('The series solved in one call, for all 2^(n-1) ways to cut it.', 'State carried between calls (last friction, last sea level, converged areas) cannot be seen from a single call.'),
'C04': ('Energy balance, critical depth and the existence of a deeper solution by independent root bracketing.', 'Each profile shape (drops, bumps, contractions, adverse beds) has its own control.'),
'C05': ('Reference assembly written from the documentation (`checks/assembly.py`); every lagoon area appears exactly once.', 'Direction, closedness and which lagoon transects exist combine multiplicatively.'),
'C06': ('Store then assemble; then the same with the outlet moved, lengthened, shortened, breached.', 'Needs two-step histories over all layouts.'),
'C07': ('Closure rule evaluated on dyadic widths, every pattern of narrow / exactly minimal / wide.', 'Exact equality and two narrow sections at once.'),
'C08': ('Scalar Meyer-Peter Muller per section, weighting, storage by transect identity.', 'Counterflow, threshold equality and lengths of online parts.'),
'C09': ('Scalar CERC with refraction per segment.', 'All angles round the compass against bent shorelines, incl. exact normal and right angles, and waves too high to be refracted (found a failing run).'),
'C10': ('Scalar runup and overtopping laws; split by target height with exact binary crest = target cases.', 'Equality cases, zero width channel, every pair of neighbouring types.'),
'C11': ('Volume of each transect column before and after against fluxes; structural adjustments included, those the schematisation cannot balance are listed as assumptions.', 'Conservation is broken by single adjustment branches; each is reached on every transect and outlet.'),
'C12': ('Identity of the state.', 'A hidden drift needs a state in which some adjustment wrongly fires.'),
'C13': ('The mirror image of the state is advanced in lockstep and compared.', 'Needs no reference at all: every left/right asymmetry is found, whatever the law.'),
'C14': ('Invariants on every reachable state, breadth-first with duplicate states merged; every update also replayed on the reference; starting states include those of the two configurations that come with the model.', 'The combination of closure, breach, migration and merging over several steps.'),
'C15': ('Reference rates give the expected timestep and capping; every kind of change made the largest in turn.', 'Capping is reached only at the minimum timestep.'),
'C16': ('Reference breach decision and place, then histories of open-close-breach-relic life cycles.', 'Competing breach places, relic channels, storage slope.'),
'C17': ('Reference migration on each update, then histories that carry the outlet to both ends of the domain.', 'Passing a transect exactly; both directions; the domain limit.'),
'C18': ('All write histories of up to 3-4 records of 4 kinds, both files, values all distinct; read raw and by the reader; nearest-time queries over all subsets of times, including steps of years.', 'Record misalignment, fill values, units.'),
'C19': ('Byte comparison and content comparison for every combination.', 'Two files, two prompts, an order of effects.'),
'C20': ('The first record of the restarted run and the next steps against the original, for every outlet status and record.', 'Field-by-field restore, orientation, generated tide phase.'),
'C21': ('Schedule model replayed on whole runs; every computed time observed through a 10 ms series.', 'Remainder steps, output marks between steps.'),
'C22': ('Rational-time linear interpolation written with integers; shorter arc; series files with every choice of record times around the run, read by the loader.', 'Irregular data and query grids, records that straddle the ends of the run.'),
'C23': ('Independent geometry (line crossing in rotated frame) for synthetic lines, and metamorphic rotation / reversal for the shipped site.', 'Bearings and digitising directions.'),
'C24': ('Exact geometry.', 'Every orientation, all small polylines; cuts that coincide with a vertex are not compared, rounding decides them.'),
'C25': ('Table of keys with default, limits, conversion; every key x value, pairs of keys, omission, wrong type; forcing extents.', '60 keys, pairs.'),
'C26': ('Event model evaluated directly; the random generator is replaced by a script so that all sequences of gaps and sizes are visited; then seeds; then the series a configuration asking for them gives the run.', 'Overlapping limbs need particular draws.'),
'C27': ('Bitwise equality of outputs over orders of runs, processes and directories; inputs compared before/after each component call.', 'Hidden state is only visible in sequences.'),
'C28': ('Failures injected into the banded solver at every subset of steps and substeps; the result replayed with the steady profile.', 'Fault schedules.'),
'C29': ('A fresh drawing of the last state, and an independent construction of the plan view (cliff, lagoon, channel, outlet, arrows) from the state.', 'Histories of displayed states.'),
'C30': ('`mc/driver.py` composes the documented loop.', 'Order of processes matters only when forcing, geometry and closure change together.'),
'C31': ('`mc/refmor.py`.', 'Every transport pattern on every kind of transect.'),
'C32': ('`mc/refmor.py` structural adjustments.', 'Pairs and triples of contacts.'),
'C33': ('Frames captured from the writer compared with a drawing of the record.', 'start x step x end x file length.'),
'C34': ('The model called directly on the same input; log files parsed by level; subprocess runs.', 'options x files x answers x directory.'),
'C36': ('The same state, history or run in another datum or calendar, in lockstep.', 'Needs no reference: any absolute level or date that leaks in is found.'),
'C35': ('Linear wave theory solved by bisection.', 'depth x length x angle x direction.'),
}

TAIL = '''
## 6. Defects found and repaired

%(nfix)d "fix:" commits in /repo, each found by a check or while reading for one, are listed in `known_findings.json` ("fixed": suppresses nothing). There are no
open known findings: the remaining deviations below are outside the statements as written, because the documentation does not settle them or the schematisation cannot represent them.

**Limitations of the model left as they are** (and scoped out of the properties): the creation of outlet transects by migration or breach, extension of the lagoon to the cliff, and an outlet pushed off the lagoon edge do
not conserve sediment (channels appear by fiat); filling from the shoreface conserves to second order of the step; the momentum flux uses V|V|A, which is wrong for reversed flow when Beta>0; longshore transport is undefined (NaN)
when waves break deeper than the depth of the wave data; a closed lagoon without relic outlet has no left/right handedness; the longshore segment next to an outlet end lying exactly on a transect is a tie; the steady fallback ignores closedness; an iteration limit
too small for the steady profile ends the run; HydTimes misses the remainder if a morphological step is not a multiple of HydDt (the configuration's limits are multiples); unseeded noise is added to singular matrices; the results file is deleted before
the confirmation for the second file is asked; the live plan view of the very breach step shows the pre-step outlet; axis limits of the long section are not rescaled; synthetic series are anchored to midnight and may start inside a rising event;
`-v` with `-q` together is unspecified; `trimLine` needs lines steeper than the trim lines; the wave preparation clips angles linear refraction cannot produce; the shipped example configurations lack their wave file (C23 supplies one).

## 7. False alarms met on the way and how they were settled

* C22: times are float nanoseconds in pandas; tolerance widened by the change over a third of a microsecond.
* C21: timesteps cannot be observed between records; observation goes through the timeseries file at 10 ms, not through call interception.
* C14: crossing by round-off (1e-9) of two equal coordinates was reported; order is judged to a nanometre.
* C27: attributes holding the date of creation are excluded; outputs are written into the working directory by design.
* C28: iteration limits too small for the steady profile itself are left out; a reference fallback from the same function is used.
* C29: the live view on the breach step is left out (see above).
* C33: an explicit end timestep may be read as inclusive or exclusive (docstring and code differ), both are accepted.
* C34: `logging.basicConfig` keeps handlers between in-process runs; the check resets the root logger as a fresh process would.
* C13: ties (equal distance breach places; ends exactly on a transect) excluded.

## 8. Planted bugs

`tools/plant.py` writes a plant: applies the edit in a scratch copy, confirms demonstration (0 without, 1 with), stable tests, and runs the property's quick check.
All are kept. "first missed" marks those the check did not catch when planted, with what was changed.

| plant | property | needs | caught by | note |
|---|---|---|---|---|
%(table)s

**Mutation runs.** In addition, operators and constants of each module are mutated one at a time (comparison, arithmetic, index, constant, boolean; `tools/mutate.py`), mutants that
pass the stable tests are run against the checks of that module; survivors are looked at one by one: each was either equivalent (equalities that cannot matter, e.g. `>` for `>=` at exactly a right angle where the rate is zero either way)
or led to a stronger check (%(mutnote)s).

**Refactorings.** The checks call public functions and compare values; behaviour preserving edits (renaming locals, extracting helpers, `from` imports, reordered independent statements, rewritten loops) were tried on every module and stay quiet.
'''

MISSED = json.load(open('tools/missed.json')) if os.path.exists('tools/missed.json') else {}
COST = json.load(open('tools/cost.json')) if os.path.exists('tools/cost.json') else {}


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open('properties.jsonl')]
    for p in props:
        i = p['id']
        src = open('checks/%s.py' % i).read()
        t = ast.parse(src)
        ass = []
        spaces = []
        for n in ast.walk(t):
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
                ass = ast.literal_eval(n.value)
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Space' and isinstance(n.args[0], ast.Constant):
                note = n.args[3] if len(n.args) > 3 else None
                if isinstance(note, ast.BinOp):
                    note = note.left
                spaces.append((n.lineno, n.args[0].value, note.value if isinstance(note, ast.Constant) else ''))
        spaces.sort()
        o, w = WHY[i]
        out.append('### %s %s\n\n' % (i, p['title']))
        out.append('*Oracle.* %s\n*Enumerated:*\n' % o)
        out += ['- %s%s\n' % (s, (': ' + n) if n else '') for _, s, n in spaces]
        out.append('\n*Bounds and assumptions:* %s.\n' % '; '.join(a.rstrip('.') for a in ass))
        out.append('*Beyond tests because:* %s\n\n' % w)
    out.append('## 4. Not applicable\n\nNone: every property is decided by enumeration of executions of the real code.\n\n')
    out.append('## 5. Cost and coverage\n\n| property | quick: states / transitions / traces replayed, s | thorough |\n|---|---|---|\n')
    for p in props:
        c = COST.get(p['id'], {})
        f = lambda d: '%d / %d / %d, %.0f s' % tuple(d) if d else '-'
        out.append('| %s | %s | %s |\n' % (p['id'], f(c.get('quick')), f(c.get('thorough'))))
    rows = []
    for m in sorted(glob.glob('seeded/*/meta.json'), key=lambda m: (json.load(open(m))['property'], m)):
        d = json.load(open(m))
        k = m.split('/')[1]
        x = MISSED.get(k, {})
        rows.append('| %s | %s | %s | %s | %s |' % (k, d['property'], d['needs'], x.get('by', d['property']), x.get('note', '')))
    fixes = json.load(open('known_findings.json'))['fixed']
    out.append(TAIL % dict(nfix=len(fixes), table='\n'.join(rows), mutnote=MISSED.get('_mutation', '')))
    open('DESIGN.md', 'w').write(''.join(out))


main()
