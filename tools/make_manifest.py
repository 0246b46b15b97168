"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REPLAY = "TLA+/TLC exhaustive histories replayed on the code"
TRACE = "TLA+/TLC trace validation of recorded runs"
VECT = "TLA+/TLC exact rational oracle, exhaustive inputs replayed on the code"

CLAIMS = {
    "D01": (REPLAY, "All shardings and index lists to a bound plus seeded larger simulations of Dataset.tla, both backends."),
    "D02": (TRACE, "Every (n, k, ratios, seed) to a bound run on the code; TLC decides each recorded answer against Splits.tla."),
    "D03": (TRACE, "Every (sharding, batch size, options) to a bound plus seeded larger ones; TLC decides each recorded pass against Batches.tla."),
    "D04": (REPLAY, "All interleavings of iterators, epoch changes and random draws to a depth, plus long seeded simulations of Loader.tla."),
    "D05": (VECT, "Every small integer column; exact location and scale from Scaler.tla, floats compared at 1e-8."),
    "P01": (REPLAY, "All edit histories of Param.tla to depth 2 (seeded sample of the longest) plus long seeded simulations; every accessor read after each step."),
    "P02": (REPLAY, "Histories writing on either scale; natural and internal values and bound checks compared with Param.tla."),
    "P03": (REPLAY, "Histories mixing copies, views, writes through handles and edits; aliasing decided by Param.tla."),
    "K01": (VECT, "Every small integer covariance of KrigingMC.tla, three mean models; optimality, unbiasedness and interpolation model-checked, predictions compared at 1e-8."),
    "K03": (REPLAY, "All permutations, groupings and input forms of Regroup.tla to a bound replayed; answers must equal those of the canonical form."),
    "K04": (VECT, "Exact leave-one-out by really removing each observation in Kriging.tla, for three mean models."),
    "K05": (VECT, "Exact determinants and quadratic forms from Kriging.tla; indefinite matrices enumerated by Indef.tla."),
    "K06": (REPLAY, "All call histories of Calls.tla to a depth plus long seeded simulations; every answer must be the one of the answer table and every argument unchanged."),
    "K07": (VECT, "Exact conditioning weights from Kriging.tla; unconditional draws tested statistically with seeded, large-margin bounds."),
    "K08": (VECT, "Exact trace formula from Fisher.tla for covariances with rational derivatives; call histories of explicit and default parameters."),
    "C01": (VECT, "Exact coefficients and squared distances from Matern.tla (smoothness at zero model-checked); every route to each entry compared."),
    "S01": (TRACE, "All criteria and optimizer behaviours to a bound model-checked in AutoSelect.tla; outcome scripts run on both optimizers, every recorded run decided by TLC."),
    "S03": (REPLAY, "All value and gradient histories of BatchCrit.tla to a depth on small loaders plus long seeded simulations over (n, batch size, batches per evaluation)."),
    "S02": (REPLAY, "All selection histories of Selection.tla to a depth plus seeded simulations."),
    "S04": (REPLAY, "All set/query/reset histories of PriorDefaults.tla to a depth plus seeded simulations."),
    "S05": (VECT, "All prior and posterior evaluations of Priors.tla on grids of exact rationals, including cutoffs and bounds."),
    "S06": (REPLAY, "All storage, unit and shift transformation histories of InitGuess.tla on small data sets, related to the base guess."),
    "G01": (REPLAY, "All request histories of Config.tla to depth two from every environment, long seeded simulations, and fresh processes per environment."),
    "G02": (VECT, "Every array of NumLayer.tla up to an entry count, seeded larger ones, all axes of one to three dimensions; triangular systems with integer solutions; all vectors of special values to length three."),
    "G03": (REPLAY, "Every program of two operations of Arrays.tla and seeded longer ones; type and values of every array read after each step."),
    "C02": (REPLAY, "All query, clear and scribble histories of GammaTable.tla to a depth plus long seeded simulations."),
    "X01": (REPLAY, "All edit histories of Tables.tla to depth two plus long seeded simulations; every cell and label read after each step."),
    "X02": (VECT, "Score calculus of Scores.tla: ranks, relations between scores and exact values on rational inputs; integral definitions by quadrature."),
    "X03": (TRACE, "All grids and small point sets of Designs.tla replayed exactly; every recorded random design decided by TLC."),
    "X04": (VECT, "All small observation/error sets and seeded larger ones of Perf.tla with exact rational summaries; asked-for and given predictions, printed report, reordered real models."),
    "K09": (TRACE, "All shapes of points, observations and targets reached from fitting data in Shapes.tla; sessions of requests on one model recorded and decided by ShapesTrace.tla (refused exactly when unfitting, size of the answer, agreement with the plain form); mean declarations."),
    "X05": (VECT, "All Bernstein densities and weighted grids of Post1D.tla to a bound with exact moments and distribution functions; level shifts, intervals, parameter tables; pairs of calls taking their ingredients from the call or from the record of a fit (Sources.tla), recorded and decided by SourcesTrace.tla."),
    "X06": (VECT, "Random models, bounds and tables over every combination of dimension, noise, mean parameters and outputs in Report.tla, invariance under rescaling and added mean parameters model-checked; reports and their printed tables compared with the exact ones."),
    "X07": (VECT, "Batches grown, repeated and turned by Bench.tla with the published responses as expressions over exact coordinates; evaluated against the functions."),
    "X08": (VECT, "Figures opened panel by panel in Plots.tla with exact curves; drawn artists read back and compared, also for bands, maps, leave-one-out plots and figure layouts; criterion and reference taken from the call or from the record of a fit decided by SourcesTrace.tla."),
    "S07": (VECT, "Random tables of EmpBounds.tla with exact variances and spacings, equivariance under exchanging rows, scaling and shifting model-checked; bounds compared."),
    "M01": (TRACE, "All walks of one chain of MH.tla to a depth and seeded walks of several chains replayed with stated proposals; recorded random walks decided step by step by TLC (MHTrace.tla)."),
    "M02": (TRACE, "Adaptation schedules, block rates and covariances of MH.tla replayed; recorded burn-ins decided by TLC (first converged block, retained samples, frozen parameters)."),
    "M03": (TRACE, "Doubling trees on random small trajectories model-checked in Nuts.tla (reversibility); every recorded transition laid out on its trajectory and decided by TLC (NutsTrace.tla); warm-up windows enumerated; invariance tested on draws of the target."),
    "M04": (REPLAY, "All histories of reweighting, resampling and moving of SMC.tla to a depth on small particle sets plus seeded simulations, with stated random draws."),
    "M05": (VECT, "Seeded configurations of SVGD.tla (positions, scores, bandwidths, boxes, dead points) with exact forces; every annealing schedule to a bound; whole runs compared with their updates."),
    "M06": (TRACE, "Every shape of initial states and random cell-wise criteria of Posterior.tla run on the four samplers; returned samples and log-targets decided by TLC (PosteriorTrace.tla)."),
    "G04": (TRACE, "Sessions of seeds, draws, calls without randomness and self-seeded operations (Streams.tla); TLC computes the origin of every recorded result and decides which results must agree and which must differ (StreamsTrace.tla)."),
    "M08": (TRACE, "Plots of real and stated sampler runs (chains, stages, statistics, clouds) read back from the figures and decided by TLC as functions of what was recorded (RunPlots.tla, RunPlotsTrace.tla)."),
    "M07": (TRACE, "Every choice of the next parameter on small particle sets of Temper.tla (termination model-checked) replayed; recorded runs decided by TLC (TemperTrace.tla)."),
}
EXTRA_NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMS:
            t, note = CLAIMS[i]
            checks.append({
                "property": i, "quick_cmd": f"python3 harness/check.py {i}",
                "thorough_cmd": f"python3 harness/check.py {i} --tier thorough",
                "technique": t, "level": "model_checking", "level_note": note,
                "evidence_file": f"evidence/{i}.json"})
        else:
            na.append({"property": i, "reason": EXTRA_NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks,
         "not_applicable": na,
         "notes": "TLA+ specifications in spec/, drivers on the real code in harness/drivers/, "
                  "no hooks in /repo. Known findings: KNOWN_FINDINGS.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not claimed")


if __name__ == "__main__":
    main()
