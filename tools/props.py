"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/diffpy/srmise/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Clustering absorbs every data point and keeps the clusters a sorted partition",
     "Data clusters start as one single-point cluster at the highest y value; each clustering step takes the highest data point not yet inside a cluster and "
     "either extends the nearest cluster up to it (when it lies within the resolution of that cluster) or starts a new single-point cluster, changing no other cluster, and reports which cluster and point changed. "
     "After every step the clusters are disjoint, in order of position and contain every point processed so far; stepping ends once every point is in exactly one cluster, and stays ended; "
     "sequences of unequal length or a negative resolution are rejected.",
     ["inputs", "histories"], "every strictly increasing grid, y values, resolution and every number of steps",
     "the tests check one constructor call and equality; no test performs a single clustering step",
     ["dataclusters.py"], [("step order and nearest-cluster choice", "dataclusters.py DataClusters.__next__")],
     [("clusters", "inclusive [first,last] index pairs", "DataClusters.clusters"),
      ("data_order/current_idx", "remaining points by decreasing y", "DataClusters")], ["DataClusters.clusters", "lastcluster_idx", "lastpoint_idx"])
prop("C02", "Cluster adjacency, merging, cutting and boundaries agree with the cluster list",
     "Reported adjacent groups are exactly the maximal runs of two or more clusters that touch without a gap; merging given groups "
     "replaces each group of consecutive clusters by one cluster covering it, leaves every other cluster as it was and keeps the order; groups that are "
     "out of order, repeated or not touching are rejected without changing anything. Cutting out a cluster yields exactly the "
     "slice of its points; a cluster is full exactly when no unclustered point separates it from its neighbours or the ends of the data; boundaries lie midway between neighbouring points of different regions.",
     ["inputs", "configurations"], "every valid arrangement of clusters over every grid, every choice of groups",
     "no test calls any of these operations", ["dataclusters.py"],
     [("adjacency/merge/cut", "dataclusters.py find_adjacent_clusters, combine_clusters, cut, cluster_boundaries, cluster_is_full")],
     observe=["DataClusters.clusters", "return values"])
prop("C03", "Nearest-cluster queries name a cluster no other cluster is nearer than",
     "Asked for the cluster nearest to a data point, the answer names an existing cluster and its signed distance to that point, "
     "zero inside the cluster, and no other cluster is nearer. Asked by coordinate, the answer is that of the data point nearest to "
     "the coordinate. Queries change nothing, and without any cluster they are refused.",
     ["inputs", "configurations"], "every valid arrangement of clusters, every grid, every point or coordinate",
     "no test asks for a nearest cluster", ["dataclusters.py"],
     [("bisection over cluster ends", "dataclusters.py find_nearest_cluster, find_nearest_cluster2")], observe=["return values"])
prop("C04", "A model's value is the sum of its parts, each confined to the requested range",
     "Evaluating a model of peaks and baselines gives, at every grid point inside the requested range, the sum of the individual "
     "parts' values there and exactly zero outside the range; without a range every point is evaluated, and a single number is evaluated like a one-point grid. "
     "The fit residual is (observed - model)/uncertainty on the range. Built-in functions have their documented shape: Gaussian and Gaussian/r peaks of given position, "
     "FWHM and area (never wider than the maximum width), polynomial with named coefficients, nanosphere curve that vanishes outside (0, 2R), and a part only accepts evaluation by the function that owns it.",
     ["inputs", "configurations"], "every parameter vector, grid, range and combination of parts",
     "no test evaluates any function or model", ["basefunction.py", "modelparts.py", "peaks/gaussian.py", "peaks/gaussianoverr.py",
                                                  "baselines/polynomial.py", "baselines/nanospherical.py", "baselines/arbitrary.py"],
     [("range-restricted evaluation", "basefunction.py BaseFunction.value"), ("summation", "modelparts.py ModelParts.value/residual")],
     observe=["value", "residual"])
prop("C05", "Analytic Jacobians are the derivatives of the values",
     "For every built-in function, each Jacobian entry of a free parameter equals the partial derivative of the value with respect to "
     "that parameter at every grid point of the requested range and zero outside it; fixed parameters have no entry. The "
     "Jacobian of the fit residual has one row per free parameter, in packing order, and equals the derivative of the residual.",
     ["inputs", "configurations"], "every parameter vector, every choice of free parameters, every grid and range",
     "no test evaluates a Jacobian; a wrong gradient only makes fits silently worse",
     ["basefunction.py", "modelparts.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "peaks/terminationripples.py",
      "baselines/polynomial.py", "baselines/nanospherical.py", "baselines/arbitrary.py"],
     [("analytic derivatives", "_jacobianraw of each function"), ("residual Jacobian", "modelparts.py residual_jacobian")],
     observe=["jacobian", "residual_jacobian"])
prop("C06", "Parameter formats convert exactly and never change the curve",
     "Peak parameters convert between the internal, position/width(FWHM)/area and mean/sigma/area formats and back without changing them, "
     "with FWHM = 2*sqrt(2 ln 2)*sigma, and the peak keeps the same curve whichever format it was created from. Rewriting internal parameters in "
     "canonical form (area and scale non-negative, width angle within a half turn) leaves the curve unchanged. Widths above the function's maximum "
     "and unknown format names are rejected, and conversions never modify the parameters passed in.",
     ["inputs"], "every parameter vector, every pair of formats, every maximum width",
     "no test converts parameters", ["basefunction.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "peaks/terminationripples.py",
                                     "baselines/nanospherical.py", "baselines/polynomial.py", "baselines/arbitrary.py"],
     [("format conversion", "_transform_parametersraw"), ("format names", "basefunction.py transform_parameters")],
     observe=["transform_parameters", "actualize", "value"])
prop("C07", "Fit covariance is indexed, expanded and transformed correctly",
     "A covariance given for the free parameters is stored over all parameters with zero rows and columns for the fixed ones, in model order; "
     "values, uncertainties, covariances and correlations can be asked by (part, parameter) or by flat index with the same result, uncertainty being "
     "the square root of the variance. Changing the parameter format maps the covariance V to G V G^T where G is the derivative of the format conversion, together with the parameter values, "
     "and touches only the selected parts. After a fit the covariance is the solver's matrix times the sum of squared residuals over the degrees of freedom.",
     ["inputs", "configurations"], "every symmetric covariance matrix, model layout, set of free parameters and format",
     "no test builds a covariance object", ["modelcluster.py", "modelparts.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "basefunction.py"],
     [("expansion and index maps", "modelcluster.py ModelCovariance.setcovariance"), ("transformation", "ModelCovariance.transform"),
      ("derivative matrices", "_transform_derivativesraw")],
     [("cov, pmap, ipmap, mmap", "covariance and index maps", "ModelCovariance")], ["getvalue", "getuncertainty", "getcovariance", "getcorrelation", "correlationwarning"])
prop("C08", "Scaling a peak at a point hits the target and keeps its maximum",
     "Scaling a peak at a coordinate by a positive factor either multiplies its value there by that factor while keeping the position and height of its "
     "maximum, or fails leaving the peak untouched (when all parameters are free it fails only if no such peak of allowed width exists); it never yields non-numeric parameters, never alters a fixed parameter, and non-positive factors are refused. "
     "Matching a group of peaks to a height at a coordinate reports whether any peak was scaled, and when every peak can be scaled the group's value there becomes that height; "
     "on failure all peaks are as before.",
     ["inputs", "configurations"], "every peak, coordinate, factor and set of fixed parameters",
     "no test scales or matches peaks", ["peaks/base.py", "peaks/gaussian.py", "peaks/gaussianoverr.py"],
     [("scaling", "scale_at"), ("matching", "peaks/base.py Peaks.match_at")], observe=["Peak.pars", "Peaks.value"])
prop("C09", "Free and fixed parameters are packed, updated and copied faithfully",
     "The free-parameter vector lists exactly the free parameters in model order, and writing a vector back sets exactly those and leaves fixed ones unchanged; "
     "vectors with non-numbers are rejected before anything is changed. Parameters are addressable by name and by index alike, parameter counts count what is "
     "free or all, wrong-length parameter lists are rejected, static owners cannot be replaced, and copies are equal but independent. Sorting a "
     "group of peaks orders it by the key without losing or changing peaks.",
     ["inputs", "configurations"], "every model layout, set of free parameters and vector", "no test touches model parts",
     ["modelparts.py", "peaks/base.py"], [("packing", "modelparts.py pack_freepars, unpack_freepars, ModelPart.update/compress"),
                                          ("copy/equality", "ModelPart.copy, __eq__"), ("sorting", "peaks/base.py Peaks.sort/argsort")],
     observe=["pars", "free", "npars", "copy"])
prop("C10", "Model quality is chi-square plus the AIC/AICc penalty, and orders models by it",
     "The quality of a fit is sum(((model-data)/error)^2) plus 2k (AIC) or 2k + 2k(k+1)/(n-k-1) (AICc), where k counts the free peak parameters (all of them on request) plus any given shift "
     "and n the data points, n being raised to the smallest count the criterion allows; negative counts are refused. A lower value ranks as better in every comparison, and evaluators of different kinds are not comparable. "
     "Adding k' parameters is called justified exactly when there are data enough for it and the rise in penalty is less than the present chi-square; Akaike weights are exp(-(stat-min)/2) and Akaike probabilities are these normalised to one.",
     ["inputs", "configurations"], "all data, errors, parameter counts and model pairs", "no test evaluates a model",
     ["modelevaluators/aic.py", "modelevaluators/aicc.py", "modelevaluators/base.py"],
     [("criteria", "evaluate, parpenalty, growth_justified"), ("ordering", "modelevaluators/base.py comparison operators"), ("weights", "akaikeweights/akaikeprobs")],
     observe=["stat", "chisq", "growth_justified"])
prop("C11", "A model cluster views its data slice and is skipped only if all is below noise",
     "A model cluster's r, y and error are the slice of the full data, its value is baseline plus peaks on that slice, its residual is data minus value, and copies are independent "
     "of the original. A cluster is marked as never worth fitting exactly when, over every region it has grown to cover, every point of the data minus the baseline (as of when the point was first covered) is below its uncertainty. "
     "A cluster so marked is never fitted, and a contingent fit is attempted exactly when there are enough points for a first fit, or the size has reached the growth threshold times that of the last fit.",
     ["inputs", "histories"], "all data, baselines, slices and sequences of growing slices", "no test builds a model cluster",
     ["modelcluster.py"], [("slice change", "modelcluster.py ModelCluster.change_slice"), ("contingent fit", "ModelCluster.contingent_fit")],
     [("slice, never_fit, last_fit_size", "current view and fit history", "ModelCluster")], ["r_cluster", "y_cluster", "value", "residual", "never_fit"])
prop("C12", "Fitting never leaves a cluster worse than before",
     "Whatever the optimiser returns (improved, worse, failed, or raising), fitting a cluster either reports a quality no worse than that of the model it started from, and leaves the fitted model sorted by position "
     "with canonical parameters, or reports nothing and restores the original peaks and baseline exactly (a cluster without peaks starts, if asked to, from one peak estimated from its data without baseline). "
     "The function minimised is the chi-square over the points of the cluster. Fixed parameters keep their values, the baseline changes only when its fitting is requested, "
     "data are never modified, and there are never as many free parameters as data points in a fit.",
     ["inputs", "fault_sequences"], "every optimiser outcome, model, data and set of free parameters", "no test performs a fit; real fits rarely fail",
     ["modelcluster.py", "modelparts.py"], [("revert on failure or worse quality", "modelcluster.py ModelCluster.fit"), ("optimiser call", "modelparts.py ModelParts.fit")],
     observe=["model", "baseline", "return value"])
prop("C13", "Joining, inserting and deleting keep the peaks of a cluster consistent",
     "Joining two adjacent clusters, in either order, gives a cluster over exactly both slices with the peaks of both in order of position (of several exactly at the border one is kept), the shared baseline and the union of their peak functions, and "
     "leaves the originals untouched; when both have peaks these are scaled alike to match the data without baseline at the border, if they can be, and otherwise taken as they are; clusters that are not adjacent or do not share data, error method or baseline are refused. Inserting or deleting peaks keeps them sorted and never removes a peak "
     "marked as not removable; cleaning removes exactly the removable peaks outside the cluster whose value is below the uncertainty everywhere in it, and peaks with non-numeric parameters. "
     "Peaks from outside are added together with their contribution to the data of this cluster only, so that the residual stays, and a cluster they raise above the uncertainties is no longer passed over by fitting.",
     ["inputs", "configurations"], "all pairs of clusters, peaks and data", "no test builds a model cluster",
     ["modelcluster.py", "peaks/base.py"], [("join", "modelcluster.py join_adjacent"), ("insert/delete", "replacepeaks, deletepeak"), ("cleaning", "cleanfit"), ("external peaks", "addexternalpeaks")],
     observe=["model", "slice", "peak_funcs"])
prop("C14", "Pruning, augmenting and reducing never lower the quality of a model",
     "Pruning a cluster, whatever the inner fits return, ends with a quality at least as good as before, keeps every peak marked as not removable, adds none, and leaves data and baseline unchanged. "
     "Augmenting with candidate peaks from another cluster ends at least as good as before and leaves the candidate cluster unchanged. Reducing at a point fits the peaks scaled alike to the given height less the baseline, unless they are below it already, and either succeeds with a fitted model that calls for no further peaks or restores the peaks exactly.",
     ["inputs", "fault_sequences"], "every model, data set and outcome of the inner fits", "no test prunes or augments",
     ["modelcluster.py"], [("pruning", "modelcluster.py prune"), ("augment", "augment"), ("reduce", "reduce_to")], observe=["model", "quality"])
prop("C15", "Extraction variables take the documented values and defaults",
     "Setting extraction variables stores exactly what was given and refuses unknown names; whatever is unset gets its documented default from the data (clustering resolution, uncertainty from the data or 5% of its span, "
     "peak function, full range, zero baseline, AIC, no initial peaks; for PDFs also qmax reported else determined, Nyquist on exactly when qmax>0, scale off, supersampling 4, resolution pi/qmax), and a requested default replaces the present value. "
     "Data of unequal lengths are refused and missing errors become zeros; the active range keeps exactly the points within both the data and the requested limits; for PDFs 'dg' is an alias of the uncertainty, 'automatic' qmax is the one determined from the data "
     "or an error, and supersampling below one is refused.",
     ["inputs", "configurations", "histories"], "all data, all combinations of given and missing variables", "no test sets an extraction variable",
     ["peakextraction.py", "pdfpeakextraction.py"], [("defaults", "defaultvars"), ("setters", "setvars, setdata"), ("range", "getrangeslice")], observe=["extraction variables", "getrangeslice"])
prop("C16", "Resampling reproduces data on its own grid and scales errors by Nyquist rule",
     "Resampling onto the original evenly spaced grid reproduces the original values, and on any grid it is the sinc interpolation of the data (linear in them). Resampled data cover the active range at the requested step, with "
     "uncertainties interpolated and, only when scaling and Nyquist sampling are on and qmax > 0, multiplied by max(1, sqrt(Nyquist step / step)). "
     "The qmax determined from data is the frequency at which the ratio of the standard deviations of successive equal runs of their sine transform bends most (the last such one).",
     ["inputs"], "all data, grids, steps and settings", "no test resamples", ["pdfpeakextraction.py"],
     [("sinc interpolation", "pdfpeakextraction.py resample"), ("resampled data and errors", "resampledata, errorscale")], observe=["return values"])
prop("C17", "Saving and reading back an extraction reproduces it",
     "Writing an extraction (or a model cluster, peak, baseline or function) to text and reading that text gives the same peak and baseline functions, peaks with exactly the same parameters and free/removable/static flags, baseline, "
     "extraction variables, results and metadata, and data equal to the printed precision; reading from a file is reading its text. Traces of an extraction and two-column sequence files read back likewise, and the summary of an extraction lists position, width and area of every peak. Anything unset is read back as unset. "
     "Text that is corrupt (bad value, wrong number of fields, missing section) is refused with a data-format error.",
     ["inputs", "configurations"], "all parameter values, flags, function combinations, set and unset variables", "no test writes or reads an extraction",
     ["basefunction.py", "modelparts.py", "peaks/base.py", "baselines/base.py", "modelcluster.py", "peakextraction.py", "pdfpeakextraction.py"],
     [("text format", "writestr / factory / readstr")], observe=["writestr", "readstr", "factory"])
prop("C18", "PDF data files are parsed and rewritten faithfully",
     "Reading PDF text yields the r and G columns in order, the uncertainty columns only if every entry of the column is present, finite and positive (else zeros), the scattering type, qmax, damping, broadening, scale and metadata "
     "named in the header, and rmin/rmax from the data; text whose data are not numbers is refused. Writing and reading back gives the same data to printed precision and the same header values; copies are independent of later changes of the original's metadata; "
     "only refinable variables can be set by name.",
     ["inputs"], "all columns, numbers of columns, header values", "no test reads a PDF file", ["pdfdataset.py"],
     [("parser", "pdfdataset.py readStr"), ("writer", "writeStr")], observe=["robs", "Gobs", "drobs", "dGobs", "qmax", "metadata"])
prop("C19", "Multimodel selection ranks models and classes by Akaike probability",
     "For every assumed uncertainty, each candidate's criterion is its chi-square at that uncertainty plus penalty; its probabilities sum to one, and orderings list candidates, classes and members of classes from least to most probable. "
     "Classification puts each candidate in exactly one class, whose members have the same numbers of peaks and parameters and the same kind of baseline and agree within the tolerance with the first member (and with the first member of no earlier class); a class's probability uses its best member. "
     "Best-model and best-class queries, by uncertainty or by maximum, name the candidate of highest probability; saved criteria read back the same.",
     ["inputs", "configurations"], "all criterion values, uncertainties, numbers of candidates, class assignments and queries", "no test touches multimodel selection",
     ["multimodelselection.py"], [("criteria", "makeaics, loadaics"), ("probabilities and orderings", "makeaicprobs, makesortedprobs, makesortedclasses, makeclassprobs"),
                                  ("classification", "classify"), ("queries", "bestmodels, classbestdgs, get_model, ...")], observe=["queries"])
prop("C20", "Peak-stability results are recorded per uncertainty, saved and restored",
     "A stability run performs one extraction per given uncertainty, in order, with exactly that uncertainty, and records for it the resulting peaks, baseline and sampling step. "
     "Selecting a result makes the extraction show exactly that result at its uncertainty and sampling; saving and loading restores every result with equal peaks, baselines (parameters and flags) and steps.",
     ["inputs", "histories"], "all lists of uncertainties and extraction outcomes", "no test runs peak stability",
     ["peakstability.py"], [("run", "peakstability.py run"), ("save/load", "save, load"), ("selection", "setcurrent")], observe=["results", "ppe"])
prop("C21", "Termination ripples are the base peak band-limited at qmax on a consistent grid",
     "The frequency cut is linear, removes exactly the components at or above qmax (both signs) of the zero-padded sequence and keeps those below (frequencies in steps of 2 pi over the padded length). A peak with ripples is evaluated on the requested points extended evenly on both sides, never below r=0, "
     "the result has the requested points' length with zeros outside the range, its Jacobian is the same operation applied to the base Jacobian, and single points work as one-point grids. Estimation, scaling and formats are those of the base function.",
     ["inputs"], "all sequences, grids, qmax, extensions", "no test evaluates ripples", ["peaks/terminationripples.py"],
     [("cut", "peaks/terminationripples.py cut_freq"), ("grid", "extend_grid"), ("value/jacobian", "value, jacobian")], observe=["value", "jacobian", "cut_freq", "extend_grid"])
prop("C22", "Parameter estimates are valid starting points",
     "Estimating a peak from data uses only points of positive height, refuses data with fewer than three such points or unequal lengths, and otherwise returns parameters whose position lies within the used points, whose width is positive and at most the maximum, and whose height "
     "at that position is the data maximum. Polynomial estimates return the zero baseline, a constant zero, or the least-squares line through the origin of the lowest tenth of the points; higher degrees are refused.",
     ["inputs"], "all data sets", "no test estimates", ["peaks/gaussian.py", "peaks/gaussianoverr.py", "baselines/polynomial.py", "baselines/arbitrary.py", "baselines/fromsequence.py"],
     [("estimation", "estimate_parameters")], observe=["estimate_parameters"])
prop("C23", "Command-line options reach the extraction as documented",
     "Each baseline option creates the documented baseline with the given parameters, those suffixed 'c' fixed; each uncertainty mode yields the documented uncertainty, the default mode using the reported uncertainties if the data have them and 5% of the maximum otherwise. "
     "Every other option (range, qmax, cres, supersampling, Nyquist on or off, scale on or off, peak function, evaluator) sets exactly that extraction variable and options not given override nothing; extraction, saving and summary happen exactly when asked for.",
     ["inputs", "configurations"], "all combinations and values of options", "no test runs the command line", ["applications/extract.py"],
     [("option handling", "applications/extract.py main, parsepars")], observe=["extraction variables set", "files written"])


prop("C24", "Extraction and fitting use exactly the requested data, keep the peaks they are given or find, and pass the settings on",
     "Extraction and fitting model exactly the data within the range, with their effective uncertainties; the final fit includes the baseline and the covariance returned is that of the result. A PDF extraction with qmax searches data supersampled as asked for (or as given, if fine enough), wraps every peak that is not static and has no ripples yet "
     "in termination ripples of qmax, and with Nyquist sampling ends on data at the Nyquist interval, or at the largest interval that leaves enough points for parameters that cannot be removed. "
     "Searching, no peak found is lost or counted twice when clusters are combined, each step's clusters are disjoint and cover more points, the last all of them, recursive searches use the same settings, initial peaks join the model with their flags before the pruning. "
     "What is given (data, baseline, initial peaks) is not modified by an extraction; a fit starts at the initial peaks and removes none. "
     "Estimating a peak near a coordinate refuses those outside the range, uses the nearest cluster of the data less known peaks and baseline, and adds the peak to the known ones unless told otherwise.",
     ["inputs", "histories"], "all data, settings and outcomes of the fits within", "tests run one extraction", ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "peaks/terminationripples.py"],
     [("search", "PeakExtraction.extract_single"), ("workflow", "PDFPeakExtraction.extract, fit"), ("peak estimation", "PeakExtraction.estimate_peak, add_peaks")], observe=["extracted", "extraction_type", "returned covariance"])
prop("C25", "Looking at data, models and results shows them as they are and changes nothing",
     "Plots of a model show its data and either the whole model or each peak on the baseline, over its cluster, as asked for; plots of an extraction use its result, or the initial peaks if there is none. "
     "Plots and animations of several results show each result's own peaks, baseline and data, each at its uncertainty, and those of probabilities the most probable model or class at each uncertainty; animations of results wait if asked to and restore the current one; no result, model or data is changed by showing it. "
     "Plotting or animating a clustering leaves it where it was, so that it goes on as if never shown. "
     "Figures of the plotting program show data, fit, peaks and residual, equally scaled and within the axes, each unless hidden, positions found and expected one line each, and the program reads what it is given, and saves or shows exactly when asked to.",
     ["inputs", "histories"], "all data, parameters, probabilities and orders", "no test plots anything", ["modelcluster.py", "peakextraction.py", "peakstability.py", "multimodelselection.py", "dataclusters.py", "applications/plot.py"],
     [("curves", "ModelCluster.plottable"), ("plots and animations", "PeakExtraction.plot, PeakStability.plot/plotseries/animate, MultimodelSelection.animate_*/plot3dclassprobs, DataClusters.plot/animate"), ("plotting program", "applications/plot.py")], observe=["curves drawn", "state before and after"])
prop("C26", "Traces, logs and live plots record what happens and leave it alone",
     "A trace holds all the data, the peaks of all clusters traced, sorted, their extents, and the recursion level and number at that time; it stays as it was while fitting goes on, and tracing changes no cluster. Traces are made exactly when all filters hold, stored and written (numbered, the folder made if needed) exactly if asked for; numbers and levels start again with each outermost call. "
     "Searching, pruning and extraction leave every level they enter, the level traced is that of recursive searches, and traces of a pruning show ever smaller, no worse models. "
     "The console and each log file receive exactly the messages from the level last asked for on, whatever the other levels. Live plots are switched on by booleans only, show data, residual and each peak before and after each fit, wait if asked to, and never change a fit's outcome.",
     ["inputs", "histories"], "all clusters, sequences of calls and levels, outcomes of fits", "no test traces or logs", ["srmiselog.py", "modelcluster.py", "peakextraction.py", "pdfpeakextraction.py", "modelparts.py"],
     [("tracing", "TracePeaks"), ("logging", "setlevel, setfilelevel, addfilelog, liveplotting"), ("live plots", "ModelParts.fit")], observe=["traces", "messages logged", "outcome of fits"])


NA = {}


def main():
    claimed = {}
    f = os.path.join(HERE, "tools", "claims.json")
    claims = json.load(open(f))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
        for p in P:
            if p["id"] in claims.get("dropped", []):
                continue
            o.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        c = claims["claims"].get(p["id"])
        if c is None:
            continue
        checks.append(dict(
            property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
            thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
            technique="symbolic execution of the repository's Python source, obligations decided by Z3 over all values within bounds, counterexamples replayed on the real code",
            level="model_checking", level_note=c))
    na = [dict(property=p["id"], reason=claims["na"].get(p["id"], "no check built yet")) for p in P
          if p["id"] not in claims["claims"] and p["id"] not in claims.get("dropped", [])]
    m = dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na,
             notes="One engine (symex/), one module per property (checks/). No hooks are needed in /repo.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
