#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os

S = "src/diffpy/srmise/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Clustering visits every data point once, tallest first, growing ordered clusters",
  "Clustering a data set with strictly increasing positions starts from one single-point cluster at the tallest point; each further step takes the tallest point that no cluster covers yet and, if it lies within the resolution of the border of the nearest cluster (the right-hand one when equally near), extends that cluster up to it, otherwise inserts a new single-point cluster at its place in position order. After every step the clusters are non-empty, disjoint, ordered by position and inside the data, and each step reports which cluster and which point it just handled. Iteration ends exactly when every point is covered by some cluster, and restarting it repeats the same clusters.",
  ["inputs", "histories"], "every y sequence (with ties), every strictly increasing x sequence, every resolution >= 0, every number of steps and restarts",
  "The tests build three or four constructors and one equality; none performs a clustering step.",
  ["dataclusters.py"], [("DataClusters.__next__", "dataclusters.py"), ("DataClusters.find_nearest_cluster2", "dataclusters.py"), ("DataClusters.reset_clusters", "dataclusters.py")],
  [("clusters", "array of [first,last] index pairs", "dataclusters.py"), ("status", "INIT/READY/CLUSTERING/DONE", "dataclusters.py"), ("current_idx", "how much of the order was consumed", "dataclusters.py")],
  ["DataClusters iteration protocol"])

prop("C02", "Cluster lookup, adjacency and merging are exact",
  "Looking up a point or a coordinate yields the cluster nearest to it (the right-hand one when equally near) with its signed distance, zero inside, a coordinate standing for the data point nearest to it; the adjacency query yields exactly the maximal runs of two or more clusters with no uncovered point between them; a cluster is reported full exactly when no uncovered point lies between it and either neighbour or the end of the data. Merging given runs of adjacent clusters leaves exactly one cluster spanning each run and every other cluster as it was, while a request that repeats a cluster, skips one or bridges uncovered points is refused and changes nothing.",
  ["inputs", "histories"], "every cluster configuration reachable by clustering and merging, every queried point or coordinate, every list of runs of cluster numbers",
  "No test queries or merges clusters.",
  ["dataclusters.py"], [("DataClusters.find_nearest_cluster", "dataclusters.py"), ("DataClusters.find_nearest_cluster2", "dataclusters.py"), ("DataClusters.find_adjacent_clusters", "dataclusters.py"), ("DataClusters.combine_clusters", "dataclusters.py"), ("DataClusters.cluster_is_full", "dataclusters.py"), ("DataClusters.cut", "dataclusters.py"), ("DataClusters.cluster_boundaries", "dataclusters.py")],
  observe=["return values and .clusters after each call"])

prop("C03", "Extraction covers the requested range, keeps required peaks and its inputs",
  "While peaks are extracted, the regions under consideration grow point by point from the tallest down, join as soon as they touch, always match one to one and in position order with their models and data, keep their models while others are worked on, and end as one region over everything; residuals searched within work the same way, over a stretch of the data next to the end just reached or across the border where regions join. The result of extracting or fitting covers exactly the data points of the requested range (ends included) with the data and uncertainties given; its peaks are sorted by position and belong to the requested or the initial peak functions, and peaks found are free and removable. Every initial peak that is marked as not removable is still in the result with its fixed parameters unchanged, and fixed baseline parameters stay. Neither the data, nor the initial peaks, the baseline, the range or the uncertainties given by the user are modified by extracting or fitting, and the same settings give the same result again. The covariance returned describes the reported parts. Estimating a peak outside the range is refused; peaks estimated or added go, in position order, to the result if there is one and to the initial peaks otherwise.",
  ["inputs", "configurations", "histories"], "data sets, ranges, initial peaks (removable or not, free or fixed), baselines, resolutions, recursion depths, histories of extracting, fitting, estimating and adding",
  "No test runs an extraction.",
  ["peakextraction.py", "modelcluster.py", "dataclusters.py"], [("PeakExtraction.extract_single", "peakextraction.py"), ("PeakExtraction.fit_single", "peakextraction.py"), ("PeakExtraction.getrangeslice", "peakextraction.py"), ("PeakExtraction.estimate_peak", "peakextraction.py"), ("PeakExtraction.add_peaks", "peakextraction.py")],
  observe=["srmiselog tracer events", "PeakExtraction.extracted"])

prop("C04", "A region's fit is kept only when it is no worse; otherwise nothing changes",
  "Fitting a region returns a quality only when the refined model's quality is at least that of the model it started from (the estimated first peak when there was none) and, when simplicity had to be justified for a newly grown single peak, the added complexity was justified; in every other case (the optimiser fails, quality drops, no peak can be estimated, the region was found never worth fitting) it reports no result and model and baseline are exactly as before. A kept fit has its peaks sorted, never changes a fixed parameter, and only drops peaks allowed to be dropped. A region is re-fit during growth only when its size reached the given multiple of its size at the last fit, or the minimum size if never fit, and it records its size at each fit attempted.",
  ["inputs", "histories", "fault_sequences"], "sequences of growth, fit, re-fit and failed fits over regions with zero or more peaks, scripted optimiser failures, estimation failures and evaluator outcomes",
  "No test fits anything.",
  ["modelcluster.py", "modelparts.py"], [("ModelCluster.fit", "modelcluster.py"), ("ModelCluster.contingent_fit", "modelcluster.py"), ("ModelCluster.cleanfit", "modelcluster.py"), ("ModelCluster.change_slice", "modelcluster.py"), ("ModelParts.fit", "modelparts.py")],
  [("last_fit_size", "size at last attempted fit", "modelcluster.py"), ("never_fit", "region cannot be fit", "modelcluster.py")],
  ["ModelCluster.fit/contingent_fit return value, model, baseline"])

prop("C05", "Pruning removes only removable peaks and never worsens the model",
  "Pruning a region ends with a model whose quality is at least that of the model it started from, whose peaks it never re-numbers: the result has no peak more than before, every non-removable peak is still there, fixed parameters are unchanged. In each round the peak removed is the one whose removal (with refitting) gives the best quality, provided that improves it, and the model kept is the very one whose quality was judged best; when no removal improves it the model is left as it was. Pruning goes on until no removal improves the quality or, in the last round, every other removal would have made it worse.",
  ["inputs", "histories", "fault_sequences"], "models of 0..n peaks, removable or not, every outcome of the trial fits (better, equal, worse, failed)",
  "No test prunes a model.",
  ["modelcluster.py"], [("ModelCluster.prune", "modelcluster.py")], observe=["ModelCluster.model before/after prune", "evaluator calls"])

prop("C06", "Adding peaks from outside keeps the best model and every existing required peak",
  "Offering extra peaks to a region adds, one at a time, the offered peak that improves the quality most, as long as the quality strictly improves; the final model is never of lower quality than before, keeps all non-removable peaks, contains only peaks from the original model or the offered ones, and is sorted. If no offered peak helps, the model is unchanged, every trial starts with the offered peak as it was offered, and the offered collection itself is never modified.",
  ["inputs", "histories", "fault_sequences"], "regions with existing peaks, offered collections of 0..n peaks, every outcome of the trial fits",
  "No test adds external peaks.",
  ["modelcluster.py"], [("ModelCluster.augment", "modelcluster.py"), ("ModelCluster.addexternalpeaks", "modelcluster.py")], observe=["ModelCluster.model before/after"])

prop("C07", "Joining neighbouring regions preserves data, peaks and the regions joined",
  "Joining two regions that touch yields a new region covering exactly both, whose peaks are those of both in position order except removable ones that lie out of order on the wrong side of their common border (or are duplicated exactly at it), and whose peak functions are those of either, in order; where both have peaks, their sum at the border is matched to the data above the baseline. Every non-removable peak is kept and the two regions given, with their models, are unchanged. Regions that do not touch, or that differ in data, baseline or quality measure, are refused.",
  ["inputs", "histories"], "pairs of regions of one data set, in both orders, with any models, removable flags and positions around the border",
  "No test joins regions.",
  ["modelcluster.py", "peaks/base.py"], [("ModelCluster.join_adjacent", "modelcluster.py"), ("Peaks.match_at", "peaks/base.py")], observe=["join_adjacent result and arguments"])

prop("C08", "Editing a region's peaks or extent protects what may not be removed",
  "Replacing a run of peaks by others leaves the untouched peaks, adds the given ones and keeps the collection in position order; deleting removes exactly the requested peaks, and adding external peaks adds their values to the region's data and nothing else. A replacement or deletion that would drop a non-removable peak is refused, and then nothing changes. Changing a region's extent changes its data window and size only, and as it grows it is recorded as never worth fitting exactly when no data point in it rises to baseline plus uncertainty.",
  ["inputs", "histories"], "any collection with any removable flags, any slice or index set, any sequence of extents",
  "No test edits a peak collection.",
  ["modelcluster.py", "peaks/base.py"], [("ModelCluster.replacepeaks", "modelcluster.py"), ("ModelCluster.deletepeak", "modelcluster.py"), ("ModelCluster.addpeaks", "modelcluster.py"), ("ModelCluster.change_slice", "modelcluster.py"), ("Peaks.sort", "peaks/base.py")], observe=["ModelCluster.model, slice, size, never_fit"])

prop("C09", "Free parameters pack and unpack one to one; fixed ones and copies stay put",
  "The free parameters of a model, packed in order, match the free flags of its parts; unpacking a sequence sets exactly the free parameters, in the same order, leaves every fixed parameter as it was, and uses exactly as many values as were packed; a sequence too short is refused. A copy is equal to its original and shares no parameter storage with it, so changing either never shows in the other; equality holds exactly when function, parameters, free flags and removability agree. The number of parameters counts all or only free ones as asked.",
  ["inputs", "histories"], "any list of model parts with any free flags, any sequence of packs, unpacks, copies, writes and comparisons",
  "No test touches model parameters.",
  ["modelparts.py", "peaks/base.py", "baselines/base.py"], [("ModelParts.pack_freepars", "modelparts.py"), ("ModelParts.unpack_freepars", "modelparts.py"), ("ModelPart.compress", "modelparts.py"), ("ModelPart.update", "modelparts.py"), ("ModelPart.copy", "modelparts.py")], observe=["pars, free, removable of every part after each operation"])

prop("C10", "Covariances are filed under the right parameters and survive transformation",
  "A covariance matrix given for the free parameters of a model is filed so that each pair of free parameters reads back its own entry, symmetric in the pair, whether looked up by part-and-parameter pair, and every pair involving a fixed parameter reads zero; a matrix of the wrong shape is refused without changing what was stored, and so is a lookup of what is no parameter of the model. Values, uncertainties (square root of the variance) and correlations (covariance over both uncertainties, zero when either is zero) all refer to the same parameters. Transforming to another parameter format keeps unaffected entries, applies J V J^T with the transformation's Jacobian, and a transformation there and back restores matrix and values.",
  ["inputs", "histories"], "models with any number of parts and any free flags, any symmetric matrix, any lookup, any sequence of set, transform, clear",
  "No test uses the covariance class.",
  ["modelcluster.py"], [("ModelCovariance.setcovariance", "modelcluster.py"), ("ModelCovariance.getcovariance", "modelcluster.py"), ("ModelCovariance.getcorrelation", "modelcluster.py"), ("ModelCovariance.getuncertainty", "modelcluster.py"), ("ModelCovariance.transform", "modelcluster.py"), ("ModelCovariance.clear", "modelcluster.py")], observe=["get* return values, pmap"])

prop("C11", "Quality measures follow their definition and rank models accordingly",
  "For each information criterion the recorded statistic is chi-square plus 2k (plus 2k(k+1)/(n-k-1) for the corrected one), where k counts the free parameters of the peaks, or all of them when asked, plus any requested shift, and n the data points of the region; chi-square is the sum of squared residuals over the given uncertainties. Of two evaluations the lower statistic ranks as the better quality; growth by a number of parameters is justified exactly when there are enough points for the larger model and the increase of the penalty is less than the region's chi-square. Akaike probabilities are proportional to exp(-(difference)/2) and sum to one.",
  ["inputs"], "any residuals, uncertainties, peak collections (free/fixed), baselines, parameter shifts, lists of statistics",
  "No test evaluates a model.",
  ["modelevaluators/aic.py", "modelevaluators/aicc.py", "modelevaluators/base.py"], [("AIC.evaluate", "modelevaluators/aic.py"), ("AICc.evaluate", "modelevaluators/aicc.py"), ("AIC.growth_justified", "modelevaluators/aic.py"), ("ModelEvaluator.__lt__", "modelevaluators/base.py"), ("AIC.akaikeweights", "modelevaluators/aic.py")], observe=["stat, chisq, comparisons"])

prop("C12", "Multimodel selection groups equivalent models and ranks them by evidence",
  "Classification takes the models in the order given and puts each in exactly one class: the first whose first member has equally many peaks and equally many parameters, and squared sums of values on the grid (per peak and for the baseline) that agree within the tolerance, or else a new class of its own. For every uncertainty the Akaike probabilities of the models sum to one and follow from the statistics, a class's probability is that of its best member relative to the best members of the other classes and these sum to one, models and classes are ranked by them, and every query (model, quality, probability, class, free parameters, uncertainty by rank, most favourable uncertainty) reports the entry of that rank. Saving and loading keeps all results and their statistics.",
  ["inputs", "histories"], "any list of results over several uncertainties, any tolerance, any rank or class query, reclassification and reloading",
  "No test uses multimodel selection.",
  ["multimodelselection.py"], [("MultimodelSelection.classify", "multimodelselection.py"), ("MultimodelSelection.makesortedprobs", "multimodelselection.py"), ("MultimodelSelection.makeaicprobs", "multimodelselection.py"), ("MultimodelSelection.get", "multimodelselection.py")], observe=["classes, aicprobs, sortedprobs, get* results"])

prop("C13", "A saved extraction reads back as the same extraction",
  "Writing an extraction to a file or string and reading it back, into any extraction of the same kind whatever it held, gives the same data (to the written precision), uncertainties, range, settings, peak functions, baseline, initial peaks, extraction type, extracted region and model, and equal functions shared in the original are shared again. What is saved from it reads back the same again. A file that is malformed or lacks a required section is refused with a format error.",
  ["inputs", "histories", "configurations"], "extractions in any stage (settings only, initial peaks, fitted, extracted), any subset of optional settings left undefined, damaged files",
  "No test saves or reads an extraction; reading a saved one failed at the base commit.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "modelparts.py"], [("PeakExtraction.writestr", "peakextraction.py"), ("PeakExtraction.readstr", "peakextraction.py"), ("PDFPeakExtraction.readmetadata", "pdfpeakextraction.py"), ("ModelCluster.writestr", "modelcluster.py"), ("ModelCluster.factory", "modelcluster.py")], observe=["public attributes after read"])

prop("C14", "Extraction settings: explicit values win, unset ones get the documented default",
  "Any setting given explicitly is used as given (an uncertainty given as one positive number applies to every point); setting names that do not exist, or an uncertainty given under two names at once, are refused. Every setting left unset gets the documented default: full data range (each undefined range end separately), data uncertainties if all positive and otherwise 5% of the data's peak-to-peak amplitude, resolution pi/qmax or four times the mean spacing when qmax is zero, Nyquist sampling exactly when qmax is positive, oversampling 4 and no uncertainty scaling. Setting or defaulting one setting leaves every other explicit one alone, and clearing returns to all-unset.",
  ["configurations", "histories"], "any subset and order of settings, set singly or together, over data with or without uncertainties and qmax",
  "No test sets extraction variables.",
  ["peakextraction.py", "pdfpeakextraction.py"], [("PeakExtraction.setvars", "peakextraction.py"), ("PeakExtraction.defaultvars", "peakextraction.py"), ("PDFPeakExtraction.setvars", "pdfpeakextraction.py"), ("PDFPeakExtraction.defaultvars", "pdfpeakextraction.py")], observe=["getvars / attributes"])

prop("C15", "Function definitions written to text rebuild the same functions and sharing",
  "Any set of peak and baseline functions, where functions may be built from other functions, is listed so that every function appears exactly once and after all those it depends on; writing the list and reading it back yields functions of the same types, settings and mutual references (a function made from the user's own code cannot be held in text and is refused when read). Model parts written and read with that list keep their parameters, free flags, removability and owner. A reference to a function that is not (or not yet) in the list, or text of the wrong type, is refused.",
  ["inputs"], "any dependency graph of functions (nesting, sharing), any model parts over them, any damaged reference",
  "No test serialises a function.",
  ["basefunction.py", "modelparts.py", "peaks/base.py", "baselines/base.py"], [("BaseFunction.safefunctionlist", "basefunction.py"), ("BaseFunction.writestr", "basefunction.py"), ("BaseFunction.factory", "basefunction.py"), ("ModelPart.writestr", "modelparts.py"), ("Peak.factory", "peaks/base.py")], observe=["factory results"])

prop("C16", "Model values, residuals and derivatives add up and respect the range",
  "Evaluating a part over a range of indices gives, inside the range, the same values as evaluating it over all the data, and zero outside; a model's value is the sum of its parts' values, the residual is (data minus model) over uncertainty within the range, and the Jacobian has one column per free parameter, in packing order, each the derivative of that parameter. A part is refused by a function that does not own it. Evaluation never changes parameters, data or free flags.",
  ["inputs"], "any collections of parts with any free flags, any index range, custom and built-in functions",
  "No test evaluates a function.",
  ["basefunction.py", "modelparts.py", "modelcluster.py"], [("BaseFunction.value", "basefunction.py"), ("BaseFunction.jacobian", "basefunction.py"), ("ModelParts.residual", "modelparts.py"), ("ModelParts.jacobian", "modelparts.py"), ("ModelCluster.residual", "modelcluster.py")], observe=["returned arrays"])

prop("C17", "Parameter formats convert there and back and describe the same peak",
  "Creating a peak or baseline from parameters in one format and reading them in any other format of that function describes the same curve; converting to another format and back returns the original parameters for every parameter in the function's domain. Position, full width at half maximum, area and maximum reported for a peak are those of the curve itself. Unknown formats and parameter counts that do not fit are refused.",
  ["inputs"], "any peak/baseline function and valid parameters, any pair of formats",
  "No test converts parameters.",
  ["peaks/gaussian.py", "peaks/gaussianoverr.py", "peaks/terminationripples.py", "baselines/polynomial.py", "baselines/nanospherical.py", "baselines/arbitrary.py", "basefunction.py"], [("Gaussian._transform_parametersraw", "peaks/gaussian.py"), ("GaussianOverR._transform_parametersraw", "peaks/gaussianoverr.py"), ("BaseFunction.transform_parameters", "basefunction.py")], observe=["transform_parameters, actualize, value"])

prop("C18", "PDF data files: what is written is read, defaults are explicit",
  "Reading a PDF data file yields its positions and values and, when every entry is positive, its uncertainties (otherwise zeros), together with the metadata found in its header or, where absent, none; writing and re-reading a data set keeps the data and the metadata to the written precision (the particle diameter, kept for old files, is read but not written). A copy equals the original, and setting, reading, clearing or changing the metadata of one leaves the other alone. Data that is not numeric or of too few columns is refused with a format error naming the file, and unknown variables are refused when set or read.",
  ["inputs", "histories"], "files with 2 to 4 columns, headers in the common styles with any subset of metadata, any sequence of read, set, write, copy, clear",
  "No test reads a PDF.",
  ["pdfdataset.py"], [("PDFDataSet.readStr", "pdfdataset.py"), ("PDFDataSet.writeStr", "pdfdataset.py"), ("PDFDataSet.copy", "pdfdataset.py"), ("PDFDataSet.clear", "pdfdataset.py"), ("PDFDataSet.setvar", "pdfdataset.py")], observe=["public attributes"])

prop("C19", "Tracing and logging record what happened and can be turned on and off",
  "With tracing on, every emitted step that passes all filters is stored (and written, if asked) once, in order, with its recursion depth and the next number since the outermost tracer-aware call began; a step that any filter rejects leaves no record and no number. Entering and leaving nested levels returns and restores the depth; entering the outermost call or resetting empties the trace and restarts the numbers, and recorded steps are snapshots of the model over all clusters given that later work does not alter and that read back as written. A message appears on the console and in each log file exactly when it is at least as important as that destination's level; levels are names or non-negative integers, take effect at once, and anything else is refused.",
  ["histories", "configurations"], "any sequence of settings, enters, leaves, emits, resets, filters",
  "No test uses tracing or logging.",
  ["srmiselog.py"], [("TracePeaks", "srmiselog.py"), ("setlevel", "srmiselog.py"), ("setfile", "srmiselog.py")], observe=["tracer.trace", "log handlers and file"])

prop("C20", "A stability series records, selects and reloads each result faithfully",
  "Running a stability analysis over several uncertainties records for each, in the order given, the uncertainty, the extracted model and baseline at that step; selecting a recorded result puts exactly that uncertainty, model and baseline in effect without altering the record. Saving and loading gives the same series. Results may be reported with their covariance, one per uncertainty.",
  ["histories", "inputs"], "any list of uncertainties, any sequence of run, select, save, load",
  "No test runs a stability analysis.",
  ["peakstability.py"], [("PeakStability.run", "peakstability.py"), ("PeakStability.setcurrent", "peakstability.py"), ("PeakStability.save", "peakstability.py"), ("PeakStability.load", "peakstability.py")], observe=["results, ppe.extracted"])

prop("C21", "Rescaling peaks to match data keeps positions, fixed values and order",
  "Rescaling a peak at a point multiplies its value there by the requested factor while keeping the location of its maximum, and refuses (changing nothing) when that is impossible. Matching a collection to a value at a point makes the peaks' sum there equal to the value whenever free peaks allow it, and otherwise leaves every peak that cannot be scaled unchanged; fixed parameters never change and the order of the peaks stays. Reducing a region to a value at a point does nothing where the model with its baseline is already lower, and otherwise leaves either the refitted lower model or exactly the model it started from.",
  ["inputs"], "any peak collections with any free flags, any point and target value",
  "No test rescales a peak.",
  ["peaks/base.py", "peaks/gaussian.py", "peaks/gaussianoverr.py"], [("Peaks.match_at", "peaks/base.py"), ("Peak.scale_at", "peaks/base.py"), ("Gaussian.scale_at", "peaks/gaussian.py"), ("GaussianOverR.scale_at", "peaks/gaussianoverr.py")], observe=["pars before/after, value at the point"])

prop("C22", "PDF extraction samples no finer than asked and reports on the Nyquist grid",
  "Resampling covers the overlap of data and range with equally spaced points of the asked spacing, from its first position to before its last, with band-limited interpolated values and uncertainties interpolated on the same grid, scaled (by the square root of the oversampling) only when that was requested. A PDF extraction with Nyquist sampling reports its result on the Nyquist grid (spacing pi/qmax), or on the coarsest finer grid that holds more points than the model has free parameters when the Nyquist grid does not; without Nyquist sampling it reports on the data grid, or on the finer grid the supersampling asked for. A PDF fit reports on the Nyquist grid exactly when Nyquist sampling is on and qmax is positive. After extraction the peaks carry termination effects of the given qmax exactly when qmax is positive, initial peaks which must keep their function or had such effects already excepted; a fit leaves functions alone. Initial peaks not removable are kept with what is fixed. Settings, data and initial peaks are afterwards as before, the same settings give the same result again, and the covariance returned describes the reported parts.",
  ["inputs", "configurations", "histories"], "PDF data, qmax zero or positive, Nyquist on or off, supersampling, ranges, initial peaks with or without termination effects",
  "No test runs an extraction.",
  ["pdfpeakextraction.py", "modelcluster.py"], [("PDFPeakExtraction.extract", "pdfpeakextraction.py"), ("PDFPeakExtraction.fit", "pdfpeakextraction.py"), ("PDFPeakExtraction.resampledata", "pdfpeakextraction.py"), ("PDFPeakExtraction.errorscale", "pdfpeakextraction.py"), ("resample", "pdfpeakextraction.py")], observe=["extracted.r_data, peak owners, settings before/after"])

prop("C23", "Baseline functions follow their definition and derivative",
  "A polynomial baseline evaluates to the polynomial of its coefficients, highest degree first (the empty one to zero); a sequence baseline passes through its given points, interpolates between them and has no parameters; a user-defined baseline evaluates the given functions; each one's derivatives are those of its values, in the order of its parameters. Estimation yields parameters of the right number from data, or is refused where it is not supported.",
  ["inputs"], "any coefficients, degrees, sequences, evaluation points",
  "No test evaluates a baseline.",
  ["baselines/polynomial.py", "baselines/fromsequence.py", "baselines/arbitrary.py", "baselines/nanospherical.py"], [("Polynomial._valueraw", "baselines/polynomial.py"), ("Polynomial._jacobianraw", "baselines/polynomial.py"), ("FromSequence._valueraw", "baselines/fromsequence.py"), ("Arbitrary._valueraw", "baselines/arbitrary.py"), ("NanoSpherical._valueraw", "baselines/nanospherical.py")], observe=["value, jacobian, estimate_parameters"])

prop("C24", "Command-line options reach the extraction exactly as given",
  "Each command-line option of the extraction tool puts its value, and only it, into the settings of the extraction; options not given leave the defaults (an uncertainty of the data, if it has one, otherwise 5% of the maximum). Parameters given with a trailing c are fixed and all others free, and the result is saved to the file asked for. Options that cannot be understood end the run without extracting.",
  ["configurations"], "any subset of options over data with and without uncertainties",
  "No test runs the command-line tool.",
  ["applications/extract.py"], [("main", "applications/extract.py"), ("parsepars", "applications/extract.py")], observe=["settings of the extraction made, saved file"])

prop("C25", "The summary of an extraction tells what was extracted",
  "The summary written after an extraction (as a string, or the same in a file) gives the settings in force, the reported quality, the number of points and of free parameters of the result's peaks and baseline, every peak of the result in order with its position, width and area and with the function it belongs to, and the result's baseline with its parameters and function. Each function appears once in its list, after the function it is based on, and the references point to it. Writing changes nothing, and without a result it is refused.",
  ["histories", "inputs"], "any results over any graph of peak functions, baselines given, missing or replaced, results selected from a series, saved and loaded",
  "No test writes a summary.",
  ["pdfpeakextraction.py", "basefunction.py"], [("PDFPeakExtraction.writepwa", "pdfpeakextraction.py"), ("PDFPeakExtraction.writepwastr", "pdfpeakextraction.py"), ("BaseFunction.safefunctionlist", "basefunction.py")], observe=["text written, extraction before and after"])

prop("C26", "Plots show the data, model and probabilities they are made from",
  "What is plotted of a region or an extraction is its data over its points with every peak on top of the baseline, or with their sum when joined; an extraction without result shows its initial peaks and baseline over its range; the residual is data minus model. A plot of a series shows every peak position at the uncertainty of its result; the plot of the current result tells its number, uncertainty, peaks and quality; an animation shows the results asked for one after another and leaves the current result as it was. Animations of probabilities show for each uncertainty the probabilities of all models (over their uncertainties) or classes, mark the most probable and show its model (or one of the class). The surface of class probabilities shows exactly the classes asked for whose maximum lies in the probability range, each with its probabilities over the scaled uncertainties, labels, counts and highlights that fit, and equal colours for equal sizes. The plotting tool shows, scaled, the data, fit, every peak above the baseline and the residual around its own line below all else, within the range and limits, the positions found, those given, the positions of every result of a series and the mean uncertainty; given distances are read line by line until a line is none. Plotting changes no data, model or record.",
  ["inputs", "configurations"], "any models on any data grid, series of results, probabilities, plotting options",
  "No test draws a plot.",
  ["modelcluster.py", "peakextraction.py", "peakstability.py", "multimodelselection.py", "applications/plot.py"], [("ModelCluster.plottable", "modelcluster.py"), ("PeakExtraction.plot", "peakextraction.py"), ("PeakStability.animate", "peakstability.py"), ("MultimodelSelection.animate_probs", "multimodelselection.py"), ("MultimodelSelection.plot3dclassprobs", "multimodelselection.py"), ("makeplot", "applications/plot.py")], observe=["lines, polygons, limits and texts of the figure"])

prop("C27", "The first guess of a peak follows from its data",
  "From any data with at least three positive values a peak is guessed: its position is the mean of the positions of the positive values, weighted by the square of their height over the lowest of them, and so lies within the data; its height there is the highest value; its width is such that the curve meets the first and the last positive value (an end as high as the highest value counts as half the extent away and as low as the lowest), but never more than the largest width allowed; equal values give a peak in their middle that has died down at their ends, half the extent being two standard deviations. Hence the guess moves, mirrors and scales with the data, finds a whole peak sampled evenly on both sides, and does not depend on values that are not positive. Anything else, and arrays of different length, is refused as an estimation error. Peaks with termination ripples are guessed like those they are based on, and the data given is never changed.",
  ["inputs"], "any ascending positions and values, largest widths, units, both built-in peak shapes with and without termination ripples",
  "No test estimates a peak.",
  ["peaks/gaussian.py", "peaks/gaussianoverr.py", "peaks/terminationripples.py"], [("Gaussian.estimate_parameters", "peaks/gaussian.py"), ("GaussianOverR.estimate_parameters", "peaks/gaussianoverr.py"), ("TerminationRipples.estimate_parameters", "peaks/terminationripples.py")], observe=["position, width and height of the guess, refusals"])

prop("C28", "Termination ripples are the peak without what is above the cut-off",
  "Removing high frequencies from an evenly sampled signal keeps what oscillates more slowly than the cut-off exactly, removes what oscillates faster, adds nothing else and treats sums of signals independently. A peak with termination ripples has, at every point asked for (one point, all points, or a range of them; on fine grids and on ones coarser than the ripples), the value of the peak it is based on convolved with the sinc of the cut-off, to the precision that its extension and sampling allow, and no values outside the range. For this the points are extended evenly on both sides by at least the extension asked for, in units of the period at the cut-off, but never below zero, and are themselves found where they are said to be. Peak and signal given are never changed.",
  ["inputs", "configurations"], "any cut-offs, extensions and sampling, any signals, any grids (fine, coarse, single points) and ranges, both built-in peak shapes",
  "No test evaluates a peak with termination ripples.",
  ["peaks/terminationripples.py"], [("TerminationRipples.value", "peaks/terminationripples.py"), ("TerminationRipples.cut_freq", "peaks/terminationripples.py"), ("TerminationRipples.extend_grid", "peaks/terminationripples.py"), ("TerminationRipples._valueraw", "peaks/terminationripples.py")], observe=["values, extended grid, harmonics of the filtered signal"])

prop("C29", "Extractions do not disturb each other; results follow from settings alone",
  "Several extractions side by side, sharing data, functions, peaks or baselines or not, do not affect each other: whatever is done to one (giving data and settings, extracting, fitting, trying uncertainties, loading, plotting or failing part way), the settings and results of the others and everything that was handed in stay as they were. What an operation produces depends on the settings of its extraction alone: the same settings give the same result bit for bit, whichever object, whatever was done before, in whichever process or place in memory, with messages or tracing on or off. An operation broken off part way (an error in a peak function, a user's interruption, in any of its fits) leaves its settings unchanged and a result which is the earlier one or none, and the next operation gives what a fresh object gives. Looking at a result, or working on a copy of it, changes nothing.",
  ["histories", "fault_sequences", "configurations"], "histories of operations on up to three objects sharing parts, breaks at any evaluation, messages and tracing on or off, separate processes",
  "No test runs an extraction, and none uses two objects.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "peakstability.py", "srmiselog.py"], [("PeakExtraction.extract_single", "peakextraction.py"), ("PDFPeakExtraction.extract", "pdfpeakextraction.py"), ("ModelCluster.join_adjacent", "modelcluster.py"), ("PeakExtraction.setvars", "peakextraction.py")], observe=["settings and results of every object after every operation"])

prop("C30", "What is found follows the data, whatever its units, baseline or origin",
  "A problem told in other units of length or intensity (data, uncertainties, range, resolution, widths, cut-off, initial peaks and baseline converted alike) is worked on in the same way: the same regions and models are fit in the same order from the same starts, converted, and the same peaks, baseline, quality (which has no unit) and covariance come out, converted. The same holds for data on top of a higher or lower fixed baseline, and, for Gaussian peaks, for positions counted from another origin. Uncertainties of positions and data outside the requested range have no influence on what is found within it, given the resolution, uncertainties and baseline.",
  ["inputs", "configurations"], "any problem and any change of units, from atomic to everyday ones, baseline, origin, or data outside the range",
  "No test runs an extraction.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "dataclusters.py", "peaks/gaussian.py", "peaks/gaussianoverr.py"], [("PeakExtraction.extract_single", "peakextraction.py"), ("PDFPeakExtraction.extract", "pdfpeakextraction.py"), ("ModelCluster.fit", "modelcluster.py"), ("ModelCluster.change_slice", "modelcluster.py"), ("ModelCluster.reduce_to", "modelcluster.py")], observe=["starts of all fits", "peaks, baseline, quality and covariance found"])

prop("C31", "The cut-off found in PDF data is where the ratio of spreads bends most sharply",
  "The ratios of the spreads of a sequence set the standard deviation of its first two, three, ... values beside that of the equally many values which follow, one ratio for every such pair of windows that fits. The cut-off (qmax) found in PDF data is the last step of its sine spectrum, the data being resampled to twice as many points, that belongs to the first window where this ratio bends down most sharply (most negative second difference; the last such place if there are several), in steps of two pi over the span of the data; its uncertainty is one such step. So it is converted as the inverse of lengths are and does not depend on the unit or sign of the intensity. It is found whenever data is given or loaded, whatever was given before, whatever uncertainties come with it and whatever cut-off the file reports, and is the one used when the cut-off is to be set automatically. Fewer than eight points have none. Arrays of different length are refused, and the data given is never changed.",
  ["inputs", "histories"], "any evenly sampled data, however long, of any spectrum and noise; any integer sequences",
  "No test looks for a cut-off.",
  ["pdfpeakextraction.py"], [("find_qmax", "pdfpeakextraction.py"), ("stdratio", "pdfpeakextraction.py"), ("PDFPeakExtraction.setdata", "pdfpeakextraction.py")], [("qmax_fromdata", "the cut-off found in the data", "pdfpeakextraction.py")], observe=["ratios, cut-off and its uncertainty"])

prop("C32", "A peak asked for at a point is the one there; it and peaks handed in are added",
  "Asking for a peak at a point (estimate_peak) finds the peak that lies there in what the data has beyond the baseline and the peaks known already: those of the extraction's result if there is one, with its own data, range and baseline, the initial peaks within the requested range otherwise. A clearly visible, separate peak near the point is found with its position, width and height, as a removable peak with free parameters of the first of the peak functions; where nothing is left none is found, and a point beyond the range is refused. If wanted (the default) the very peak returned is added to the known ones in order of position; otherwise, and if nothing is found, they stay as they are. Peaks handed in (add_peaks) join the same ones in order, all of them and unchanged. Both work right after data is given. A region without peaks gets the first guess from its data beyond its baseline, and whether it did is told. Known peaks, data, settings, the result's region and what was handed in never change otherwise.",
  ["inputs", "histories", "configurations"], "any baselines, known peaks (fixed, overlapping, required), hidden peaks, ranges, resolutions and uncertainties; sequences of questions and additions, with and without a result",
  "No test asks for or adds a peak.",
  ["peakextraction.py", "modelcluster.py", "dataclusters.py"], [("PeakExtraction.estimate_peak", "peakextraction.py"), ("PeakExtraction.add_peaks", "peakextraction.py"), ("ModelCluster.estimatepeak", "modelcluster.py"), ("ModelCluster.replacepeaks", "modelcluster.py")], observe=["the peak returned", "initial_peaks and extracted.model before and after"])

prop("C33", "What cannot be done is refused and changes nothing; what is done is done in full",
  "An operation that cannot be done is refused, with the object it is asked of, what is handed in and every file as they were. This holds for data or uncertainties whose lengths differ, settings one of which does not exist or cannot be used (the others given along with it included), loading PDF data and reading a saved extraction, a stability series, a table of statistics or a data set from a file that is missing, damaged anywhere or holds something else, choosing a result that does not exist, saving over an existing file what cannot be written, parts with the wrong number of parameters or flags, updates with too few values, a new owner where the owner is fixed or has another number of parameters, a parameter that does not exist, unequal or negative clustering input, functions whose parameters are not text or not numbered one to one from zero, whose default formats are missing or not among their formats, or peak functions without a position, and live plotting switches that are not true or false. What can be done is done in full: everything asked for is set, nothing else changes, and a file holds the whole text.",
  ["inputs", "histories", "fault_sequences"], "any sequence of requests that can and cannot be carried out, any damage to a file, any mismatch of lengths",
  "No test looks at an object after an error.",
  ["peakextraction.py", "pdfpeakextraction.py", "pdfdataset.py", "peakstability.py", "multimodelselection.py", "modelparts.py", "basefunction.py", "dataclusters.py", "srmiselog.py"], [("PeakExtraction.setdata", "peakextraction.py"), ("PeakExtraction.setvars", "peakextraction.py"), ("PeakExtraction.readstr", "peakextraction.py"), ("PDFPeakExtraction.loadpdf", "pdfpeakextraction.py"), ("PeakStability.load", "peakstability.py"), ("PeakStability.save", "peakstability.py"), ("ModelPart.update", "modelparts.py"), ("ModelPart.changeowner", "modelparts.py"), ("PDFDataSet.readStr", "pdfdataset.py")], observe=["every attribute of the object and every file after each request"])

prop("C34", "Peaks which stand apart are all found where they are, and nothing else",
  "Data made of a few peaks of the peak function used, each a width and a half or more (0.9 and up, at widths of 0.4 to 0.65) from the next, a known or fitted level as baseline, and noise a fraction of the stated uncertainty, sampled finely: a search (extract, or one search over all the data with extract_single), with any of the two qualities, no or some of the true peaks given to begin with, finds as many peaks standing out of the uncertainty as there are, in order, each near its place and of about its width and size, finds the level, and leaves of the data no more than its uncertainty. Peaks given or found earlier are kept, wherever a peak is searched for and parts of the data are put together.",
  ["inputs", "configurations"], "any number, place, width and size of such peaks of either function, levels, noise, resolutions, qualities and known peaks",
  "No test runs an extraction.",
  ["peakextraction.py", "modelcluster.py", "dataclusters.py"], [("PeakExtraction.extract_single", "peakextraction.py"), ("ModelCluster.fit", "modelcluster.py"), ("ModelCluster.join_adjacent", "modelcluster.py")], observe=["the peaks and the baseline found, what is left of the data"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
