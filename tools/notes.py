# property -> (technique, level note); executed by manifest.py
COMMON = " The specification is explored exhaustively at the bounds recorded in the evidence; for larger inputs the code is sampled (seeded by VERIF_SEED) and every recorded step is judged by TLC. Trusted: TLC, the projection of Python objects to TLA+ values, numpy/scipy."
NOTE["C01"] = (BOTH, "Every transition of the clustering machine over all small data sets is replayed into DataClusters; longer runs are validated as traces." + COMMON)
NOTE["C02"] = (BOTH, "Queries and merges on every reachable cluster configuration of small data sets are replayed; longer histories are validated as traces." + COMMON)
NOTE["C09"] = (BOTH, "Histories of pack, unpack, copy, write and compare over integer-valued parts." + COMMON)
NOTE["C10"] = (TRACE, "Histories of set, transform, lookup on exact (power-of-two scaled) matrices; real peak formats compared in fixed point with a numerical Jacobian (1e-5)." + COMMON)
NOTE["C16"] = (TRACE, "Exact integer evaluation for polynomial test functions, fixed-point comparison for built-in ones." + COMMON)
NOTE["C04"] = (TRACE, "Histories of growth, fits and failed fits with scripted optimiser, estimator and evaluator outcomes over integer-valued peaks; fits of real peaks against ranks of quality." + COMMON)
NOTE["C05"] = (TRACE, "Every trial fit of a pruning run is recorded with its quality rank; the choice and the kept model are judged by the specification." + COMMON)
NOTE["C06"] = (TRACE, "Every trial fit of an augmentation run is recorded with its quality rank; the choice and the kept model are judged by the specification." + COMMON)
NOTE["C07"] = (TRACE, "Joins of regions with exact integer-valued peaks, uncertainties and extents, refused and partial overlaps included." + COMMON)
NOTE["C08"] = (TRACE, "Histories of edits of a region's collection and extent over integer-valued peaks; a step that was not refused is judged as a whole." + COMMON)
NOTE["C11"] = (TRACE, "Evaluations in exact fixed point, comparisons by rank, probabilities in logarithms." + COMMON)
NOTE["C12"] = (TRACE, "Histories of adding, classifying, ranking, querying, saving and loading over integer-valued models with scripted statistics." + COMMON)
NOTE["C14"] = (TRACE, "Histories of data, settings, defaults and clearing on both kinds of extraction, with an estimator that reveals the points it was given." + COMMON)
NOTE["C21"] = (TRACE, "Rescaling, matching and reducing over exact test peaks (scalable, unscalable, failing) and built-in ones in fixed point." + COMMON)
NOTE["C19"] = (BOTH, "Every short history of the tracing machine is replayed into TracePeaks; longer ones with real clusters, and logging histories in processes of their own, are validated as traces." + COMMON)
NOTE["C15"] = (TRACE, "Every dependency graph and list of up to 3 (thorough: 4) functions plus larger random ones, over all built-in and test functions; text is rebuilt by the real factories and judged by the specification." + COMMON)
NOTE["C13"] = (TRACE, "Histories of save, load (into fresh and used objects), damage and save again over both kinds of extraction in every stage; objects are compared up to renumbering of functions, sharing included." + COMMON)
NOTE["C18"] = (TRACE, "Histories of read, write, copy, set, clear over texts in several header styles with damaged rows; every event carries all objects, in exact thousandths." + COMMON)
NOTE["C20"] = (TRACE, "Histories of run, select, work, save and load over two series, with scripted and a few real extractions; every event carries both series." + COMMON)
NOTE["C23"] = (TRACE, "Integer coefficients and points in exact arithmetic, built-in curves in fixed point, numerical derivatives, estimation and its refusal." + COMMON)
NOTE["C17"] = (TRACE, "Histories of creating, reading, converting along paths, evaluating and refusing, judged in fixed point with an exact table of angles; every curve's width, area and maximum is compared with the formats' claim." + COMMON)
NOTE["C24"] = (TRACE, "Runs of the command-line tool with any list of options over data with and without uncertainties, plain or saved; the settings at extraction and in the saved file are judged against the specification, options without meaning must end the run. The extraction itself is replaced by a recorder; defaults of untouched settings come from an extraction set up without the tool (C14 judges those)." + COMMON)
NOTE["C03"] = (TRACE, "Every step of the growth of regions in real extractions (nested ones included) is recorded through the tracer and judged against the clustering machine; histories of extracting, fitting, estimating and adding on one object are judged as a whole." + COMMON)
NOTE["C22"] = (TRACE, "Resampling on exact grids against the interpolation defined in the specification; real PDF extractions and fits judged for grid, functions, kept peaks, inputs and covariance; the descent to the Nyquist grid is model checked." + COMMON)
NOTE["C25"] = (TRACE, "Histories of results made, cleared, edited and summarised over graphs of functions with exactly known positions, widths and areas, plus real extractions, saved ones and selections from series; the text is read back and judged against the result by the specification." + COMMON)
NOTE["C26"] = (TRACE, "Figures of integer-coefficient models drawn by every plotting function without a display; lines, polygons, limits and texts are read back from the figure and judged by the specification; frames of animations are read whenever the figure is shown." + COMMON)
NOTE["C27"] = (TRACE, "Guesses from data whose ends and lowest value are powers of two below the highest (the width is then a sum of distances over square roots), all data of up to four points exhaustively." + COMMON)
NOTE["C28"] = (TRACE, "Harmonics of periodic signals in fixed point (1e-4); values against a quadrature of the convolution (4 % of the height, typically met to 0.2 %); grids in steps." + COMMON)
NOTE["C29"] = (TRACE, "Settings and results are compared as digests of every number in full; breaks are raised in a peak function or an optimisation at a random evaluation." + COMMON)
NOTE["C30"] = (TRACE, "The optimiser is replayed: it optimises in the first telling and gives the same optimum, converted, in the others, so that starts and decisions are compared free of how far an optimisation converges; qualities equal to a billionth compare as equal; a telling that differs is left out if noise in the last digits of the data changes the run as well (counted in the evidence)." + COMMON)
NOTE["C31"] = (TRACE, "Ratios of integer sequences are exact; the ratios of a spectrum are computed by definition in double precision and the choice of the step is judged by the specification in fixed point (1e-7 of the greatest ratio, 2e-6 tolerance)." + COMMON)
NOTE["C32"] = (TRACE, "Whether the right peak is found is judged for separate peaks eight uncertainties high, near their position; what happens to everything else is judged for every question." + COMMON)
NOTE["C33"] = (TRACE, "Objects are compared by the values of all their attributes and by which functions they share, not by identity; the time of writing in a file is left out; interruptions by the system in the middle of writing a file are not covered." + COMMON)
NOTE["C34"] = (TRACE, "Only peaks a width and a half apart with little noise (a tenth or a fifth of the stated uncertainty) and higher than three uncertainties are judged: the search is a heuristic and gives no guarantee for peaks which overlap more. Places within 0.1, widths and areas within a third." + COMMON)
