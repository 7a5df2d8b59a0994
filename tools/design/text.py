import json
T={
"C01":"*Oracle*: an independent statement of one step (highest unclustered point, nearest cluster, extended up to it or new) and of the invariant, both proved for every step of every history. The tests cluster one data set; ties of distance and value, and points left of every cluster, are reached here.",
"C02":"*Oracle*: groups of clusters are described by index sets; adjacency and boundaries are recomputed from the definition. Histories: all cluster lists of the sizes given, every group partition including invalid ones (which must be refused without changing anything).",
"C03":"*Oracle*: the distance to a cluster by coordinate (0 inside). Ties may go either way.",
"C04":"*Oracle*: the documented formula of each function (checks/funcs.py `oracle`), independent of the code; slices, scalars, single points, fixed flags, subclasses' `cutoff`. exp stays uninterpreted: both sides must build the same argument.",
"C05":"*Oracle*: forward-mode automatic differentiation of the *value* code on symbolic inputs (`symex/ad.py`), so a Jacobian is compared with the derivative of what the same tree computes.",
"C06":"*Oracle*: documented relations of the formats (fwhm, sigma, area, height); round trips between every pair; canonical parameters give the same value function.",
"C07":"*Oracle*: G V G^T with G the automatic derivative of the format conversion; correlations and uncertainties from the definition. Not claimed: sign flips of an entry when canonicalising folds the width angle, and maps left from an earlier model on reuse of a ModelCovariance.",
"C08":"*Oracle*: value(x) after scaling = scale * value(x), with maximum's position and height unchanged; a group matches the target or is left as it was. Peaks refuse (SrMiseScalingError) exactly when no peak of the shape fits.",
"C09":"*Oracle*: lists of all/free parameters, permutations for sorting; identity of copies is checked by mutating one side.",
"C10":"*Oracle*: closed forms of AIC and AICc with k and n symbolic, comparison operators as an order.",
"C11":"Data are symbolic except in the contingent-fit scenarios (concrete data, symbolic thresholds). *Oracle*: the definition of never_fit from all points ever inside.",
"C12":"The optimiser stub decides nothing: for each outcome, either the model is at least as good by the criterion or it is the one before, bit for bit. The Gaussian scenario uses a criterion for which all models are equal.",
"C13":"*Oracle*: multiset of peak tags before/after, sortedness, data untouched.",
"C14":"Fits inside are stubs with arbitrary heights; a linear criterion lets Z3 decide sums of qualities; AIC itself in fewer scenarios. The window scenarios exceed the number of neighbours (3 on each side) that prune refits.",
"C15":"*Oracle*: the documented default of each variable, with every subset of variables given, and histories of setting data, variables and loading files.",
"C16":"*Oracle*: the sinc interpolation sum; the errors' scale squared; find_qmax with resampling and run ratio as arbitrary stand-ins, which leaves the position of the sharpest bend to be decided. Steps within rounding of the grid's end are excluded.",
"C17":"Round trips of extractions with every kind of part; corrupt texts must be refused with the documented error and leave the object unchanged. *Oracle*: equality of every variable, with numbers symbolic.",
"C18":"*Oracle*: column layout and metadata of the PDF format; copies independent.",
"C19":"Qualities are symbolic reals; classes by the definition (first member of no earlier class within tolerance); Akaike weights as ratios of exponentials (own scenarios), a linear criterion otherwise. Distinct uncertainties assumed.",
"C20":"The extraction is a stand-in, or real with stand-in fits on three points in both shapes (one hump; two humps combined last). Saved results are compared by value, function and flags.",
"C21":"The discrete Fourier transform is executed symbolically (`symex/fft.py`) for the padded lengths within reach: peaks are arbitrary values at the extended grid, so linearity decides everything. Components within 1e-6 of qmax are excluded; the default supersampling of 5 is used with pads of 16 to 256.",
"C22":"Heights come in 11 (thorough 15) patterns, every other scaled by a symbolic factor; coordinates and maximum width are symbolic. Thorough adds any three heights on a fixed grid. Fully symbolic heights *and* coordinates make the positivity queries stall.",
"C23":"`main()` is run with symbolic option values (sentinels through optparse); reading, extraction, saving and plotting are recording stand-ins, and the documented table of options is the oracle, for each option alone, in pairs, and on top of saved files. Outside: mixed zero/positive reported uncertainties, `--dg 0`, `--dg-mode absolute` without `--dg`, several baseline options at once.",
"C24":"The real extraction loop runs over the real clusters; fits, pruning, augmenting and the criterion's answers are stand-ins (their properties are C10–C14), each found peak having its own symbolic height, so that every fit's data can be decomposed: data = measured − a subset of the known peaks not in the fitted model. The PDF workflow is checked with the search as a stand-in that returns any peaks, and with arbitrary resampled grids.",
"C25":"The real plotting functions draw on a stand-in for matplotlib that records every curve per axes and a frame at each redraw; data, heights, baselines, positions, probabilities and scales are symbolic, so the obligations are equalities between the curves recorded and the model evaluated independently. Results have grids of their own, so that a model shown on another's data or baseline is told apart. Clusterings are animated after every number of steps and continued beside one that never was. Looks (colours, labels, ticks) are not covered, nor is the renderer.",
"C26":"Traces are decomposed: each of the clusters' peaks has symbolic parameters of its own, which change after the trace was stored. The search and workflow harnesses of C24 and the pruning harness of C14 are run with the tracer's functions watched. For logs, logger and handlers are stand-ins that hold symbolic levels, and the obligation is an equivalence for every message level; live plots run the real fit twice, with and without, before a stand-in optimiser with arbitrary answers. Not covered: format strings of logs.",
}
json.dump(T,open('/tmp/d/text.json','w'))
