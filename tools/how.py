"""How each monitor decides, for DESIGN.md."""
HOW = {
"M01": "Every parameter of every class is varied by a step in both directions and the points that really moved are compared with the reported derivative; histories (targets set, parameters written, evaluation points overwritten or changed) precede and follow each question so that a cached derivative that lags is seen. About 7 s.",
"M02": "Points inside triangles, on edges and at vertices are told apart by an independent barycentric computation. About 5 s.",
"M03": "A history is a drawn sequence of operations; after each the source's image, target, parameters and model instance must coincide. First order agreement is the ratio of the errors of two step sizes. Tangent projections are recomputed by least squares.",
"M04": "Means, components, weights and pose are read from the model and its target recomputed; orthonormality and span of the similarity basis are checked for every truncation.",
"M05": "Batch runs against increments; increments against an incremental decomposition of independently prepared data, with models moved by other work in between; exact families against training on everything; poses of later batches must not distort the model; inputs compared with snapshots.",
"M06": "Probe algorithms record the image and shape they are given; the image's pixels are its own coordinates, so a wrong map is read off directly. For trained fitters the calls of their real per-scale algorithms are recorded and chained.",
"M07": "Deep snapshots (pixels, masks, dtypes, landmark groups, graphs, options) around calls that succeed and calls made to fail at a drawn point; afterwards what was passed in and what was handed out is overwritten and the fit repeated.",
"M08": "A fork answers for the fitter that has done nothing else; every later answer after a drawn sequence of other fits, failures and queries must equal it bit for bit.",
"M09": "The iterates of a run with a longer budget begin with those of the shorter one; runs that stop early must have moved less than the tolerance, runs that did not stop must not have.",
"M10": "An executable model of a result (plain lists) is built beside the real one; for real fits the calls at the per-scale algorithms are recorded and the result compared with them.",
"M11": "Images are rendered analytically under the drawn warp, so the true warp is known; costs and updates are recomputed from the warped image at the reported parameters for every algorithm and residual.",
"M12": "Costs, appearance parameters, reconstructions, warped images and the Gauss-Newton step of all algorithms (project-out, simultaneous, alternating, modified alternating, Wiberg; forward, inverse, bidirectional) are recomputed from the reported parameters.",
"M13": "As M12 for template models; templates are compared with an independent warp at every scale.",
"M14": "Filters, responses, probabilities, both update steps recomputed; peaks at known offsets; short fits.",
"M15": "Solutions, predictions and increments against numpy's least squares, singular value decompositions and the stationarity conditions of the stated problems.",
"M16": "A recording regressor notes what each level was trained with; each training sample is replayed through the trained cascade, each level trained anew from its definition, and the perturbations and boxes counted.",
"M17": "Block structure, inverse covariances, costs and Gauss-Newton steps recomputed in numpy for drawn graphs.",
"M18": "Parameters of the random transforms are estimated from thousands of draws and compared with the stated distribution; single draws are replayed; alignment is recomputed.",
"M19": "The documented expansion rules are an executable specification; per-scale models are compared with single scale models trained with that value alone; wrong values must raise.",
"M20": "All metrics recomputed; index tables of the markups are an independent copy.",
"M21": "Curves, areas, rates, tables and figures recomputed from the samples; arguments compared with snapshots.",
"M22": "An independent pipeline normalises, describes, rescales, warps and decomposes the same images.",
"M23": "scipy's direct convolution and the normal equations of the filters.",
"M24": "Faults are injected at drawn bytes of a download by a loopback server, by interruption and by killing the client; a watcher records each state of the target. Fitters saved in every container are replayed against the original, in this and in fresh interpreters.",
"M25": "What the learner is given is recorded at dlib's interface and compared with independently computed shapes, boxes and pixels; ensembles are applied by hand.",
"M26": "Both parts against separately trained models, costs and updates recomputed.",
"M27": "Noise is written into the warped pixels that are neither sampled nor next to a sampled one, through hooked warps: nothing may change; and into sampled ones: the cost must.",
"M28": "Two executions on the same data in different guises, bit for bit; standard output is captured.",
"M29": "Two executions in mirrored worlds, compared iterate by iterate.",
"M30": "Artists are read back from the axes; statements printed are parsed.",
}
