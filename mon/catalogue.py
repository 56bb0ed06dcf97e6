"""The properties: one entry each, and the generator of properties.jsonl and
MANIFEST.json.    python -m mon.catalogue"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=["menpofit/" + f for f in files],
                  mech=[{"name": n, "where": "menpofit/" + w} for n, w in mech],
                  technique=technique, note=note, observe=observe, state=state))


T_ONLY = ("the suite only runs four transform test files on one or two fixed "
          "shapes each; nothing below the transforms is executed")

prop("M01", "Parameter derivatives of warps and shape models are correct",
     "The derivative of the transformed points with respect to every parameter "
     "that a transform, a statistical shape model or a model driven warp "
     "reports equals the rate at which those points really move when that "
     "parameter is varied, whatever its current state and history of updates. "
     "For the global pose parameters of model based warps the derivative is "
     "the one at zero shape weights; for the shape weights it holds under any "
     "global rotation, scale and translation. Asking for a derivative changes "
     "neither the object nor the points it was asked at, and the answer never "
     "lags behind later changes of target, parameters or evaluation points.",
     ["inputs", "histories"],
     "all 2D/3D affine and 2D similarity transforms, shape models and model "
     "driven warps, poses, truncations, points and update histories",
     T_ONLY,
     ["transform/homogeneous.py", "transform/modeldriven.py",
      "modelinstance.py", "transform/piecewiseaffine.py",
      "transform/thinsplatesplines.py"],
     [("homogeneous d_dp", "transform/homogeneous.py"),
      ("ModelDrivenTransform.d_dp and its cached dW/dx", "transform/modeldriven.py"),
      ("GlobalPDM._similarity/_global d_dp chain rule", "modelinstance.py")],
     "runtime oracle: central differences of the observed warp",
     "Finite differences of the real apply() in double precision are trusted "
     "as the derivative (relative tolerance 2e-5).")

prop("M02", "Spatial and landmark derivatives of warps are correct",
     "The derivative with respect to the spatial coordinates that a transform "
     "or a radial basis function reports equals the rate at which its output "
     "really moves when the input point moves (piecewise affine warps report "
     "the identity by convention), and the derivative with respect to the "
     "landmarks equals the rate at which the output moves when a target "
     "landmark moves. For piecewise affine warps the landmark derivatives are "
     "the barycentric weights of the enclosing triangle, so they are "
     "non-negative and sum to one for every point inside the mesh.",
     ["inputs", "configurations"],
     "all transforms with spatial or landmark derivatives, all radial basis "
     "kernels, all landmark configurations and interior points",
     T_ONLY,
     ["transform/homogeneous.py", "transform/piecewiseaffine.py",
      "transform/thinsplatesplines.py", "transform/rbf.py"],
     [("d_dx / d_dl of each transform", "transform")],
     "runtime oracle: central differences and barycentric weights",
     "Finite differences of the real apply() are trusted; radial kernels are "
     "not evaluated within 1e-2 of a centre.")

prop("M03", "Warps follow their targets and compose as transforms do",
     "Setting a target on a model driven warp projects it onto the model: the "
     "warp then sends its source landmarks exactly to the target it reports, "
     "which is the model's instance for the reported parameters, and reading "
     "the parameters and writing them back changes nothing. Composing with a "
     "parameter increment is the composition of the two maps - exactly for "
     "affine and similarity transforms, to first order for model driven warps "
     "- and composing with the zero increment changes nothing. The inverse a "
     "warp reports is the negated parameters if it is driven by a model and "
     "the parameters of the inverse map if it is linear, so composing with "
     "it returns the identity to the same order.",
     ["inputs", "histories"],
     "all transform classes, poses, targets, increments and sequences of "
     "updates", T_ONLY,
     ["transform/homogeneous.py", "transform/modeldriven.py",
      "modelinstance.py", "transform/thinsplatesplines.py",
      "transform/piecewiseaffine.py"],
     [("_compose_after_from_vector_inplace", "transform/modeldriven.py"),
      ("_sync_state_from_target", "transform/modeldriven.py"),
      ("pseudoinverse_vector", "transform")],
     "runtime oracle: composed maps vs applied maps, order of convergence",
     "First order agreement is decided by the ratio of the errors at two step "
     "sizes.")

prop("M04", "Shape models are orthonormal parameterisations of shapes",
     "The target of a shape model is always the instance its parameters "
     "describe: mean plus weighted components, followed by its global "
     "transform where it has one. Setting parameters and reading them back is "
     "lossless, setting a target that the model can express reproduces that "
     "target, and setting any target is a projection (doing it again changes "
     "nothing). A shape model with an orthonormal similarity basis keeps its "
     "complete basis orthonormal, spans exactly the similarities of its mean, "
     "and "
     "sends a requested target to its least squares projection, pose first "
     "(of the mean) and shape weights under that pose, for any number of "
     "active components.",
     ["inputs", "histories", "configurations"],
     "all shape model classes, training sets, truncations, targets and "
     "parameter vectors", T_ONLY,
     ["modelinstance.py"],
     [("set_target / _from_vector_inplace", "modelinstance.py"),
      ("orthonormalisation against the similarity basis", "modelinstance.py")],
     "runtime oracle: linear algebra recomputed from the observed model",
     "Projections are recomputed with numpy least squares.")

prop("M05", "Training in batches and incrementing agree with training at once",
     "Training a model or a fitter with a batch size gives what training it on "
     "the first batch and then incrementing it with each further batch gives, "
     "at every scale. Where the incremental update is exact (principal "
     "component models that keep all components, Gaussian appearance models, "
     "linear regressors, correlation filters) incrementing also gives the "
     "same model as training on all the samples together, with the same "
     "sample counts. Incrementing never disturbs the data it is given.",
     ["histories", "inputs", "configurations"],
     "all incrementable models, numbers and sizes of batches, training sets",
     "no test trains or increments any model",
     ["modelinstance.py", "aam/base.py", "atm/base.py", "clm/base.py",
      "aps/base.py", "math/regression.py", "clm/expert/ensemble.py",
      "math/correlationfilter.py", "sdm/fitter.py", "unified_aam_clm/base.py"],
     [("increment / batch loop of each model", "aam/base.py")],
     "runtime oracle: differential, batch run vs incremental run",
     "Batch and incremental runs are compared through the statistics a user "
     "can query (means, eigenvalues, instances, predictions).")

prop("M06", "Every scale of a fit works in the coordinates of the image given",
     "Whatever the reference size, the scales, the resampling features and "
     "their sharing between scales, a multi-scale fitter hands each scale an "
     "image and an initial shape that correspond: sampling the image at the "
     "shape reads the content found at the same landmarks of the original "
     "image. Each scale starts from the shape where the previous one ended, "
     "and the initial, intermediate, final and ground truth shapes reported "
     "by the result are in the coordinates of the original image. The fitter "
     "visits the scales in the given order, coarse to fine, each once.",
     ["configurations", "inputs"],
     "all numbers and values of scales, diagonals, feature functions per "
     "scale (including ones that change the resolution), initial shapes",
     "no test constructs a fitter",
     ["fitter.py", "base.py", "result.py"],
     [("_prepare_image / _fit", "fitter.py"),
      ("affine and scale transforms between scales", "fitter.py"),
      ("to original coordinates", "result.py")],
     "runtime monitor: probe algorithms on coordinate-encoding images",
     "The probe image stores its own coordinates as pixel values, so a wrong "
     "mapping is read directly; tolerance covers interpolation.",
     observe=["the algorithm object run at each scale"])

prop("M07", "Training and fitting leave the caller's data untouched",
     "Training, incrementing and fitting never change what the caller passes "
     "in: pixels, masks, dtype and landmark groups of images, initial and "
     "ground truth shapes, bounding boxes, graphs and option lists come back "
     "exactly as they were, whether the call succeeds or raises. Trained fitters, results of fits "
     "and instances generated by models are not aliased to the caller's data "
     "or to each other: overwriting what was passed in or handed out changes "
     "neither the other side nor later fits.",
     ["inputs", "configurations", "histories"],
     "all fitters and models, image classes and dtypes, options, successful "
     "and failing calls",
     "no test trains or fits anything",
     ["fitter.py", "builder.py", "aam/base.py", "atm/base.py", "clm/base.py",
      "aps/base.py", "sdm/fitter.py", "dlib/fitter.py", "lk/fitter.py",
      "unified_aam_clm/base.py", "checks.py"],
     [("copies made while preparing images", "fitter.py"),
      ("rescaling of training images", "builder.py")],
     "runtime monitor: deep snapshots of every argument around the call",
     "Snapshots compare pixels, masks, dtypes, landmark groups and option "
     "containers bit for bit.")

prop("M08", "Fits are deterministic and do not depend on earlier fits",
     "Fitting the same image from the same initial shape with the same "
     "options gives bit for bit the same shapes, parameters and costs "
     "however many other fits, on other images or with other options, the "
     "same fitter has carried out in between. Fits that raise do not disturb "
     "later ones either, and a copy of the fitter, or one retrained from the "
     "same data and random state, gives the same answers.",
     ["histories"],
     "all fitters, sequences of fits with varying images, initialisations, "
     "iteration budgets and algorithm options",
     "no test fits anything, let alone twice",
     ["aam/algorithm/lk.py", "aam/algorithm/sd.py", "atm/algorithm.py",
      "lk/algorithm.py", "lk/residual.py", "clm/algorithm/gd.py",
      "aps/algorithm/gn.py", "unified_aam_clm/algorithm.py",
      "sdm/algorithm/base.py", "fitter.py"],
     [("precomputed and cached terms of each algorithm", "aam/algorithm/lk.py")],
     "runtime monitor: replayed fits compared bit for bit across histories",
     "Bitwise comparison; single-threaded linear algebra.")

prop("M09", "Iteration budgets are respected and convergence is honoured",
     "A fit never performs more iterations than it was given: an integer "
     "budget is shared over the scales in proportion to the reciprocal "
     "number of scales (rounded), a list gives each scale its own budget, "
     "and fits with cascaded regressors perform exactly one iteration per "
     "regressor. Iterative fits stop before the budget only once the "
     "parameters or shapes stopped moving by more than the tolerance, so a "
     "longer budget extends the same trajectory: the iterates of the "
     "shorter run are the first iterates of the longer one.",
     ["inputs", "configurations"],
     "all iterative fitters, budgets (integers, lists, zero), scales and "
     "initialisations",
     "no test runs an iterative fit",
     ["checks.py", "fitter.py", "aam/algorithm/lk.py", "atm/algorithm.py",
      "lk/algorithm.py", "clm/algorithm/gd.py", "aps/algorithm/gn.py",
      "unified_aam_clm/algorithm.py", "sdm/algorithm/base.py"],
     [("check_max_iters", "checks.py"),
      ("while k < max_iters and eps > self.eps", "lk/algorithm.py")],
     "runtime monitor: iteration trace checker over recorded fits",
     "Prefix comparison is to 1e-9; budgets are observed from the recorded "
     "trajectories, not from counters alone.")

prop("M10", "Fitting results report the trajectory that was computed",
     "A fitting result contains every shape of the fit once and in order: it "
     "starts with the initial shape given, ends with the final shape, its "
     "number of iterations is the number of optimisation steps recorded, and "
     "the per-scale parts concatenate to the whole. Costs, shape parameters "
     "and appearance parameters, where the method reports them, are aligned "
     "with the iterations they belong to. Errors, displacements and their "
     "statistics are the defined functions of those shapes and the ground "
     "truth, and reductions of the reported images or shapes never change "
     "the result itself.",
     ["configurations", "inputs", "histories"],
     "all result classes, numbers of scales, presence of ground truth, "
     "initial shapes, images and costs",
     "no test constructs a result",
     ["result.py", "aam/result.py", "aps/result.py", "lk/result.py",
      "unified_aam_clm/result.py"],
     [("assembly of multi-scale results", "result.py")],
     "runtime oracle: executable model of a result built alongside",
     "Results are both produced by real fits and constructed from generated "
     "trajectories whose content is known.")

prop("M11", "Lucas-Kanade alignment recovers the warp and reports true costs",
     "Starting within its basin of attraction on an image that contains the "
     "template under a warp of its family, every Lucas-Kanade algorithm with "
     "every residual converges to that warp within a fraction of a pixel. "
     "Residuals that are equivalent by definition behave identically: Fourier "
     "SSD equals SSD, filtering with a kernel equals aligning filtered images, "
     "and ECC and the gradient residuals ignore gain and bias. The reported "
     "cost is the residual between the warped image and the template at that "
     "iterate, and each SSD update is the Gauss-Newton step for it.",
     ["inputs", "configurations"],
     "all algorithms, residuals, transforms, kernels, channels, templates "
     "and warps within the basin",
     "no test runs Lucas-Kanade alignment",
     ["lk/algorithm.py", "lk/residual.py", "lk/fitter.py", "lk/result.py",
      "math/fft_utils.py"],
     [("steepest descent images, Hessian, update rule", "lk/algorithm.py"),
      ("residuals", "lk/residual.py")],
     "runtime oracle: known ground-truth warps; differential residuals",
     "Templates are smooth random images; convergence is required only from "
     "starts no worse than 2.5 px where the methods are known to converge.")

prop("M12", "Active appearance model fitting minimises the reported residual",
     "Fitting an active appearance model to an image synthesised from that "
     "model recovers the shape it was synthesised with, for every "
     "optimisation algorithm and every kind of model, from small "
     "displacements. The reported costs are the reconstruction error of the "
     "warped image at each iterate as the algorithm defines it (on the full "
     "residual or on the part outside the appearance subspace), each update is "
     "the Gauss-Newton step for it, regularised by the priors of the model "
     "when inference is a posteriori, and the reported appearance parameters "
     "reproduce the reported reconstructions.",
     ["inputs", "configurations"],
     "all model kinds, algorithms, numbers of components, initialisations",
     "no test trains or fits an appearance model",
     ["aam/algorithm/lk.py", "aam/algorithm/sd.py", "aam/fitter.py",
      "aam/base.py", "aam/result.py"],
     [("project-out / alternating / simultaneous / Wiberg updates",
       "aam/algorithm/lk.py")],
     "runtime oracle: synthesised images with known parameters; recomputed costs",
     "Recovery thresholds were calibrated on the unchanged code with margin.")

prop("M13", "Active template model fitting aligns the template",
     "A template model stores, at each scale, exactly the template image "
     "warped to its reference frame (or sampled in patches). Fitting it to an "
     "image showing the template under an instance of its shape model "
     "recovers that instance from small displacements with every algorithm "
     "and model kind. The reported costs are the squared difference between "
     "the warped image and the template at each iterate, and each update is "
     "the Gauss-Newton step for it, regularised by the prior of the shape "
     "model when inference is a posteriori.",
     ["inputs", "configurations"],
     "all template model kinds, algorithms, scales, templates and targets",
     "no test trains or fits a template model",
     ["atm/base.py", "atm/algorithm.py", "atm/fitter.py", "atm/result.py"],
     [("template warping", "atm/base.py"), ("update rule", "atm/algorithm.py")],
     "runtime oracle: independent warping and recomputed costs",
     "Recovery thresholds were calibrated on the unchanged code with margin.")

prop("M14", "Constrained local models find landmarks by their local experts",
     "An expert trained on a landmark responds, on an image containing the "
     "trained appearance, with its maximum at that landmark, and its response "
     "maps cover the search neighbourhood centred on the current landmark in "
     "row and column order. Probability maps are non-negative and sum to one. "
     "Fits move towards the landmarks: from small displacements, both "
     "active shape search and regularised mean shift recover a training "
     "shape up to what the shape model expresses, and the recovered shape is "
     "always an instance of the shape model.",
     ["inputs", "configurations"],
     "all expert ensembles and filters, patch and context shapes, offsets, "
     "channels, initial displacements",
     "no test trains an expert",
     ["clm/expert/base.py", "clm/expert/ensemble.py", "clm/algorithm/gd.py",
      "clm/base.py", "clm/fitter.py", "unified_aam_clm/algorithm.py"],
     [("predict_response / predict_probability", "clm/expert/ensemble.py"),
      ("mean shift and weighted projection", "clm/algorithm/gd.py")],
     "runtime oracle: planted landmarks, reference mean shift",
     "Textures have one distinctive blob per landmark.")

prop("M15", "Regressors solve the least squares problems they are named for",
     "Each regressor's coefficients are those of its definition on the "
     "training data: ridge regression minimises the regularised squared "
     "error with or without a bias term, indirect regression inverts the "
     "regularised forward map, principal component regression is least squares "
     "in the leading components, optimal regression minimises the error of "
     "the reconstructed output, orthogonal Procrustes regression returns the "
     "best (semi-)orthogonal map. Prediction is the linear map of those "
     "coefficients (plus bias), exact on noiseless linear data, and "
     "incremental updates equal the solution on all the samples.",
     ["inputs", "histories"],
     "all regressors, sample sizes, dimensions, regularisation strengths, "
     "bias options, and splits into increments",
     "no test trains a regressor",
     ["math/regression.py"],
     [("IRLRegression / IIRLRegression / PCRRegression / "
       "OptimalLinearRegression / OPPRegression", "math/regression.py")],
     "runtime oracle: reference solvers in numpy",
     "Numpy's least squares and SVD are trusted.")

prop("M16", "Cascaded regression applies what it was trained with",
     "A cascade of regressors reads features and applies its predictions in "
     "the same way when fitting as when training: replaying the cascade on a "
     "training image from a training perturbation gives the same sequence of "
     "shapes that training produced. Every requested perturbation around "
     "every bounding box of every image takes part in the training of every "
     "level and scale, the regression targets are the displacements from the "
     "current estimates to the ground truth in that scale's coordinates, and "
     "noiseless training data is fitted to its landmarks.",
     ["inputs", "configurations"],
     "all cascade algorithms, perturbation counts, bounding box groups, "
     "scales, features, regressors",
     "no test trains a cascade",
     ["sdm/fitter.py", "sdm/algorithm/base.py", "sdm/algorithm/nonparametric.py",
      "sdm/algorithm/parametricshape.py",
      "sdm/algorithm/parametricappearance.py",
      "sdm/algorithm/fullyparametric.py", "aam/algorithm/sd.py"],
     [("training loop over scales and perturbations", "sdm/fitter.py"),
      ("features and updates of each level", "sdm/algorithm/base.py")],
     "runtime monitor: recording regressors, trace comparison of train and test",
     "Recording regressors are injected through the public algorithm options.")

prop("M17", "Pictorial structure models encode their graphs faithfully",
     "The precision matrices of a pictorial structure model are those of the "
     "Gaussian Markov random field over the graphs it was given: blocks "
     "exist only for the edges and vertices of the graph, and with complete "
     "data equal the inverse covariances of the training data. The "
     "deformation model charges zero for the mean shape and never a negative "
     "cost, and the model combines shape, appearance and deformation of the "
     "same scale. Gauss-Newton fits take the step that minimises the "
     "linearised appearance and deformation costs, report the costs of the "
     "shapes they report, and approach the landmarks from nearby.",
     ["inputs", "configurations"],
     "all appearance and deformation graphs, root vertices, patch shapes, "
     "component counts, scales",
     "no test trains a pictorial structure",
     ["aps/base.py", "aps/algorithm/gn.py", "aps/fitter.py", "aps/result.py"],
     [("Gaussian models over graphs", "aps/base.py"),
      ("Gauss-Newton updates", "aps/algorithm/gn.py")],
     "runtime oracle: Gaussian graphical models recomputed in numpy",
     "menpo's image gradient, resizing and patch extraction are trusted.")

prop("M18", "Perturbations have the requested distribution and alignment",
     "Noisy initialisations are the given shape under a random transform of "
     "the requested family, with the requested kind, size and independence "
     "of noise on scale, rotation and translation, and no noise gives exactly "
     "the alignment to the bounding box. Aligning a shape to a bounding box "
     "makes its own bounding box match it in centre, and in size and "
     "orientation as far as the chosen transform and the rotation option "
     "allow. Generators of perturbed initialisations store the requested "
     "number of perturbations for every image and bounding box, and replaying "
     "the random state reproduces them.",
     ["inputs", "configurations", "histories"],
     "all noise kinds, percentages (scalar, per-axis), transforms, boxes, "
     "shapes, group patterns",
     "no test perturbs a shape",
     ["fitter.py", "checks.py"],
     [("noisy_shape_from_bounding_box and relatives", "fitter.py"),
      ("generate_perturbations_from_gt", "fitter.py"),
      ("align_shape_with_bounding_box", "fitter.py")],
     "runtime oracle: sample statistics and replayed random states",
     "Statistical limits are set at false alarm probabilities below 1e-9.")

prop("M19", "Options are expanded per scale or rejected",
     "An option given once applies to every scale (iteration budgets given "
     "once are shared over the scales), an option given as a "
     "sequence with one entry per scale applies entry by entry in the order "
     "of the scales, and a sequence of any other length, or a value of a "
     "wrong type or range, is rejected with an error at construction rather "
     "than accepted silently. Expanding options has no effect on the value "
     "passed in, and the models and fitters report back the options they "
     "were given.",
     ["inputs", "configurations"],
     "all options of all constructors: diagonals, features, scales, patch "
     "and context shapes, component counts, budgets, algorithms, samplings, "
     "graphs, landmark trilists",
     "no test exercises an option",
     ["checks.py", "fitter.py", "aam/base.py", "aam/fitter.py", "atm/base.py",
      "clm/base.py", "aps/base.py", "sdm/fitter.py", "dlib/fitter.py",
      "lk/fitter.py", "unified_aam_clm/base.py"],
     [("check_* helpers", "checks.py")],
     "runtime oracle: executable specification of option expansion",
     "The specification is written from the documented option rules.")

prop("M20", "Error metrics are the metrics they are named after",
     "Each error between a fitted and a ground truth shape equals its "
     "definition: the root mean square of the "
     "coordinate differences or the mean point-to-point distance, optionally divided by the named normaliser "
     "(bounding box sides, area, perimeter, diagonal, a distance between two "
     "landmarks or between two landmark centroids of the stated markup). "
     "Errors are zero exactly for equal shapes, never negative, and "
     "normalised errors do not change when both shapes are "
     "translated or "
     "scaled together (area normalised ones scale inversely). Metrics of a sub-markup "
     "are the metric on exactly the landmarks of that sub-markup, and metrics of a stated "
     "markup reject shapes of a wrong size.",
     ["inputs", "configurations"],
     "all metrics, shapes, markups, normalisers",
     "no test evaluates an error",
     ["error/base.py", "error/human/face.py"],
     [("metrics and normalisers", "error/base.py"),
      ("markup index tables", "error/human/face.py")],
     "runtime oracle: definitions recomputed in numpy",
     "Markup tables are checked against an independent copy of the public "
     "68/51/49/66 markup definitions.")

prop("M21", "Error statistics and tables summarise the errors given",
     "The cumulative error distribution gives, at each threshold, the "
     "fraction of errors not larger than it, so it is non-decreasing and "
     "between zero and one; the area under the curve and the failure rate are "
     "its normalised area and the fraction of errors above the threshold. "
     "Tables and plots of several methods report, for each method, the "
     "statistics of its own errors in the given order, whatever the container "
     "the errors come in, and never change the arguments.",
     ["inputs", "configurations"],
     "all error samples, thresholds, steps, ranges, container types, numbers "
     "of methods",
     "no test computes a statistic",
     ["error/stats.py", "visualize/base.py", "visualize/textutils.py"],
     [("CED, AUC, failure rate", "error/stats.py"),
      ("statistics_table, plot_cumulative_error_distribution",
       "visualize/base.py")],
     "runtime oracle: statistics recomputed from the samples",
     "Areas are compared with exact integrals of the step curve up to the "
     "discretisation step.")

prop("M22", "Models are built from the data, scales and components requested",
     "A trained model has one shape and appearance model per scale, in the "
     "order of the scales, built from all the training images: the reference "
     "shape has the requested diagonal, images are normalised to it, the "
     "coarser scales are rescaled versions of the same data, and the number "
     "of components retained is the number, or the smallest number keeping "
     "the variance ratio, that was requested. Instances generated by a model "
     "are its mean plus the given weights times the standard deviations of "
     "its components, for shape and appearance alike, at the scale requested, "
     "and zero weights give the mean.",
     ["inputs", "configurations"],
     "all model kinds, scales, diagonals, component requests, weights",
     "no test trains a model",
     ["builder.py", "aam/base.py", "atm/base.py", "clm/base.py",
      "aps/base.py", "unified_aam_clm/base.py", "modelinstance.py"],
     [("normalisation and rescaling", "builder.py"),
      ("instance / random_instance", "aam/base.py")],
     "runtime oracle: models rebuilt with numpy/menpo primitives",
     "menpo's PCA and warping primitives are trusted.")

prop("M23", "Frequency domain filtering equals spatial filtering",
     "Convolution and correlation through the Fourier transform equal direct "
     "spatial convolution and correlation in every mode and boundary, "
     "padding and cropping keep the image centred and are inverse to each "
     "other, and computations on two- and multi-channel data treat each "
     "channel alike. The minimum output sum of squared errors and "
     "multi-channel correlation filters solve the regularised least squares "
     "problems that define them: applied to their training data they give "
     "the desired response, and training them incrementally gives the "
     "filter trained on everything.",
     ["inputs", "configurations"],
     "all image and kernel sizes (odd, even), channels, modes, boundaries, "
     "regularisations",
     "no test convolves anything",
     ["math/fft_utils.py", "math/correlationfilter.py", "base.py"],
     [("pad, crop, fft_convolve2d", "math/fft_utils.py"),
      ("mosse, mccf and their incremental forms", "math/correlationfilter.py")],
     "runtime oracle: scipy direct convolution, normal equations",
     "scipy.signal and numpy.linalg are trusted.")

prop("M24", "Saved fitters load back as the fitters that were saved",
     "A fitter or model that is pickled and loaded, directly or through the "
     "lazy wrappers, gives the same results as the original, and a wrapper "
     "builds what it describes each time it is called without being "
     "changed by the call. A download is atomic: whatever "
     "interrupts it, the target file is complete or as it was before, "
     "a file that cannot be loaded is rejected and removed, and a later "
     "attempt succeeds.",
    ["inputs", "fault_sequences", "crash_points"],
     "all fitters and models, pickle protocols and containers, "
     "interruptions at any byte of a download, corrupt and truncated "
     "payloads, concurrent processes",
     "no test saves, loads or downloads",
     ["io.py", "aam/pretrained.py", "base.py"],
     [("PickleWrappedFitter, image_greyscale_crop_preprocess", "io.py"),
      ("download_file, load_fitter", "io.py")],
     "runtime monitor: loopback server with injected faults, replayed fits",
     "Runs entirely on loopback and scratch directories.")

prop("M25", "Regression tree ensembles see and return menpo coordinates",
     "Shapes, boxes and images handed to and received from the tree "
     "ensemble learner are converted faithfully: points and boxes survive "
     "the round trip (boxes up to integer rounding), rows and columns are "
     "never exchanged, and images reach it as 8-bit pixels. The fitter "
     "trains every scale on every image and bounding box "
     "with the options requested, refits its training images close to their "
     "landmarks, and reports shapes in the coordinates of the image.",
     ["inputs", "configurations"],
     "all shapes, boxes, image types, scales, perturbation counts, options",
     "no test converts or trains",
     ["dlib/conversion.py", "dlib/algorithm.py", "dlib/fitter.py"],
     [("conversion functions", "dlib/conversion.py"),
      ("training data preparation", "dlib/fitter.py")],
     "runtime oracle: round trips and refits",
     "dlib itself is trusted.")

prop("M26", "Unified holistic and local fitting combines both its parts",
     "The unified model's holistic part is the appearance model, and its "
     "local part the ensemble of experts, that would be trained on the same "
     "data separately, at every scale. Fits recover training shapes from "
     "small displacements, every fitted shape is an instance of the shape "
     "model, appearance reconstructions come from the appearance model, and "
     "the report lists one entry per iteration and scale.",
     ["inputs", "configurations"],
     "all algorithms, scales, component counts, patch shapes",
     "no test trains a unified model",
     ["unified_aam_clm/base.py", "unified_aam_clm/algorithm.py",
      "unified_aam_clm/fitter.py", "unified_aam_clm/result.py"],
     [("joint training", "unified_aam_clm/base.py"),
      ("joint updates", "unified_aam_clm/algorithm.py")],
     "runtime oracle: differential against separately trained models",
     "The separately trained models are trusted through M05, M14 and M22.")

prop("M27", "Sub-sampling looks at the sampled pixels and only at them",
     "A fitter given a sampling (a step, positions, a boolean mask, or one of "
     "these per scale) computes its costs and every update from the sampled "
     "pixels of that scale only: whatever the warped image holds at pixels "
     "that are neither sampled nor next to a sampled one leaves the fit "
     "unchanged, while changing sampled pixels changes the cost. The same "
     "sampling said in different ways gives the same fit, and a sampling that "
     "takes everything gives the fit without sampling. The ready-made "
     "samplings of holistic AAMs return positions and a mask image which "
     "denote the same pixels of the reference, on a grid of the asked density.",
     ["inputs", "configurations"],
     "all AAM, ATM, pictorial structure and unified fitters, samplings, "
     "scales, images and starts",
     "no test builds a fitter with a sampling",
     ["aam/algorithm/lk.py", "aam/fitter.py", "atm/algorithm.py",
      "aps/algorithm/gn.py", "unified_aam_clm/algorithm.py", "checks.py"],
     [("holistic and patch sampling masks", "aam/algorithm/lk.py"),
      ("patch sampling masks", "aps/algorithm/gn.py"),
      ("ready-made samplings", "aam/fitter.py")],
     "runtime monitor: non-interference of unsampled pixels under hooked "
     "warps, and equality of fits whose samplings are equal",
     "Divergent fits decide nothing past the point where they leave the "
     "image.")

prop("M28", "Training and fitting depend on the data, not its presentation",
     "A fitter does not depend on how its training data are held (list, tuple "
     "or lazily loaded list), on the name of their landmark group or on other "
     "groups beside it, on connectivity of the shapes, on all-true masks or "
     "on being asked to report progress; and the models that are built in one "
     "batch do not depend on the order of their training images beyond "
     "rounding. A fit does not depend on masks, memory layout, other landmark "
     "groups or connectivity of the start, nor on being told the ground truth "
     "or asked for costs. Nothing is printed unless asked for, and something "
     "is when it is.",
     ["inputs", "configurations"],
     "all trainable fitters, configurations, data sets and guises",
     "the tests neither train nor fit anything",
     ["builder.py", "fitter.py", "aam/base.py", "atm/base.py", "clm/base.py",
      "aps/base.py", "sdm/fitter.py", "dlib/fitter.py",
      "unified_aam_clm/base.py", "visualize/textutils.py"],
     [("image and shape preparation", "builder.py"),
      ("training loops", "aam/base.py"),
      ("progress reports", "visualize/textutils.py")],
     "runtime oracle: two executions on the same data in different guises "
     "compared iterate by iterate",
     "Trusts that reading an image twice gives the same pixels.")

prop("M29", "Axes, channels and landmarks are interchangeable",
     "No axis, channel or landmark is special: a fitter trained on images "
     "whose rows and columns are swapped (together with the landmarks and all "
     "sizes it is given), whose channels are reordered or whose landmarks are "
     "reordered does in that mirror world, iteration by iteration, what the "
     "original does.",
     ["inputs", "configurations"],
     "all trainable fitters that draw nothing at random, configurations and "
     "data sets; gradient residuals, frames of masked patches and singular "
     "regressions excepted where mirrored arithmetic differs by design",
     "the tests neither train nor fit anything, and their transforms are "
     "nearly symmetric",
     ["aam/algorithm/lk.py", "aam/algorithm/sd.py", "atm/algorithm.py",
      "lk/algorithm.py", "lk/residual.py", "clm/algorithm/gd.py",
      "clm/expert/ensemble.py", "aps/algorithm/gn.py", "sdm/algorithm/base.py",
      "unified_aam_clm/algorithm.py", "builder.py", "math/correlationfilter.py"],
     [("reshaping of gradients, derivatives and patches",
       "aam/algorithm/lk.py"),
      ("response maps and grids", "clm/algorithm/gd.py"),
      ("patch features", "sdm/algorithm/base.py")],
     "runtime oracle: two executions in mirrored worlds compared iterate by "
     "iterate, within what a 1e-6 px displacement of the start does",
     "The fitters' own sensitivity bounds the comparison.")

prop("M30", "Figures and descriptions show what was computed",
     "The curves drawn for a fitting result hold exactly its errors, "
     "displacements and costs per iteration, and its viewers draw exactly its "
     "shapes (every point, edge and number of each landmark group, in the "
     "group's own style, with or without the image, alone or in subplots), "
     "each named by the legend or title as the iteration it is. What results, "
     "shape models, trained models and fitters print about themselves states "
     "the errors, components, scales, diagonals, features, patches, "
     "iterations and algorithms really in use. Neither fails for, or changes, "
     "what it shows.",
     ["inputs", "configurations"],
     "all result classes, trajectories, viewing options, landmark "
     "connectivities, trainable fitters and configurations",
     "the tests neither draw nor print anything",
     ["result.py", "aps/result.py", "visualize/base.py", "modelinstance.py",
      "aam/base.py", "aam/fitter.py", "atm/base.py", "atm/fitter.py",
      "clm/base.py", "clm/fitter.py", "aps/base.py", "aps/fitter.py",
      "sdm/fitter.py", "lk/fitter.py", "dlib/fitter.py",
      "unified_aam_clm/base.py", "unified_aam_clm/fitter.py"],
     [("curves per iteration and named iterations", "result.py"),
      ("groups, subplots and legends", "visualize/base.py"),
      ("descriptions", "aam/base.py")],
     "runtime oracle: the artists on the axes read back and compared with the reported "
     "values and shapes; printed statements compared with the configuration "
     "that was asked for and the models that were built",
     "Figures as matplotlib's Agg backend holds them; widgets are not "
     "installed.")


CLAIMED = None          # None: every property that has a module
NOT_APPLICABLE = []


def main():
    from .run import index
    have = {n.split("_")[0].upper() for n in index()}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            n = p["statement"].count(". ") + 1
            if n > 3:
                raise SystemExit("%s has %d sentences" % (p["id"], n))
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            if p["state"]:
                a["state"] = p["state"]
            a["hook_needed"] = None
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in have:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "runtime monitoring: " + p["technique"].replace(
                "runtime oracle: ", "oracle - ").replace(
                "runtime monitor: ", "monitor - "),
            "level": "exploration", "level_note": p["note"]})
    na = list(NOT_APPLICABLE)
    for p in P:
        if p["id"] not in have:
            na.append({"property": p["id"],
                       "reason": "its monitor is not built yet"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh",
                   "hooks": {"guard": "MENPOFIT_MONITOR",
                             "enable": "not needed: no hook was added to the "
                             "repository; monitors observe public interfaces",
                             "source_commits": []},
                   "checks": checks, "not_applicable": na,
                   "notes": "Generated by python -m mon.catalogue; see "
                   "DESIGN.md."}, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
