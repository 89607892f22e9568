"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
REPL = 'proadv/filtration/replacement/replacements.py'
DET = 'proadv/filtration/detection/'
STA = 'proadv/statistics/'


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


p("C01", "No function changes its inputs or hands back memory it shares with them",
  "Calling any public function leaves the contents of every array or list passed to it exactly as they were, including on paths that raise. "
  "The arrays it returns share no memory with the arrays passed in, so writing to the result never changes the caller's data and the other way round.",
  ["inputs"], "every public function, every argument (integer or float arrays, contiguous or views, lists), every branch and exit",
  "The tests look at return values of eight statistics functions only; none compares an argument before and after, and a single aliasing path (an in-place operator, a view that is returned, an asarray that happens not to copy) shows only for one input type.",
  ["proadv/**/*.py"], [("copy before modification in replacement methods", REPL), ("float copy in phase-space premodification", DET + "phasespace.py"), ("copies in the normal distribution and filter design code", STA)])
p("C02", "Results depend on the arguments only; no state survives a call",
  "Every public function gives the same result whenever it is called with the same arguments: no call leaves anything behind in module variables, default arguments, function attributes or global numeric settings that a later call could see. "
  "No function reads or writes files, the environment, the clock or the process state, and only the synthetic-noise generator draws random numbers, always from numpy's global generator so that seeding it reproduces the noise.",
  ["histories", "programs"], "every sequence of calls to public functions, in any order and number",
  "Each test makes one call in a fresh state; whether the second call sees something the first one left is a statement about all call histories.",
  ["proadv/**/*.py"], [("module scope of every module", "proadv/**/*.py"), ("random draws", STA + "signal/synthetic.py")])
p("C03", "Spike replacement changes the flagged samples only",
  "Every replacement method returns an array of the same length as the velocities in which each sample that was not flagged still has its original value (rounded to the requested number of decimals for the linear, cubic and polynomial methods, bit-identical for all others). "
  "This holds for every set of valid spike indices, including none, one, adjacent ones and those at either end.",
  ["inputs"], "all velocity arrays, all sets of distinct valid spike indices in ascending order, all option values",
  "No test touches the replacement module; a wrong slice or an in-place smoother disturbs only samples next to spikes in certain positions.",
  [REPL], [("scatter of replacement values at the spike indices", REPL + " all public functions")])
p("C04", "Mean, median, last-valid and smoother replacement write the documented value",
  "A flagged sample is replaced by: the mean of all given velocities (mean method); their median (median method); the nearest preceding sample that is not flagged, or the mean when there is none (last-valid method); or the value that the simple moving average, exponential moving average, SSA or Kalman smoother of the whole given series has at that same sample. "
  "The weighted-moving-average method writes the weighted average of the `period` samples before the flagged one, and the mean for samples that have fewer before them.",
  ["inputs"], "all velocity arrays, all ascending sets of valid spike indices, all smoothing parameters in range",
  "No test touches the replacement module, and the value depends on neighbouring flags, position and parameters.",
  [REPL, STA + "series.py"], [("replacement value", REPL + " last_valid_data, mean_value, median_value, simple_moving_average, exponential_moving_average, weighted_moving_average, ssa, kalman_filter")])
p("C05", "Interpolating replacements follow the line, cubic or polynomial they document",
  "Linear interpolation puts a run of flagged samples that lies between two unflagged ones on the straight line between those two, evenly spaced, and replaces a run reaching the end of the record by the mean of all velocities. "
  "The 12-point cubic method evaluates, at the flagged sample, the cubic interpolant of the 12 samples before it (already repaired where flagged) and the next 12 unflagged ones, falling back to the mean of the nearest neighbour on each side within 30 samples of either end; the polynomial method evaluates the least-squares polynomial of the requested degree through the `window` preceding samples (all of them when fewer), with the mean for sample 0 and linear interpolation for samples 1 to 10. "
  "All three round the result to `decimals` places.",
  ["inputs"], "all velocity arrays, ascending sets of valid spike indices, window, degree and decimals",
  "No test touches these functions; errors show only for runs, boundaries or particular distances from the ends.",
  [REPL], [("runs and step size", REPL + " linear_interpolation"), ("12-point stencil", REPL + " cubic_12points_polynomial"), ("window and regression", REPL + " polynomial_replacement, _create_model")])
p("C06", "Detectors return ascending, distinct, in-range sample indices",
  "The acceleration, phase-space, velocity-correlation, spherical, and kernel-density detectors return the flagged samples as integer indices into the given record, strictly ascending, each at least 0 and smaller than the number of samples. "
  "An index appears once even if several criteria flag the sample.",
  ["inputs"], "all records and parameters",
  "No test touches a detector; duplicates or order changes appear only when several criteria hit the same sample.",
  [DET], [("union/intersection of index sets", DET + "*.py")])
p("C07", "Acceleration thresholding flags exactly the documented samples",
  "With tag 1 a sample is flagged exactly when the velocity increase from the previous sample times the sampling frequency exceeds k_gravity*gravity and the velocity exceeds the mean by more than k_sigma population standard deviations; with tag 2 exactly when the increase is below -k_gravity*gravity and the velocity is below the mean by more than k_sigma standard deviations. "
  "The first sample has zero acceleration, both conditions are required, and any other tag raises ValueError.",
  ["inputs"], "all velocity arrays, frequencies, tags and threshold factors",
  "No test touches the detector; which samples are flagged depends on strict comparisons against data-dependent thresholds.",
  [DET + "acceleration.py", STA + "spread.py"], [("thresholds", DET + "acceleration.py acceleration_thresholding")])
p("C08", "Phase-space thresholding flags exactly the points outside its ellipses",
  "A sample is flagged exactly when the point of velocity and first difference, of first and second difference, or of velocity and second difference lies strictly outside its ellipse, where differences are half central differences rounded to 4 decimals (zero at both ends), the universal threshold is sqrt(2 ln n), the first two ellipses have semi-axes threshold times standard deviation, and the third is rotated by arctan(sum(u*d2u)/sum(u^2)) with semi-axes that solve the Goring-Nikora equations. "
  "The same ellipse equations with 1e10 as semi-axes are used when they have no real solution.",
  ["inputs"], "all velocity arrays of at least two samples",
  "No test touches the detector; the criterion is an equation over all samples.",
  [DET + "phasespace.py", DET + "poincare.py"], [("derivatives", DET + "phasespace.py calculate_derivatives"), ("ellipse axes", DET + "poincare.py calculate_ab"), ("ellipse distance", DET + "poincare.py calculate_rho")])
p("C09", "Velocity correlation flags exactly the points outside its three ellipses",
  "After removing each component's mean, a sample is flagged exactly when at least one of its three component pairs (u,v), (u,w), (v,w) lies strictly outside the ellipse rotated by arctan(sum(xy)/sum(x^2)) whose semi-axes solve the ellipse equations for sqrt(2 ln n) times the pair's standard deviations. "
  "The decision does not change when a constant is added to a component or all components are multiplied by the same positive factor.",
  ["inputs"], "all triples of equally long velocity arrays",
  "No test touches the detector; the criterion is an equation over all samples and the invariances quantify over all shifts and scales.",
  [DET + "correlation.py", DET + "poincare.py"], [("angles, axes, distances", DET + "correlation.py velocity_correlation")])
p("C10", "Spherical phase-space thresholding flags exactly points outside its ellipsoid",
  "The record is centred by its NaN-ignoring mean, its first and second gradients are taken, and the three series are rotated about the middle axis by the computed angle (each result rounded to 4 decimals); a sample is flagged exactly when its squared distance from the origin exceeds that of the point where its direction meets the ellipsoid with semi-axes sqrt(2 ln n) times the standard deviations of the rotated series. "
  "The flagged set does not depend on the iteration counter or the running mean handed in.",
  ["inputs"], "all velocity arrays, iteration counters and running means",
  "No test touches the detector.",
  [DET + "spherical.py"], [("rotation, ellipsoid, distance", DET + "spherical.py")])
p("C11", "Premodification and pollution rate act on exactly the documented samples",
  "Phase-space premodification replaces, in ascending order, every sample whose magnitude exceeds c2 * MAD * sqrt(2 ln n) by the (already processed) preceding sample, the first one by the median, leaves all others as they are, and reports as unremovable the indices of the original samples within [-c1*MAD, c1*MAD], where MAD is the median absolute deviation from the median. "
  "The pollution rate is 100 times the number of distinct samples above filtered + k*std or below -filtered - k*std divided by the number of samples, hence always between 0 and 100.",
  ["inputs"], "all arrays and threshold factors",
  "No test touches these functions.",
  [DET + "phasespace.py", DET + "pollution.py"], [("thresholds and replacement order", DET + "phasespace.py phasespace_thresholding_premodification"), ("counting", DET + "pollution.py pollution_rate")])
p("C12", "Kernel-density detection flags exactly the points outside the density ellipses",
  "For each pair of (velocity, first difference), (velocity, second difference), (first, second difference) the pair is rotated by the regression angle, its kernel density is taken on a grid spanning the rotated data, and a sample is flagged exactly when it lies strictly outside the axis-aligned ellipse whose centre and half-widths come from the cutoff velocities found on both sides of the density peak; the three-dimensional detector returns the union of the three pairs. "
  "A cutoff is the grid value at the first index, moving away from the peak on that side, at which both the density ratio and the normalised density change are at or below their thresholds, or the side's outermost admissible index when there is none.",
  ["inputs"], "all arrays and grid sizes",
  "No test touches the kernel code.",
  [DET + "trivariatekernel.py", DET + "bivariatekernel.py"], [("rotation, grid, cutoff, ellipse, union", DET + "trivariatekernel.py kernel, three_dimensional_kernel, _cutoff"), ("one-sided derivative and cutoff", DET + "bivariatekernel.py")])
p("C13", "Moving averages are the documented averages of past samples, for every window",
  "The simple moving average has the length of the data and its i-th value is the arithmetic mean of the last min(i+1, window) samples up to and including i; the exponential one starts at the first sample and continues with alpha*x[i] + (1-alpha)*previous. "
  "The weighted one has length n-period and its k-th value weighs samples k..k+period-1 linearly with 1..period divided by the sum of the weights; none of the three ever uses a later sample.",
  ["inputs"], "all data arrays, all windows/periods from 1 to n, all alpha in (0, 1]",
  "The tests compare four short records; the values for every i, window and record length are an inductive statement.",
  [STA + "series.py"], [("window recurrence", STA + "series.py moving_average"), ("exponential recurrence", STA + "series.py exponential_moving_average"), ("weights", STA + "series.py weighted_moving_average")])
p("C14", "Averages and statistics respect a change of units",
  "Replacing the data x by s*x+b (s>0) turns mean, median, minimum, maximum, moving averages and the mean/median/last-valid/moving-average replacements into s times their old value plus b, variance into s^2 times and standard deviation into s times the old value, and leaves skewness and kurtosis unchanged. "
  "Turbulent kinetic energy and Reynolds stresses do not change when constants are added to the components and grow with s^2; acceleration thresholding flags the same samples when velocities and gravity are both multiplied by s.",
  ["inputs"], "all data arrays, all s>0 and b",
  "A relation between two runs on all inputs; the tests fix a few values.",
  [STA, REPL, DET + "acceleration.py"], [("linear formulas", STA + "series.py, descriptive.py, spread.py, moment.py, signal/fluid.py")])
p("C15", "Singular spectrum analysis keeps time positions and averages diagonals",
  "SSA embeds the record with window ceil(fs/f), projects the trajectory matrix on the eigenvectors of its covariance whose mobility does not exceed that of a sine of frequency f, and returns one value per sample: the mean of all entries of the projected matrix on that sample's anti-diagonal, rounded to 4 decimals. "
  "Mobility is the mean L2 norm of the differences over the mean L2 norm (rounded to 4 decimals) of the vector.",
  ["inputs"], "all records, sampling frequencies and cut-off frequencies with 2 <= window <= n",
  "No test touches SSA; the number of terms per anti-diagonal differs for head, middle and tail and for either aspect ratio of the matrix.",
  [STA + "series.py"], [("trajectory matrix and selection", STA + "series.py ssa, _mobility"), ("diagonal averaging", STA + "series.py _diagonal_average")])
p("C16", "The Kalman smoother runs the scalar Kalman recursion over every sample once",
  "The Kalman filter returns one state estimate per sample, in order: predict by carrying state and covariance plus process noise forward, gain = predicted covariance times inverse of predicted covariance plus measurement noise, new state = prediction + gain*(sample - prediction), new covariance = (1-gain)*predicted covariance, starting from the given initial state and covariance. "
  "The estimate for a sample depends on that and earlier samples only.",
  ["inputs", "histories"], "all records and noise parameters",
  "No test touches the filter; the recursion is over arbitrarily many samples.",
  [STA + "series.py"], [("recursion", STA + "series.py kalman_filter")])
p("C17", "Descriptive and moment statistics are the population formulas",
  "Minimum, maximum, mean, median, variance, standard deviation, skewness and kurtosis equal the textbook population statistics: variance is the mean squared deviation, standard deviation its root, skewness the mean cubed deviation over the cubed standard deviation, kurtosis the mean fourth-power deviation over the fourth power of it (3 for a normal distribution). "
  "The mode is the most frequent value, the smallest one on ties, together with its count. The mean of a single number is that number; in a list, text that reads as a number counts as that number and other text is left out.",
  ["inputs"], "all non-empty numeric arrays",
  "The tests sample a few arrays for min, max, mean, median and mode and none for variance, standard deviation and moments.",
  [STA + "descriptive.py", STA + "spread.py", STA + "moment.py"], [("formulas", STA + "descriptive.py, spread.py, moment.py")])
p("C18", "Turbulent kinetic energy and Reynolds stresses are the fluctuation moments",
  "Turbulent kinetic energy is half the sum of the three mean squared fluctuations about the component means. "
  "The Reynolds stresses are returned in the order uu, vv, ww, uv, uw, vw, each the mean product of the two fluctuations about their means.",
  ["inputs"], "all triples of equally long arrays",
  "No test touches these functions.",
  [STA + "signal/fluid.py"], [("moments", STA + "signal/fluid.py")])
p("C19", "Documented invalid input is rejected with the documented exception",
  "Empty data, strings, NaN, arrays of more than one dimension, windows or periods outside 1..n, a smoothing factor outside (0,1], an invalid tag, bracket, bounds, filter order, frequency, output form or alternative, spike indices out of range for the cubic method, percentages outside 0..100, and samples too small for the normality tests are rejected by the functions that document it, with the documented exception type and before any result is produced. "
  "No function that documents such a check silently returns a value for that input.",
  ["inputs"], "all inputs in the documented invalid classes, in particular their boundaries (0, negative, n+1, exactly 0 or 1)",
  "The tests cover a few of these classes with one value each for min, max, median and the moving average.",
  [STA, DET + "acceleration.py", REPL], [("guards at function entry", "proadv/**/*.py")])
p("C20", "Valid input is accepted up to its boundaries",
  "Windows and periods equal to 1 or to the number of samples, alpha equal to 1, no spikes, a single spike, spikes at the first or last sample, the smallest sample sizes the normality tests document, percentages 0 and 100, and every documented tag, filter type, output form and alternative are accepted: no exception is raised by a guard, an index out of range or a missing branch. "
  "The length and form of the result are the documented ones for these inputs too. The statistics, the normal distribution and its tests, the acceleration, correlation and spherical detectors, premodification and the replacements also accept lists of numbers, and return what they return for the same numbers as an array.",
  ["inputs"], "all inputs in the documented valid classes, at their boundaries",
  "The tests reach few boundary values and only in the statistics functions.",
  [STA, DET, REPL], [("guards and index arithmetic", "proadv/**/*.py")])
p("C21", "Normal density, distribution, survival functions and their logarithms agree",
  "The density is exp(-(x-mean)^2/(2 std^2))/(std sqrt(2 pi)), the distribution function is (1+erf(x/sqrt 2))/2 in either tail, the survival function is one minus it, and the log versions are their logarithms, elementwise and in the shape of the input, for integer and float input alike. "
  "An empty input raises ValueError and an input with NaN raises TypeError in all six functions.",
  ["inputs"], "all arrays of any dimension, including single numbers",
  "No test touches the module; the branches for the two tails and the centre are separate code.",
  [STA + "distributions/normal.py"], [("branches on |x|", STA + "distributions/normal.py cdf"), ("density", STA + "distributions/normal.py pdf")])
p("C22", "Normality tests give the D'Agostino and Anscombe-Glynn statistics and p-values",
  "The skewness test returns D'Agostino's z for the sample skewness (a zero adjusted skewness counting as one) and the kurtosis test the Anscombe-Glynn z for the sample kurtosis, for every sample size they accept. "
  "The p-value is 2*(1-Phi(|z|)) for 'two-sided', 1-Phi(z) for 'greater' and Phi(z) for 'less'; any other alternative raises ValueError.",
  ["inputs"], "all samples of at least 8 (skewness) or 5 (kurtosis) values, all alternatives",
  "No test touches the module; the formulas are rational functions of the sample size.",
  [STA + "distributions/normal.py"], [("transformations", STA + "distributions/normal.py skewtest, kurtotest")])
p("C23", "Root finding keeps a sign-changing bracket and reports truthfully",
  "The root finder follows Brent's method: the returned point is the endpoint that is a root, or the current best point once the function is exactly zero there or half the bracket is smaller than (xtol + rtol*|x|)/2, the bracket always holding a sign change; it evaluates the function at most maxiter+2 times. "
  "With full output it returns a dictionary with the root, the true number of function calls and iterations, and whether it converged; without it, failure to converge raises ValueError.",
  ["inputs"], "all functions, brackets, tolerances and iteration limits",
  "No test touches the module; the invariant must hold after every iteration for every function.",
  [STA + "optimize/optimize.py"], [("bracket update", STA + "optimize/optimize.py brentq")])
p("C24", "Bounded minimisation returns the best point it evaluated, inside the bounds",
  "The bounded minimiser follows Brent's golden-section/parabolic method: the returned point is the one with the lowest function value among all points evaluated, the returned value is the function's value at exactly that point (extra parameters included), and every evaluated point lies within the bounds. "
  "It makes at most max_evaluations evaluations (at least one), reports the number it made, and flags 1 when it ran out and 2 when it met NaN.",
  ["inputs"], "all functions, bounds, tolerances and limits",
  "No test touches the module; the pairing of point and value must survive every branch of every iteration.",
  [STA + "optimize/optimize.py"], [("point/value pairs", STA + "optimize/optimize.py _optimize_within_bounds, fminbound")])
p("C25", "Every call terminates: each loop makes progress towards a fixed bound",
  "Every loop in the library either walks a finite collection fixed when the loop starts or strictly advances a counter, shrinks a set or grows a bounded quantity towards a limit that the loop test checks, on every path through its body; every recursion strictly approaches its base case. "
  "No argument value that passes validation makes a function loop or recurse for ever.",
  ["inputs"], "all loops and recursive functions, all arguments",
  "A test that does not terminate for one input says nothing about others; termination is a statement about all of them.",
  ["proadv/**/*.py"], [("index search", STA + "signal/synthetic.py _random_index"), ("bracket widening", "proadv/kernel/bivariate.py root"), ("recursion", "proadv/kernel/bivariate.py _func"), ("iteration limits", STA + "optimize/optimize.py")])
p("C26", "Butterworth design applies the exact prototype, prewarping and band transforms",
  "The analog prototype of order N has no zeros, poles -exp(i*pi*m/(2N)) for m = -N+1, -N+3, .., N-1 and gain 1; lowpass, highpass, bandpass, bandstop and bilinear transforms map zeros, poles and gain by the standard formulas, adding one zero per missing zero at 0, at plus and minus the centre frequency, or at -1 as appropriate. "
  "Digital designs normalise by the sampling rate, prewarp with 4*tan(pi*w/2), use bandwidth w2-w1 and centre sqrt(w1*w2), and the requested output form is returned.",
  ["inputs", "configurations"], "all orders, frequencies, filter types, analog and digital, all output forms, all zeros/poles/gains",
  "No test touches the module.",
  [STA + "signal/butter.py"], [("prototype", "buttap"), ("band transforms", "low_to_low, low_to_high, low_to_band, low_to_stop"), ("bilinear transform", "bilinear"), ("design", "butterworth")])
p("C27", "Filter conversion loses no zero, pole or gain",
  "Conversion to transfer-function form returns gain times the monic polynomial of the zeros and the monic polynomial of the poles, real when the roots come in conjugate pairs. "
  "Conversion to second-order sections uses ceil(order/2) sections, consumes every zero and pole exactly once, pairs each worst remaining pole with its conjugate or the next real pole and the closest zeros, and puts the whole gain into the first section.",
  ["inputs"], "all zero/pole/gain sets, all pairing modes, analog and digital",
  "No test touches the module; pairing depends on data-dependent choices in each step.",
  [STA + "signal/butter.py"], [("polynomials", "xyz_to_ptf"), ("pairing", "xyz_to_sop, _cxr, _closest_real_complex_i, _lone_xyzsop")])
p("C28", "Synthetic noise pollutes exactly the requested share of distinct samples",
  "Noise generation draws int(n*percent/100) distinct sample positions, sorts them, and adds to them, alternately with sign + and -, (|r|+percent) times the mean of the data with r drawn from a normal distribution with standard deviation 0.05; every other sample keeps its value and the length is kept. "
  "The positions are drawn uniformly from 0..n-1.",
  ["inputs"], "all records, percentages in [0,100] and random draws",
  "Random output; no test touches the module.",
  [STA + "signal/synthetic.py"], [("distinct positions", "_random_index"), ("alternating spikes", "synthetic_noise")])
p("C29", "Integer data gives the same results as the same numbers in floating point",
  "For every numeric public function, passing a signed-integer array gives the same result as passing the array converted to float: no intermediate or returned value is truncated to an integer.",
  ["inputs"], "all integer arrays, all public functions that take data arrays",
  "The tests use integer arrays in a few statistics functions; truncation shows only where a fractional value is written into an integer array.",
  [STA, DET, REPL], [("dtype of work arrays", "proadv/**/*.py")])
p("C30", "Documented names, parameters and defaults exist and bind",
  "Every function that the documentation, docstring examples and example programs call can be imported under the documented path and accepts the arguments shown, positionally and by keyword. "
  "Public parameters keep the documented names, order and default values.",
  ["programs"], "all documented calls and the whole public interface",
  "The tests import six functions; the documented interface is an order of magnitude larger.",
  ["proadv/**/*.py", "docs/**", "examples/**"], [("package exports", "proadv/**/__init__.py"), ("signatures", "proadv/**/*.py")])
p("C31", "Every normal return has the documented form",
  "On every path on which a public function returns normally it returns an explicit value of the documented form: the same number of results in the documented order and kind (array, number, dictionary with the documented keys), never None and never a different arity on some branch. "
  "A variable that is returned or read is bound on every path that reaches that point.",
  ["inputs"], "all public functions, all paths to a normal exit",
  "The tests reach few branches; a missing return or unbound name shows on one branch only.",
  ["proadv/**/*.py"], [("returns", "proadv/**/*.py")])
p("C32", "Power spectra use the requested blocks, overlap and sidedness",
  "The power spectrum is Welch's estimate with a symmetric Hann window of exactly `block` samples, `overlap` percent of the block shared between neighbouring blocks, FFT length equal to the block, the given sampling frequency and the requested sidedness; frequencies come first, densities second. "
  "No argument is ignored or exchanged for another.",
  ["configurations", "inputs"], "all records and option values",
  "No test touches the module.",
  [STA + "signal/spectrum.py"], [("Welch call", "power_spectra")])
p("C33", "Bivariate density binning conserves mass and lays out its grid over the data",
  "Bivariate density estimation scales each dimension to [0,1] by its minimum and range, assigns every sample to exactly one cell of the grid x grid histogram with weight 1/n so that the histogram sums to one: the cell index along an axis is the number of edges k/grid strictly below the scaled value, but at most grid-1. It damps the cosine transform of the histogram by exp(-k^2 pi^2 h^2 / 2) with hx along the first and hy along the second axis, transforms back, scales by grid^2 over the product of the ranges, raises negative values (only those) to machine epsilon, and returns the transposed density. "
  "The returned coordinate meshes run from the minimum to the maximum of each dimension in steps of range/(grid-1).",
  ["inputs"], "all data sets, bandwidths and grid sizes",
  "No test touches the kernel package.",
  ["proadv/kernel/bivariate.py"], [("scaling and histogram", "_scaling, _transform, _histogram, _accumarray"), ("smoothing and output grid", "bivariate_kernel")])
p("C34", "The bandwidth root search doubles its bracket and falls back to a minimiser",
  "The root search of the bivariate bandwidth clamps the sample count to 50..1050, starts from the bracket [0, 1e-12 + 0.01 (n - 50) / 1000] and returns the root that Brent's method finds in the first bracket with a sign change; a bracket without one (ValueError) is doubled, at most to 0.1. "
  "Once the bracket reaches 0.1 the result is the minimiser of |fun| on [0, 0.1], so the search ends for every callback, and only the no-sign-change error of the solver is absorbed.",
  ["inputs"], "all callbacks and sample counts",
  "No test touches the kernel package; a test would sample a few callbacks.",
  ["proadv/kernel/bivariate.py"], [("bracket doubling", "root")])
# ---- properties this family cannot decide: see MANIFEST.json not_applicable
p("C90", "Detectors find real spikes and spare good data",
  "On real ADV records the detectors flag most contaminated samples and few clean ones.",
  ["inputs"], "all physically realistic records", "No test uses real records.", [DET], [("detection methods", DET)])
p("C91", "Floating-point error of the results stays within a small bound",
  "Results differ from the exact real-number values of their formulas by a small multiple of rounding error for every input.",
  ["inputs"], "all inputs", "Tests compare a few values.", ["proadv/**/*.py"], [("numpy arithmetic", "proadv/**/*.py")])
p("C92", "Kernel density estimates integrate to one",
  "The density returned by bivariate estimation integrates to one over its grid.",
  ["inputs"], "all data sets", "No test touches the module.", ["proadv/kernel/bivariate.py"], [("discrete cosine transform", "_discrete_cosine_2d")])
p("C93", "SSA keeps the signal and removes the noise",
  "The eigenvectors selected by mobility span the signal below the cut-off frequency.",
  ["inputs"], "all records", "No test touches SSA.", [STA + "series.py"], [("selection", "ssa")])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
