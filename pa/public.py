"""The public functions and what their arguments are: v one-dimensional data, s indices, m two-dimensional data, r roots (complex),
n number, f function, t text, o any other; the form of what each returns on every normal path."""
D, F, S = 'proadv.filtration.detection.', 'proadv.filtration.replacement.replacements.', 'proadv.statistics.'
B = S + 'signal.butter.'
N = S + 'distributions.normal.'
PUBLIC = [
    (D + 'acceleration.acceleration_thresholding', 'vnnnnn'), (D + 'correlation.calculate_parameters', 'vvv'), (D + 'correlation.velocity_correlation', 'vvv'),
    (D + 'phasespace.calculate_derivatives', 'v'), (D + 'phasespace.calculate_parameters', 'vvv'), (D + 'phasespace.phasespace_thresholding', 'v'),
    (D + 'phasespace.phasespace_thresholding_premodification', 'vnn'), (D + 'poincare.calculate_ab', 'nnnn'), (D + 'poincare.calculate_rho', 'vvnnn'),
    (D + 'pollution.pollution_rate', 'vnn'), (D + 'spherical.spherical_phasespace_thresholding', 'vnn'), (D + 'trivariatekernel.kernel', 'vvn'), (D + 'trivariatekernel.three_dimensional_kernel', 'vn'),
    (F + 'last_valid_data', 'vs'), (F + 'mean_value', 'vs'), (F + 'median_value', 'vs'), (F + 'linear_interpolation', 'vsn'), (F + 'cubic_12points_polynomial', 'vsn'),
    (F + 'simple_moving_average', 'vsn'), (F + 'exponential_moving_average', 'vsn'), (F + 'weighted_moving_average', 'vsn'), (F + 'ssa', 'vsnn'), (F + 'kalman_filter', 'vsmmnn'),
    (F + 'polynomial_replacement', 'vsnnn'),
    ('proadv.kernel.bivariate.root', 'fn'), ('proadv.kernel.bivariate.bivariate_kernel', 'mnnn'),
    (S + 'descriptive.min', 'v'), (S + 'descriptive.max', 'v'), (S + 'descriptive.mean', 'v'), (S + 'descriptive.median', 'v'), (S + 'descriptive.mode', 'v'),
    (N + 'cdf', 'v'), (N + 'cdf', 'm'), (N + 'pdf', 'vnn'), (N + 'pdf', 'mnn'), (N + 'skewtest', 'vt'), (N + 'kurtotest', 'vt'), (N + 'log_pdf', 'vnn'), (N + 'log_cdf', 'v'), (N + 'sf', 'v'), (N + 'log_sf', 'v'),
    (S + 'moment.skewness', 'v'), (S + 'moment.kurtosis', 'v'), (S + 'optimize.optimize.brentq', 'fnnnnnb'), (S + 'optimize.optimize.fminbound', 'fnnonnb'),
    (S + 'series.moving_average', 'vn'), (S + 'series.exponential_moving_average', 'vn'), (S + 'series.weighted_moving_average', 'vn'), (S + 'series.ssa', 'vnn'), (S + 'series.kalman_filter', 'vmmnn'),
    (B + 'low_to_stop', 'rrnnn'), (B + 'low_to_band', 'rrnnn'), (B + 'low_to_high', 'rrnn'), (B + 'bilinear', 'rrnn'), (B + 'low_to_low', 'rrnn'), (B + 'buttap', 'n'), (B + 'xyz_to_sop', 'rrn'), (B + 'xyz_to_ptf', 'rrn'),
    (B + 'butterworth', 'nvtbtn'), (S + 'signal.fluid.kinetic_turbulent_energy', 'vvv'), (S + 'signal.fluid.reynolds_stresses', 'vvv'), (S + 'signal.spectrum.power_spectra', 'vnnnb'),
    (S + 'signal.synthetic.synthetic_noise', 'vn'), (S + 'spread.variance', 'v'), (S + 'spread.std', 'v'),
]
RANDOM = {S + 'signal.synthetic.synthetic_noise'}

KEYS = frozenset(('root', 'function_calls', 'iterations', 'converged', 'flag'))
TEXT = {
    N + 'skewtest': [('two-sided',), ('greater',), ('less',)], N + 'kurtotest': [('two-sided',), ('greater',), ('less',)],
    S + 'optimize.optimize.brentq': [(False,), (True,)], S + 'optimize.optimize.fminbound': [(False,), (True,)],
    B + 'butterworth': [(b, ag, o) for b in ('lp', 'hp', 'bp', 'bs') for ag in (False, True) for o in ('nd', 'zps', 'sop')],
}
FORM = {
    D + 'correlation.calculate_parameters': ('n',) * 4, D + 'phasespace.calculate_derivatives': ('a', 'a'), D + 'phasespace.calculate_parameters': ('n',) * 11,
    D + 'phasespace.phasespace_thresholding_premodification': ('a', 'a'), D + 'poincare.calculate_ab': ('n', 'n'), D + 'pollution.pollution_rate': 'n', D + 'trivariatekernel.kernel': ('a', 'a'),
    'proadv.kernel.bivariate.root': 'n', 'proadv.kernel.bivariate.bivariate_kernel': ('a', 'a', 'a'),
    S + 'descriptive.mean': ['n', 'txt'], S + 'descriptive.mode': ('n', 'n'), S + 'descriptive.min': 'n', S + 'descriptive.max': 'n', S + 'descriptive.median': 'n',
    N + 'skewtest': ('x', 'x'), N + 'kurtotest': ('x', 'x'), S + 'moment.skewness': 'n', S + 'moment.kurtosis': 'n',
    S + 'optimize.optimize.brentq': {(False,): 'n', (True,): KEYS}, S + 'optimize.optimize.fminbound': {(False,): 'n', (True,): ('n',) * 4},
    S + 'series.weighted_moving_average': ['a', 'l'], S + 'series.kalman_filter': 'l',
    B + 'low_to_stop': ('a', 'a', 'n'), B + 'low_to_band': ('a', 'a', 'n'), B + 'low_to_high': ('a', 'a', 'n'), B + 'bilinear': ('a', 'a', 'n'), B + 'low_to_low': ('a', 'a', 'n'), B + 'buttap': ('a', 'a', 'n'),
    B + 'xyz_to_ptf': ('a', 'a'), B + 'butterworth': {(b, ag, o): {'nd': ('a', 'a'), 'zps': ('a', 'a', 'n'), 'sop': 'a'}[o] for b, ag, o in TEXT[B + 'butterworth']},
    S + 'signal.fluid.kinetic_turbulent_energy': 'n', S + 'signal.fluid.reynolds_stresses': ('n',) * 6, S + 'signal.spectrum.power_spectra': ('a', 'a'), S + 'spread.variance': 'n', S + 'spread.std': 'n',
}
for f, _ in PUBLIC:
    FORM.setdefault(f, 'a')
