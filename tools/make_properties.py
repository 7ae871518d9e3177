import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    len(title)<=80 or print(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech])))
D='chaosmagpy/data_utils.py';M='chaosmagpy/model_utils.py';C='chaosmagpy/coordinate_utils.py';H='chaosmagpy/chaos.py';G='chaosmagpy/config_utils.py';L='chaosmagpy/plot_utils.py'
p('C01','Modified Julian dates are exact proleptic Gregorian day counts',
 'mjd2000 of a calendar date and time of day equals the number of days since 2000-01-01T00:00 in the proleptic Gregorian calendar plus the exact fraction of the day, for every year from 1 to 9999, for component input (broadcast against each other) as well as datetime/datetime64 input, and overflowing time-of-day components carry into the day. Invalid calendar dates are rejected with an exception instead of producing a number.',
 ['inputs'],'every calendar date (years 1..9999), every time-of-day offset, every input form and broadcastable shape',
 'Tests sample a few dates and shapes around 2000; the calendar rule (leap years, century rule, month lengths, range of the time base) must hold for every date.',[D],['mjd2000'])
p('C02','timestamp inverts mjd2000',
 'For every modified Julian date whose timestamp is representable in nanoseconds, timestamp returns the instant that many days after 2000-01-01 (within the resolution of the double that was passed), and mjd2000(timestamp(t)) returns t within that resolution. Shapes are preserved.',
 ['inputs'],'every finite MJD in the datetime64[ns] range, scalar and array, positive, negative and fractional',
 'Tests check a single round trip; rounding and sign behaviour must hold on the whole range.',[D],['timestamp','mjd2000'])
p('C03','Decimal-year conversion is exact, monotone and invertible',
 'With leap years, a decimal year y maps to MJD(Jan 1 of floor(y)) + frac(y)*(365 or 366) with the Gregorian leap rule, and mjd_to_dyear is its inverse; without leap years both conversions are the affine map with 365.25 days per year through (2000.0, 0). Both are strictly increasing and agree with is_leap_year, which returns the Gregorian rule for every integer input type and raises TypeError for non-integers.',
 ['inputs'],'every decimal year from 1 to 9999 including year boundaries, both leap_year settings, scalars and arrays',
 'Tests compare a handful of round trips inside modern years; boundary instants and early/late years are never sampled.',[D],['dyear_to_mjd','mjd_to_dyear','is_leap_year'])
p('C04','Time-dependent coefficients are the piecewise polynomial and its derivatives',
 'At any time within the model period the coefficients are the value of the polynomial piece containing that time (right-continuous at interior breaks, last piece at the end), the deriv-th derivative is that of the piece per year (factor 365.25 per derivative), and it is zero once deriv reaches the order. Truncation (nmax/dim) returns the leading coefficients, requests beyond the model warn and return everything, each time is treated independently of the others in the array, and the output shape is time shape plus coefficient axis.',
 ['inputs'],'every order, set of breaks, coefficient array, derivative, truncation and array of times inside the model period',
 'Tests compare one CHAOS model with a MATLAB reference at a few times, and that reference file is absent; breaks, derivatives and shapes are not covered.',[H],['Base.__init__','Base.synth_coeffs','BaseModel.synth_coeffs'])
p('C05','Extrapolation follows the documented degree and touches only outside times',
 'Outside the model period the coefficients are the Taylor polynomial of the requested degree (constant, linear, quadratic, cubic, whole spline, or an integer order; default linear; never more than the spline order) of the first/last piece about the first/last break, and its derivatives; "off" gives NaN exactly at the outside times. Times inside the period give the same values as when no outside time is requested, a warning is issued exactly when some time is outside (or more coefficients are requested than the model has), and an unknown method is rejected with ValueError when it is needed.',
 ['inputs','configurations'],'every model, every extrapolation setting, every derivative, every mix of inside/outside times on both sides',
 'No test exercises extrapolation away from the default, and never mixes inside and outside times.',[H],['Base.synth_coeffs'])
p('C06','The piecewise-polynomial container keeps order, pieces, dimension and pp-form',
 'A model built from (breaks, order, coeffs) reports pieces = number of breaks - 1, order = min(order, coefficient rows) using the lowest-order rows, dim = number of coefficients, nmax with nmax(nmax+2) = dim, a single break becoming a two-break interval; its pp-form dictionary and its saved MAT pp structure describe exactly the same piecewise polynomial. Models without coefficients raise ValueError when evaluated.',
 ['inputs'],'every breaks/order/coefficient combination, including missing ones',
 'Only whole CHAOS models are constructed in tests; truncating constructors and the pp form are not.',[H],['Base.__init__','Base.to_ppdict','Base.save_matfile','BaseModel.__init__'])
p('C07','B-spline and piecewise-polynomial representations are the same function',
 'augment_breaks repeats the end breaks to multiplicity order; colloc_matrix columns are the B-splines of the given order (and their derivatives) on the knots: non-negative, locally supported, summing to one inside; and pp_from_bspline / BaseModel.from_bspline return the piecewise polynomial with the same value (and derivatives up to order-1) as the B-spline expansion everywhere in the model interval.',
 ['inputs'],'every order 1..6, knot vector with end multiplicity, coefficient vector, evaluation time and derivative',
 'Not covered by the stable tests.',[M,H],['augment_breaks','colloc_matrix','pp_from_bspline','BaseModel.from_bspline'])
p('C08','Field components are the negative gradient of the harmonic potential',
 'For Gauss coefficients of an internal (external) source the returned radial, colatitude and azimuth components equal minus the gradient of a*sum (a/r)^(n+1) (resp. (r/a)^n) (g cos m phi + h sin m phi) P_n^m(cos theta) with Schmidt semi-normalised functions and a = the configured reference radius, at every position. An unknown source is rejected with ValueError.',
 ['inputs','configurations'],'every coefficient vector, degree, radius, colatitude, longitude (any branch), both sources and reference radii',
 'Tests compare one random internal model with a stored MATLAB result and itself; the formula must hold for all degrees, orders, branches and the external source.',[M,H],['synth_values','BaseModel.synth_values','legendre_poly'])
p('C09','Degree and order windows select exactly the documented coefficients',
 'Coefficients are ordered (n,m): g_n0, g_n1, h_n1, ..., by increasing n starting at nmin; nmin, nmax and mmax restrict the synthesis to exactly the coefficients with nmin<=n<=nmax and m<=mmax, equal to synthesising the full vector with all other coefficients zero. When nmax or mmax is left out it is inferred from the number of coefficients given; a model method asked for more degrees than it has warns and uses what it has, and impossible windows (nmin>nmax, nmin<1, too few coefficients) are rejected with an exception.',
 ['inputs','configurations'],'every nmin<=nmax, mmax, coefficient length, source',
 'Tests check one window against one stored vector.',[M],['synth_values','design_gauss'])
p('C10','Synthesis broadcasts, grids and evaluates each point independently',
 'Every entry of an array call equals the scalar call at the corresponding broadcast inputs, for every broadcastable combination of coefficient, radius, colatitude and longitude shapes and input types (lists, integers, 0-d, non-contiguous, permuted order); grid=True equals the outer product of theta and phi. Output shapes follow numpy broadcasting, incompatible shapes raise ValueError, and the inputs are not modified.',
 ['inputs'],'every broadcastable shape combination and memory layout; permutations and concatenations of points',
 'Tests use three shape patterns; shape-dependent branches are otherwise unreached.',[M,H],['synth_values','BaseModel.synth_values','CHAOS.synth_values_tdep','CHAOS.synth_values_static'])
p('C11','Poles and colatitude bounds are handled correctly',
 'At both geographic poles (exactly 0 or 180 degrees, with a warning) the components equal the limits of the field along the given meridian, in every element of the array and regardless of which other points are present; points away from the poles are unaffected by poles in the same call. Any colatitude outside [0,180] is rejected with ValueError.',
 ['inputs'],'every array of colatitudes mixing poles, near-pole, equatorial and out-of-range values, both sources, all orders, grid or not',
 'Tests compare pole values at one longitude set with a nearby point; mixed arrays and out-of-range values combined with poles are not sampled.',[M],['synth_values','design_gauss'])
p('C12','Design matrices are linear operators that reproduce the synthesis',
 'design_gauss(radius, theta, phi, nmax, nmin, mmax, source) times the coefficient vector equals synth_values of those coefficients; design_matrix with a B-spline basis times (time-dependent, static) coefficients equals the synthesis of the spline coefficients at each time, with column order spline-major as documented. Shapes follow the documented convention for every input dimensionality.',
 ['inputs'],'every position array, degree window, source, knot vector, order and time array',
 'Tests compare one internal case.',[M],['design_gauss','design_matrix'])
p('C13','Legendre functions are Schmidt semi-normalised and match their recurrences',
 'legendre_poly returns the Schmidt quasi-normalised associated Legendre functions P_n^m(cos theta) (without the Condon-Shortley phase) and their colatitude derivatives in the documented layout for every degree, order and colatitude: sum over m of squares is one for each degree, and parity under theta -> 180-theta is (-1)^(n+m).',
 ['inputs'],'every nmax, colatitude array (including 0 and 180)',
 'Only used indirectly by tests at low degree.',[M],['legendre_poly'])
p('C14','Power spectrum, degree correlation and sensitivity follow their definitions',
 'The power spectrum per degree is (n+1)(a/r)^(2n+4), n (r/a)^(2n-2), or n(n+1)/(2n+1) for internal, external and toroidal sources times the sum of squared coefficients of that degree, truncated at nmax and along the chosen axis; the degree correlation is symmetric, scale invariant, bounded by one and one for identical models; the sensitivity is the coefficient misfit divided by the root-mean-square true coefficient of its degree. Unknown sources and mismatched inputs raise ValueError.',
 ['inputs'],'every coefficient array and axis, degree, radius and source',
 'Tests evaluate one vector per function.',[M,H],['power_spectrum','degree_correlation','sensitivity','BaseModel.power_spectrum'])
p('C15','Spherical/Cartesian coordinates, azimuth and local time are consistent',
 'cartesian_to_spherical and spherical_to_cartesian are inverse on every point with r>0 with colatitude in [0,180], azimuth in [-180,180] and the documented axes; center_azimuth returns the equivalent angle in the half-open interval of width 360 about zero; local_time is (time of day plus longitude/15) modulo 24 in [0,24).',
 ['inputs'],'every Cartesian point, every angle on any branch, every time',
 'Tests use a single point each.',[C],['spherical_to_cartesian','cartesian_to_spherical','center_azimuth','local_time'])
p('C16','Geodetic and geocentric coordinates and vectors are mutually inverse',
 'gg_to_geo maps height and geodetic colatitude/latitude to the geocentric radius and colatitude of the point at that height above the configured ellipsoid, geo_to_gg inverts it for every point outside the deep interior, and the north/downward vector components transform by the rotation through the angle between the geodetic and geocentric vertical, preserving length, inversely in the two directions. The geodetic base vectors are that orthonormal rotation.',
 ['inputs','configurations'],'every height, latitude including poles and equator, vector and configured ellipsoid radii',
 'No stable test covers geodetic conversion.',[C],['gg_to_geo','geo_to_gg','basevectors_gg'])
p('C17','Frame base vectors are right-handed, orthonormal and correctly oriented',
 'basevectors_gsm, _sm, _mag and _use return orthonormal right-handed triads at every time or place: GSM x towards the Sun with the dipole axis in the x-z plane (positive z), SM z along the dipole with the Sun in the x-z half plane, MAG z along the dipole with y perpendicular to the geographic axis, USE up/south/east. The dipole may be a pole position, 3 Gauss coefficients or the configured default, all describing the antiparallel unit dipole consistently, and each time is independent of the others.',
 ['inputs','configurations'],'every time, every dipole form and direction, every position',
 'Tests compare with stored values of one instant.',[C],['basevectors_gsm','basevectors_sm','basevectors_mag','basevectors_use','dipole_to_vec','igrf_dipole'])
p('C18','Point and vector frame transformations are isometric and mutually inverse',
 'transform_points, transform_vectors, matrix_geo_to_base and geo_to_base agree with one another and with the base vectors: going to a frame and back (inverse=True) recovers position and horizontal vector, the horizontal vector length and the great-circle geometry are preserved, and all broadcastable combinations of time and position behave elementwise. Unknown frames raise ValueError.',
 ['inputs'],'every position, vector, time, frame, dipole and shape combination',
 'Tests compare a single stored vector per frame.',[C],['transform_points','transform_vectors','geo_to_base','matrix_geo_to_base'])
p('C19','Sun position and zenith angle follow the documented almanac formula',
 'sun_position returns colatitude and longitude of the sub-solar point given by the documented low-precision almanac for every time in 1901-2099, with declination within the obliquity and longitude in the documented branch; zenith_angle is the angular distance in [0,180] between the position and the sub-solar point, zero at it and 180 at its antipode.',
 ['inputs'],'every time and position, scalar or array',
 'Tests compare one epoch with Astropy values at coarse tolerance.',[C],['sun_position','zenith_angle'])
p('C20','Gauss-coefficient rotation matrices represent the frame rotation',
 'For every orthonormal right-handed frame, the matrix from rotate_gauss maps coefficients in the rotated frame to geographic coefficients that give the same potential at every point (hence is orthogonal degree by degree), and sh_analysis recovers the coefficients of any band-limited function exactly, treating truncation degrees as documented.',
 ['inputs'],'every rotation, degree nmax/kmax, coefficient vector',
 'Tests check two base cases of one time instant.',[C],['rotate_gauss','sh_analysis'])
p('C21','Fourier-synthesised rotation matrices reproduce the sampled rotation',
 'The spectra of rotate_gauss_fft are the discrete Fourier transform of the rotation matrices at the N sample times; with all frequencies kept (odd N) synthesising them at the sample times, counted from the first one, returns the rotation matrices at those times; keeping fewer terms drops only the smallest-amplitude harmonics, and induced spectra are the documented Q-response times the external ones. synth_rotate_gauss of any frequencies and spectrum is the documented real Fourier sum, for scaled and unscaled spectra and after a save/load cycle of the npz file.',
 ['inputs','histories'],'every sampling (N, step, filter), frame, degree, time array, scaled flag form and saved file',
 'Tests compare one large default case at low tolerance.',[C],['rotate_gauss_fft','synth_rotate_gauss'])
p('C22','Induction response stays within its physical bounds and limits',
 'The 1-D induction response returns complex Q-responses of absolute value at most n/(n+1) with non-negative real part, apparent resistivity and phase consistent with the C-response, equal to the closed form for a uniform sphere and to the insulating/perfect-conductor limits, and each period is evaluated independently. q_response at zero frequency is zero.',
 ['inputs'],'every period, layered conductivity profile, degree',
 'No stable test runs it.',[C],['q_response_1D','q_response'])
p('C23','The CHAOS field is the sum of the requested source fields',
 'Calling a CHAOS model returns, per component, the sum of the time-dependent, static, GSM-external, GSM-induced, SM-external and SM-induced fields selected by source_list and restricted by the degree limits, equal to the sum of the individual synthesis methods at the same place and time. Unknown sources are rejected with ValueError, and requesting a source whose model part is missing raises rather than silently changing another source.',
 ['inputs','configurations'],'every subset of sources, times, positions, degrees, models with missing parts',
 'The reference MATLAB data for these tests are absent; no stable test calls the full model.',[H],['CHAOS.__call__','CHAOS.synth_values_tdep','CHAOS.synth_values_static','CHAOS.synth_values_gsm','CHAOS.synth_values_sm'])
p('C24','GSM and SM coefficients are rotated from the model and RC index as documented',
 'The GSM (SM) internal/external coefficients in geographic coordinates are the model coefficients, with RC-index and baseline terms added to the degree-1 SM coefficients, rotated with the Fourier-synthesised matrices at each time; truncation by nmax, external/internal selection and piecewise-constant baseline intervals follow the documentation. Each time is independent of others, and out-of-range inputs raise ValueError. A warning is given exactly when a time lies outside the documented period or a degree beyond the model is requested.',
 ['inputs','configurations'],'every time, RC value (given or from file), nmax, source, baseline interval including boundaries',
 'Reference data absent; nothing in the stable tests computes these.',[H],['CHAOS.synth_coeffs_gsm','CHAOS.synth_coeffs_sm'])
p('C25','RC-index files are faithfully converted and interpolated',
 'Saving an RC-index dat file as HDF5 and reading either form yields the same time series, flags included, and the SM coefficients use the linear interpolation of the file configured at the time of the call, also after the configured file changes. Times outside the file are rejected with ValueError and a failed conversion leaves a warning, not a half-written success message.',
 ['inputs','histories','fault_sequences'],'every RC file content, file format, query time, and sequence of writes and configuration changes',
 'No RC file ships with the tree, so no test reads one.',[D,H],['load_RC_datfile','save_RC_h5file','CHAOS.synth_coeffs_sm'])
p('C26','SHC files round-trip models and snapshots',
 'Writing coefficients to an SHC file and loading it returns the same times and coefficients to the printed precision, with the same nmin/nmax window, order and step, in the documented row order; a spline model written with to_shc and read with from_shc (or via the CHAOS save/load) is the same function of time within that precision for every order, number of breaks and leap-year convention. Comment lines, header and extrapolation sites do not change the model.',
 ['inputs','histories'],'every order, break set, degree window, leap-year setting, header',
 'Tests round-trip one cubic model once.',[D,H],['save_shcfile','load_shcfile','BaseModel.to_shc','BaseModel.from_shc','CHAOS.save_shcfile','load_CHAOS_shcfile'])
p('C27','MAT files round-trip complete CHAOS models',
 'Saving a CHAOS model to a MAT-file and loading it again gives a model with the same time-dependent, static and external parts, baselines and Euler angles under the same satellite names, so that every query returns the same values; saving or loading leaves the in-memory model and the caller\'s arguments unchanged and repeated save/load is idempotent. A file in the published CHAOS layout (either MAT version) loads as exactly the parts it contains.',
 ['inputs','histories'],'every CHAOS model content (orders, pieces, satellites) and every sequence of save/load',
 'The test relies on an absent reference file and compares a few numbers.',[H,D],['CHAOS.save_matfile','load_CHAOS_matfile','load_matfile','CHAOS.from_mat'])
p('C28','Third-party model files load as the documented snapshots and splines',
 'IGRF, gufm1, CALS7K and COV-OBS text files are loaded such that the model takes the tabulated coefficients, in the tabulated order with each h/g at its degree and order, at the tabulated epochs and follows the documented interpolation (linear or B-spline) between them, including the secular-variation column of the IGRF.',
 ['inputs'],'every well-formed file of each format (degree, number of epochs or knots)',
 'No sample file ships with the tree; loaders are untested.',[H],['load_IGRF_txtfile','load_gufm1_txtfile','load_CALS7K_txtfile','load_CovObs_txtfile'])
p('C29','Configuration always holds validated values and set/reset/save/load are coherent',
 'In any sequence of operations the configuration only holds known keys with values of the documented type; a rejected assignment (unknown key or invalid value) changes nothing; reset and fullreset restore the shipped defaults whatever happened before, including in-place changes of values; and save followed by load restores the saved configuration.',
 ['histories','inputs'],'every sequence of set, failed set, reset, fullreset, save, load and in-place edits',
 'No stable test exercises configuration histories.',[G],['BasicConfig','BasicConfig.__setitem__','BasicConfig.reset','BasicConfig.fullreset','BasicConfig.save','BasicConfig.load'])
p('C30','Configuration context managers restore the previous value on every exit path',
 'Inside a configuration context the given key has the given value and nothing else changes; on leaving it, normally, by return or by an exception at any point, for any nesting and any inner assignments, the key has exactly the value it had on entry. An invalid context value changes nothing.',
 ['histories','fault_sequences'],'every nesting of contexts, inner operations and exception points',
 'No stable test leaves a context by an exception.',[G],['BasicConfig.context'])
p('C31','Queries are pure: no hidden state, no input mutation, no history dependence',
 'Any synthesis, transformation, conversion or spectrum query returns the same result whenever it is repeated, whatever other queries, saves or loads happened in between, and never modifies the model or the arrays passed in. Modifying a returned array never changes later results.',
 ['histories'],'every interleaving of queries, saves, loads, result mutations on shared models and arrays',
 'Tests call each function once on fresh input; aliasing and caching need histories.',[H,M,C,D],['Base','CHAOS','synth_values','coordinate_utils','load_CHAOS_matfile'])
p('C32','Plots show exactly the computed values',
 'The plotting methods draw the same component values, on the requested time or position grid, that the corresponding synthesis methods return, one subplot per component with its title and units for the derivative, and power-spectrum plots show each model\'s spectrum by degree; user keywords override defaults and arguments are not modified.',
 ['inputs','configurations'],'every model, time range, grid, derivative and keyword override',
 'Stable tests do not inspect plots.',[L,H],['plot_timeseries','plot_maps','plot_power_spectrum','defaultkeys','gauss_units'])
p('C33','Euler-angle parts are piecewise polynomials per satellite',
 'Euler angles of a named satellite are the value and derivative of that satellite\'s own three-component piecewise polynomial, independent of other satellites and of the order they were listed in, with the same extrapolation rules as field coefficients; a pre-rotation of the satellite frame in the meta data is announced by a warning; unknown satellites raise ValueError.',
 ['inputs'],'every set of satellites, times, derivatives, truncations, extrapolation settings',
 'Reference data absent; untested.',[H],['CHAOS.synth_euler_angles','load_CHAOS_matfile'])

p('C34','The field of a model in time is the synthesis of its coefficients at that time',
 'Every way to ask for field components in time - the synth_values method of a model, the time-dependent and static parts of CHAOS, and synth_from_pp for bare breaks and coefficients - returns the synthesis of the coefficients (or of their deriv-th time derivative per year) at exactly the requested times, truncated at the requested degree, with the source of the model or call, with the requested extrapolation outside the period (synth_from_pp: NaN outside), with a warning exactly when a time lies outside the period, on the grid that was asked for. Options reach the part they belong to: none is dropped, swapped or replaced by its default. The coefficient methods of the parts obey the same options, and breaks and coefficients given as whole numbers mean the same numbers.',
 ['inputs','configurations'],'every model (order, pieces, degree, source, number type), every combination of nmax, deriv, extrapolate, grid and source, every time/position shape',
 'Tests evaluate two points of one model per method with default options; the option combinations are a product no table covers.',[H,M],['BaseModel.synth_values','CHAOS.synth_values_tdep','CHAOS.synth_values_static','synth_from_pp'])

p('C35','Models keep the name, source, metadata and parts they were given',
 'However a model comes about - built from pieces or B-splines, loaded from an SHC or MAT file, saved and loaded again any number of times - its class, name, source, metadata and set of parts are those it was given: the given name, or the file name without its extension (a nameless CHAOS model is called CHAOS); the parts of a CHAOS model are internal and called after it; the text in front of a saved table names the model first and tells the degrees, order, steps and leap-year convention it was saved with; saving never changes the model, and saving a part that does not exist raises ValueError.',
 ['histories','inputs'],'every sequence of making, saving and loading models over every name, file name, source, part and leap-year setting',
 'Tests load and save one model under one name; identity through several steps is a history.',[H,M],['BaseModel','BaseModel.from_shc','BaseModel.to_shc','CHAOS.__init__','CHAOS.from_mat','CHAOS.from_shc','CHAOS.save_shcfile','load_CHAOS_matfile','load_CHAOS_shcfile'])

p('C36','Interrupted and interleaved queries leave shared models and each other intact',
 'A query can be interrupted (KeyboardInterrupt) at any line it executes, and queries of several threads on the same models under one configuration can be interleaved line by line in any way: at every moment the models, the arrays passed in, the configuration and other global settings are as they were, every query that finishes returns what it returns alone in a fresh process, and so do all later queries. (Figures belong to pyplot, which is not thread-safe: plots are only interrupted, not interleaved.)',
 ['schedules','crash_points','histories'],'every interleaving of the executed lines of any queries in several threads, every line as point of interruption',
 'A test runs one query from beginning to end; temporary changes and shared work space only show in between.',[H,M,C,D],['Base','BaseModel','CHAOS','model_utils','coordinate_utils','data_utils'])
p('C37','Calls by position, by name and with defaults spelled out agree',
 'The documented parameters of the public functions, methods and constructors can be given by position in the documented order, by name in any order, or left out: a parameter that is left out, one that is given its documented default, and one that is given None (where None stands for the default) are the same, and every form of a call that assigns the same values has the same result. Calls that leave out a required parameter, give one twice, or give an unknown one (where names are not handed on) are rejected with an exception.',
 ['inputs'],'every function, every number of parameters by position, every choice of spelled-out defaults and orders of names',
 'Tests call each function in one or two forms; callers use all of them, and an exchanged or renamed optional parameter is silent when the values fit.',[H,M,C,D],['Base','BaseModel','CHAOS','model_utils','coordinate_utils','data_utils'])

open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
