"""Writes /verif/properties.jsonl (one property per line).  Kept as a script so the text is easy to edit."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
F = "SciDataTool/Functions/"; M = "SciDataTool/Methods/"; K = "SciDataTool/Classes/"

p("C01", "Unit conversion scales by the exact ratio of the two units",
  "Converting values from one unit to another multiplies every value by the ratio of the SI sizes of the two units, for every unit made of an optional SI prefix, a supported symbol and an integer power, with an optional denominator of the same form; converting back, or through a third unit of the same dimension, gives the same values. Units of different physical dimension, and unknown prefixes or symbols, raise UnitError. The caller's array is not modified.",
  ["inputs"], "all value arrays of any shape, all prefix/symbol/power combinations in numerator and denominator of both units",
  "The tests convert three unit pairs; there are about 600 prefix/symbol pairs per position, any power, four positions and any value.",
  [F+"conversions.py"], [("symbol and prefix tables", F+"conversions.py:unit_symbols, unit_prefixes"), ("unit parsing", F+"conversions.py:get_dim_prefix"), ("conversion", F+"conversions.py:convert")],
  ["convert", "DataND.get_along(unit=...)", "axis.get_values(unit=...)"])

p("C02", "A field with symmetries is rebuilt as its exact (anti-)periodic extension",
  "Requesting an axis that carries a period p (antiperiod p) returns p consecutive copies of the stored samples along that axis (with alternating sign when anti-periodic), whatever the other axes are. The selectors smallestperiod, antiperiod and oneperiod return the stored part, the stored half period and one full period; the returned field always has exactly as many samples along each axis as the returned axis, and a pattern axis returns the stored sample of each rebuilt position.",
  ["inputs", "configurations"], "all field values, sample counts, numbers of periods (odd and even), axis positions and combinations of symmetric axes",
  "Tests use a handful of fixed sizes (2, 4 or 10 samples, 2 to 6 periods) in one or two dimensions.",
  [F+"symmetries.py", M+"DataND/_rebuild_symmetries.py", M+"DataND/_get_field.py", M+"DataND/get_along.py", M+"RequestedAxis/get_axis.py"],
  [("tiling with sign", F+"symmetries.py:rebuild_symmetries, mytile"), ("selector handling", M+"DataND/_rebuild_symmetries.py"), ("axis selector", M+"RequestedAxis/get_axis.py")],
  ["DataND.get_along"])

p("C03", "Axis values, axis length and periodic reduction agree with each other",
  "For every axis the number of values returned equals the length reported for the same period selector. An axis with p (anti)periods is rebuilt by continuing its samples with the axis step, so a uniformly spaced stored period gives a uniformly spaced full axis; reducing a uniform axis to p periods of at least two samples and rebuilding it gives back the original values, and an axis whose length is not divisible by the number of periods is returned unreduced.",
  ["inputs", "configurations"], "all axis kinds (explicit, linspace by number or by step, pattern), start and end values, sample counts, numbers of periods and selectors",
  "Tests rebuild a few axes starting at 0 with fixed sizes and never compare the reported length with the returned values for all selectors.",
  [M+"Data1D/get_values.py", M+"Data1D/get_length.py", M+"Data1D/get_axis_periodic.py", M+"DataLinspace/get_values.py", M+"DataLinspace/get_length.py", M+"DataLinspace/get_axis_periodic.py", M+"DataPattern/get_values.py", M+"DataPattern/get_length.py", F+"symmetries.py"],
  [("axis rebuild", F+"symmetries.py:rebuild_symmetries_axis"), ("length", M+"*/get_length.py"), ("values", M+"*/get_values.py"), ("reduction", M+"*/get_axis_periodic.py")],
  ["get_values", "get_length", "get_axis_periodic", "get_periodicity"])

p("C04", "Reductions over a symmetric axis equal the reduction of the full signal",
  "Sum, mean, rms, rss, integral, maximum and minimum along an axis that stores one period, or one of an even number of anti-periods, give the value that the same reduction gives on the rebuilt full signal, on any axis position and any field shape. Along a time, angle or z axis with uniform samples the mean, rms, rss and integral use the trapezoidal rule over the closed full period; along any other axis they are the plain mean, root mean square and root sum square of the samples. When an axis is given no periodicity the open trapezoidal rule over the given samples is used. Levels in dB are summed as energies. The harmonics of a spectrum are reduced once, whatever the number of periods of the axis.",
  ["inputs", "configurations"], "all field values, sample counts, step sizes, numbers of periods, axis positions and numbers of axes",
  "Tests check each reduction on one or two signals with one size.",
  [F+"sum_mean.py", F+"derivation_integration.py", M+"DataND/_apply_operations.py"],
  [("sum/mean", F+"sum_mean.py"), ("integration", F+"derivation_integration.py:integrate"), ("dispatch", M+"DataND/_apply_operations.py")],
  ["DataND.get_along('axis=sum') etc."])

p("C05", "Derivation and anti-derivation along an axis are the exact discrete operators",
  "On a uniform periodic or anti-periodic axis derivation returns the central difference of the periodic (anti-periodic) extension at every sample, anti-derivation returns the cumulative trapezoidal primitive centred over the full period, and local integration along time or angle returns at each stored sample half of the trapezoid to each of its stored neighbours, along z the trapezoid of every segment of non-zero length; on a frequency axis derivation and anti-derivation multiply and divide by 2*pi*j*f and undo each other. The shape of the field is unchanged, whichever position the axis has.",
  ["inputs", "configurations"], "all field values, sample counts, steps, axis positions, periodic and anti-periodic axes",
  "Tests use cosine fields of one size and compare with analytic results at loose tolerance.",
  [F+"derivation_integration.py"], [("derivation", F+"derivation_integration.py:derivate"), ("anti-derivation", F+"derivation_integration.py:antiderivate"), ("local integration", F+"derivation_integration.py:integrate_local, integrate_local_pattern")],
  ["DataND.get_along('axis=derivate')", "get_along('axis=antiderivate')", "get_along('axis=integrate_local')"])

p("C06", "Fourier transform: frequency axis, amplitudes and round trip",
  "The transform of a uniformly sampled signal returns the frequencies k/(N*dt) (wavenumbers the integers -N/2..N/2-1, scaled by the number of spatial periods) and the amplitudes of the Fourier series: one-sided (doubled except at f=0) for real time signals, two-sided along angle. Applying the inverse transform to the result gives back the original samples and the original axis for an even number of samples.",
  ["inputs", "configurations"], "all signals, all even sample counts, all time steps, all numbers of space samples, one and two dimensions",
  "Tests transform cosines of fixed size; linearity, scaling at f=0 and the round trip for arbitrary samples are sampled at one point.",
  [F+"fft_functions.py", M+"DataTime/time_to_freq.py", M+"DataFreq/freq_to_time.py", M+"RequestedAxis/get_axis.py"],
  [("frequency axis", F+"fft_functions.py:comp_fft_freqs, comp_fft_time"), ("transform", F+"fft_functions.py:comp_fftn, comp_ifftn")],
  ["get_along('freqs')", "time_to_freq", "freq_to_time"])

p("C07", "Non-uniform Fourier transforms equal their defining sums",
  "The transform at requested frequencies of a signal with arbitrary sample instants equals (1/N) sum_n x(t_n) exp(-2 pi j f t_n), doubled for non-zero frequencies when no requested frequency is negative; the inverse equals sum_k X(f_k) exp(2 pi j f_k t). They act independently along each requested axis, keep the other axes in place and do not modify the input array.",
  ["inputs"], "all signals, sample instants, frequency lists, axis positions and numbers of axes",
  "Tests compare a few cosines with the FFT.",
  [F+"nudft_functions.py", F+"fft_functions.py"], [("kernels", F+"nudft_functions.py:matrice_D, matrice_E"), ("transforms", F+"nudft_functions.py:nudftn, inudftn"), ("choice of transform", F+"nudft_functions.py:is_uniform")],
  ["nudftn", "inudftn", "get_along('freqs=axis_data')"])

p("C08", "Interpolation returns stored samples at sample points and linear values between",
  "Requesting a field on given axis values returns the stored sample wherever a requested value is an axis value and the linear interpolation between the two neighbouring samples elsewhere, in the order of the requested values, along the requested axis only. A single value returns the nearest sample, or nan outside the axis; a step pattern axis returns the value of the step the point lies in and the mean of the two steps at a step edge (a point within one thousandth of an edge counts as on it).",
  ["inputs", "configurations"], "all field values, increasing axes, requested value lists and axis positions",
  "Tests interpolate one pattern axis and a linear field.",
  [F+"interpolations.py", M+"DataND/_interpolate.py"], [("linear", F+"interpolations.py:get_interpolation"), ("step", F+"interpolations.py:get_interpolation_step"), ("choice of the rebuilt period", M+"RequestedAxis/get_axis.py")],
  ["get_along('axis=axis_data')", "get_along('axis=value')", "get_interpolation", "get_interpolation_step"])

p("C09", "A slice request returns exactly the requested samples of axis and field",
  "Requesting axis indices (single, list, range, counted from the end when negative), a value interval holding at least one axis value, an upper or lower bound returns exactly the axis values with those indices (inside that closed interval) and the field samples at the same positions, also when they lie in a rebuilt period; an axis that is not requested is taken at its first sample and reported with that value. The order in which axes are requested does not change the result, and an axis the data does not have is ignored.",
  ["inputs", "configurations"], "all field values, index lists, interval bounds, axis orders and numbers of axes",
  "Tests use a few literal slices on a small linear field.",
  [M+"RequestedAxis/get_axis.py", M+"DataND/_extract_slices.py", M+"DataND/_extract_slices_fft.py", M+"DataND/_comp_axes.py", F+"fix_axes_order.py"],
  [("axis selection", M+"RequestedAxis/get_axis.py"), ("field selection", M+"DataND/_extract_slices.py"), ("order", F+"fix_axes_order.py")],
  ["get_along"])

p("C10", "Coordinate changes are exact, invertible and norm-preserving",
  "Changing point coordinates between cartesian and cylindrical, and vector components between (x,y,z) and (r,phi,z), and back returns the original values; each change preserves the vector norm, leaves the axial part unchanged and follows x = r cos(phi), y = r sin(phi) with phi in [0, 2pi). A vector field along angle (alone or as second axis), converted to the other frame, holds all its components under their names with these values, and the components requested in the other frame along time and angle are these values.",
  ["inputs", "configurations"], "all coordinates and field values, angle axes, numbers of samples and of axes, presence or absence of each component",
  "Tests convert one vector field whose components are constant.",
  [F+"conversions.py", M+"VectorField/get_xyz_along.py", M+"VectorField/get_rphiz_along.py", M+"VectorField/to_xyz.py", M+"VectorField/to_rphiz.py"],
  [("points", F+"conversions.py:xyz_to_rphiz, rphiz_to_xyz, xy_to_rphi, rphi_to_xy"), ("components", F+"conversions.py:cart2pol, pol2cart, xyz_to_rphiz_field, rphiz_to_xyz_field"), ("vector fields", M+"VectorField/to_xyz.py, to_rphiz.py")],
  ["VectorField.to_xyz", "VectorField.to_rphiz", "get_xyz_along", "get_rphiz_along"])

p("C11", "Each normalization applies its formula to every value and nothing else",
  "A reference normalization divides by its reference, an affine one returns slope*value+offset, a function one applies the function, an index one numbers the samples from 0, and a vector one returns its vector and raises NormError when the lengths differ. On a symmetric axis the normalized axis has as many values as the axis, a vector being continued like the axis values; a normalization that is missing or stated for another unit raises NormError.",
  ["inputs", "configurations"], "all values, normalization parameters, axis kinds, symmetries and selectors",
  "Tests read five normalizations on one axis of fixed size.",
  [M+"Norm_ref/normalize.py", M+"Norm_affine/normalize.py", M+"Norm_func/normalize.py", M+"Norm_indices/normalize.py", M+"Norm_vector/normalize.py", M+"Data/_set_normalizations.py", M+"Data1D/get_values.py", M+"DataLinspace/get_values.py", M+"DataPattern/get_values.py"],
  [("formulas", M+"Norm_*/normalize.py"), ("use on axes", M+"*/get_values.py"), ("use on fields", M+"DataND/_convert.py")],
  ["axis.get_values(normalization=...)", "get_along('axis->norm')", "get_along(is_norm=True)"])

p("C12", "Decibel, A-weighting and octave-band conversions follow their definitions",
  "Conversion to dB returns 20 log10(v/ref) for fields and 10 log10(v/ref) for powers; with a reference other than 1 magnitudes below it are raised to it, a zero magnitude gives 0 dB; the caller's values are not modified. dBA adds to each dB level the A-weight of its frequency (the formula with poles at 20.6, 107.7, 737 and 12200 Hz, -100 dB at 0 Hz), which depends on that frequency only, whatever the other axes; octave and third-octave bands return in order the nominal centre frequencies inside the requested range.",
  ["inputs"], "all magnitudes, references, frequencies and band limits",
  "Tests check single spectra.",
  [F+"conversions.py", F+"fft_functions.py", M+"DataND/_convert.py", M+"DataND/get_magnitude_along.py"],
  [("dB", F+"conversions.py:to_dB"), ("A-weighting", F+"conversions.py:to_dBA, dB_to_dBA"), ("bands", F+"fft_functions.py:comp_nthoctave_axis")],
  ["get_magnitude_along(unit='dB')", "get_magnitude_along(unit='dBA')"])

p("C13", "Tolerance set routines return consistent values and index maps",
  "Unique, union and intersection with a tolerance return values taken from the inputs; the returned index arrays reproduce them: unique values equal the input at the direct indices, every input element equals the unique value at its inverse index within the tolerance, counts add up to the input size, each input of a union is found again within tolerance through its index array, intersection values are present in both inputs at the returned positions within the tolerance, and equal values of both inputs are found in the intersection within the tolerance.",
  ["inputs"], "all finite real arrays, tolerances and option combinations",
  "One test with two literal arrays.",
  [F+"set_routines.py"], [("unique", F+"set_routines.py:unique_tol"), ("union", F+"set_routines.py:union1d_tol"), ("intersection", F+"set_routines.py:intersect1d_tol"), ("tolerance", F+"set_routines.py:get_relative_tolerance")],
  ["unique_tol", "union1d_tol", "intersect1d_tol"])

p("C14", "Sum and product of spectra equal the sum and product of the signals",
  "The sum of two spectra contains every input frequency once (within tolerance) and carries at each frequency the sum of the amplitudes found there, so the total amplitude is conserved; the convolution of two spectra is the spectrum of the product of the two time signals. Neither operand is modified.",
  ["inputs"], "all non-negative frequency lists, equal or further apart than the tolerance, complex amplitudes, frequency windows from zero up and tolerances",
  "Ten parametrised cases with fixed frequencies.",
  [F+"sum_convolution.py", M+"DataFreq/sum.py", M+"DataFreq/conv.py"], [("sum", F+"sum_convolution.py:get_sum_indices, get_sum_amplitudes"), ("convolution", F+"sum_convolution.py:get_conv_indices, get_conv_amplitudes")],
  ["DataFreq.sum", "DataFreq.conv"])

p("C15", "Changing referential moves every harmonic to f + r*speed/60 and loses nothing",
  "In the spectral domain each harmonic (f, r) moves to frequency f + r*n/60 with the wavenumber unchanged, harmonics arriving at the same place are added and the total per wavenumber is conserved when no amplitude threshold is used (for a real field the spectrum with frequencies from zero up is returned, amplitudes doubled except at zero frequency); in the waveform domain the field on angles from zero is read at the shifted angle with periodic wrap-around. A speed of zero gives back the original field, and the input arrays are unchanged.",
  ["inputs", "configurations"], "all spectra and fields, rotation speeds, frequencies, wavenumbers and numbers of slices",
  "Tests use one machine field with one speed.",
  [F+"change_referential.py", M+"DataND/change_referential.py"], [("spectrum", F+"change_referential.py:change_referential_spectrum"), ("waveform", F+"change_referential.py:change_referential_waveform")],
  ["DataND.change_referential", "VectorField.change_referential"])

p("C16", "Reading never changes the data",
  "Requesting values, lengths, axes, fields, magnitudes, phases, derived data or conversions leaves the object it is asked of unchanged (values, axes, symmetries, normalizations, units), also when the request ends with an error; asking again gives the same answer. (A DataDual object is excluded: it shows by design the representation last asked for.)",
  ["histories", "inputs", "configurations"], "all request sequences, axis kinds, symmetries, normalizations and selectors, including requests that raise",
  "Tests never compare an object with its state before a request.",
  [M+"Data1D/get_values.py", M+"DataLinspace/get_values.py", M+"DataND/_get_field.py", M+"DataND/_rebuild_symmetries.py", M+"VectorField/get_xyz_along.py", M+"Data1D/get_axis_periodic.py", M+"DataLinspace/get_axis_periodic.py"],
  [("temporary changes restored", M+"*/get_values.py, "+M+"DataND/_get_field.py, _rebuild_symmetries.py"), ("temporary components", M+"VectorField/get_xyz_along.py, get_rphiz_along.py")],
  ["get_values", "get_along", "get_data_along", "get_axis_periodic"])

p("C17", "Copies and saved objects are equal to and independent of the original",
  "Copying an object, converting it to a dictionary and back, and saving it to a JSON file and loading it return an object of the same class with equal content; changing the copy (or the dictionary) does not change the original, and two objects compare equal exactly when all their properties are equal. (Not claimed: saving complex values or Python functions, and lists inside the filter dictionary, which a copy shares.)",
  ["inputs", "configurations", "histories"], "all data classes, property values, nested axes and normalizations",
  "Only one save/load test exists and it saves one object.",
  [K+"Data1D.py", K+"DataLinspace.py", K+"DataPattern.py", K+"DataND.py", K+"DataTime.py", K+"DataFreq.py", K+"DataDual.py", K+"VectorField.py", K+"Norm_ref.py", F+"save.py", F+"load.py", F+"copy.py"],
  [("copy", K+"*.py:copy"), ("dictionary", K+"*.py:as_dict, __init__"), ("equality", K+"*.py:__eq__, compare"), ("files", F+"save.py, "+F+"load.py")],
  ["copy", "as_dict", "save", "load", "=="])

p("C18", "Wrongly typed or inconsistent content is rejected",
  "Setting a property to a value of the wrong type or out of its declared range raises the corresponding check error and leaves the object as it was, accepted values read back equal, and unknown properties cannot be added to an object. A field whose shape does not match its axes (dimensions of length one apart) is rejected with the dimension error, whatever the axis kinds. (Not claimed: elements that are no objects of the library in a list or dictionary of objects.)",
  ["inputs", "configurations"], "all classes, properties, value types and array shapes",
  "Tests construct valid objects only.",
  [K+"_check.py", K+"_frozen.py", K+"Data1D.py", K+"DataND.py", M+"DataND/_set_values.py"], [("type and range check", K+"_check.py:check_var, check_type, check_min, check_max"), ("dimension check", K+"_check.py:check_dimensions"), ("frozen class", K+"_frozen.py")],
  ["property setters", "constructors"])

p("C19", "A request string is read as exactly the axis, unit and selection it spells",
  "Each request string (axis name, optional selection, optional {unit}; or axis name, ->normalization, optional selection) is read as that axis name, that unit or normalization and that selection: operation, period selector, index, index list or range, value, value list, interval or bound; a missing selection means the whole axis. The reading of one string does not depend on the other strings or on the letters of the axis name, and requests given in any order are put in the order of the axes.",
  ["inputs", "programs"], "all axis names, units, normalization names, numbers and selections of the documented grammar",
  "Tests use a few dozen literal strings on the axes time, angle, freqs and wavenumber.",
  [F+"parser.py", F+"fix_axes_order.py"], [("parser", F+"parser.py:read_input_strings"), ("order", F+"fix_axes_order.py:fix_axes_order")],
  ["get_along arguments"])

p("C20", "A derived data object answers like the request that produced it",
  "The data object returned for a request has the requested axes with their units and, for axes requested on their smallest period, their symmetries, values equal to the field the request returns, and the unit of the operation (divided or multiplied by the axis unit for derivation and integration); requesting all of its axes again returns the same values, and the order of the request strings does not matter.",
  ["inputs", "configurations", "histories"], "all requests, axis orders, symmetries, units and operations",
  "Tests re-read derived objects for a few requests in axis order.",
  [M+"DataND/get_data_along.py", F+"conversions.py", M+"VectorField/get_vectorfield_along.py"], [("derived object", M+"DataND/get_data_along.py"), ("derived unit", F+"conversions.py:get_unit_derivate, get_unit_integrate")],
  ["get_data_along", "get_vectorfield_along"])

p("C21", "Spectral-leakage filtering recovers the harmonics of a sampled multi-sine",
  "For a signal made of sinusoids at the given theoretical frequencies inside the analysed range and resolved by it, the filtered spectrum returns exactly their complex amplitudes at those frequencies, along every space index.",
  ["inputs", "configurations"], "all frequencies sets, amplitudes, sample counts and time steps",
  "Two tests with fixed frequencies.",
  [F+"filter_spectral_leakage.py"], [("filter", F+"filter_spectral_leakage.py:filter_spectral_leakage"), ("window spectrum", F+"filter_spectral_leakage.py:my_doorwin")],
  ["filter_spectral_leakage"])

p("C22", "Undersampling picks distinct grid samples and its axis map recovers them",
  "Undersampling an axis with ratio K keeps floor(K*n) distinct samples of the axis in order, returns their indices, is reproducible for a given seed, and the index map computed back from the undersampled axis is the same list of indices; a ratio outside [0,1] is rejected.",
  ["inputs"], "all axes with distinct values, ratios and seeds",
  "One test with one axis, ratio and seed.",
  [F+"omp.py"], [("undersampling", F+"omp.py:comp_undersampling"), ("index map", F+"omp.py:comp_undersampled_axe")],
  ["comp_undersampling", "comp_undersampled_axe"])

p("C23", "Filtering a string axis returns exactly the matching entries",
  "Filtering a composite string axis returns, in order, the indices of exactly the entries whose every item is allowed by the filter for its key; filters with unknown or missing keys, and entries with items the axis filter does not declare, raise AxisError.",
  ["inputs", "configurations"], "all axis strings, delimiters and filter dictionaries",
  "Two tests with literal strings.",
  [M+"Data1D/get_filter.py", M+"Data1D/check_filter.py"], [("filter", M+"Data1D/get_filter.py"), ("validation", M+"Data1D/check_filter.py")],
  ["Data1D.get_filter", "Data1D.check_filter"])

p("C24", "Magnitude, phase and harmonic requests agree with the complex spectrum",
  "The magnitude (phase) returned for a request is the modulus (argument) of the complex field returned for the same request, on the same axes; the n-largest-harmonics request returns the n largest magnitudes in decreasing order, each paired with its own frequency and wavenumber.",
  ["inputs", "configurations"], "all fields, requests and numbers of harmonics",
  "Tests read magnitudes of a few cosines; the pairing with frequency and wavenumber is never checked.",
  [M+"DataND/get_magnitude_along.py", M+"DataND/get_phase_along.py", M+"DataND/get_harmonics.py"], [("magnitude", M+"DataND/get_magnitude_along.py"), ("phase", M+"DataND/get_phase_along.py"), ("harmonics", M+"DataND/get_harmonics.py")],
  ["get_magnitude_along", "get_phase_along", "get_harmonics"])

p("C25", "An exported CSV file holds the requested axes and field, sample by sample",
  "Exporting a request writes a file in which every requested field sample appears once, on the row and column of its axis values, with the axis and field labels in the requested units; reading the numbers back gives the values returned by the request, and the data object is unchanged.",
  ["inputs", "configurations"], "all one-, two- and three-axis fields, units and file formats",
  "Tests write files and check they exist.",
  [M+"DataND/export_along.py"], [("export", M+"DataND/export_along.py")],
  ["export_along"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
