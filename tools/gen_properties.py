#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON tidy)."""
import json, os
P = []
G = "gw_eccentricity/"
E_ = G + "eccDefinition.py"
U = G + "utils.py"
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "Eccentricity is the documented function of the two envelopes, in [0,1]",
     "With w_p and w_a the frequency envelopes through the pericenters and the apocenters evaluated at a reference time, the reported eccentricity is cos(psi/3) - sqrt(3) sin(psi/3), with psi = arctan2(1-x^2, 2x) and x = (sqrt(w_p)-sqrt(w_a))/(sqrt(w_p)+sqrt(w_a)). "
     "For w_p >= w_a > 0 it lies in [0,1], is 0 exactly when w_p = w_a, grows with w_p/w_a, and does not change when both frequencies are expressed in other units. "
     "Every element of the output is computed from the two envelopes at the corresponding reference time only, and asking at a time outside the measurable range raises instead of extrapolating.",
     ["inputs"], "all pairs of envelope frequencies w_p >= w_a > 0 and all reference arrays",
     "Regression tests compare a few stored numbers for a few waveforms; range, monotonicity and unit-independence are universally quantified over envelope values.",
     [E_], [("relation between envelopes and e_omega_gw, e_gw", "compute_eccentricity, et_from_ew22_0pn"), ("range check", "check_input_limits")])

prop("C02", "Mean anomaly is 0 at pericenters and linear in between, within [0, 2pi)",
     "The reported mean anomaly at time t between consecutive pericenters at t_k <= t < t_(k+1) is 2*pi*(t-t_k)/(t_(k+1)-t_k) up to rounding (as an angle), hence always in [0, 2*pi), 0 at a pericenter, and increasing between two pericenters. "
     "It is never reported for a time outside the measurable range: such a request raises an exception.",
     ["inputs"], "every increasing sequence of pericenter times (any number >= 2) and every reference time in range",
     "Tests look at a handful of waveforms and plot or regress values at a few times; the formula must hold for every pericenter sequence and every t, including t at a pericenter.",
     [E_], [("interpolation of 2*pi*k through pericenter times, modulo 2*pi", "compute_mean_anomaly"), ("range check", "check_input_limits")])

prop("C03", "Outputs cover exactly the reference points inside the measurable range",
     "For an array of reference times, the returned times are exactly those requested ones, in the requested order, that lie between max(first pericenter, first apocenter) and min(last pericenter, last apocenter), both ends included; for reference frequencies exactly those f with f_min <= f < f_max. "
     "The returned eccentricities and mean anomalies have the same length as the returned reference points and correspond to them element by element; scalar in gives scalar out, and the result names times for time input and frequencies for frequency input. "
     "If no requested point is in the range, an exception is raised.",
     ["inputs", "configurations"], "every reference array or scalar (including repeated, unsorted, partly or fully out of range) and every set of extrema",
     "The interface test uses a few hand-picked arrays inside the range; boundary points, scalars at the edges and partly out-of-range arrays are not reachable by enumeration.",
     [E_], [("tmin/tmax and tref_out selection", "measure_ecc"), ("frequency selection", "get_fref_out, get_fref_bounds"), ("return dictionary", "make_return_dict_for_eccentricity_and_mean_anomaly"), ("limits", "check_input_limits")])

prop("C04", "Invalid requests and malformed data raise, never give a silent result",
     "A measurement raises when both or neither of reference time and reference frequency are given, the method, frame, extrema-interpolation or frequency-averaging method is unknown, an option name is unknown, the time array is missing or not uniformly sampled, neither or both of {complex modes} and {amplitude and phase} are given, a negative number of orbits before merger is requested, or residual methods lack quasicircular data. "
     "It also raises when the phase at merger is below the phase at the start, when the frequency at merger is negative, when fewer than the orbits to be excluded are available before merger, and when quasicircular data starts later than the eccentric data. "
     "Valid requests are not rejected by these validations.",
     ["inputs", "configurations"], "all combinations of present/absent arguments and data keys, all time arrays and phase arrays",
     "The tests exercise at most one malformed input of a few kinds; the claim is that no malformed input of these kinds ever produces a number.",
     [G + "gw_eccentricity.py", E_, U, G + "eccDefinitionUsingResidualAmplitude.py"],
     [("argument validation", "eccDefinition.__init__, measure_eccentricity"), ("data validation", "process_data_dict, get_amplm_from_dataDict, get_phaselm_from_dataDict"), ("option names", "check_kwargs_and_set_defaults"), ("quasicircular data", "compute_res_amp_gw_and_res_omega_gw, check_and_raise_zeroecc_data_not_found")])

prop("C05", "A measurement never modifies the caller's data, options or reference arrays",
     "Measuring eccentricity leaves the waveform dictionary (its keys, nested mode dictionaries and the contents of every array), the nested options dictionary and the reference array passed by the caller bit-for-bit unchanged, whether the measurement succeeds or raises. "
     "Consequently repeating a measurement with the same arguments gives the same result.",
     ["inputs", "histories", "configurations"], "all six methods, all layouts of the waveform dictionary (complex modes, amplitude/phase, with or without frequency, with or without quasicircular data, precessing or not), all options, success and failure paths",
     "No test compares the inputs before and after a call; which arrays alias depends on the layout of the dictionary and the configuration.",
     [E_, G + "eccDefinitionUsingFrequencyFits.py", G + "eccDefinitionUsingAmplitudeFits.py", G + "load_data.py"],
     [("fresh dictionaries of modes", "get_amp_phase_omega_data, get_amplm_from_dataDict, get_phaselm_from_dataDict, process_data_dict"), ("copy of options", "eccDefinition.__init__"), ("shift of the time axis", "find_extrema of the Fits methods"), ("inertial to coprecessing", "transform_inertial_to_coprecessing")])

prop("C06", "Cleaning of extrema only trims ends and removes jumps, pairs and extras",
     "Cleaning returns, for pericenters and for apocenters, an unchanged-order contiguous block of the extrema found. "
     "If the first phase-separation ratio above the threshold lies in the second half, everything after the extremum preceding the gap is dropped, and if the last ratio below the inverse threshold lies in the first half everything before the extremum following the gap is dropped; likewise the block ends at the first member of a too-close pair in the second half and starts at the second member of one in the first half; otherwise nothing is dropped by that step. "
     "Finally at most one pericenter lies beyond the outermost apocenter at each end and vice versa, the extremum kept being the one nearest to the other kind, and alternating well separated extrema are returned unchanged.",
     ["inputs"], "all strictly increasing extrema locations of any length and any monotonic phase",
     "Tests never call these functions with missing or spurious extrema near the ends; the combinations of positions, lengths and ratios are unbounded.",
     [E_], [("extra extrema at ends", "drop_extra_extrema_at_ends"), ("jumps", "drop_extrema_if_extrema_jumps"), ("close pairs", "drop_extrema_if_too_close"), ("composition", "get_good_extrema")])

prop("C07", "Orbit-averaged frequency is phase advance over elapsed time between extrema",
     "Between consecutive extrema of the same kind the orbit-averaged frequency equals (phase difference)/(time difference) and is attributed to the midpoint in time. "
     "The values from pericenters and from apocenters are merged in increasing order of midpoint time, each value staying attached to its own midpoint, and interpolated through exactly those points; when the averages are not strictly increasing an exception is raised. "
     "The mean-of-extrema average is half the sum of the two envelopes and the quasicircular average is the quasicircular frequency at the time shifted to align the mergers.",
     ["inputs"], "all phases, times and locations of pericenters and apocenters (any numbers >= 2, interleaved in any order)",
     "The tests check finiteness and rough agreement between averaging methods for one waveform; attribution after sorting is only visible for unequal or irregular extrema.",
     [E_], [("averages", "get_orbit_averaged_omega_gw_between_pericenters/apocenters"), ("midpoints and sorting", "get_t_average_for_orbit_averaged_omega_gw"), ("merging and interpolation", "compute_orbit_averaged_omega_gw_between_extrema"), ("monotonicity", "check_monotonicity_of_omega_gw_average"), ("other averages", "compute_mean_of_extrema_interpolants, compute_omega_gw_zeroecc")])

prop("C08", "A reference frequency is mapped to the time when the average frequency equals it",
     "The reported frequency bounds are the minimum and maximum of the average frequency over the range of times where it is defined, divided by 2*pi, and that range never exceeds the measurable range. "
     "For every accepted reference frequency f the eccentricity and mean anomaly are those at the time t where the chosen average frequency equals 2*pi*f, so larger f gives later t, and measuring again at those times reproduces the same values; a non-monotonic average raises an exception.",
     ["inputs", "configurations"], "all accepted reference frequencies, all three averaging methods, all waveforms",
     "Tests compare a few frequencies for stored values; inversion and bounds are claims about every frequency and every averaging method.",
     [E_], [("bounds", "get_fref_bounds, get_omega_gw_average"), ("inversion", "compute_tref_in_and_fref_out_from_fref_in"), ("selection", "get_fref_out")])

prop("C09", "Mode frequencies are fourth-order accurate time derivatives at every sample",
     "For a uniformly sampled phase of any length >= 5 the computed frequency of each mode is exact (up to rounding) at every sample, including the first two and the last two, whenever the phase is a polynomial in time of degree at most 4, for every step size and time origin. "
     "It is linear in the phase, unchanged by adding a constant to it, and computed independently for every mode from that mode's own phase and the time step; a frequency supplied by the user is used instead without change.",
     ["inputs"], "all lengths >= 5, all step sizes, all polynomial coefficients, all sample positions, all sets of modes",
     "Regression values average over errors of single stencil coefficients or of the four edge samples; exactness must hold at every index and length.",
     [U, E_], [("finite differences", "time_deriv_4thOrder"), ("per mode", "get_omegalm_from_phaselm, get_amp_phase_omega_data")])

prop("C10", "Merger time and peak value come from the exact parabola through the maximum",
     "The peak time is obtained from the least-squares parabola through the five samples centred at the largest sample, the centre being moved inwards only as far as needed so that five samples exist. "
     "If those five samples lie on a parabola c0 + c1*t + c2*t^2 with c2 != 0, the returned time is -c1/(2*c2) and the returned value is c0 - c1^2/(4*c2), independent of the time origin, and shifting all times shifts the returned time equally. "
     "The total amplitude used for the merger is the quadrature sum of all modes supplied.",
     ["inputs"], "all arrays of length >= 5, all positions of the maximum including the first and last two samples, all sampling steps, all sets of modes",
     "Stored regression numbers come from smooth peaks in the interior; edge clamping and exactness for every parabola are not sampled.",
     [U, E_], [("parabola fit", "peak_time_via_quadratic_fit"), ("total amplitude", "amplitude_using_all_modes"), ("merger", "process_data_dict")])

prop("C11", "Amplitude, phase and frequency of modes follow h = A exp(-i phi) conventions",
     "When complex modes are given, the amplitude is |h|, the phase is minus the unwrapped argument, so that A*exp(-i*phase) reproduces h for every mode, and giving the same data as amplitude and phase yields the same measurement. "
     "Non-precessing measurements use the (2,2) mode; precessing ones use (A22+A2-2)/2, (phi22-phi2-2)/2 and (omega22-omega2-2)/2, requiring the (2,-2) mode, and reduce to the (2,2) values for symmetric modes. "
     "Quasicircular data follows the same conventions and is optional.",
     ["inputs", "configurations"], "all mode dictionaries in either layout, all amplitudes and phases",
     "Tests check a single waveform in the two layouts with default tolerance; the decomposition must hold for every mode and sample.",
     [E_], [("decomposition", "get_amplm_from_dataDict, get_phaselm_from_dataDict, get_hlm_from_amplm_phaselm"), ("combination", "get_amp_phase_omega_gw")])

prop("C12", "Data within N orbits before merger is excluded consistently",
     "With N orbits excluded, the kept data are exactly the samples before the one whose phase is closest to (phase at merger) - 4*pi*N, the same number of samples being kept for the times and for amplitude, phase and frequency of every eccentric mode, while the quasicircular data are kept in full; with no exclusion requested everything is kept. "
     "N may be any non-negative number; if the waveform has less than N orbits before merger an exception is raised. "
     "The minimum width for extrema is a quarter of the number of samples between two and one orbits before merger.",
     ["inputs"], "all phases, all N (integer or not), all sets of modes, all positions of the merger",
     "Tests use the default N = 2 and one or two other values on a few waveforms and never inspect the truncated arrays.",
     [E_], [("truncation", "process_data_dict"), ("index search", "get_index_at_num_orbits_earlier_than_merger"), ("width", "get_width_for_peak_finder_from_phase_gw")])

prop("C13", "A short-segment measurement cuts one consistent window around the reference",
     "When only a given number of orbits is to be used, one window of consecutive samples is selected and applied identically to time, amplitude, phase and frequency. "
     "The window contains the reference points and, up to one sample at its end, at least the requested number of orbits (plus margin) whenever the waveform has that many, half on each side if available and otherwise compensated on the other side; if the waveform is shorter than requested the full waveform is used. "
     "For a reference frequency the window is chosen around the time where the secular trend of the frequency equals it, whatever the time origin.",
     ["inputs", "configurations"], "all monotonic phases, all reference points (scalar, array, near either end), all requested numbers of orbits",
     "The tests compare segment and full results at a few interior reference points; positions near the ends and compensation are not sampled.",
     [E_], [("window", "_get_segment_indices, _compute_additional_orbits, _get_phase_bounds, _get_reference_bounds, _update_waveform_data_segment"), ("frequency to time", "get_approximate_tref_for_fref_using_secular_trend"), ("decision", "eccDefinition.__init__")])

prop("C14", "Results do not depend on the time origin or on the units",
     "Shifting all times (waveform, quasicircular waveform independently, reference times together with the waveform) by any constant leaves eccentricity and mean anomaly unchanged, for every method, for reference times and reference frequencies, with or without the short-segment option. "
     "Rescaling the amplitude by a positive constant, or time by a positive constant with frequencies rescaled inversely, also leaves them unchanged (up to rounding and fit tolerances).",
     ["inputs", "configurations"], "all shifts and scale factors, six methods, time and frequency reference",
     "Two tests use one shift and one unit system on one waveform; invariance is a relation between all pairs of runs.",
     [E_, G + "eccDefinitionUsingFrequencyFits.py", U], [("merger alignment", "find_extrema of the Fits methods, compute_res_amp_gw_and_res_omega_gw, get_approximate_tref_for_fref_using_secular_trend"), ("peak time", "peak_time_via_quadratic_fit")])

prop("C15", "Extrema are located in the right data with pericenters as maxima",
     "The amplitude, frequency, residual-amplitude and residual-frequency methods locate pericenters as the local maxima and apocenters as the local minima of, respectively, amplitude, frequency, eccentric minus quasicircular amplitude, and eccentric minus quasicircular frequency, with the user's peak-finding options applied and locations strictly increasing; the two fit-based methods locate them relative to a smooth trend through them, scaling the amplitude by its merger value. "
     "Any other kind of extremum requested raises an exception. "
     "When apocenters are taken as midpoints there is exactly one between each consecutive pair of pericenters, at the integer part of the midpoint of their locations.",
     ["inputs", "configurations"], "all data arrays, six methods, both kinds of extrema, all peak-finding options",
     "Tests run each method on a few smooth waveforms; swapped signs cancel in many places and midpoint rounding or dropped options are not visible in the sampled cases.",
     [G + "eccDefinitionUsingAmplitude.py", G + "eccDefinitionUsingFrequency.py", G + "eccDefinitionUsingResidualAmplitude.py", G + "eccDefinitionUsingResidualFrequency.py", G + "eccDefinitionUsingFrequencyFits.py", G + "eccDefinitionUsingAmplitudeFits.py", E_],
     [("peaks of signed data", "find_extrema"), ("data", "get_data_for_finding_extrema"), ("midpoints", "get_apocenters_from_pericenters")])

prop("C16", "Zero eccentricity is returned only under the small-eccentricity policy",
     "If fewer than two pericenters or apocenters are found, zeros are returned only when the option to do so is on and the waveform has more than about five orbits; in every other case with fewer than two extrema an exception is raised. "
     "The zeros have the length of the requested reference points, which are then all returned, scalars for scalar requests; with two or more extrema of both kinds the option has no effect.",
     ["inputs", "configurations"], "all numbers of extrema, all lengths of waveform, option on or off, time or frequency reference, scalar or array",
     "One test covers the option for one long waveform; the decision table over extrema counts, length and option is not enumerated.",
     [E_], [("policy", "check_num_extrema, measure_ecc"), ("zeros", "set_eccentricity_and_mean_anomaly_to_zero")])

prop("C17", "Options are merged with defaults exactly, and messages follow the debug level",
     "Merging options with defaults raises for every unknown option name, keeps every value given by the user (including None, False and 0), fills in every missing one with its default and adds nothing else. "
     "Debug messages are silent at level -1, warn only if important at level 0, always warn at level 1 and always raise at level 2; any other level raises. "
     "A required loader option that is None raises.",
     ["inputs", "configurations"], "all dictionaries of options and defaults, all debug levels and importance flags",
     "Only a few misspelt options are tested; the decision table for debug levels is not.",
     [U], [("defaults", "check_kwargs_and_set_defaults"), ("debug level", "debug_message"), ("required options", "raise_exception_if_none")])

prop("C18", "Interpolation passes through its data and never silently extrapolates",
     "Interpolating raises if the abscissae and ordinates have different lengths, if the abscissae are not strictly increasing, if there are fewer than two points, if the interpolator is unknown, or, unless extrapolation is explicitly allowed, if any requested point lies outside the data range by more than 1e-10. "
     "Otherwise the returned values are those of the interpolant through exactly the given points in the given order, of the requested spline order or the largest order the number of points permits; extrapolation being allowed or not is decided by the caller's flag alone.",
     ["inputs", "configurations"], "all data arrays, all query arrays, all spline options, both interpolators",
     "Tests only use interpolation implicitly, with many points and inside the range.",
     [U], [("range checks", "interpolate"), ("construction", "get_interpolant")])

prop("C19", "Rational fits are well posed and evaluate consistently on and off training data",
     "A fit reduced for lack of data has the largest total degree below the limit reached by alternately lowering the denominator and the numerator degree, never negative, the reduction terminates, and it raises when even a constant cannot be fitted; a fit counts as underdetermined exactly when numerator degree + denominator degree + 1 >= number of points. "
     "Evaluating the fitted function at the training points gives the fitted values of the selected (smallest-residual) iteration, data that is exactly a ratio of polynomials of the chosen degrees is reproduced, and the result does not depend on an affine change of the abscissa. "
     "Mismatched lengths, malformed or negative degrees and evaluation before fitting raise; scalar in gives scalar out.",
     ["inputs"], "all degrees, numbers of points and data arrays",
     "Tests fit a few waveforms; termination and consistency of basis construction and evaluation hold for all data and degrees.",
     [G + "rational_fit.py", U], [("degrees", "is_underdetermined, get_reduced_degrees"), ("basis", "_arnoldi_basis, _eval_arnoldi_basis"), ("fit", "RationalFit.fit, _solve_using_varpro, predict"), ("wrapper", "get_rational_fit")])

prop("C20", "The adaptive rational fit returns a monotonic fit with the degrees it records",
     "The envelope built by the adaptive rational fit is either a fit whose first derivative was checked to be monotonic, on points no coarser than the data, with the recorded degrees, or, when even the lowest degrees (1,1) fail, a spline through the same points with recorded degrees None. "
     "Degrees are lowered in steps of one and never below one while nonmonotonic, raised in steps of one while monotonic and determined by more points than parameters, and the search always terminates; every degree tried is recorded together with whether it was nonmonotonic. "
     "The starting degrees grow with the number of extrema ((3,3) up to 20, (4,4) up to 40, (5,5) up to 60, (6,6) beyond) unless given by the user, and are reduced when there are too few points.",
     ["inputs", "histories"], "every outcome sequence of the monotonicity check, all numbers of points, all starting degrees",
     "Tests see the two or three outcome sequences of a few waveforms; the loop must be right for all of them.",
     [E_], [("loop", "get_rational_fit_for_extrema"), ("monotonicity", "check_if_first_derivative_is_not_strictly_monotonic"), ("start", "get_approximate_degree_for_rational_fit"), ("dispatch", "get_omega_gw_extrema_interpolant")])

prop("C21", "Batch post-processing isolates failures and keeps samples aligned",
     "For every list of posterior samples the result list has one entry per sample in the order requested, each carrying its own sample index and the eccentricity and mean anomaly obtained from that sample's parameters. "
     "A sample whose waveform generation or measurement raises yields a failed entry with no values and the error text, and does not affect any other sample; exactly one of reference time and frequency must be given. "
     "Summaries count all samples, report success percentage as 100*successes/total, list only successful values in order, and the common frequency range is (largest minimum, smallest maximum); selecting missing parameter columns raises.",
     ["inputs", "fault_sequences"], "all lists of samples, all subsets of failing samples, all kinds of exceptions",
     "There is no stable test of post-processing with failing samples.",
     [G + "postprocess/core.py", G + "postprocess/postprocess.py", G + "postprocess/postprocess_for_bilby.py"],
     [("sample", "postprocess_sample, get_fref_bounds_for_sample, get_data_dict"), ("summaries", "PostProcessResults, FrefBoundsResults"), ("batch", "PostProcess.postprocess, PostProcess.get_fref_bounds"), ("columns", "filter_posterior_columns")])

prop("C22", "Parallel post-processing handles each sample exactly once, also after a resume",
     "For every number of ranks, batch size and order in which workers finish, and any selection of distinct samples (also an empty one), each selected sample not found in the checkpoint is evaluated exactly once, its own result ends up in its own row of the final output, and each worker is told to stop exactly once after its last batch. "
     "Samples found in a checkpoint are not evaluated again and keep their recorded result; a checkpoint lacking required columns is ignored. "
     "A run interrupted after any checkpoint and restarted gives the same final table as an uninterrupted one, and checkpoints are written every requested number of samples and at the end.",
     ["schedules", "crash_points", "configurations"], "all worker counts, batch sizes, completion orders, checkpoint intervals and interruption points",
     "No test runs the master/worker loop; schedules and crash points cannot be enumerated by a unit test.",
     [G + "postprocess/postprocess_cli.py"], [("dispatch loop", "master, extract_batch_data"), ("worker", "worker, run_postprocess_batch, run_postprocess"), ("files", "save_checkpoint, load_checkpoint, save_final, write_df")])

prop("C23", "Command-line values are parsed to exactly what they denote",
     "A sample specification 'all' or 'none' in any case means every sample, 'n' the single sample n, 'a,b,c' those samples in that order, and 'start:stop[:step]' the same indices as a Python range with start defaulting to 0 and step to 1; blanks around items and empty items of a list are ignored, anything else raises. "
     "Optional integers accept 'none' in any case; JSON options must be objects, empty meaning no options, and anything else raises; functions are loaded from 'module:name' or 'file.py:name' and must exist and be callable.",
     ["inputs"], "all strings",
     "No stable test covers command-line parsing.",
     [G + "postprocess/postprocess_cli.py"], [("samples", "parse_samples"), ("integers", "parse_int_or_none"), ("JSON", "parse_json_dict"), ("functions", "load_callable")])

prop("C24", "Spin filtering uses a valid low-pass and leaves data alone unless required",
     "The low-pass mask is 1 below the taper, 0 above it, follows a cosine taper decreasing from 1 to 0 in between, and always stays within [0,1]; the cutoff frequency lies between the eccentricity frequency and the spin frequency found in their search windows. "
     "Overlapping filtered segments are combined as weighted averages, so that segments that agree with a common signal reproduce that signal wherever they have weight. "
     "If filtering is not required or is switched off, amplitude, frequency and phase are exactly the symmetric combinations of the coprecessing modes; if applied, the phase is the running sum of the filtered frequency times the time step, and the originals are kept alongside.",
     ["inputs", "configurations"], "all spectra, cutoffs, taper widths, segment layouts and data",
     "Only one precessing waveform is available to the tests and its test is not among the stable ones.",
     [G + "spin_filter.py", E_], [("mask", "_make_lowpass_mask"), ("frequencies", "_get_fcut_fecc_fspin"), ("segments", "_make_segment, _combine_segments, apply_filter"), ("decision and outputs", "check_filter_requirement, check_and_filter_spin_induced_oscillations")])

prop("C25", "Loading helpers preserve modes, convert units and cut junk consistently",
     "Converting to physical units multiplies time by M*G*Msun/c^3 and strain by G*M*Msun/(c^2*D*Mpc). "
     "Packing the modes of given ell range for frame rotation orders them by increasing ell then m, fails if any mode is missing, and unpacking returns every mode unchanged under its own (ell, m); rotating a data dictionary replaces only the modes of the chosen (eccentric or non-eccentric) waveform, computed from that waveform's own modes and times. "
     "Removing junk cuts times and all modes at the same sample, the one whose phase is closest to 4*pi*N above the initial phase; option sub-dictionaries contain exactly the requested keys and unknown origins or options raise.",
     ["inputs"], "all masses, distances, mode dictionaries and phases",
     "Tests load a few waveforms and regress on results only.",
     [G + "load_data.py"], [("units", "time_dimless_to_mks, amplitude_dimless_to_mks"), ("modes", "package_modes_for_scri, unpack_scri_modes, get_coprecessing_data_dict"), ("junk", "reomve_junk_from_nr_data"), ("options", "make_a_sub_dict, load_waveform")])

prop("C26", "Residuals subtract quasicircular data aligned at merger on the same times",
     "The residual amplitude and residual frequency are the eccentric data minus the quasicircular data interpolated at the same times after shifting the quasicircular times so that the two mergers coincide. "
     "If the quasicircular data starts after the eccentric data, ends before the merger or is not uniformly sampled an exception is raised, and results at reference times beyond the end of the aligned quasicircular data are refused. "
     "Quasicircular data equal to the eccentric data gives zero residuals for any time offset between them.",
     ["inputs"], "all pairs of eccentric and quasicircular waveforms and all offsets between their time axes",
     "Test waveforms have both mergers at t = 0, where a wrong or missing alignment is invisible.",
     [E_], [("residuals", "compute_res_amp_gw_and_res_omega_gw"), ("refusal", "measure_ecc")])

prop("C27", "Errors between two methods are compared at identical times only",
     "The comparison of two measurements uses exactly the reference times t of each with t_start <= t < t_end, where t_start is the largest of the two starting times and the optional lower limit and t_end the smallest of the two end times and the optional upper limit, and fails if these do not coincide. "
     "Eccentricity errors are absolute differences, mean anomaly errors absolute differences of the unwrapped mean anomalies, and all returned arrays have the same length in the same order; limits beyond the common range raise.",
     ["inputs"], "all pairs of measurements and all optional limits",
     "No stable test covers this comparison.",
     [G + "compare_methods.py"], [("comparison", "compute_errors_between_methods")])

prop("C28", "Consistency checks report exactly the anomalies they are meant to detect",
     "The monotonicity check of an envelope reports nonmonotonic exactly when the ratio of successive values of its first derivative falls below one by more than the tolerance, without modifying its arguments. "
     "At debug level one and above, the check of separations reports the orbital phase differences between consecutive extrema and their ratios (first entry 0) and flags pairs closer than pi and ratios above 1.5; the check of alternation flags extrema that do not alternate, and the check of dropped extrema flags more than half dropped. "
     "Eccentricity increasing anywhere in the measured range is reported, and the reported range consists of the first and last such times.",
     ["inputs"], "all derivative sequences, all extrema locations, all debug levels",
     "The checks only print warnings in tests; no test asserts what they flag.",
     [E_], [("envelope monotonicity", "check_if_first_derivative_is_not_strictly_monotonic"), ("separation", "check_extrema_separation"), ("alternation", "check_pericenters_and_apocenters_appear_alternately"), ("dropped", "check_if_dropped_too_many_extrema"), ("eccentricity", "check_monotonicity_and_convexity, get_range_from_indices")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
