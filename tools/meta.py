#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the property catalogue lives here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pybsm/"
OTF, RAD, MET, SIM, GEO, NOI, UTL = S + "otf/functional.py", S + "radiance/functional.py", S + "metrics/functional.py", S + "simulation/functional.py", S + "geospatial.py", S + "noise.py", S + "utils.py"
SEN, SCE, REF = S + "simulation/sensor.py", S + "simulation/scenario.py", S + "simulation/ref_image.py"
INP = "every admissible input: "


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note)


PBT = "property-based testing: "
PROPS = [
    P("P01", "Slant range is the straight chord over a spherical earth",
      "The distance between a target and a sensor is the straight-line chord fixed by their heights above a sphere of radius 6378.164 km and the ground range between them. It is symmetric in the two heights, never shorter than their difference, and never decreases as the ground range grows.",
      ["inputs"], INP + "target and sensor heights (either above the other, below sea level, space) and ground ranges 0 to half the circumference, scalar or array",
      "Snapshot tests hold a few triples; errors at nadir, at long range or with a raised target pass them.", [GEO], [("curved_earth_slant_range", GEO)],
      PBT + "haversine-form reference model, symmetry and monotonicity", "Rounding of the law of cosines at very short range is tolerated."),
    P("P02", "Nadir angle, line-of-sight heights and ground sample close the triangle",
      "The nadir angle at the sensor is the one of the triangle formed by earth centre, target and sensor, and is zero (never undefined) looking straight down. The sampled line of sight runs from the target's height to the sensor's height along the straight chord at evenly spaced positions. The ground sample distance is field of view times range.",
      ["inputs"], INP + "target heights, sensor heights above it and ground ranges from straight down to beyond the horizon",
      "Tests use a handful of triples with one target height.", [GEO], [("nadir_angle", GEO), ("altitude_along_slant_path", GEO), ("ground_sample_distance", GEO)],
      PBT + "independent triangle and point-by-point chord model", "10^4-point path compared point by point."),
    P("P03", "Diffraction response of clear and obscured circular apertures",
      "The diffraction transfer function equals the normalised autocorrelation of a clear or centrally obscured circular pupil at every spatial frequency: one at zero frequency, zero at and beyond the cutoff, continuous and finite in between. This holds across the boundaries between the obscured aperture's frequency regions and on every frequency array shape.",
      ["inputs"], INP + "wavelength, diameter, obscuration ratio 0-0.97 and two-dimensional spatial frequencies inside, on and beyond the cutoff and region boundaries",
      "Snapshots at three frequencies cannot see a wrong branch or a discontinuity between regions.", [OTF], [("circular_aperture_OTF", OTF)],
      PBT + "closed-form lens-area autocorrelation as reference model", "Reference is the area common to two annuli."),
    P("P04", "Defocused diffraction response",
      "The transfer function of a defocused clear circular aperture equals the autocorrelation of a pupil with quadratic phase of the given edge wavefront error, for either sign of the error. Without defocus it is the diffraction response of the clear aperture, and it vanishes beyond the cutoff.",
      ["inputs"], INP + "wavelength, aperture, f-number, wavefront error 0-5 waves of either sign and spatial frequencies",
      "Tests hold one or two snapshots of the series, computed with it.", [OTF], [("circular_aperture_OTF_with_defocus", OTF)],
      PBT + "numerical pupil-autocorrelation integral as oracle", "Tolerance covers the truncated published series."),
    P("P05", "Detector, aggregation, charge transfer, TDI and diffusion responses",
      "Each detector-plane degradation (finite pixel width, pixel aggregation, charge transfer inefficiency, time-delay-integration synchronisation, carrier diffusion) has the published transfer function of its physical parameters at every frequency, independently in the two directions. Aggregating adjacent full-width pixels equals one correspondingly larger pixel, and dark current is current density times area in electrons.",
      ["inputs"], INP + "pixel widths and pitches, transfer counts and efficiencies, stages and clock mismatches, absorption and diffusion lengths, and spatial frequencies including zero and exact nulls",
      "Tests compare single points with stored snapshots; wrong axes, special-cased zeros and products of parameters stay invisible.", [OTF], [("detector_OTF", OTF), ("detector_OTF_with_aggregation", OTF), ("cte_OTF", OTF), ("tdi_OTF", OTF), ("diffusion_OTF", OTF), ("dark_current_from_density", OTF)],
      PBT + "independent closed forms (sums instead of quotients of sines)", "Removable singularities are evaluated by series."),
    P("P06", "Line-of-sight and optics blur responses",
      "Drift, jitter, Gaussian blur, Gaussian defocus and wavefront-error degradations have the published transfer functions of their amplitudes at every frequency, each amplitude acting along its own direction. Object- and image-side defocus blur radii follow from aperture, focal length, object and focus range.",
      ["inputs"], INP + "blur amplitudes (zero included) and spatial frequencies in any array layout",
      "Snapshots use one parameter set, often equal in both directions.", [OTF], [("drift_OTF", OTF), ("jitter_OTF", OTF), ("defocus_OTF", OTF), ("gaussian_OTF", OTF), ("wavefront_OTF", OTF), ("wavefront_OTF_2", OTF), ("object_domain_defocus_radii", OTF), ("image_domain_defocus_radii", OTF)],
      PBT + "independent closed forms", "None beyond floating-point tolerance."),
    P("P07", "Every response is unity at zero frequency, symmetric and point-wise",
      "Every blur transfer function equals one at zero frequency, does not exceed one in modulus, and is conjugate symmetric under reversal of the frequencies. Its value at a frequency depends on that frequency alone, not on the shape, order, memory layout or other members of the array, and neither the frequency arrays nor other inputs are modified.",
      ["inputs"], INP + "any blur component, its parameters and frequency arrays of any shape and layout",
      "Tests evaluate fixed arrays and never re-evaluate parts, permutations or reversed frequencies.", [OTF], [("all *_OTF functions", OTF)],
      PBT + "metamorphic relations (point-wise evaluation, reversal, purity)", "Sharpening filters are excluded from the unit bound."),
    P("P08", "Worse degradations blur more; neutral ones do nothing; units cancel",
      "Increasing the amount of any single degradation never raises its modulus response within its monotone range, and a degradation of zero strength has unit response at every frequency. Independent Gaussian blurs combine in quadrature, and scaling all frequencies by a factor while dividing all angular sizes by it changes nothing.",
      ["inputs"], INP + "component, direction of change, change factor and frequencies",
      "No test compares two evaluations with each other.", [OTF], [("all *_OTF functions", OTF)],
      PBT + "metamorphic relations (severity order, neutral element, composition, scaling)", "Severity order is asserted only where theory gives it."),
    P("P09", "Turbulence response, long and short exposure, and wind mixing",
      "The turbulence response depends on wavelength, aperture and coherence diameter through the published five-thirds law, with the short-exposure correction when asked for. With relative motion it is the exponentially weighted mix of both, short exposure when nothing moves and long exposure when the air crosses many coherence diameters.",
      ["inputs"], INP + "wavelengths, apertures, coherence diameters, integration times and wind speeds including zero",
      "Snapshots hold one mixed value.", [OTF], [("turbulence_OTF", OTF), ("wind_speed_turbulence_OTF", OTF)],
      PBT + "independent formula and limit cases", "None beyond floating-point tolerance."),
    P("P10", "Turbulence profile, coherence diameter and band-averaged turbulence",
      "Ground-layer and high-altitude terms of the refractive-index structure profile follow the Hufnagel-Valley model at every height. The spherical-wave coherence diameter is the path integral weighted towards the sensor, scales with the six-fifths power of wavelength and the minus three-fifths power of turbulence strength. The band-averaged turbulence response along a slant path is the weighted mean of the single-wavelength responses for that path, and unity without ground turbulence.",
      ["inputs"], INP + "heights, winds, ground turbulence, paths, bands, weights, slant geometries",
      "Tests use single altitudes and wavelengths.", [OTF, GEO], [("hufnagel_valley_turbulence_profile", OTF), ("coherence_diameter", OTF), ("polychromatic_turbulence_OTF", OTF)],
      PBT + "independent path integration and scaling laws", "Trapezoidal path integral as in the model's definition."),
    P("P11", "Spectral weighting is a normalised average over the band",
      "A band-averaged response is the average of the single-wavelength responses with the given non-negative weights normalised to one. It is unaffected by the overall scale of the weights, the order of the wavelengths, or entries of zero weight, and lies within the range of the single-wavelength values.",
      ["inputs"], INP + "1-8 wavelengths in any order, any non-negative weights with a positive sum, any scalar or array valued function of wavelength",
      "Tests use two wavelengths and one function.", [OTF], [("weighted_by_wavelength", OTF)],
      PBT + "exact weighted sum and permutation/scale invariance", "None beyond floating-point tolerance."),
    P("P12", "The system response is the product of its components",
      "The system transfer function is the point-wise product of aperture, turbulence, detector, jitter, drift, wavefront and image-filter responses, each evaluated with the sensor's and scenario's own parameters, spectral weights, slant range and actual exposure. Without an image filter the system never exceeds any of its components or unity, and switching one degradation off removes that factor and nothing else.",
      ["inputs", "configurations"], "every sensor, scenario, band, weights, slant range, exposure and frequency array, with and without an image filter of any shape",
      "One stored system response for one sensor; most degradations are zero in it.", [OTF, S + "otf/otf.py"], [("common_OTFs", OTF)],
      PBT + "reference composition from independent component models; factor-removal relation", "Components trusted to the reference models of P03-P10."),
    P("P13", "An image filter's response is the spectrum of its kernel",
      "The response of an image filter is the modulus of its kernel's two-dimensional spectrum at the requested frequencies, columns along the first and rows along the second frequency, for kernels of any shape. It repeats with the detector sampling frequency beyond Nyquist and depends on frequency only through frequency times pixel size.",
      ["inputs"], INP + "unit-sum kernels of 1x2 to 5x5 taps with either sign, pixel sizes, frequencies up to three times Nyquist in both directions",
      "Tests hold two kernels at single frequencies.", [OTF], [("filter_OTF", OTF)],
      PBT + "direct Fourier sum of the kernel; periodicity and scaling", "Linear interpolation between the package's 100x100 spectrum samples is tolerated (range of the kernel spectrum over the cell); the stretched grid is a recorded finding."),
    P("P14", "A response slice is the ray from zero frequency at the requested angle",
      "A slice of a two-dimensional response starts at zero frequency in the array's centre and follows the ray at the requested angle, counter-clockwise with the second frequency pointing up the rows, by bilinear interpolation with one sample per frequency step. It works for real and complex arrays and any finite angle, and rotating or mirroring the array rotates or mirrors the slices.",
      ["inputs"], INP + "odd-sized square arrays, real or complex, and any angle of either sign",
      "Tests slice one array at angle zero.", [OTF], [("slice_otf", OTF)],
      PBT + "bilinear ray model, rotation and mirror relations", "Arrays are square and odd-sized, as the models build them."),
    P("P15", "A transfer function converts into its normalised, centred blur kernel",
      "The blur kernel of a transfer function is its inverse Fourier transform, centred, resampled to the requested angular spacing, cropped symmetrically to a window little larger than needed to hold most of its energy, and normalised to unit sum. A symmetric response gives a symmetric kernel, and a Gaussian response gives a Gaussian kernel of the reciprocal width.",
      ["inputs"], INP + "real and complex, square and rectangular responses of 4 to 151 samples (odd and even), frequency steps and output spacings",
      "One snapshot of a constant response.", [OTF], [("otf_to_psf", OTF)],
      PBT + "direct inverse transform and analytic Gaussian pair as oracles", "Resampling is bilinear; its error bound is part of the tolerance."),
    P("P16", "Applying a response blurs with its kernel, then samples at the detector",
      "Applying a response to an image convolves it (a response that delays in one direction moves the image that way) with the blur kernel at the image's own angular sampling and resamples the result to the detector's angular sampling, returning image and kernel of the corresponding sizes. A colour image is treated channel by channel. The operation is linear, keeps a flat scene flat, and leaves the input image unchanged; resampling itself is bilinear on the new grid.",
      ["inputs"], INP + "images, ground samples, ranges, responses and detector spacings from native to nine times coarser",
      "Tests check shapes or one trivial image.", [OTF], [("apply_otf_to_image", OTF), ("resample_2D", OTF)],
      PBT + "reference convolution and bilinear model; linearity", "Half-sample placement of even-sized kernels is accepted either way."),
    P("P17", "Thermal radiance and optical irradiance laws",
      "Blackbody spectral radiance follows Planck's law at every wavelength and temperature and integrates to the Stefan-Boltzmann law. Focal-plane irradiance from scene radiance, cold-shield, optics and cold-stop self emission follow from the cone of the aperture, transmissions, emissivities and temperatures; broadband irradiance is their sum.",
      ["inputs"], INP + "wavelengths 0.2-14 um, temperatures 20-6000 K, apertures, focal lengths, emissivities, transmissions, spectra",
      "Snapshots at one temperature and geometry.", [RAD], [("blackbody_radiance", RAD), ("at_focal_plane_irradiance", RAD), ("cold_shield_self_emission", RAD), ("optics_self_emission", RAD), ("cold_stop_self_emission", RAD), ("focal_plane_integrated_irradiance", RAD)],
      PBT + "independent physical formulas and integral laws", "Integral laws hold to the quadrature error."),
    P("P18", "Detected signal counts the photons of every source",
      "The photoelectron rate is the spectral irradiance of scene radiance through optics plus all self emission and stray irradiance, converted to photons, multiplied by quantum efficiency and detector area and integrated over wavelength, plus dark current. It is linear in each source, transmission and efficiency, and the spectral weights it returns are the rate per wavelength.",
      ["inputs"], INP + "spectra of 1-8 wavelengths with zeros, transmissions, efficiencies, stray light, dark current, detector sizes",
      "Snapshots with unit inputs hide swapped or dropped factors.", [RAD], [("photon_detection_rate", RAD), ("signal_rate", RAD)],
      PBT + "independent photon-counting model, linearity", "Trapezoidal integration over the given wavelengths."),
    P("P19", "Scene radiance combines path, scattered, reflected and emitted light",
      "At-aperture radiance is path thermal plus solar scatter plus the ground-reflected column rescaled from its 15 % reference reflectance plus transmitted grey-body emission of one minus reflectance. The image-quality targets are 15 % and 7 % reflectors at 282 K and 280 K in reflective mode and blackbodies at these temperatures in emissive mode.",
      ["inputs"], INP + "atmosphere tables, reflectances 0-1, temperatures, both modes",
      "Tests use all-ones tables.", [RAD], [("total_radiance", RAD), ("giqe_radiance", RAD)],
      PBT + "independent radiance model", "None beyond floating-point tolerance."),
    P("P20", "Spectral tables are resampled linearly and are zero outside",
      "Resampling a tabulated spectrum to other wavelengths interpolates linearly between neighbours, returns table values on table wavelengths, and is zero outside the table. Order and number of requested wavelengths do not matter, and the table is left unchanged.",
      ["inputs"], INP + "tables of 1-8 increasing wavelengths and any requested wavelengths inside, on and outside it",
      "One interpolated point is tested.", [RAD], [("resample_by_wavelength", RAD)],
      PBT + "own piecewise-linear model", "None beyond floating-point tolerance."),
    P("P21", "Signal-to-noise budget with well-limited exposure",
      "Target and background electrons over the exposure, shot, dark, self-emission, quantization, read and other noise, contrast, well fill and signal-to-noise ratio all follow from the sensor, the spectra and the exposure actually used. The exposure is shortened just enough that the brighter scene does not exceed the allowed well fill, and is the configured one otherwise.",
      ["inputs", "configurations"], "every sensor (time-delay stages, well capacity and fill, bit depth, temperatures, efficiencies, extra noise) and pair of spectra, brighter target or brighter background",
      "One snapshot sensor that never saturates.", [RAD, S + "radiance/snr_metrics.py"], [("photon_detector_SNR", RAD), ("check_well_fill", RAD)],
      PBT + "independent noise-budget model", "None beyond floating-point tolerance."),
    P("P22", "Reflectance maps linearly and monotonically to photoelectrons",
      "The reflectance-to-photoelectron table spans reflectance zero to one in a hundred even steps and gives the electrons a target of that reflectance and the requested temperature yields in the given exposure, linearly, and rescaled so that no value exceeds the well capacity. Its spectral weights are the in-band detected spectrum.",
      ["inputs", "configurations"], "every sensor, atmosphere, exposure and target temperature",
      "One snapshot at the default temperature.", [RAD], [("reflectance_to_photoelectrons", RAD)],
      PBT + "independent radiometric chain", "Weights are compared up to normalisation."),
    P("P23", "Image quality equations (GIQE 3, 4 and 5)",
      "NIIRS predictions equal the published equations of versions 3, 4 and 5 for every edge response, overshoot, noise gain, signal-to-noise ratio, ground sample and elevation, including both edge-response regimes of version 4 and the weaker-direction weighting of version 5. Coarser ground samples, more overshoot, more noise or lower elevation never improve the prediction.",
      ["inputs"], INP + "edge responses either side of the regime boundary, overshoots, noise gains, signal-to-noise ratios, ground samples, elevations",
      "One value per equation, in one regime.", [MET], [("giqe3", MET), ("giqe4", MET), ("giqe5", MET)],
      PBT + "published equations as reference model; monotone trends", "Coefficients as published."),
    P("P24", "Edge response, its slope and its overshoot integrate the response slice",
      "The normalised edge response at any position equals one half plus the sine integral of the modulation transfer slice, is antisymmetric about the edge, and depends on frequency only through frequency times pixel pitch. The relative edge response is its difference across one pixel, overshoot is its maximum between one and three pixels past the edge or its value at 1.25 pixels when it rises monotonically, and two-dimensional terms are combined per direction with that direction's pixel pitch.",
      ["inputs"], INP + "slices (smooth, sharpened, random, flat), frequency steps, pixel pitches, edge positions and two-dimensional responses with rectangular pixels",
      "Snapshots of one slice with square pixels.", [MET], [("edge_response", MET), ("relative_edge_response", MET), ("edge_height_overshoot", MET), ("giqe_edge_terms", MET), ("giqe5_RER", MET)],
      PBT + "direct quadrature of the edge integral; symmetry and scaling", "Zero frequency handled by its limit; 3e-6 absolute tolerance."),
    P("P25", "Ground resolved distance is the smallest period with threefold contrast",
      "The ground resolved distance is range over the highest spatial frequency at which response times signal-to-noise ratio still reaches three, and never less than two detector ground samples. It scales with range and never grows with a higher signal-to-noise ratio.",
      ["inputs"], INP + "strictly decreasing slices, signal-to-noise ratios from unresolvable to unlimited, detector sizes and ranges",
      "One example.", [MET], [("ground_resolved_distance", MET)],
      PBT + "own threshold search; scaling and trend relations", "Slices are strictly decreasing."),
    P("P26", "Noise gain of image filters and quantization noise",
      "The noise gain of a unit-sum kernel is the root of the sum of its squared taps, and kernels that do not sum to one are refused. Quantization noise is the rms error of uniform rounding over the electron range at the given bit depth.",
      ["inputs"], INP + "kernels of any shape and sign, electron ranges, whole and fractional bit depths",
      "Two kernels and one depth are tested.", [NOI], [("noise_gain", NOI), ("quantization_noise", NOI)],
      PBT + "exact sums and simulated rounding", "Sums within 1e-3 of one but not equal are not asserted either way."),
    P("P27", "End-to-end NIIRS by GIQE 3/4 is consistent from atmosphere to score",
      "The predicted NIIRS for a sensor and scenario, and every intermediate quantity published with it (in-band atmosphere, radiances, noise budget, spectral weights, transfer functions, edge terms, ground samples, elevation), equal the composition of the documented steps under the scenario's own atmosphere, exact or interpolated. The band decides between reflective and emissive targets, and path and scene noise add up to the light collected.",
      ["inputs", "configurations"], "every sensor in visible to thermal bands and every tabulated or interpolated condition",
      "The atmosphere files are absent in the test environment, so no test runs the model at all.", [MET, S + "metrics/metrics.py"], [("niirs", MET)],
      PBT + "complete independent re-implementation as differential oracle", "Synthetic atmosphere database in place of the git-LFS files."),
    P("P28", "End-to-end NIIRS by GIQE 5 is consistent from atmosphere to score",
      "The GIQE 5 prediction and its published intermediates equal the composition of the documented steps, using the unsharpened system response whatever image filter the sensor carries. Edge responses are taken in both directions with the weaker one dominating, and frame stacking raises the signal-to-noise ratio by the square root of the frames.",
      ["inputs", "configurations"], "every sensor in visible to thermal bands, with and without filter and stacking, and every condition",
      "The atmosphere files are absent in the test environment, so no test runs the model at all.", [MET, S + "metrics/metrics.py"], [("niirs5", MET)],
      PBT + "complete independent re-implementation as differential oracle", "Synthetic atmosphere database in place of the git-LFS files."),
    P("P29", "Evaluations do not influence each other",
      "Evaluating a sensor in a scenario gives the same result whatever was evaluated before, on the same or on other sensors and scenarios, and equals the result on newly made identical objects. Evaluations leave the caller's sensor and the scenario's viewing conditions unchanged, and results returned earlier keep their values.",
      ["histories"], "every sequence of evaluations of both models over shared sensors and scenarios, with callers overwriting results in between",
      "Tests never evaluate twice.", [MET, SCE, SEN], [("niirs", MET), ("niirs5", MET)],
      PBT + "stateful histories against fresh-object evaluation", "Scenario target settings are documented to be reset by the models."),
    P("P30", "Every tabulated atmosphere is found, and only those",
      "For each altitude, ground range and haze code in the database the loader returns that condition's spectra: 1371 wavelengths from 0.3 to 14 um, transmission, and four radiance columns in W/(sr m^2 m), in their documented order. A condition the database does not hold is refused with an index error.",
      ["inputs"], "every row of the database index and arbitrary absent conditions, with float, integer and numpy arguments",
      "The data files are absent in the test environment; two error cases are tested.", [UTL], [("load_database_atmosphere_no_interp", UTL)],
      PBT + "generated database with known content as oracle", "Synthetic data files under the repository's own index."),
    P("P31", "Interpolated atmospheres are bilinear between neighbouring conditions",
      "Between tabulated altitudes (2 m to 20 km) and ground ranges (0 to 300 km) the interpolated atmosphere is the bilinear mean of the nearest enclosing tabulated conditions of the same haze, and the tabulated one exactly on a node. Conditions outside these limits, or whose enclosing conditions are missing, are refused with an index error rather than extrapolated.",
      ["inputs"], "every altitude, ground range and haze code, on, between, near and outside grid nodes and at the horizon corners",
      "The data files are absent in the test environment.", [UTL], [("load_database_atmosphere", UTL)],
      PBT + "own bilinear model over the generated database", "Synthetic data files under the repository's own index."),
    P("P32", "A scenario's atmosphere always matches its current settings",
      "Reading a scenario's atmosphere gives the exact or interpolated atmosphere of its current altitude, ground range and haze, after any sequence of changes and reads, including reads that were refused. Other settings do not affect it, repeated reads agree, and scenarios do not affect each other.",
      ["histories"], "every sequence of setting changes and reads over several scenarios, interpolating or not",
      "Tests check the cache field after one assignment.", [SCE, UTL], [("Scenario.atm", SCE), ("Scenario setters", SCE)],
      PBT + "model-based stateful testing", "Synthetic data files under the repository's own index."),
    P("P33", "Cameras and scenarios keep their settings and derive stated defaults",
      "Every setting given to a camera or scenario is kept unchanged, and missing ones take their documented values: square pixels, full fill factor along the first direction, the same fill factor along the second, wavefront correlation lengths equal to the aperture, unit transmission and efficiency over the band. Two cameras share no mutable state.",
      ["inputs", "configurations"], "every subset of optional settings with any values",
      "Tests construct sensors with the full list or none.", [SEN, SCE], [("Sensor.__init__", SEN), ("Scenario.__init__", SCE)],
      PBT + "generated constructor arguments against the documented defaults", "None."),
    P("P34", "Pixel counts map to reflectance piecewise linearly within zero and one",
      "Pixel counts convert to reflectance by straight lines through the calibration points, in whatever order they are given, prolonged beyond the outermost points, and limited to the interval from zero to one. The input image is left unchanged, its shape kept, and calibrations with fewer than two points are refused.",
      ["inputs"], INP + "images of any numeric type and shape and 2-6 calibration points in any order",
      "Two images and sorted points are tested.", [SIM], [("img_to_reflectance", SIM)],
      PBT + "own piecewise-linear model", "Points are distinct."),
    P("P35", "Simulated true and blurred images follow the imaging chain",
      "The simulated true image is the reference image's reflectance converted to photoelectrons under the scenario's atmosphere with the sensor's exposure and well capacity. The blurred image is that image under the system response for the slant distance, resampled to the detector's angular sampling; neither depends on the random state, and sensor and reference image stay unchanged.",
      ["inputs", "configurations"], "every sensor, scenario, reference image and calibration with a properly sampled blur kernel",
      "The atmosphere files are absent in the test environment, so no test runs the simulation.", [SIM, RAD, OTF], [("simulate_image", SIM)],
      PBT + "independent chain as differential oracle", "Convolution step trusted to P15/P16; sensors that saturate while moving are left out (exposure then is ambiguous)."),
    P("P36", "Simulated noise has photon, read and quantization statistics",
      "The noisy image differs from the blurred one by independent zero-mean noise per detector whose variance is the photon count plus squared read noise plus squared quantization noise. With equal random seeds the simulation is reproducible, successive simulations carry independent noise, and without read and quantization noise the counts are whole numbers.",
      ["inputs", "configurations"], "every sensor, scenario and scene of at least 2000 detectors, random seeds",
      "The atmosphere files are absent in the test environment, so no test runs the simulation.", [SIM, NOI], [("simulate_image", SIM)],
      PBT + "statistical oracles at seven standard errors", "False-alarm probability below 1e-9 per case."),
    P("P37", "Reference image defaults and its undegraded capture camera",
      "Without calibration an image's 0.2 and 99.8 percentiles stand for reflectances 0.05 and 0.95, a given calibration is kept, and counts without reflectances are refused. The estimated camera looks straight down from the given altitude through clear still air, sees exactly one ground sample per detector, and adds no jitter, drift, aberration, obscuration or limiting diffraction.",
      ["inputs"], INP + "images of any type, ground samples and altitudes",
      "Two images and the default altitude are tested.", [REF], [("RefImage.__init__", REF), ("RefImage.estimate_capture_parameters", REF)],
      PBT + "own percentiles and optics relations", "Focal length fixed by gsd = altitude * pitch / focal length."),
    P("P38", "Contrast stretching to eight bits",
      "Stretching maps the lower percentile of an image to 0 and the upper one to 255, linearly in between, rounded and clipped, for default or given percentiles. It is monotone, independent of gain and offset of the input, and leaves the input unchanged.",
      ["inputs"], INP + "images of any numeric type and percentile pairs",
      "Not tested beyond one image.", [SIM], [("stretch_contrast_convert_8bit", SIM)],
      PBT + "own percentile model; monotonicity, gain/offset relation", "Images whose percentiles coincide are outside the domain."),
    P("P39", "Restoration filter minimises the expected error",
      "The restoration filter of a response and noise-to-signal spectrum is the one minimising squared restoration error plus noise at every frequency, for real and complex responses, scalar or frequency-dependent noise, and responses with zeros. The field of view of a detector is its width over the focal length.",
      ["inputs"], INP + "real and complex response arrays, positive noise-to-signal ratios (scalar or array)",
      "One real response is tested.", [SIM], [("wiener_filter", SIM), ("instantaneous_FOV", SIM)],
      PBT + "optimality conditions", "None beyond floating-point tolerance."),
    P("P40", "OpenCV is optional and its absence is explained",
      "Without OpenCV, absent or installed but not loadable, everything that does not resample images works as usual, and the operations that need it raise an import error that names OpenCV instead of failing in another way.",
      ["configurations", "inputs"], "every public operation with OpenCV absent, with generated inputs",
      "The test environment has OpenCV installed.", [OTF], [("otf_to_psf", OTF), ("apply_otf_to_image", OTF), ("resample_2D", OTF)],
      PBT + "fault injection (import of OpenCV blocked)", "One process per run has the import blocked; another finds an OpenCV that fails to load."),
    P("P41", "Plots show the quantities of the result under the right labels",
      "The response plot shows, for any slice angle, each component's and the system's response of the result against image-plane frequency in cycles per millimetre, labelled with its own name, with a mark at the Nyquist frequency. The noise plot shows each noise term of the result above its own label with electron counts and well fill in the title; plotting leaves the result unchanged. A shown reference image spans its physical size in metres.",
      ["inputs"], "every result of both models and every slice angle, reference images of any shape and type",
      "No test plots a result.", [MET, REF], [("plot_common_MTFs", MET), ("plot_noise_terms", MET), ("RefImage.show", REF)],
      PBT + "reading curves, bars and labels back from the figure", "matplotlib's Agg backend."),
    P("P42", "Degraded conditions are announced, normal ones are not",
      "A simulation whose image has more rows and columns than its reference is announced as oversampled by a log message of warning level or a warning. A well-limited exposure time is reported with its new value. A radiometric function given an empty spectrum warns that it is empty and returns an empty or zero result. None of these messages appears otherwise.",
      ["inputs", "configurations"], "simulations on either side of the reference's sampling, exposures on either side of saturation, any subset of empty spectra",
      "Tests never capture log output, and never reach two of the three conditions.", [SIM, RAD], [("simulate_image", SIM), ("reflectance_to_photoelectrons", RAD), ("signal_rate", RAD), ("blackbody_radiance", RAD)],
      PBT + "recording log records and warnings against an independent prediction of the condition", "Wording is not judged beyond its key word."),
    P("P43", "Whole numbers mean the same in every number type",
      "A setting or argument given as a Python integer, a signed numpy integer (64 bits, or 32 where its square fits) or a float of the same value gives the same result, for single calls and for whole sensors and scenarios evaluated with either image-quality model. Whole-numbered arrays are not truncated, wrapped or refused.",
      ["inputs"], INP + "whole-numbered arguments of the public functions and settings of sensors and scenarios, in five number types",
      "Tests mostly pass one type per argument.", [OTF, RAD, MET, NOI, GEO, SEN, SCE], [("common_OTFs", OTF), ("niirs", MET), ("niirs5", MET), ("Sensor", SEN)],
      PBT + "differential testing of equal inputs in different number types", "Arguments that only take arrays keep taking arrays; shorter and unsigned integers are left to numpy's own rules."),
    P("P44", "Copies of cameras, scenarios, images and results are faithful and separate",
      "A pickled or deep-copied sensor, scenario, reference image or result has the original's contents and gives the same evaluation. Afterwards, changing a setting of the original or of its copy, shallow copies included, leaves the other's settings and atmosphere as they were.",
      ["inputs", "histories"], "every sensor, scenario and result, read or unread, copied in four ways and then changed on either side",
      "No test copies an object.", [SEN, SCE, REF, MET], [("Scenario", SCE), ("Sensor", SEN), ("RefImage", REF)],
      PBT + "copy-then-mutate histories against the known atmosphere", "Arrays may be shared by shallow copies."),
    P("P45", "Concurrent evaluations do not disturb each other",
      "Evaluations running in several threads on objects of their own give the results they give alone, and none fails because of another. A scenario read by several threads gives each its atmosphere.",
      ["schedules", "inputs"], "two to six threads, each with one to four evaluations of nine kinds, under rapid thread switching",
      "No test starts a thread.", [MET, OTF, UTL, RAD, SCE], [("niirs", MET), ("common_OTFs", OTF), ("load_database_atmosphere", UTL), ("Scenario.atm", SCE)],
      PBT + "differential testing of concurrent against serial execution at a 5 us switch interval", "Schedules are sampled, not controlled."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(
                json.dumps(
                    {
                        "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
                    }
                )
                + "\n"
            )
    m = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [
            {
                "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration",
                "level_note": "Holds on every generated case; shrunk counterexample otherwise. " + p["note"],
            }
            for p in PROPS
        ],
        "not_applicable": [],
        "notes": "No hooks: the checks stage a fresh copy of /repo's working tree on every run. Known findings and repaired defects: KNOWN_FINDINGS.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
