"""Writes properties.jsonl and MANIFEST.json; levels come from the checks."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = "src/rascal/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note))


prop("A01", "The lines that are loaded are exactly those that qualify",
     "Loading arc lines, from the bundled list or from a file, returns "
     "exactly the lines of the requested elements (case-insensitive) inside "
     "the inclusive wavelength limits and at or above the intensity limit (a "
     "number or one per element), then only the N brightest of these, then "
     "only those whose neighbours are at least the minimum distance away, in "
     "order of wavelength with their own element and intensity. The limits "
     "are in the medium asked for (air or vacuum), and the wavelengths are "
     "converted to air unless vacuum is asked for. The same query always "
     "gives the same lines and leaves the line lists as they are.",
     ["inputs", "configurations"],
     "every line list of up to 4 lines over the alphabet x every query of "
     "the alphabet; every element of the bundled list",
     "The tests check the number of lines of one or two queries of the "
     "bundled list; the interplay of the filters, ties, orders and empty "
     "results needs all the combinations.",
     [S + "util.py", S + "atlas.py"],
     [("load_calibration_lines, filter_*", S + "util.py"),
      ("Atlas.add", S + "atlas.py")],
     ["rascal.util.load_calibration_lines", "rascal.atlas.Atlas"],
     "bounded exhaustive enumeration against a reference selection",
     "Complete within the small line lists; the bundled list is compared "
     "line by line for all its elements.")

prop("A02", "Every history of edits of an atlas agrees with a list of lines",
     "After any sequence of adding lines of an element, adding user lines "
     "(one or many, with or without intensities, vacuum converted to air), "
     "removing all the lines closer than the tolerance to a wavelength, and "
     "clearing, the atlas holds exactly the lines that were added and not "
     "removed, in the order they were added, each with its own wavelength, "
     "element and intensity. An edit that is refused changes nothing.",
     ["histories", "inputs"],
     "all the histories of the edits up to the depth",
     "The tests add or remove once; a removal that skips neighbours or an "
     "order that gets lost shows only in longer histories.",
     [S + "atlas.py"],
     [("list of AtlasLine", S + "atlas.py")],
     ["Atlas.get_lines", "Atlas.get_elements", "Atlas.get_intensities",
      "len(Atlas)"],
     "explicit-state search over histories of the real object",
     "All the histories up to the depth, on the real Atlas, against a list.")

prop("A03", "Air and vacuum wavelengths follow the modified Edlen equation",
     "The conversion of vacuum to air wavelengths is the division by the "
     "refractive index of the modified Edlen equation for the given "
     "temperature, pressure and humidity, for a number, a list or an array "
     "of wavelengths alike, element by element; the air to vacuum conversion "
     "is its inverse.",
     ["inputs"],
     "the whole grid of wavelength x temperature x pressure x humidity x "
     "form of the input",
     "The tests convert a few wavelengths in one condition, dry air mostly.",
     [S + "util.py"],
     [("vacuum_to_air_wavelength, air_to_vacuum_wavelength",
       S + "util.py")],
     ["rascal.util"],
     "bounded exhaustive enumeration against an independent implementation",
     "Complete on the grid; between grid points by monotony and smoothness "
     "of the same formula only.")

prop("B01", "The Hough points are the admissible lines through the pairs",
     "The Hough transform of a set of pixel-wavelength pairs holds, for each "
     "of the evenly spaced slopes between the inclusive slope limits and for "
     "each pair, the line with that slope through the pair if and only if "
     "its intercept is inside the limits; the pairwise transform holds the "
     "line through each two pairs of different pixels if and only if its "
     "slope and its intercept are inside the limits.",
     ["inputs", "configurations"],
     "every set of up to 4 pairs of a lattice x order x limits x number of "
     "slopes x mode",
     "The tests only look at the number of points of one spectrum.",
     [S + "houghtransform.py", S + "calibrator.py"],
     [("generate_hough_points, generate_hough_points_brute_force",
       S + "houghtransform.py")],
     ["HoughTransform.hough_points", "Calibrator.hough_points"],
     "bounded exhaustive enumeration against the definition",
     "Complete within the lattice; lines exactly on a limit are left open in "
     "the pairwise mode.")

prop("B02", "The bins of the Hough space count its points, best ones first",
     "After binning, the histogram of the Hough space counts each point "
     "exactly once in its bin, and the lines offered to the solver are the "
     "centres of all the bins, in decreasing order of the count. Merging "
     "points from an array or another transform adds exactly these points.",
     ["inputs", "histories"],
     "every multiset of up to 4 points x numbers of bins x histories of "
     "merging and binning",
     "The tests bin one cloud of points and check no count.",
     [S + "houghtransform.py"],
     [("bin_hough_points, add_hough_points", S + "houghtransform.py")],
     ["HoughTransform.hist", "HoughTransform.hough_lines"],
     "explicit-state search over histories of the real object",
     "Complete within the lattice and the depth.")

prop("B03", "A saved Hough transform is restored completely",
     "Loading a Hough transform that was saved, as npy or json, from the "
     "transform or from the calibrator, restores its points, the lines, the "
     "histogram and the edges as they were at the time of saving, whatever "
     "happened to the object and the other files in between. Saving does "
     "not change the object, and writes to memory or to the named file only.",
     ["histories"],
     "all the histories of saving, loading, regenerating, merging and "
     "binning over two files",
     "The tests save and load once, in one format, and compare little.",
     [S + "houghtransform.py", S + "calibrator.py"],
     [("save, load", S + "houghtransform.py"),
      ("save_hough_transform, load_hough_transform", S + "calibrator.py")],
     ["HoughTransform", "Calibrator.hough_lines", "Calibrator.hough_points"],
     "explicit-state search over histories of the real object and its files",
     "All the histories up to the depth and equal states, on real files.")

prop("B04", "A damaged Hough file is refused and changes nothing",
     "Loading a truncated file, a file without one of its parts, a file of "
     "the other format or a missing file raises an error and leaves the "
     "transform and the calibrator exactly as they were, able to continue.",
     ["fault_sequences", "crash_points"],
     "every truncation point of the saved files, every missing part",
     "The tests never load a damaged file.",
     [S + "houghtransform.py", S + "calibrator.py"],
     [("load", S + "houghtransform.py")],
     ["HoughTransform", "Calibrator"],
     "exhaustive fault enumeration: every truncation point of the files",
     "Every prefix of the files; damages that keep the format are not "
     "detectable without a checksum and not part of the property.")

prop("C01", "The settings of a calibrator are the last values given",
     "In every order of calls, each setting of the calibrator (detector, "
     "Hough transform, sampling) has the value given last or its default, "
     "the others keep theirs, and refused values change nothing. The pixel "
     "list, the position of a pixel in it and the limits of slope and "
     "intercept always follow from the current settings.",
     ["histories", "configurations"],
     "all the histories of 3 of 46 calls, with and without a spectrum",
     "The tests set everything once, in one order.",
     [S + "calibrator.py"],
     [("set_calibrator_properties, set_hough_properties, "
       "set_ransac_properties", S + "calibrator.py")],
     ["attributes of Calibrator", "Calibrator.which_plotting_library"],
     "explicit-state search over histories of the real object",
     "All the histories up to the depth, against a map.")

prop("C02", "The search window holds every spectrograph within the tolerances",
     "For every pixel list, wavelength range and tolerances, the straight "
     "line of any spectrograph whose wavelengths at the two ends are off by "
     "no more than the tolerances lies inside the limits of slope and "
     "intercept that are searched, its pairs produce Hough points next to "
     "it, and no Hough point lies outside the limits.",
     ["configurations"],
     "pixel ranges x wavelength ranges x tolerances x all the corners of "
     "the spectrographs allowed",
     "The tests use one range per instrument, far from the corners.",
     [S + "calibrator.py", S + "houghtransform.py"],
     [("limits of slope and intercept in set_hough_properties",
       S + "calibrator.py")],
     ["Calibrator.hough_points", "Calibrator.min_slope and the like"],
     "explicit-state enumeration of configurations and their corner cases",
     "Complete on the corners, where the extrema of slope and intercept are.")

prop("C03", "The candidate pairs follow the atlas and the settings",
     "After any sequence of setting, adding, removing and clearing lines "
     "and of changing settings through the calibrator, the pairs that it "
     "searches are exactly the combinations of its peaks and its current "
     "lines, or with the polygonal constraint exactly those of them inside "
     "the polygon of the current limits.",
     ["histories"],
     "all the histories of 3 of 17 calls (thorough: 4)",
     "The tests set an atlas once and never change it.",
     [S + "calibrator.py"],
     [("_generate_pairs and its callers", S + "calibrator.py")],
     ["Calibrator.pairs"],
     "explicit-state search over histories of the real object",
     "All the histories up to the depth and equal states.")

prop("D01", "What a fit reports is true of the solution it returns",
     "Whatever is drawn, the result of a fit matches each of its peaks to a "
     "different atlas line, one to one; its residuals are the differences of "
     "the polynomial and the lines (limited to the tolerance), the rms is "
     "theirs, and the utilisations are the fractions of the peaks and of the "
     "lines that are matched. The requested degree, the minimum number and "
     "fraction of matches and the minimum error hold for every solution "
     "that is not the guess, and the calibrator keeps the same result.",
     ["schedules", "configurations"],
     "every answer of the random draws of the first samples x problems x "
     "settings",
     "The tests run one seed per instrument and look at the rms.",
     [S + "calibrator.py"],
     [("_solve_candidate_ransac, _match_bijective, fit",
       S + "calibrator.py")],
     ["return value of Calibrator.fit", "Calibrator.get_pix_wave_pairs"],
     "stateless model checking of the real solver over its random draws",
     "All the answers of the draws up to the depth, fair beyond.")

prop("D02", "A good sample is never lost, in any order of the draws",
     "If a sample that is drawn during a fit holds only true pairs, the fit "
     "returns the true solution, whatever is drawn before and after it; of "
     "several samples, a solution with fewer matches or larger errors never "
     "replaces a better one.",
     ["schedules"],
     "all the draws of one try; all the pairs of tries, triples around a "
     "true one",
     "One seed per test is one schedule of the draws.",
     [S + "calibrator.py"],
     [("_solve_candidate_ransac", S + "calibrator.py")],
     ["return value of Calibrator.fit"],
     "stateless model checking of the real solver over its random draws",
     "Complete for one try, all the pairs for two.")

prop("D03", "A fit always ends, with a result or a declared failure",
     "For every set of peaks, lines, known pairs and settings, including too "
     "few or unrelated peaks and lines, samples larger than the candidates "
     "and limits that cannot be reached, a fit ends, with a result or with "
     "an error that says that it could not fit.",
     ["inputs", "configurations", "schedules"],
     "degenerate inputs x settings x every answer of the first draws",
     "The tests use well-behaved spectra; a hang or crash needs unusual "
     "inputs and unlucky draws.",
     [S + "calibrator.py"],
     [("loop of the tries", S + "calibrator.py")],
     ["Calibrator.fit"],
     "stateless model checking of the real solver over its random draws",
     "Assumes fair draws; the horizon is 200000 draws or the time limit.")

prop("D04", "The brute-force search recovers the solution",
     "With a noise-free polynomial spectrograph inside the search window, "
     "the exhaustive search returns the true pairs and the true curve, with "
     "extra lines, extra peaks and missing lines, whatever the order of the "
     "inputs and the kind of Hough transform.",
     ["inputs"],
     "every subset of the intruders x degree x order x kind of transform",
     "The tests solve one spectrum with a loose limit on the rms.",
     [S + "calibrator.py", S + "houghtransform.py"],
     [("brute force of _solve_candidate_ransac", S + "calibrator.py")],
     ["return value of Calibrator.fit"],
     "bounded exhaustive enumeration of problems, solved end to end",
     "Complete within the subsets of the intruders.")

prop("D05", "No solution turns around or starts outside the window",
     "The solution that a fit returns (other than a guess of the caller) "
     "increases with the pixel over all of the detector from the first to "
     "the last peak, and its wavelength at pixel 0 lies within the range "
     "tolerance of the minimum wavelength: hypotheses which decrease "
     "somewhere or start elsewhere are dropped, however well they explain "
     "the peaks and whatever is drawn.",
     ["schedules", "inputs"],
     "families of intruders which fit all the peaks exactly on a curve that "
     "is not allowed x all the draws of the first try, brute force",
     "The tests contain no second family of lines which would fit better.",
     [S + "calibrator.py"],
     [("monotony and intercept tests of _solve_candidate_ransac",
       S + "calibrator.py")],
     ["return value of Calibrator.fit"],
     "stateless model checking of the real solver over its random draws",
     "Complete over the draws of the first try within the budget.")

prop("D06", "Known pairs anchor every solution",
     "Pixel-wavelength pairs declared as known are part of every hypothesis, "
     "whatever is drawn: a fit does not return a solution that contradicts "
     "them, even if it explains the peaks better. The pairs declared last "
     "replace the former ones, and pairs of different lengths or that are no "
     "numbers are refused.",
     ["schedules", "histories", "inputs"],
     "all the draws of the first samples x anchors x degrees; all the "
     "histories of the declarations",
     "The tests declare one pair that agrees with the solution anyway.",
     [S + "calibrator.py"],
     [("set_known_pairs, use of pix_known in the samples",
       S + "calibrator.py")],
     ["return value of Calibrator.fit"],
     "stateless model checking of the real solver over its random draws",
     "All the draws up to the depth, for anchors far from the other family.")

prop("D07", "A fit never falls behind the guess it starts from",
     "A fit that is given a guess returns a solution that is at least as "
     "good as the guess, by the number of lines and the errors; the guess "
     "itself, with the matches and errors of the guess, if nothing better is "
     "found; and the true solution if it is drawn.",
     ["schedules", "inputs"],
     "guesses x all the draws of the first samples; the exhaustive search",
     "The tests pass one good guess and look at the rms.",
     [S + "calibrator.py"],
     [("baseline of _solve_candidate_ransac", S + "calibrator.py")],
     ["return value of Calibrator.fit"],
     "stateless model checking of the real solver over its random draws",
     "All the draws up to the depth.")

prop("D08", "The density of the Hough space decides between equal solutions",
     "Of two solutions that explain the peaks equally well, a fit with a "
     "Hough weight returns the one with the clearly larger density of the "
     "Hough space along its curve, whatever the grid, the degree and the "
     "order in which they are found; with a weight of zero, or one that is "
     "not a finite number, the density has no influence. The same for every "
     "family of polynomials.",
     ["schedules", "configurations"],
     "densities x grids x weights x degrees x families x orders of the "
     "samples",
     "The tests do not compare solutions of a fit.",
     [S + "calibrator.py"],
     [("weight of the Hough space in _solve_candidate_ransac",
       S + "calibrator.py")],
     ["return value of Calibrator.fit"],
     "explicit-state enumeration with controlled draws",
     "Complete within the hand-made Hough spaces.")

prop("D09", "A fit considers the N most supported lines of each peak",
     "The candidates of each peak in a fit are the N lines with the largest "
     "support, weighted or not, by the lines of the Hough space within the "
     "candidate tolerance; lines without support are never candidates, and "
     "each candidate belongs to its own peak.",
     ["inputs", "configurations"],
     "sets of lines x Hough spaces x tolerances x weighting x N",
     "The tests do not look at the candidates.",
     [S + "calibrator.py"],
     [("_get_candidate_points_linear, _get_most_common_candidates",
       S + "calibrator.py")],
     ["samples of Calibrator.fit", "Calibrator.plot_search_space"],
     "explicit-state enumeration against a reference count of the votes",
     "Complete within the sets of lines; equal votes are left open.")

prop("D10", "The result depends on the inputs and the seed, on nothing else",
     "Two fits with the same inputs, settings and random seed return the "
     "same result, whatever the progress bar, the log level, the plotting "
     "library, the type of the sequences, the order of the setters, earlier "
     "fits of other calibrators in the process and the hash seed.",
     ["configurations", "histories"],
     "3 problems x 3 seeds x 432 combinations + 6 processes",
     "The tests do not compare runs.",
     [S + "calibrator.py"],
     [("seeded numpy generator", S + "calibrator.py")],
     ["return value of Calibrator.fit"],
     "explicit-state enumeration of configurations, results compared",
     "Complete within the combinations.")

prop("D11", "The families of polynomials describe the same solutions",
     "With power, Legendre and Chebyshev polynomials of the first degree a "
     "fit gives the same matches, curve and errors, for all the draws; and "
     "the coefficients of a fit, evaluated in the family that was asked for, "
     "reproduce the matched lines within the tolerance.",
     ["schedules", "configurations"],
     "families x degrees x all the draws of the first sample",
     "The tests compare the coefficients of one problem with the power "
     "basis.",
     [S + "calibrator.py", S + "models.py"],
     [("choice of polyfit and polyval in fit", S + "calibrator.py")],
     ["return value of Calibrator.fit", "Calibrator.polyval"],
     "stateless model checking of the real solver over its random draws",
     "Known findings: Legendre and Chebyshev of degree 2 and more.")

prop("D12", "Every sample can be drawn, isolated peaks more often",
     "Each try of a fit draws as many different peaks as the sample size (or "
     "all, if there are fewer with candidates), each with a chance that is "
     "the inverse of the number of the peaks in its tenth of the range, and "
     "one of the candidates of each, no line twice: every such sample can be "
     "drawn and no other one. The known pairs are added to it, and a sample "
     "that is refused for its intercept or slope is drawn again.",
     ["schedules", "inputs"],
     "sets of peaks x size of the sample x all the draws of the first sample",
     "The tests see the result of a few thousand random draws; a peak or a "
     "line that is never drawn does not show if the others are sufficient.",
     [S + "calibrator.py"],
     [("draws of _solve_candidate_ransac", S + "calibrator.py")],
     ["numpy.random.choice", "numpy.polynomial.polynomial.polyfit"],
     "stateless model checking of the real solver over its random draws",
     "Complete for the sets of peaks: all the answers of the draws of the "
     "first sample.")

prop("E01", "Matching returns the closest lines within reach, one to one",
     "For every solution and tolerance, matching gives each peak at most one "
     "line and each line at most one peak, always the closest within the "
     "tolerance; the residuals, rms, utilisations and the kept pairs are "
     "those of the result, and a final fit through them is the least-squares "
     "solution. A refinement never makes the solution worse, and matching "
     "never loses the solution when there are too few matches to refit it.",
     ["inputs", "configurations"],
     "sets of peaks x sets of lines x solutions x tolerances x orders",
     "The tests match one spectrum near its solution and look at the rms.",
     [S + "calibrator.py", S + "models.py"],
     [("match_peaks, _match_bijective, _adjust_polyfit",
       S + "calibrator.py")],
     ["return value of Calibrator.match_peaks",
      "Calibrator.get_pix_wave_pairs"],
     "bounded exhaustive enumeration against a brute-force matcher",
     "Complete within the alphabet; lines exactly at the tolerance or "
     "equally close are left open.")

prop("E02", "Every history of edits of the matches agrees with a list of pairs",
     "After any sequence of adding, removing and listing matched pairs, of "
     "refits and of matching again, the listed pairs are exactly those added "
     "and not removed, by pixel, each with its own wavelength; a refit is "
     "the least-squares polynomial of the requested degree through the "
     "current pairs with their residuals and rms, and refused arguments "
     "change nothing.",
     ["histories"],
     "all the histories of 3 (thorough: 4) of 24 edits, two starts",
     "The tests add or remove one pair once.",
     [S + "calibrator.py"],
     [("add_pix_wave_pair, remove_pix_wave_pair, manual_refit",
       S + "calibrator.py")],
     ["Calibrator.get_pix_wave_pairs", "Calibrator.manual_refit"],
     "explicit-state search over histories of the real object",
     "All the histories up to the depth and equal states.")

prop("E03", "The robust fit is the minimum of its loss, from any start",
     "The robust polynomial fit returns the polynomial of the requested "
     "degree that minimises the Huber loss of the normalised errors: the "
     "least-squares solution for small errors, and limited in its response "
     "to an outlier. The result does not depend on the order and the type of "
     "the points nor on the initial coefficients.",
     ["inputs"],
     "sets of points x degree x pattern of errors x outlier x start x order",
     "The tests fit one noise-free and one noisy curve.",
     [S + "models.py"],
     [("robust_polyfit", S + "models.py")],
     ["rascal.models.robust_polyfit"],
     "bounded exhaustive enumeration against an independent minimiser",
     "Complete within the grid.")

prop("F01", "Refined peaks are the centres of the peaks of the spectrum",
     "Refining estimates of peak positions returns the centre of each "
     "resolved peak to a small fraction of a pixel, for every sub-pixel "
     "position, width, height and window, in the middle and at both ends of "
     "the spectrum; each peak once, in any order of the estimates, and "
     "nothing that is not inside of the spectrum.",
     ["inputs"],
     "positions on a lattice x width x height x window x error of the "
     "estimate; all the sequences of up to 3 estimates",
     "The tests refine one spectrum and count the peaks.",
     [S + "util.py"],
     [("refine_peaks", S + "util.py")],
     ["rascal.util.refine_peaks"],
     "bounded exhaustive enumeration against known centres",
     "Complete within the lattice; noise-free resolved Gaussian peaks.")

prop("F02", "A synthetic spectrum is the inverse of its current model",
     "The pixels that a synthetic spectrum gives to wavelengths map back to "
     "these wavelengths under the model set last, of any degree; exactly the "
     "wavelengths inside the limits set last are returned, in their order, "
     "and neither refused models or limits nor what the caller does with a "
     "list of coefficients afterwards change anything.",
     ["histories", "inputs"],
     "all the histories of 3 (thorough: 4) of 19 calls, degree 1 to 4",
     "The tests check that a call succeeds for one model.",
     [S + "synthetic.py"],
     [("set_model, set_wavelength_limit, get_pixels", S + "synthetic.py")],
     ["SyntheticSpectrum.get_pixels"],
     "explicit-state search over histories of the real object",
     "Known finding: coefficients of a model of degree 1 are taken in the "
     "other order.")

prop("G01", "Looking at a calibration does not change it",
     "Plots with either library, listings, saves and queries, in any number "
     "and order and at any stage, leave the peaks, the spectrum, the "
     "settings, the lines, the Hough space and the solution as they are, and "
     "the steps that follow give the same results. No call changes the lists "
     "and arrays it is given, and changing them after the call (peaks, "
     "spectrum, pixel list, known pairs, lines, coefficients, pairs of a "
     "refit) does not change the calibration.",
     ["histories", "configurations"],
     "all the pairs (thorough: triples) of 17 looks at 5 stages, each "
     "followed by the rest of the work",
     "The tests plot last, and look at nothing afterwards.",
     [S + "calibrator.py", S + "plotting.py", S + "atlas.py"],
     [("plot_*, get_*, list, save", S + "calibrator.py")],
     ["Calibrator", "arguments of all the calls"],
     "explicit-state search over histories of the real object",
     "All the sequences up to the depth.")

prop("G02", "The plots show the calibration, with either library",
     "The plot of a fit shows the spectrum against the wavelengths of its "
     "solution, the detected peaks at their wavelengths, the residual and "
     "the position and the flux of each matched peak, the curve of the "
     "solution and the rms; the plot of the search space shows all the pairs, the candidates, "
     "the N best of each peak, the limits and the solution; the plot of the "
     "arc shows the normalised spectrum and its peaks, all inside the axes. "
     "This holds for both "
     "libraries, for contiguous and broken pixel lists, for linear and "
     "logarithmic scales and with the spectrum kept, given or absent.",
     ["configurations", "inputs"],
     "library x plot x spectrum x scale x solution x tolerance x pixel list "
     "x settings",
     "The tests only check that the plots do not fail.",
     [S + "plotting.py"],
     [("plot_fit, plot_search_space, plot_arc", S + "plotting.py")],
     ["artists of the matplotlib figure", "JSON of the plotly figure"],
     "bounded exhaustive enumeration, figures read back",
     "All the combinations of the options on 3 problems.")

prop("G03", "The simulated arc shows the lines that qualify, and their blend",
     "The plot of the calibration lines draws, for each requested element, "
     "exactly its lines that pass the wavelength, brightness, intensity and "
     "separation limits, at their wavelength and intensity, labelled if "
     "asked for; the simulated spectrum is the sum of a Gaussian of the "
     "requested sampling for every line of the range, including those too "
     "faint or too close to be labelled.",
     ["configurations", "inputs"],
     "line lists x elements x limits x vacuum/air x label x scale x sampling",
     "The tests only check that the plot does not fail.",
     [S + "plotting.py", S + "util.py"],
     [("plot_calibration_lines", S + "plotting.py")],
     ["artists of the matplotlib figure"],
     "bounded exhaustive enumeration, figures read back",
     "Complete within the line lists of up to 4 lines.")

prop("G04", "A figure is saved to the files that are asked for",
     "When a plot is saved, with either library, one file of each requested "
     "type is written under the given name (or the default one) with the "
     "type appended, in any order of the types, and nothing else is written; "
     "without save_fig nothing is written. A figure is displayed if and only "
     "if display is set, with the renderer asked for, and the JSON is "
     "returned when it is asked for.",
     ["configurations"],
     "plot x library x list of types x name x saved x displayed x renderer",
     "The tests save one type each, and do not look at the files.",
     [S + "plotting.py", S + "calibrator.py"],
     [("save_fig, display, return_jsonstring of the plots",
       S + "plotting.py")],
     ["files that are written", "calls that display", "returned values"],
     "bounded exhaustive enumeration against a specification",
     "All the combinations of the options on one calibration; the browser "
     "that makes the images of plotly is replaced by a recorder.")

prop("H01", "Objects do not influence each other",
     "Two Atlases, HoughTransforms, SyntheticSpectra, Calibrators or lists of "
     "lines that are in use at the same time behave as if each was alone, in "
     "every interleaving of the calls; two Calibrators can share an Atlas, "
     "and a caller can modify the lists that were returned.",
     ["schedules", "histories"],
     "all the interleavings of every pair of scripts",
     "The tests use one object of a kind at a time.",
     [S + "atlas.py", S + "calibrator.py", S + "houghtransform.py",
      S + "synthetic.py", S + "util.py"],
     [("attributes of the instances, bundled line lists", S + "atlas.py")],
     ["Atlas", "HoughTransform", "SyntheticSpectrum", "Calibrator"],
     "exhaustive enumeration of interleavings on the real objects",
     "All the interleavings of scripts of 3 to 5 calls.")

prop("H02", "A Calibrator can be used again, whatever it did before",
     "After any history of fits (of any degree, family or guess, exhaustive "
     "or failing), matches, refits, edits, plots and changes of the atlas, "
     "the known pairs and the settings, a seeded fit of a Calibrator gives "
     "the same Hough transform and the same result as a new Calibrator with "
     "the settings, the lines and the known pairs that were given last.",
     ["histories"],
     "all the histories up to the depth x final fits",
     "The tests fit once per Calibrator.",
     [S + "calibrator.py"],
     [("state of Calibrator across fit(), set_*", S + "calibrator.py")],
     ["return value of Calibrator.fit", "Calibrator.ht"],
     "explicit-state search over histories of the real object",
     "All the histories up to the depth, against a new Calibrator.")

prop("I01", "From the spectrum to the wavelengths, the parts work together",
     "The documented chain - refine the peaks of a spectrum, load lines (own, "
     "in air or vacuum, from a file), make the Hough transform (of any kind, "
     "or saved and loaded, or merged), fit, and match, refine, refit or plot "
     "- gives the true pairs and the true wavelength of every pixel for a "
     "noise-free spectrum, with lines missing in the atlas or in the spectrum "
     "and with intruders in both.",
     ["inputs", "configurations"],
     "degree x intruders x source of the lines x kind of Hough transform x "
     "use of the solution",
     "The tests run one chain on one real spectrum, with a loose limit.",
     [S + "calibrator.py", S + "houghtransform.py", S + "atlas.py",
      S + "util.py"],
     [("the public calls, one after the other", S + "calibrator.py")],
     ["return values of fit(), match_peaks() and manual_refit()"],
     "bounded exhaustive enumeration of problems, solved end to end",
     "Complete within the combinations; exhaustive search in the fit.")

prop("J01", "The representation of the numbers does not matter",
     "Every step (loading and adding lines, conversions, peak refinement, "
     "Hough transforms and their files, settings, known pairs, fits, guesses, "
     "matches, edits, refits, synthetic spectra, plots) gives the same result "
     "for the same numbers, whether they are Python or numpy integers or "
     "floats, of any size, signed or unsigned, of either byte order, in "
     "lists, tuples, strided or read-only arrays, and leaves them as they "
     "are.",
     ["inputs"],
     "43 steps x 25 representations, all the pairs where a step has two "
     "inputs",
     "The tests give lists and arrays of floats.",
     [S + "calibrator.py", S + "houghtransform.py", S + "atlas.py",
      S + "util.py", S + "models.py", S + "synthetic.py", S + "plotting.py"],
     [("the public calls", S + "calibrator.py")],
     ["return values, files and figures"],
     "bounded exhaustive enumeration of representations on the real code",
     "Complete within the representations; one problem per step.")

prop("K01", "The messages follow the log level, each is told once",
     "In every history of Calibrators that share a logger or do not, the "
     "calls tell exactly the messages at or above the last level that was "
     "set for their logger, in order, each printed once, under the logger "
     "that was named; the root logger and the loggers of other names are not "
     "used or changed.",
     ["histories"],
     "histories of levels, names of loggers and calls of two Calibrators",
     "The tests do not look at the messages.",
     [S + "calibrator.py"],
     [("set_calibrator_properties() and the messages of the other calls",
       S + "calibrator.py")],
     ["records of the loggers and standard error"],
     "explicit-state enumeration of histories on the real code",
     "Complete within the histories; a differential check against the same "
     "history at debug level.")

prop("L01", "The unit of the wavelengths does not matter",
     "If the lines, the limits, the known pairs, the guess and all the "
     "tolerances are multiplied by the same factor, the Hough transform, the "
     "candidates, the solution, the matches, the edits and the refits are "
     "those of the first unit times the factor (the peaks, the utilisations "
     "and the histogram are the same), whatever is drawn.",
     ["schedules", "configurations"],
     "problems x units x settings x draws of the first sample",
     "The tests have wavelengths in Angstrom only; an absolute threshold "
     "goes unnoticed as long as it is small for these.",
     [S + "calibrator.py", S + "houghtransform.py", S + "models.py"],
     [("do_hough_transform, fit, match_peaks, manual_refit",
       S + "calibrator.py")],
     ["return value of Calibrator.fit", "Calibrator.ht",
      "return value of Calibrator.match_peaks"],
     "stateless model checking of two copies of the real solver over the "
     "same draws",
     "The factors are powers of two, so that the arithmetic is exact.")

NOT_APPLICABLE = []


def level(id):
    path = os.path.join(HERE, "mc", id.lower() + ".py")
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "LEVEL":
            return ast.literal_eval(n.value)
    raise KeyError(id)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    mechanism=[dict(name=a, where=b)
                               for a, b in p["mechanism"]],
                    observe_at=p["observe"], hook_needed=None))) + "\n")
    checks = [dict(property=p["id"], quick_cmd="./run.sh " + p["id"],
                   thorough_cmd="VERIF_TIER=thorough ./run.sh " + p["id"],
                   technique=p["technique"], level=level(p["id"]),
                   level_note=p["note"]) for p in P]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks,
                       not_applicable=NOT_APPLICABLE,
                       notes="Pure Python: nothing to build; every run "
                             "imports /repo/src afresh. See DESIGN.md."),
                  f, indent=1)
        f.write("\n")


main()
