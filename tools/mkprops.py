#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["discorpy/" + f for f in files],
                               mechanism=[dict(name=n, where="discorpy/" + w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


POST, UTIL, PROC = "post/postprocessing.py", "util/utility.py", "proc/processing.py"
PREP, LINE, LOSA = "prep/preprocessing.py", "prep/linepattern.py", "losa/loadersaver.py"

prop("C01", "Points are moved radially by exactly the polynomial factor",
     "Correcting points with a radial model moves every point (y,x) at distance r from the distortion centre to centre + F(r)*(point - centre) with F(r) = sum of coef[i]*r^i, for any number of coefficients, with the shape, order and grouping of the points kept and the requested output order (xy or yx) respected, whether the coordinates are given as floats or as whole numbers. "
     "Inverting a backward model on points keeps every point on its own ray through the centre, with the same new radius for every point at that radius, and leaves a point at the centre where it is.",
     ["inputs"], "every list of lines, every centre, every coefficient list (any length), integer or float coordinates, both output orders",
     "Tests use a handful of points with one coefficient list and tolerance; index order, centre terms and the degree of each term are only sampled at one place.",
     [POST, UTIL], [("unwarp_line_forward", POST), ("unwarp_line_backward", POST), ("find_point_to_point", UTIL)],
     ["unwarp_line_forward", "unwarp_line_backward", "find_point_to_point"])

prop("C02", "Unwarped image pixels sample the source at the radial-model position",
     "Unwarping an image with a backward model gives an image of the same shape whose pixel at row y, column x is the input sampled (with the requested interpolation order and boundary mode) at the position centre + F(r)*((x,y) - centre) clipped to the image, r being the pixel's distance from the centre. "
     "A colour image is unwarped channel by channel by the same map, and the OpenCV variant samples the same positions.",
     ["inputs", "configurations"], "every image size (also non-square and single row or column), centre, coefficient list, interpolation order, boundary mode, number of channels",
     "Tests unwarp one or two fixed images and compare a global error; swapped axes, clipping limits, orders, modes or channels not used by those images are invisible.",
     [POST, UTIL], [("unwarp_image_backward", POST), ("unwarp_color_image_backward", UTIL), ("unwarp_image_backward_cv2", UTIL), ("mapping_cv2", UTIL)],
     ["unwarp_image_backward", "unwarp_color_image_backward", "unwarp_image_backward_cv2"])

prop("C03", "An unwarped slice or chunk equals the rows of the fully unwarped image",
     "For every 3D dataset, the unwarped slice at an index, and row k of the unwarped chunk between a start and an inclusive stop index, equal (up to rounding) the corresponding rows of each projection unwarped as a full image with linear interpolation, for any centre and coefficients and any image size. "
     "A stop index of -1 means up to the last row; input that is not 3D, or a chunk whose indices lie outside the data, raises ValueError.",
     ["inputs"], "every 3D shape (heights beyond 32767 included), slice or chunk position, centre, coefficient list including non-monotone ones",
     "Tests take two slices of one small volume with mild distortion; the crop logic that makes slices cheap is only right for all rows, all polynomials and all sizes if the crop always covers what is sampled.",
     [POST], [("unwarp_slice_backward", POST), ("unwarp_chunk_slices_backward", POST), ("_mapping", POST)],
     ["unwarp_slice_backward", "unwarp_chunk_slices_backward", "unwarp_image_backward"])

prop("C04", "Forward image unwarping moves each pixel to its rounded model position",
     "Unwarping an image with a forward model gives an image of the same shape and type in which every source pixel is written at the rounded position centre + F(r)*(pixel - centre) clipped to the image. "
     "So each output pixel is 0 when no source pixel maps to it and otherwise equals one of the source pixels which map to it.",
     ["inputs"], "every image shape and type, centre, coefficient list",
     "One test checks a single image's sum; row/column swaps, rounding mode or clipping limits need arbitrary sizes and positions to show.",
     [POST], [("unwarp_image_forward", POST)], ["unwarp_image_forward"])

prop("C05", "Perspective correction applies exactly the eight-coefficient homography",
     "Correcting points with coefficients c1..c8 maps (y,x) to ((c4*x+c5*y+c6)/(c7*x+c8*y+1), (c1*x+c2*y+c3)/(c7*x+c8*y+1)) point by point, keeping the grouping and order of lines. "
     "Correcting an image samples the input at that position, clipped to the image, for every output pixel with the requested order and mode, and a supplied map of indices is used as given. "
     "Any number of coefficients other than eight raises ValueError.",
     ["inputs", "configurations"], "every list of lines, image shape, coefficient list of any length, order, mode, supplied map",
     "Tests use one homography and one image.",
     [POST], [("correct_perspective_line", POST), ("_generate_perspective_map", POST), ("correct_perspective_image", POST)],
     ["correct_perspective_line", "correct_perspective_image"])

prop("C06", "Perspective coefficients reproduce the source-target correspondence",
     "Given at least four source points and the same number of target points (in (y,x) order) related by a homography, the eight coefficients returned map every source point to its target point in forward mode, and every target point to its source point in backward mode, so that the forward coefficients of (source, target) are the backward coefficients of (target, source). "
     "The points may be given as lists or arrays, of floats or whole numbers.",
     ["inputs", "configurations"], "every point configuration in general position, four points or more, both mapping directions",
     "Tests use one square-like configuration; a coefficient placed in the wrong column can still agree for symmetric point sets.",
     [PROC], [("calc_perspective_coefficients", PROC)], ["calc_perspective_coefficients"])

prop("C07", "Converted radial models are the least-squares inverse of the given model",
     "Converting a radial model between backward and forward gives as many coefficients as were given, chosen to minimise the squared radial error of the inverse relation over the reference points (those where the given model gives the factor zero have no inverse and are left out): a reference point at distance r from the centre (given relative to it) is first moved by the given model in the backward case, so that when an exact inverse of that length exists on those points it is the one returned. "
     "Fewer reference points than coefficients raise ValueError.",
     ["inputs", "configurations"], "every coefficient list, set of reference points, both mapping modes",
     "Tests check one polynomial at one tolerance.",
     [PROC], [("transform_coef_backward_and_forward", PROC)], ["transform_coef_backward_and_forward"])

prop("C08", "Radial coefficients are the least-squares solution over all grid points",
     "The radial coefficients of the forward and backward models minimise, over every point of every horizontal and vertical line, the squared difference between the straight-line intercepts of the ideal grid and the intercepts produced by the polynomial; every point contributes exactly one equation (only points whose factor would be zero, and lines through the centre, whose factor is undefined, are left out), the ideal grid being the equally spaced lines through the line nearest the centre with the mean line distance (with the optimisation option: the spacing of least squared error), and exactly the requested number of coefficients is returned. "
     "For points which come from a regular grid distorted by a radial polynomial of that degree about that centre, the fitted model maps the points onto straight, parallel, regularly spaced lines.",
     ["inputs"], "every pair of line lists with any number of lines and points per line, centre, number of coefficients, optimisation on or off",
     "Tests calibrate one synthetic grid and compare coefficients to tolerance.",
     [PROC], [("calc_coef_backward", PROC), ("calc_coef_forward", PROC), ("calc_coef_backward_from_forward", PROC), ("_calc_undistor_intercept", PROC)],
     ["calc_coef_backward", "calc_coef_forward", "calc_coef_backward_from_forward"])

prop("C09", "Residuals report each point's distance to its own fitted line",
     "The residual report has exactly one (radius, residual) pair per input point, sorted by increasing radius, radius being the point's distance to the centre and residual its perpendicular distance to the straight line fitted to its own line of points; moving points and centre together does not change it. "
     "Distortion is reported exactly when more than 15% of the residuals exceed 1 pixel.",
     ["inputs"], "every list of horizontal or vertical lines, any numbers of points, any centre",
     "Tests check a global maximum on one synthetic grid and two ratios for the threshold.",
     [POST], [("calc_residual_hor", POST), ("calc_residual_ver", POST), ("check_distortion", POST)],
     ["calc_residual_hor", "calc_residual_ver", "check_distortion"])

prop("C10", "Regenerated grid points are the crossings of the fitted lines",
     "Regenerating grid points returns, for n horizontal and m vertical lines, n lists of m points and m lists of n points that agree with each other (point j of horizontal line i is point i of vertical line j), each in (y,x) order and lying on both fitted lines; with the parabola option, on a crossing of the two fitted parabolas. "
     "Given line coefficients directly, the crossings of exactly those lines are returned.",
     ["inputs", "configurations"], "every pair of line lists in general position, any numbers of lines and points, coefficients given or not, perspective on or off",
     "Tests use one grid, axis-aligned, and compare averages.",
     [PROC], [("regenerate_grid_points_linear", PROC), ("regenerate_grid_points_parabola", PROC), ("_find_cross_point_between_lines", PROC), ("_find_cross_point_between_parabolas", PROC), ("_generate_linear_coef", PROC)],
     ["regenerate_grid_points_linear", "regenerate_grid_points_parabola"])

prop("C11", "Perspective targets form a regular rectangle or grid paired with the sources",
     "The undistorted lines produced for perspective correction are parallel within each direction, perpendicular between directions and equally spaced in each direction (with the same spacing in both when equal distance is requested), and source point k corresponds to target point k, the same line crossing. "
     "From four points in any order and in either coordinate order, the sources are the four input points, and the targets are the corresponding corners of a rectangle (a square when equal distance is requested) whose sides have the mean, largest or smallest length of the corresponding source sides, or a factor times the mean, as the scale option says; any other number of points raises ValueError. "
     "Points that are the corners of a rectangle already, and lines that form a regular perpendicular grid already, are their own targets (for a scale option other than a factor, and with equal distance only when the sides or spacings are equal).",
     ["inputs", "configurations"], "every pair of line lists, every four points of a convex quadrilateral in any order, every scale option",
     "Tests use one grid and one quadrilateral with default options.",
     [PROC], [("generate_undistorted_perspective_lines", PROC), ("generate_source_target_perspective_points", PROC), ("generate_4_source_target_perspective_points", PROC), ("_calc_undistor_intercept_perspective", PROC)],
     ["generate_undistorted_perspective_lines", "generate_source_target_perspective_points", "generate_4_source_target_perspective_points"])

prop("C12", "Calibration does not depend on axis naming or coordinate origin",
     "Swapping the roles of x and y in the whole input (transposing every point, and exchanging horizontal with vertical lines and the x with the y centre) leaves calibrated radial coefficients and residuals unchanged and swaps coordinates in the other calibration results (coarse, fine and curvature-based centres, regenerated points, corrected lines). "
     "Shifting all points and the given centre by the same vector leaves radial coefficients and residuals unchanged and shifts the refined centre, regenerated points and corrected lines by that vector.",
     ["inputs"], "every pair of line lists, centre, shift vector",
     "Tests never run the two directions against each other; a slip in one of the paired horizontal/vertical code paths passes as long as the single sampled grid stays within tolerance.",
     [PROC, POST, PREP], [("paired _hor/_ver functions", PROC), ("update_center", PROC)],
     ["calc_coef_backward", "calc_coef_forward", "calc_residual_hor/_ver", "find_cod_coarse", "regenerate_grid_points_linear", "update_center"])

prop("C13", "Centre-finding methods return the centre their search defines",
     "The coarse centre lies on both straight lines obtained by averaging, per direction, the two neighbouring parabola fits between which the curvature changes sign. "
     "The fine search tries every candidate shift (up to the point distance either way in steps of at most 2 pixels around the given centre, then +-2 pixels in steps of 0.5 around the best one, which is itself tried) and returns a candidate of least error of its final pass; the result is never below -(d+2) nor at or above d+4 pixels from the given centre, d being the point distance. "
     "The curvature (Bailey) method moves the centre, in each of iteration+1 rounds, to where curvature as a straight-line function of intercept vanishes. "
     "The perspective-effect correction maps every point by one homography about the given centre, taken from the four crossings of the representative lines (mean, median, most or least curved) of the opposite curves of the two directions, and raises ValueError when a direction has fewer than two lines or no opposite curves; the iterative vanishing-point method adds, per iteration, the centre found on the lines so corrected. "
     "The vanishing-point centre is the crossing of the two straight lines fitted to the crossings of the parabolas of each direction.",
     ["inputs", "configurations"], "every pair of line lists with at least four lines, start centre, grid distance, iteration count, method",
     "Tests check one synthetic grid centre with a wide tolerance.",
     [PROC], [("find_cod_coarse", PROC), ("find_cod_fine", PROC), ("find_cod_bailey", PROC), ("correct_perspective_effect", PROC), ("find_center_based_vanishing_points_iteration", PROC)],
     ["find_cod_coarse", "find_cod_fine", "find_cod_bailey", "correct_perspective_effect", "find_center_based_vanishing_points", "find_center_based_vanishing_points_iteration"])

prop("C14", "Grouping dots into lines never invents, repeats or misorders points",
     "Every line returned by the grouping functions consists only of detected points (the polyfit versions return them up to rounding), with no point repeated within a line nor, for the sequential grouping functions, over all lines, sorted along the line's direction; lines are in order across the image; and only lines at least the accepted ratio of the longest line's length are kept. "
     "All points of a clean grid end up on their lines.",
     ["inputs", "configurations"], "every set of points (or dot image), slope, distance, ratio and tolerance setting",
     "Tests check the number of lines and mean length for one clean grid.",
     [PREP], [("group_dots_hor_lines", PREP), ("group_dots_ver_lines", PREP), ("group_dots_hor_lines_based_polyfit", PREP), ("group_dots_ver_lines_based_polyfit", PREP), ("_check_dot_on_line", PREP)],
     ["group_dots_hor_lines", "group_dots_ver_lines", "group_dots_hor_lines_based_polyfit", "group_dots_ver_lines_based_polyfit"])

prop("C15", "Point filters keep exactly the points meeting their criterion, in order",
     "Removing residual dots keeps, in order, exactly those points of each line whose distance to that line's fitted parabola (along the line's own axis, times the cosine of the slope angle) is below the given residual, drops a line only when nothing is left of it, and raises ValueError only when nothing is left of all lines. The parabola mask is 1.0 exactly strictly inside its four parabolas, 0.0 elsewhere, rotated on request, and margins that do not fit raise ValueError. "
     "Removing points by a parabola mask keeps exactly those whose pixel (coordinates truncated to integers) has the mask value 1, points outside the image being removed and never raising; removing a subset of points keeps exactly the points not in the subset. Each filter returns unchanged coordinates of input points only, in the input order.",
     ["inputs"], "every list of lines or points, slope, residual, mask setting",
     "Tests remove one or two planted outliers.",
     [PREP], [("remove_residual_dots_hor", PREP), ("remove_residual_dots_ver", PREP), ("remove_points_using_parabola_mask", PREP), ("make_parabola_mask", PREP), ("remove_subset_points", PREP)],
     ["remove_residual_dots_hor", "remove_residual_dots_ver", "remove_points_using_parabola_mask", "remove_subset_points"])

prop("C16", "Segmentation outputs stay masks of the input and normalised images stay finite",
     "Selecting dots keeps each labelled dot whole or drops it whole and never sets a pixel that was not set in the input (for dots whose bounding box contains no pixel of another dot): by size, exactly those whose pixel count lies in [size - ratio*size, size + ratio*size]; by axis ratio, exactly those whose bounding box is at least 2x2 and whose major/minor axis ratio differs from 1 by less than the ratio; by distance, exactly those for which one of the three nearest distances to other dots differs from a whole multiple of the dot distance by less than ratio*distance (the remainder of the division). "
     "Binarisation gives a 0/1 image of the same shape: (denoised by a 2x2 median), above the given threshold or the Otsu threshold of the central region, inverted when more than half of it is set, with objects touching the border removed, opened by a disk of radius 1 and its holes filled; so no border pixel is set and no hole is left. "
     "Background-normalised images are mean(background)*image/background, zero background values being replaced by the mean (1 when that is zero too), have the same shape and no NaN or infinity for finite non-negative input; regions of interest are inside the image, centred within a pixel, with the ratio clipped to [0.05, 1].",
     ["inputs", "configurations"], "every binary image, dot size, ratio and distance; every finite non-negative image, also with zero background; every roi ratio",
     "Tests use one clean dot pattern where nothing is dropped.",
     [PREP], [("select_dots_based_size", PREP), ("select_dots_based_ratio", PREP), ("select_dots_based_distance", PREP), ("normalization", PREP), ("normalization_fft", PREP), ("binarization", PREP), ("_select_roi", PREP)],
     ["select_dots_based_*", "normalization", "normalization_fft", "binarization"])

prop("C17", "Rotations and tilted profiles follow the stated angle and stay in the image",
     "Rotating points by an angle (degrees by default, or radians) preserves all pairwise distances and the order of points, rotates (x, y) by exactly that angle about the origin, and is undone by the opposite angle. "
     "A tilted profile samples the image along the straight line that starts at the given row (column) at the left (top) edge with the given tilt, counterclockwise, at equally spaced distances from 0 to the integer part of width (height) / cos(angle), every returned position clipped to the image; the values are the cubic interpolation, at exactly the returned positions, of the band of rows (columns) the line crosses. An index whose line does not fit in the image, a tilt of 90 degrees or an input that is not 2D raises ValueError, and only that.",
     ["inputs", "configurations"], "every point set and angle, image size (sides beyond 32767 included), index, tilt and direction",
     "Tests check one profile length and the mean of one rotation.",
     [PREP, LINE], [("rotate_points", PREP), ("_calc_index_range", LINE), ("get_tilted_profile", LINE)],
     ["rotate_points", "get_tilted_profile"])

prop("C18", "Detected extrema are genuine sub-pixel extrema of the profile",
     "The extrema returned for a profile are, in increasing order, exactly the samples that are the smallest (largest for maxima) of the window of the search radius around them and whose relative difference from the mean of the radius largest values of that window exceeds the sensitivity, after the optional smoothing and rank-based background normalisation; with sub-pixel accuracy each is given at the vertex of the parabola through it and its two neighbours, within half a sample of it unless the three are equal. Maxima of a profile are the minima of its maximum minus the profile. "
     "Locating a sub-pixel point returns the vertex of the fitted parabola when it lies in the list, else the index of the smallest (largest) sample. The local slope estimate is at each position the absolute least-squares slope of its odd-sized window with repeated edges, divided by the mean on request, for float and integer profiles alike. Filtering peaks returns, in order, exactly the given peaks whose window is fitted by a Gaussian within the tolerances; no input is changed.",
     ["inputs", "configurations"], "every 1D profile, radius, sensitivity and option",
     "Tests count extrema of one sine-like profile.",
     [LINE], [("get_local_extrema_points", LINE), ("locate_subpixel_point", LINE), ("sliding_window_slope", LINE), ("select_good_peaks", LINE)],
     ["get_local_extrema_points", "locate_subpixel_point", "sliding_window_slope", "select_good_peaks"])

prop("C19", "Saving with overwriting disabled never touches an existing file",
     "With overwrite disabled, no saving function modifies or replaces any file that existed before the call: it writes to the requested path if nothing of that name exists and otherwise to a fresh numbered name (stem_NNNN.ext) next to it, and returns the path actually written (open_hdf_stream: the dataset in that file); with overwriting enabled it writes exactly the requested path, creating its missing folder and nothing else. "
     "The requested path is the given one with the saver's default extension in place of a missing or (HDF, text, JSON, pickle) unaccepted one; save_image is given an extension. Repeated saving to the same name therefore never loses earlier results.",
     ["inputs", "histories"], "every saver, file name, extension (or none) and set of files already present",
     "Tests save once or twice into an empty folder.",
     [LOSA], [("_create_file_name", LOSA), ("_create_folder", LOSA), ("save_image / save_plot_image / save_residual_plot / save_hdf_file / open_hdf_stream / save_plot_points / save_metadata_txt / save_metadata_json / save_python_list", LOSA)],
     ["all save_* functions", "open_hdf_stream"])

prop("C20", "Saved calibration metadata loads back to the same centre and coefficients",
     "Loading metadata saved as text, JSON or a Python list returns the same centre (x then y) and the same coefficients in the same order, for any number of coefficients and any finite values including numpy scalars and arrays: doubles exactly, float32/float16 values to their own precision. "
     "Loading a missing file raises ValueError.",
     ["inputs"], "every centre, every coefficient list of any length, scalar or array types",
     "Tests save one list and compare sums.",
     [LOSA], [("save_metadata_txt", LOSA), ("load_metadata_txt", LOSA), ("save_metadata_json", LOSA), ("load_metadata_json", LOSA), ("save_python_list", LOSA), ("load_python_list", LOSA)],
     ["save_metadata_txt/load_metadata_txt", "save_metadata_json/load_metadata_json", "save_python_list/load_python_list"])

prop("C21", "HDF and image files load back as exactly the requested part of what was saved",
     "2D data saved to an HDF file load back identically and 3D data as float32, from the key given or, for a dataset named data, the key found automatically; loading with an axis and index gives exactly those slices along that axis: an integer (negative ones count from the end) drops that axis, (start, stop) or (start, stop, step) or a list of one or more than three increasing indices keeps it unless only one slice is selected. Out-of-range indices raise an error, an empty selection, missing key or missing file raises ValueError, load_hdf_object gives the dataset itself, and open_hdf_stream creates the dataset of the shape and type asked for together with every metadata entry. "
     "Float and integer 2D images saved as tif load back unchanged; in other formats uint8 images are stored as they are, other images as the whole part of 255(v-min)/(max-min), constant ones as their value; loading a colour image averages its channels when asked. The HDF listing names every dataset with its shape and type, and a key search returns the listed entries that contain the pattern.",
     ["inputs", "configurations"], "every array shape (dimensions of size 1 included), axis, index form; every image value range",
     "Tests load one dataset with a few indices.",
     [LOSA], [("save_hdf_file", LOSA), ("load_hdf_file", LOSA), ("load_hdf_object", LOSA), ("save_image", LOSA), ("load_image", LOSA)],
     ["save_hdf_file/load_hdf_file", "save_image/load_image"])

prop("C22", "Library calls never modify their inputs",
     "No public function of the library changes the content of any array, list or dictionary passed to it (images, points, lines, coefficients, reference points, maps, options, data to be saved), whether it returns or raises, and whatever the layout of the arrays; a result may share memory with an input, but no library function ever writes through it.",
     ["inputs", "histories"], "every public function of the preparation, processing, post-processing, utility and loader/saver modules, every input, including arrays that are views",
     "Tests never compare inputs before and after a call.",
     [POST, UTIL, PROC, PREP, LINE, LOSA], [("all public functions", LOSA), ("all public functions", POST), ("all public functions", PROC), ("all public functions", PREP), ("all public functions", LINE), ("all public functions", UTIL)],
     ["all public functions"])

prop("C23", "Padding keeps the whole view and shifts the centre with it",
     "Unwarping with a pad of (top, bottom, left, right) pixels equals padding the image by those amounts and unwarping it about the centre shifted by (left, top), so the output is exactly that much larger; an integer pads all sides, False pads nothing, and True pads each side by the whole number of pixels by which the image corners, moved by the forward model fitted over the image area, stick out beyond 0 (top, left) or beyond the height or width (bottom, right), and never by a negative amount. "
     "Any other form of the pad argument raises ValueError.",
     ["inputs", "configurations"], "every image, centre, model, pad form and mode",
     "Tests compare one shape with a pad.",
     [UTIL], [("_calc_pad", UTIL), ("unwarp_color_image_backward", UTIL), ("unwarp_image_backward_cv2", UTIL)],
     ["unwarp_color_image_backward", "unwarp_image_backward_cv2"])

prop("C24", "Synthetic patterns contain exactly the requested features",
     "Generated patterns have the requested shape and are black (0) exactly on the requested features, white (1) elsewhere. Dots are disks of the given size (limited to an eighth of the shorter side) centred at every node of the grid of the given distance that starts half a dot (plus one pixel) inside the margin and ends before the opposite one; lines have the given size (same limit), start at the margin, repeat at the given distance in both directions and extend from the first to the last line of the other direction; chessboard cells of the given size alternate 1 and 0, starting with 1 one cell inside the margin, the rest having the margin grey level. "
     "Margins may differ per direction (vertical, horizontal) for dots and lines; a dot size larger than the distance raises ValueError; a circle mask is 1 exactly within ratio times half the width of its middle pixel.",
     ["inputs"], "every height, width, distance, size and margin that leaves room for a feature",
     "Tests check default patterns' sums.",
     [UTIL], [("make_circle_mask", UTIL), ("make_dot_pattern", UTIL), ("make_line_pattern", UTIL), ("make_chessboard", UTIL)],
     ["make_dot_pattern", "make_line_pattern", "make_chessboard", "make_circle_mask"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
