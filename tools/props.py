"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique=None, note=None, spec=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [n for n, _ in mech], hook_needed=None)))
    P[-1]["_spec"] = spec
    P[-1]["_note"] = note


POST, PROC = "discorpy/post/postprocessing.py", "discorpy/proc/processing.py"
PREP, LINE = "discorpy/prep/preprocessing.py", "discorpy/prep/linepattern.py"
LOSA, UTIL = "discorpy/losa/loadersaver.py", "discorpy/util/utility.py"

prop("C01", "Backward unwarping: every output pixel samples the model's source point",
     "For any image, centre and coefficient list, pixel (y,x) of the backward-unwarped image is the interpolation (of the requested order) of the input at centre + f(r)*(offset from the centre), f being the coefficient polynomial of the distance r to the centre, with that position clamped to the image. The result has the input's shape and dtype and depends neither on the boundary mode (for splines: unless it sets zeros outside) nor on the memory layout of the input.",
     ["inputs", "configurations"], "all images (any size, dtype, layout), centres inside or outside the image, coefficient lists of any length, interpolation orders and boundary modes",
     "the tests unwarp one dot pattern with one model and look at a global residual; they never compare a pixel with the model",
     [POST], [("unwarp_image_backward", POST)], spec="Warp, MC_Warp, T_Warp")
prop("C02", "Slices and bands of a stack are the rows of the corrected frames",
     "For a 3D stack, the corrected slice at an index, and the corrected band from a start to a stop index (both included, -1 meaning the last row), equal the same rows of every frame corrected as a whole, for all models that preserve the order of points along a ray, for array-like and file-backed stacks. A band reaching outside the stack, or an input that is not 3D, is rejected with a ValueError.",
     ["inputs", "configurations"], "all stacks, row indices, bands, monotone radial models and centres",
     "the tests take one slice and one band of one stack; the window of source rows depends on model, centre and index",
     [POST], [("unwarp_slice_backward", POST), ("unwarp_chunk_slices_backward", POST)], spec="Warp, MC_Warp, T_Warp")
prop("C03", "Colour, padded and OpenCV unwarping obey the same pixel law",
     "The colour, padded and OpenCV variants of backward unwarping obey the law of the plain one on every channel: with explicit padding the frame grows by exactly the requested amounts and the centre moves with it; with automatic padding the frame grows by the overshoot of the corrected corners, never cropping the input; without padding the shape is kept.",
     ["inputs", "configurations"], "all images with 1-4 channels, models, padding requests (none, number, tuple, automatic), padding and interpolation options",
     "the tests check shapes and a global metric for one model; pixel positions after padding are never checked",
     [UTIL], [("unwarp_color_image_backward", UTIL), ("unwarp_image_backward_cv2", UTIL), ("mapping_cv2", UTIL)], spec="Warp, T_Warp")
prop("C04", "Forward unwarping deposits every input pixel where the model sends it",
     "In the forward-unwarped image every non-zero pixel is the value of an input pixel which the model sends there (rounded to the nearest pixel, clamped to the frame), and every pixel position some input pixel is sent to is filled. The other pixels are zero, and the result has the input's shape.",
     ["inputs"], "all images, centres and forward models",
     "the tests compare one image by a global residual",
     [POST], [("unwarp_image_forward", POST)], spec="Warp, T_Warp")
prop("C05", "Points go exactly where the radial model sends them, and back",
     "Moving points forward returns centre + f(r)*(point - centre) for every point of every line, keeping the order and grouping of points; moving points backward returns the point on the same ray which the model maps onto the given point, for every monotone model; undoing one by the other restores the points. Integer and single-precision input gives the same result as double precision.",
     ["inputs"], "all lists of lines (lists, arrays, integer or float), centres and models",
     "tests use one grid and one model; the numeric inversion must converge for every radius and model",
     [POST, UTIL], [("unwarp_line_forward", POST), ("unwarp_line_backward", POST), ("find_point_to_point", UTIL)], spec="Warp, T_Points")
prop("C06", "Forward and backward coefficient lists describe inverse models",
     "Transforming the coefficients of a moderate radial model between the backward and forward form gives a model that undoes the first one over the region of the reference points, to a small fraction of a pixel, for both directions. Too few reference points are rejected with a ValueError.",
     ["inputs"], "all moderate monotone models of 1-5+ coefficients, both directions, default or given reference points",
     "the tests transform one model and check a loose tolerance",
     [PROC], [("transform_coef_backward_and_forward", PROC)], spec="Warp, MC_Inverse, T_Inverse")
prop("C07", "Calibration recovers the centre and a model that straightens the grid",
     "From the points of a radially distorted, possibly tilted grid, the centre-finding functions return the true centre within a fraction of the pitch, and the coefficient-finding functions return a model which takes the observed points back to straight, evenly spaced lines; their distance is that of the observed lines near the centre or, with the optimizing option, the least-squares distance of all lines; as many coefficients are returned as asked for. The answer does not depend on how the grid is presented: exchanging rows and columns, listing lines in reverse, shifting or mirroring the image transforms the answer accordingly; a missing inner line triggers a warning, a complete grid does not.",
     ["inputs"], "all distorted grids (numbers of lines, pitch, tilt, origin, centre, model), calibration methods and numbers of coefficients",
     "the tests calibrate one synthetic grid centred in the image; errors that depend on tilt, offset, or on the role of the horizontal/vertical lines stay invisible",
     [PROC], [("find_cod_coarse", PROC), ("find_cod_fine", PROC), ("find_cod_bailey", PROC), ("find_center_based_vanishing_points(_iteration)", PROC),
              ("calc_coef_backward", PROC), ("calc_coef_forward", PROC), ("calc_coef_backward_from_forward", PROC)], spec="Calib, MC_Calib, T_Calib")
prop("C08", "Perspective coefficients map the source points onto the target points",
     "The coefficients computed from pairs of points describe the projective map which takes each source point to its target point ('forward') or each target point to its source point ('backward'); the two maps undo each other inside the figure, whatever the order of the pairs and the number type of the points. Correcting points with a coefficient list applies exactly that projective map to every point of every line, also to points beyond the horizon of the map. A coefficient list whose length is not 8 is rejected with a ValueError.",
     ["inputs"], "all pairs of quadrilaterals in general position, all consistent larger sets of pairs, integer and float types, lists and arrays",
     "the tests use one set of four points; agreement with the map away from the reference points is never checked",
     [PROC, POST], [("calc_perspective_coefficients", PROC), ("correct_perspective_line", POST)], spec="Projective, MC_Proj, T_Proj")
prop("C09", "Perspective image correction samples the point the map assigns to each pixel",
     "Pixel (y,x) of the corrected image is the interpolation of the input at the point the projective map assigns to (y,x), clamped to the image. An explicit pair of index arrays, one entry per pixel, replaces these points. Shape and dtype are those of the input; the result depends neither on the boundary mode (for splines: unless it sets zeros outside) nor on the memory layout of the input.",
     ["inputs", "configurations"], "all images, coefficient lists (horizon outside or inside the frame), orders, boundary modes and index maps",
     "the tests compare the shape or one global residual",
     [POST], [("correct_perspective_image", POST)], spec="Projective, MC_Proj, T_Proj")
prop("C10", "Targets of a perspective correction are rectangles and regular grids",
     "For four points in any order the generated source list is these points ordered top-left, top-right, bottom-left, bottom-right, and the target list is a rectangle whose sides are the requested combination (mean, minimum, maximum, or a factor times the mean) of the opposite sides, equal if requested; a rectangle is its own target. For a set of lines the targets are the nodes of a regular orthogonal grid, equally spaced both ways if requested, whose spacing is the requested statistic of the spacing of the lines; a regular grid is its own target; exchanging rows and columns exchanges the result. A wrong number of points is rejected with a ValueError.",
     ["inputs", "configurations"], "all convex quadrilaterals and grids in perspective views, scale and equal-distance options, input orders",
     "tests use one quadrilateral / one grid with default options and check only shapes or a loose residual",
     [PROC], [("generate_4_source_target_perspective_points", PROC), ("generate_undistorted_perspective_lines", PROC), ("generate_source_target_perspective_points", PROC)], spec="Grid, MC_Grid, T_Grid")
prop("C11", "Regenerated grid points are the crossings of the lines, for every pair",
     "Regenerating a grid from lines or coefficients returns, for every row and column, the crossing point of the fitted straight lines (or parabolas): the point lies on both curves, rows and columns list the same points, and no point is missing. A grid whose points already are these crossings comes back unchanged, even if some points of each line are missing; with the perspective option the perspective effect is also removed and the cells of the grid become square.",
     ["inputs"], "all sets of lines and parabolas of distorted grids, complete or with missing points, coefficients or points",
     "the tests regenerate one grid and check the number of points",
     [PROC], [("regenerate_grid_points_linear", PROC), ("regenerate_grid_points_parabola", PROC)], spec="Grid, Calib, MC_Grid, MC_Calib, T_Grid")
prop("C12", "The perspective effect is removed, and nothing else changes",
     "Correcting the perspective effect of a radially distorted grid turns its frame back into a rectangle, leaves a grid without perspective effect where it is, and does not depend on how the grid is presented: mirrored, flipped or transposed grids give the mirrored, flipped or transposed result. A scale factor scales the result about the mean. Grids lacking lines on one side of the centre are rejected with a ValueError. Moving the centre of a list of lines translates every point by exactly the given offsets.",
     ["inputs", "configurations"], "all distorted grids seen in perspective, methods and scales",
     "the tests correct one grid with one method",
     [PROC], [("correct_perspective_effect", PROC), ("update_center", PROC)], spec="Grid, Calib, MC_Grid, MC_Calib, T_Grid")
prop("C13", "Dots are grouped into the lines they belong to, each dot at most once",
     "Grouping the dots of a grid, distorted or tilted by no more than the stated slope and tolerance, returns its rows (horizontal) or columns (vertical): every group consists of given dots, no dot is repeated, dots of different lines are never mixed, and groups with at least the accepted fraction of the longest line's dots are kept, the others dropped. Removing residual dots keeps exactly the dots within the given residual of the line's parabola.",
     ["inputs", "configurations"], "all dot sets, slopes, distances, tolerances, numbers of missed dots and accepted ratios",
     "the tests group one pattern and count lines; which dot goes where depends on the geometry of every step",
     [PREP], [("group_dots_hor_lines", PREP), ("group_dots_ver_lines", PREP), ("remove_residual_dots_hor/ver", PREP)], spec="Grouping, MC_Group, T_Group")
prop("C14", "Polynomial-fit grouping returns whole lines of strongly curved grids",
     "Grouping dots by a moving polynomial fit returns the rows or columns of a curved grid, each as a group of given dots, whole or not at all: no line is split, repeated or mixed with another one, whatever dots are missing within the tolerated gaps; exchanging the axes exchanges rows and columns of the result. An input that yields no line is rejected with a ValueError.",
     ["inputs", "configurations"], "all curved grids with missing dots, slopes, distances, orders and tolerances",
     "the tests group one pattern; the fit window and the list of remaining dots depend on the history of earlier lines",
     [PREP], [("group_dots_hor_lines_based_polyfit", PREP), ("group_dots_ver_lines_based_polyfit", PREP)], spec="Grouping, MC_Poly, T_Group")
prop("C15", "Dot selection keeps whole objects by their own size, shape or distance, and nothing else",
     "Selecting dots by size keeps exactly the objects whose area lies within the given ratio of the nominal size; by shape, those whose ratio of axes deviates from one by no more than the given ratio; by distance, those having one of their nearest neighbours at a multiple of the nominal distance within the given ratio. The kept objects come out unchanged pixel by pixel, the others vanish completely, and objects whose bounding boxes overlap do not influence each other.",
     ["inputs", "configurations"], "all binary images, nominal sizes and distances, ratios",
     "the tests count the dots remaining in one clean pattern",
     [PREP], [("select_dots_based_size", PREP), ("select_dots_based_ratio", PREP), ("select_dots_based_distance", PREP)], spec="Blobs, MC_Blobs, T_Blobs")
prop("C16", "Segmentation yields exactly the complete dots of the image",
     "Binarizing a grey image gives 1 for the pixels of dots and 0 elsewhere: pixels above the threshold (after a 2x2 median of the absolute values unless denoising is off), inverted if they are the majority so that dots are bright, without objects touching the border, without specks and thin lines (opening with a plus of 3 pixels), and with holes filled. Without a given threshold, the threshold separates the two grey levels of the central region of the given ratio, whatever lies outside that region. The check of the number of dots is true exactly when there are fewer than 25 separate objects.",
     ["inputs", "configurations"], "all grey images, number types, thresholds, ratios, with and without denoising",
     "the tests binarize one clean pattern and count its dots",
     [PREP], [("binarization", PREP), ("check_num_dots", PREP)], spec="Segment, Blobs, MC_Seg, T_Seg")
prop("C17", "Measured dot size, distance, slopes and centres are those of the pattern",
     "The measured dot size and distance are the median size and the median distance to the nearest neighbour of the objects that are complete inside the central region of the given ratio; what lies outside does not matter. The measured slopes of rows and columns are those of the dot grid (tilt up to about 20 degrees, also sheared). The points extracted from a pattern are the centres of mass of all its objects, each once; an image that should be binary but is not is rejected with a ValueError.",
     ["inputs", "configurations"], "all binary patterns with at least two complete objects, regular tilted dot grids, ratios",
     "the tests measure one untilted pattern",
     [PREP], [("calc_size_distance", PREP), ("calc_hor_slope", PREP), ("calc_ver_slope", PREP), ("get_points_dot_pattern", PREP)], spec="Segment, Blobs, MC_Seg, T_Meas")
prop("C18", "Background normalisation and grey-level threshold follow the image",
     "Normalizing an image divides it by its median-filtered background and multiplies it by the mean of the background; where the background is zero the mean takes its place, so that no undefined values appear. The Fourier variant leaves constant images alone, removes smooth shading, keeps fine detail, and both follow a scaling or mirroring of the image. The threshold calculated from the sorted grey levels is the background's extrapolated end plus or minus half the noise range times the ratio; it follows affine changes of the grey levels, does not depend on where pixels lie, and separates dots from background.",
     ["inputs", "configurations"], "all images with a background not entirely zero, window sizes, sigmas, pads, ratios, bright or dark backgrounds",
     "the tests normalize one image and compare a mean",
     [PREP], [("normalization", PREP), ("normalization_fft", PREP), ("calculate_threshold", PREP)], spec="Segment, MC_Back, T_Back")
prop("C19", "Tilted profiles and line crossings lie where the lines are",
     "A tilted profile starts at the given row or column, runs along the given angle over the largest whole number of pixels inside the frame, has one sample per pixel of that side and carries the image's values at the returned positions, for images of any size; starts for which the profile would leave the frame, angles of 90 degrees and images that are not 2D are rejected with a ValueError. On line and chessboard patterns, tilted or not, bright or dark, of any number type, the measured slope and line distance are those of the pattern, every returned crossing point lies on a line of the requested family and on one of the equidistant profiles between the offsets, and no crossing well inside a profile that keeps clear of the other family is missed. With a sensitivity no line can reach no point is returned. Transposing the pattern exchanges the two families, inverting or scaling its grey levels changes nothing. Converting a chessboard gives dark (or bright) lines at the edges of the squares with mean value one.",
     ["inputs", "configurations"], "all line and chessboard patterns, tilts, pitches, number types, backgrounds, offsets, ratios, and all frames, tilts and starts of profiles",
     "the tests locate the lines of one untilted pattern and count them",
     [LINE], [("get_tilted_profile", LINE), ("calc_slope_distance_hor/ver_lines", LINE), ("get_cross_points_hor/ver_lines", LINE), ("convert_chessboard_to_linepattern", LINE)], spec="Lines, MC_Lines, T_Lines")
prop("C20", "Extrema, slopes and peaks of a profile are found where they are",
     "The sub-pixel extremum of a short list is the vertex of its least-squares parabola if that is an extremum of the requested kind inside the list, otherwise the smallest (largest) sample. Sliding-window slopes are the absolute least-squares slopes of each window with edge values repeated, divided by their mean if asked; fewer than three samples are rejected with a ValueError. Local extrema (without smoothing and normalisation) are exactly the samples lowest (highest) in their complete window whose contrast to the mean of the window's opposite values exceeds the sensitivity, in order, refined by the three-point parabola if asked; with smoothing they are the extrema of the profile. Results do not depend on the number type of the data, follow scaling and mirroring. Selecting good peaks returns a selection of the given peaks that keeps Gaussian-shaped ones and drops flat, stepped or one-sided ones.",
     ["inputs", "configurations"], "all one-dimensional data, number types, radii, sensitivities, window sizes",
     "the tests locate a few extrema in smooth synthetic data",
     [LINE], [("locate_subpixel_point", LINE), ("sliding_window_slope", LINE), ("get_local_extrema_points", LINE), ("select_good_peaks", LINE)], spec="Signal, MC_Signal, T_Signal")
prop("C21", "Points inside and outside a parabola mask, rotated points and point differences are right",
     "The parabola mask is 1 exactly at the pixels strictly inside its four parabolas (margins given singly or in pairs, turned by the given angle) and 0 elsewhere; margins larger than the frame are rejected with a ValueError. Removing points keeps exactly the points, in order and unchanged, whose pixel lies in the mask, and never a point outside the frame nor does such a point cause a failure. Rotating points turns each by the angle about the origin, in degrees or radians, for every number type. Removing a subset of points removes exactly the points that occur in the subset and keeps the order of the others.",
     ["inputs", "configurations"], "all frame sizes, mask widths and curvatures, points inside and outside the frame, angles, number types",
     "the tests remove a few points of one grid and count",
     [PREP], [("make_parabola_mask", PREP), ("remove_points_using_parabola_mask", PREP), ("rotate_points", PREP), ("remove_subset_points", PREP)], spec="PointSets, MC_Points, T_PointSets")
prop("C22", "A history of saves never loses data that was not to be overwritten",
     "In every history of save, load, delete and find calls in a directory: a save returns the name of the file it wrote, with the extension corrected to one of the format; with overwrite=False an existing file is left untouched and the first free number _0000, _0001, ... is appended before the extension; no call changes any other file; what was saved last under a name is what loading it gives; missing folders are created; a directory that has the name counts as taken and is never replaced. A call that fails leaves every existing file as it was. Finding files returns exactly the names matching the pattern (files and directories, hidden ones included), sorted, or raises FileNotFoundError.",
     ["histories", "faults"], "all sequences of save_image/plot/hdf/stream/txt/json/pickle, loads, deletes and finds, with names, extensions, folders and options",
     "the tests save each format once or twice",
     [LOSA], [("save_*, load_*", LOSA), ("_create_file_name", LOSA), ("find_file", LOSA)], spec="Store, MC_Store, T_Store")
prop("C23", "What is saved is what is loaded",
     "A 2D image saved as tif (any spelling of the extension) loads back with every pixel unchanged at single precision; in 8-bit formats uint8 images come back unchanged and others stretched linearly between their minimum and maximum onto 0..255 whatever their number type; a colour image loads as the mean over its channels or unchanged with average=False, whatever its size. Data saved as hdf (2D keeps its number type, 3D single precision), metadata saved as text or json (every float exactly) and pickled lists load back equal. A stream of slices written in any order holds the last slice written to each place, zeros elsewhere, in the requested number type, together with all the metadata; a metadata key below the data's key is rejected with a ValueError.",
     ["inputs", "histories"], "all images (shapes, number types, ranges, memory layouts), metadata values, histories of slice writes",
     "the tests save and load random arrays and compare shapes",
     [LOSA], [("save_image, load_image", LOSA), ("save_hdf_file, open_hdf_stream", LOSA), ("save_metadata_*, load_metadata_*", LOSA), ("save_python_list", LOSA)], spec="Hdf, MC_Hdf, T_Round")
prop("C24", "Reading hdf files gives the slices and keys asked for",
     "Loading a 3D data set with one index (also negative, also a numpy integer) gives that slice along the given axis; with two or three numbers the slices of that range, with other lists those listed; the sides keep their order, a single slice comes out 2D also when another side has length one; an empty selection, data that are not 2D or 3D, a missing key and a missing or unreadable file are rejected with a ValueError, an index out of range is rejected. Without a key the first group (in order) holding a data set 'data' is used. The listing of a file contains every data set with its own shape and type, and every empty group, and nothing invented; the key search gives exactly the entries containing the pattern as it is written; both are printed entry by entry if asked.",
     ["inputs", "configurations"], "all shapes, axes, indices, trees of groups and data sets, patterns",
     "the tests load one cube with a few indices",
     [LOSA], [("load_hdf_file", LOSA), ("load_hdf_object", LOSA), ("get_hdf_information, find_hdf_key", LOSA)], spec="Hdf, MC_Hdf, T_Hdf")
prop("C25", "Residuals are the distances of the dots from their own fitted line, and decide the verdict",
     "For lists of horizontal (vertical) lines, the residual list holds exactly one row per dot, sorted by the distance to the centre, each row giving that distance and the perpendicular distance of the dot to the least-squares straight line through the dots of its own line; it does not depend on the number type of the dots, follows a shift, scaling or exchange of the axes. Distortion is reported exactly when more than 15% of the dots have a residual above one pixel.",
     ["inputs"], "all lists of lines, centres, number types, and all residual lists",
     "the tests compare the maximum residual of one grid with a bound",
     [POST], [("calc_residual_hor", POST), ("calc_residual_ver", POST), ("check_distortion", POST)], spec="Resid, MC_Resid, T_Resid")
prop("C26", "Generated calibration patterns are the patterns described",
     "Every pixel of a generated dot, line or chessboard pattern has the value its description gives: equal, complete dark discs (squares of lines) at the given distance, starting at the margins (given singly or in pairs) and never reaching into the opposite margin, dark lines of the given size from the first to the last crossing line, squares alternating in both directions, on a bright background or margin of the given grey level; sizes are limited to an eighth of the shorter side, dots larger than their distance are rejected with a ValueError. Patterns generated without arguments are those with the documented default values. A circle mask is one exactly within the given ratio of the half width from the centre.",
     ["inputs", "configurations"], "all frame sizes, distances, sizes, margins, grey levels, ratios",
     "the tests look at sums of one pattern of each kind",
     [UTIL], [("make_dot_pattern", UTIL), ("make_line_pattern", UTIL), ("make_chessboard", UTIL), ("make_circle_mask", UTIL)], spec="Patterns, MC_Patterns, T_Patterns")
prop("C27", "Calls leave no trace: arguments and settings stay, results repeat",
     "No function of the library changes its arguments (arrays, lists, dictionaries) or the settings of the process (random generators, numpy error and print settings, warning filters, matplotlib settings, open figures, working directory, environment) or leaves files elsewhere; a call gives the result it gives in a process that has called nothing else, after any other calls (also of the same function with slightly different arguments) and also when the caller has written into earlier results; a result never changes after it was returned. This holds for writable and read-only arrays, and also when calls run in several threads (plots excepted).",
     ["histories", "schedules"], "all histories and interleavings of calls of the public functions",
     "the tests never look at arguments after a call nor repeat calls",
     [POST, PROC, PREP, LINE, UTIL, LOSA], [("all public functions", POST)], spec="Pure, MC_Pure, T_Pure")
prop("C28", "Live correction shows every good frame, once, in order, and ends cleanly",
     "When a camera is corrected live, every frame that is read successfully after the first read is shown once, corrected as a still image with the same options would be, in order, whatever reads fail before or in between (the first one included) and with or without padding; after ESC nothing more is read, the camera is released and the windows are closed.",
     ["histories", "faults"], "all sequences of successful and failed reads and keys, padding options, grey and colour frames",
     "the tests never run the live correction",
     [UTIL], [("unwarp_video_cv2", UTIL), ("mapping_cv2", UTIL)], spec="Video, MC_Video, T_Video")
#MORE

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            print("no check for", i)
            continue
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           technique="TLA+ specification (%s) checked by TLC; calls of the real code recorded and judged against it by TLC" % p["_spec"],
                           level="model_checking",
                           level_note=p["_note"] or "The design model is exhausted by TLC within its bounds; the code is bound to it by trace validation of the calls listed in the evidence (scenarios from TLC and seeded generation), not by proof. Trusted: TLC, the projection of results to integers in the driver."))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
             notes="No hooks: /repo carries only fix: commits. Specification language: TLA+ (TLC). See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks")
