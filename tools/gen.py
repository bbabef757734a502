#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.  Run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "liboptv/src/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, observe=observe, state=state or [], tech=tech, note=note, na=na))


prop("C01", "The tracking frame window is a lossless sliding window over the sequence",
     "For every sequence of forward shifts, backward shifts, loads at the end and stores from the start, the window of "
     "frames behaves as a fixed-length rotating sequence: a shift moves every frame's whole content by exactly one position "
     "and wraps the displaced one to the other end, a load replaces only the last position with the named frame as last "
     "stored, and a store changes only the named frame's files. Frames never leak particles, targets or links into one "
     "another, and a load reports failure exactly when any of the files it needs is missing.",
     ["histories"], "all interleavings of the four operations, every window length",
     "check_fb exercises the buffer with one fixed sequence; aliasing and wrap-around faults need particular op histories and lengths.",
     [S + "tracking_frame_buf.c"], [("fb_next/fb_prev over a doubled pointer vector", S + "tracking_frame_buf.c"),
                                    ("read_frame_at_end / write_frame_from_start", S + "tracking_frame_buf.c")],
     ["window content after each operation", "files written"],
     tech="TLA+ FrameRing + refinement; TLC-enumerated behaviours replayed in the real buffer, traces validated by TLC",
     note="Exhaustive over all behaviours to depth 3-5 for windows of 1-4, plus long random behaviours to 7; trusts the harness's decoding of frame contents.")

prop("C02", "Frame data on disk reads back as exactly what was written",
     "Writing a frame and reading it back yields the same particles in the same order (positions to 3 decimals, links, "
     "priorities, per-camera target indices, and numbering from 1), and the same targets per camera in the same order "
     "(positions to 4 decimals, pixel counts, grey sum, particle number), for any number of particles, targets and cameras "
     "the library supports and any index it can hold. Reading without links yields unlinked particles with default priority; "
     "writing one frame number never alters another frame's files; missing or cut-short target files, files holding more "
     "entries than the frame read into has room for, and names too long for the library are reported as errors, never as data or damage.",
     ["inputs", "histories"], "all frame contents, camera counts, frame numbers and write/read histories",
     "check_fb writes 2-3 particles with tiny indices and one frame number.",
     [S + "tracking_frame_buf.c", "py_bind/optv/tracking_framebuf.pyx"],
     [("read_path_frame/write_path_frame, read_targets/write_targets", S + "tracking_frame_buf.c")],
     ["files written", "frames read back"],
     tech="TLA+ FrameFiles (disk as a map), trace validation of random write/read histories incl. raw file contents",
     note="Random histories over several frame numbers, 1-4 cameras, sizes to >10000 particles; checks raw columns and read-back.")

prop("C03", "A tracking run visits each frame once, in order, with its true neighbours",
     "A forward run over frames first..last processes the frames in increasing order, each seen together with its true predecessor "
     "and successors, loads only frames of the sequence, and stores each frame from first to last exactly once under its own number; "
     "a backward run does the same in decreasing order. Stepping one frame at a time, running in full, and restarting in the middle all "
     "store the same final data; the step counter advances by one and stepping reports the end exactly at the last frame.",
     ["histories", "configurations"], "all sequence bounds, all interleavings of restart/step/finalize/full runs",
     "The tracker tests use one fixed sequence each and compare totals only.",
     [S + "track.c", S + "tracking_run.c", "py_bind/optv/tracker.pyx"],
     [("track_forward_start, trackcorr_c_loop, trackcorr_c_finish, trackback_c", S + "track.c"),
      ("Tracker.restart/step_forward/finalize/full_forward/full_backward", "py_bind/optv/tracker.pyx")],
     ["loads and stores issued through the frame source", "result files", "Tracker return values and current_step()"],
     tech="TLA+ TrackRun: protocol model checked by TLC, every bounded history replayed in the library (I/O recorded through the frame source) and in the Tracker",
     note="All histories to depth 5-6 for sequences of 2-6 frames, random ones to 30 calls and 30 frames. Known finding: the look-ahead at the last step.")

prop("C04", "Links written by tracking are one-to-one and mutually consistent",
     "After a forward or backward tracking run, whenever a particle's successor is set, that successor exists in the next frame and names the "
     "particle as its predecessor, and vice versa; so no two particles share a successor or a predecessor. When several particles compete for "
     "the same successor in a forward run, the one with the best (lowest) decision value keeps it and the others end with no successor. "
     "Backward tracking never removes or changes a link made forward.",
     ["inputs", "histories"], "all particle configurations, densities, camera counts, parameters and sequence lengths",
     "The tests count links; none looks at mutual consistency or at who wins a contested successor.",
     [S + "track.c", S + "tracking_frame_buf.c"],
     [("link creation with decision check", S + "track.c:trackcorr_c_loop"), ("gap filling", S + "track.c:trackback_c")],
     ["prev/next in the stored frames", "decision lists in the window after each step"],
     tech="TLA+ Linking (contested-link resolution, exhaustive) + trace validation of every step of real runs",
     note="Design exhaustive for 2 particles x 4 frames and 3 x 3; real runs are random dense scenes, forward then backward.")

prop("C05", "Forward tracking links each particle to its best admissible continuation",
     "At each step every particle is linked to the candidate continuation with the lowest decision value among those allowed: the candidate lies "
     "in the search volume around the extrapolated position, is seen as one of the four nearest targets in at least two cameras (or one when it heads the list), and lies strictly within the "
     "velocity bounds and satisfies the angle/acceleration limits; the decision value combines displacement, acceleration and angle divided by how often the "
     "candidates were seen. Only the previous, current and next two frames influence the decision.",
     ["inputs", "configurations"], "all particle configurations and tracking parameters (decided exactly for distant cameras, whose projections are exact integers)",
     "The tests track one or two hand-made scenes and check only totals of links.",
     [S + "track.c"], [("candidate search and rating", S + "track.c:trackcorr_c_loop"), ("angle_acc, pos3d_in_bounds", S + "track.c")],
     ["candidate list, decision values and chosen links after each step"],
     tech="TLA+ Track: executable specification of a forward step; TLC validates every step of recorded real runs",
     note="About 1500 three-dimensional integer scenes per quick run (rival continuations, occlusions, single sightings); the open velocity bounds, accelerations and angles also on their own (TraceRules); decisions inside the rounding margin are left open.")

prop("C06", "Backward tracking fills only gaps, with the best admissible predecessor",
     "A backward run gives a predecessor only to particles that have a successor and lack a predecessor; the predecessor chosen is the candidate of "
     "lowest decision value among those in the search volume around the position extrapolated backwards that satisfy the velocity and "
     "angle/acceleration limits, and it is taken only when that candidate has no successor yet and, if it already has a predecessor, the joined path "
     "satisfies the limits as well. With particle addition on, a particle for which no candidate qualifies may get a predecessor made of unclaimed "
     "targets around that position, under the same limits.",
     ["inputs", "configurations"], "all sequences linked as a forward run leaves them, and all tracking parameters (decided exactly for distant cameras)",
     "test_trackback asserts nothing about its result.",
     [S + "track.c"], [("trackback_c", S + "track.c")], ["links stored by the backward run", "candidate lists in the window"],
     tech="TLA+ Track (BackwardStep, Joins): executable specification of a backward step; TLC validates every step of recorded real runs",
     note="As C05, from random mutual link sets.")

prop("C07", "Added particles are consistent and claim each leftover target once",
     "When particle addition is on, a forward or backward run creates a new particle only where at least two cameras show an unclaimed target within three pixels of the "
     "predicted position, at the position those targets' rays meet, inside the illuminated volume and within the velocity, acceleration and angle "
     "limits; it is appended after the existing particles with its links reset, it refers to exactly those targets, each of which then refers back to it. "
     "No target is ever claimed by two particles, existing particles keep their targets, and with addition off no frame ever gains a particle.",
     ["inputs", "configurations"], "all scenes with gaps in the particle lists and unclaimed targets",
     "One constructed single-particle scene; nothing checks the references or double claims.",
     [S + "track.c"], [("assess_new_position, add_particle", S + "track.c")], ["stored frames and target files"],
     tech="TLA+ Track with addition + claim invariants (TraceLinks), trace validation of real runs",
     note="Exact positions in distant-camera scenes; bookkeeping (claims, references, order) also in dense near-camera scenes.")

prop("C08", "Image-space candidate search returns exactly the nearest targets in the window",
     "Searching a camera's target list around a point returns the nearest claimed targets (at most four, nearest first) lying strictly inside the "
     "search window clipped to the image, for target lists of any length and any distribution including equal distances; the search for unclaimed targets returns the single nearest unclaimed one "
     "under the same rule; a centre outside the image yields nothing. Ranking the candidates seen by all cameras lists each particle once, most often seen first, and drops those seen only once unless one heads the list.",
     ["inputs"], "all y-sorted target lists, windows and candidate tables",
     "Hand-made lists of a handful of targets, far below the sizes at which the coarse search can skip entries.",
     [S + "track.c"], [("candsearch_in_pix, candsearch_in_pix_rest, sort_candidates_by_freq", S + "track.c")],
     ["returned indices"],
     tech="TLA+ CandSearch: reference operators checked against real calls on TLC-enumerated and random lists",
     note="All lists sizes 0..70 and selected sizes to 20000; candidate tables exhaustive for small id sets.")

prop("C09", "Multi-camera correspondences use every target at most once, best groups first",
     "For any candidate lists, the correspondence table consists of groups of four, then three, then two cameras' targets (no pairs or triplets when only complete groups are requested); "
     "no target occurs in two groups; every group is mutually connected by candidate relations and rated above the acceptance threshold; within a "
     "size, groups are accepted in order of decreasing rating, so an omitted admissible group always conflicts with an accepted one that is larger or rated no worse. "
     "The reported number of groups per size and the total agree with the table, and each used target carries the index of its group. This holds however many candidate groups there are, up to the documented capacity of the search (809600 groups of one size; beyond it the search reports an overflow and works on the first ones).",
     ["inputs", "configurations"], "all candidate relations, camera counts 2-4 and thresholds",
     "Tests match perfectly separated calibration points; conflicts, ties and thresholds are never exercised.",
     [S + "correspondences.c", "py_bind/optv/correspondences.pyx"],
     [("four/three_camera_matching, consistent_pair_matching, take_best_candidates", S + "correspondences.c")],
     ["correspondence table and counts", "target particle numbers"],
     tech="TLA+ Correspond: greedy set packing as a state machine, exhaustive small universes, TLC-generated candidate relations replayed",
     note="Clique search and greedy acceptance are checked against the specification on thousands of small relations; whole pipeline on random scenes; crowded relations up to the capacity.")

prop("C10", "Epipolar candidate search finds exactly the acceptable targets in the band",
     "The epipolar segment of an image point joins the images, in the other camera, of the two points where its ray meets the near and far limits of the volume. For any sorted list of image points and any such segment, the search returns precisely the points within the tolerance band of the segment "
     "and of its bounding box whose size and brightness ratios pass the quality limits, in list order, each with its correct correlation and distance measure, "
     "however long the list is and wherever in it the points lie; points outside the sensor area give none.",
     ["inputs", "configurations"], "all point lists (any length up to capacity), segments, tolerances and quality limits",
     "One 8-point list on one segment.",
     [S + "epi.c"], [("find_candidate", S + "epi.c")], ["candidate list"],
     tech="TLA+ CoarseSearch model; TraceEpi: exact integer reference operator on random and size-swept lists; TraceGeom: segment ends traced back to the ray and the depth limits",
     note="Integer coordinates and rational slopes so membership is decided exactly; lists to 20000 points for the binary search.")

prop("C11", "Sorting utilities return the sorted permutation of their input",
     "Every sorting routine (targets by row, corrected points by column, candidate groups by rating, link candidates by decision value) returns exactly the "
     "input records, each intact, ordered by its key, for every length including zero and one and for any pattern of equal keys; sorting a target array by row also renumbers targets by their new position.",
     ["inputs"], "all arrays", "Three-element examples only.",
     [S + "correspondences.c", S + "track.c", "py_bind/optv/tracking_framebuf.pyx"],
     [("quicksort_con, quicksort_target_y, quicksort_coord2d_x, sort", S + "correspondences.c")], ["array after sorting"],
     tech="TLA+ Sorting: PlusCal-style quicksort checked exhaustively; all small arrays enumerated by TLC and replayed",
     note="Exhaustive for all key patterns up to length 6, random to length 3000.")

prop("C12", "Threshold segmentation finds every bright connected spot exactly once",
     "Segmenting an image reports one target per accepted bright spot, grown from a local maximum above the threshold through neighbouring pixels that do not rise by more than the "
     "discontinuity limit, with its exact pixel count, extents, grey sum and grey-weighted centre; spots outside the size or brightness limits are omitted; "
     "no pixel contributes to two targets, the image border never contributes, targets are numbered consecutively in scan order with no particle assigned, and the input image is unchanged. "
     "An image without any accepted spot yields one placeholder target of one pixel at (1, 1).",
     ["inputs", "configurations"], "all images, thresholds, limits and sub-windows",
     "Two 5x5 images with isolated spots.",
     [S + "segmentation.c", "py_bind/optv/segmentation.pyx"], [("targ_rec", S + "segmentation.c")], ["target list"],
     tech="TLA+ Segment: flood-fill transition system; all small images enumerated by TLC and random larger ones, replayed and validated",
     note="Exact integer model; images to 16x16, exhaustive over small grey sets on 3x3 interiors.")

prop("C13", "Image preprocessing computes the documented pixel arithmetic for every image",
     "Background subtraction saturates at zero, masking blanks exactly the masked pixels, the mean and 3x3 filters average the documented neighbourhood, the box blur averages a window shrunk at the image edges, splitting extracts the requested half, "
     "copying copies, and high-pass is the original minus its box blur (then filtered as configured); every pixel of the processed area follows the formula for every image size and content, and inputs are left intact.",
     ["inputs", "configurations"], "all images of every size, all filter parameters",
     "One 5x5 image per operation.",
     [S + "image_processing.c", "py_bind/optv/image_processing.pyx"], [("filter_3, lowpass_3, fast_box_blur, subtract_img, subtract_mask, split, copy_images, prepare_image", S + "image_processing.c")],
     ["output image"],
     tech="TLA+ ImageOps: integer reference semantics; TLC-enumerated and random images replayed and validated",
     note="Integer-exact; image sizes 3..12 including non-square and odd.")

prop("C14", "Parameter and calibration files are read field by field and rejected when malformed",
     "Reading a parameter or calibration file assigns each value to its own field, and a file that is missing, cut short, non-numeric or carries an over-long name yields an error instead of a partially filled "
     "or default record (only a camera without any distortion file gets neutral distortion). Writing then reading back a record that has a writer gives an equal record to the written decimals, and reading or writing never disturbs anything but the named files.",
     ["inputs", "fault_sequences"], "all field values; truncation at every line; every field made non-numeric; missing files",
     "Each reader is tested on one good file.",
     [S + "parameters.c", S + "calibration.c", S + "sortgrid.c", "py_bind/optv/parameters.pyx", "py_bind/optv/calibration.pyx"],
     [("read_*_par, write_*_par, read_ori, write_ori, read_calblock", S + "parameters.c")], ["record fields", "NULL/zero return"],
     tech="TLA+ ParFile: files as token sequences with a reading automaton; every truncation/corruption replayed in the real readers",
     note="Each format with random distinct field values, every truncation point and every corrupted token.")

prop("C15", "Record comparison is true exactly when all fields agree",
     "Comparing two records (targets, correspondences, path data, calibrations and their parts, control, sequence, volume, tracking, target-recognition and multimedia parameters) reports equality if and only if every field agrees; it is symmetric, "
     "and a change in any single field of either side makes it report inequality (multimedia parameters count by their indices, number of layers and first layer).",
     ["inputs"], "all pairs of records", "A few comparisons with one or two fields changed.",
     [S + "parameters.c", S + "calibration.c", S + "tracking_frame_buf.c"], [("compare_*", S + "parameters.c")], ["return value", "Python == and !="],
     tech="TLA+ RecordEq: field-wise model, every single- and double-field perturbation enumerated by TLC and replayed",
     note="Exhaustive over single and pairwise field differences, both argument orders.")

prop("C16", "Each calibration point is matched to its nearest detection",
     "Matching known calibration points to detected targets gives each point, in the points' order, a copy of the target nearest to its projection among those less than the search radius away in x and in y, "
     "numbered with the point's index; points without one, and points projecting more than the radius outside the image, are marked unmatched (-999). The detections and points are unchanged, matches do not depend on the other points, "
     "and nearest-neighbour search returns the index of the nearest target in the same window, or -999.",
     ["inputs"], "all target lists, reference points, cameras and radii",
     "One grid with well-separated points.",
     [S + "sortgrid.c", "py_bind/optv/orientation.pyx"], [("sortgrid, nearest_neighbour_pix", S + "sortgrid.c"), ("match_detection_to_ref", "py_bind/optv/orientation.pyx")], ["matched list"],
     tech="TLA+ SortGrid: scan model checked by TLC; all small instances and random scenes replayed in C and Python and validated",
     note="Exact integer projections for straight-down cameras; distorted cameras with a margin of 1/64 pixel.")

prop("C17", "Camera fitting changes only what was asked for and nothing on failure",
     "Refining a camera from matched points changes only the parameters whose flags are set (and the exterior orientation), uses exactly the matched points of the chosen selection, recovers the true camera from exact data and a nearby start, "
     "stays at the true camera when started there, and reports the residuals of the points used, in order; if the fit does not converge or has too few points, the calibration is returned unchanged with failure reported. "
     "The rough fit changes only the exterior orientation (resetting distortion to neutral), uses all its points, and likewise leaves the calibration unchanged on failure.",
     ["inputs", "configurations"], "all flag combinations, subsets of matched points, media and starting cameras",
     "Two flag settings from one start, undistorted camera, all points matched.",
     [S + "orientation.c", "py_bind/optv/orientation.pyx"], [("orient, raw_orient, num_deriv_exterior", S + "orientation.c"), ("full_calibration, external_calibration", "py_bind/optv/orientation.pyx")], ["calibration before/after", "return value", "residuals"],
     tech="TLA+ OrientFit: fit protocol checked by TLC; every flag combination enumerated and replayed in the real fits, records validated",
     note="All 2048 flag combinations in C (times point selections in thorough), sampled in Python; recovery judged to 0.06 pixel.")

prop("C18", "Pixel and metric image coordinates convert exactly, in every sensor mode",
     "Converting pixel to metric coordinates and back is the identity for every sensor size, pixel pitch and field mode; the image centre maps to the origin, x grows to the right and y grows upwards; bulk conversions equal point-by-point ones.",
     ["inputs", "configurations"], "all image sizes, pitches, modes and points", "A few points on one sensor.",
     [S + "trafo.c", "py_bind/optv/transforms.pyx"], [("pixel_to_metric, metric_to_pixel, old_*", S + "trafo.c")], ["converted coordinates"],
     tech="TLA+ PixMetric: rational-exact reference, grids of configurations replayed",
     note="Dyadic pitches so that values are exact.")

prop("C19", "Distortion and sensor correction invert each other",
     "Applying lens distortion, affine sensor distortion and principal-point shift to a flat image point and then removing them returns the original point to within tolerance, for all moderate distortion parameters; "
     "with all parameters neutral both directions are the identity.",
     ["inputs", "configurations"], "all moderate distortion parameters and image points", "Four parameter sets at one point.",
     [S + "trafo.c"], [("flat_to_dist, dist_to_flat, correct_brown_affine, distort_brown_affine", S + "trafo.c")], ["round-trip coordinates"],
     tech="TLA+ Geometry: round-trip relation on quantised recorded values, trace validation", note="Relation checked at 1e-6 mm resolution; no independent accuracy oracle.")

prop("C20", "Rays, projections and multi-camera positions agree with one another",
     "A 3D point projected into a camera and traced back as a ray yields a ray passing through the point, in single and layered media; the position computed from the image points of one 3D point is that point, "
     "from any subset of at least two cameras, in any camera order, ignoring cameras marked unused, with a ray-convergence measure of zero; for arbitrary rays the position is the mean of the pairwise midpoints and the measure is the mean pairwise distance.",
     ["inputs", "configurations"], "all camera placements, media, camera subsets and points", "One or two configurations each.",
     [S + "ray_tracing.c", S + "imgcoord.c", S + "multimed.c", S + "orientation.c"],
     [("img_coord, ray_tracing, point_position, skew_midpoint", S + "orientation.c")], ["ray start/direction", "3D position and measure"],
     tech="TLA+ Geometry: incidence/midpoint relations over quantised recorded values, trace validation; exact integer model for axis-parallel rays",
     note="Relations at micrometre resolution; the integer skew-ray model is exact.")

prop("C21", "Multimedia lookup tables never change results beyond interpolation error",
     "Using the precomputed refraction table gives the same projections as the direct computation within interpolation error for every point, inside or outside the tabulated region, also after the table is rebuilt for changed parameters, and building it neither changes the calibration nor depends on earlier tables.",
     ["inputs", "histories"], "all points, calibrations and rebuild histories", "One table, one point.",
     [S + "multimed.c"], [("init_mmlut, get_mmf_from_mmlut, multimed_r_nlay", S + "multimed.c")], ["projected coordinates with and without a table"],
     tech="TLA+ LutLife: table lifecycle state machine, behaviours replayed, results compared through quantised traces",
     note="All lifecycle histories to a bounded depth.")

prop("C22", "Least-squares building blocks compute the stated matrix algebra",
     "Normal-equation products, matrix-vector products and matrix products equal their algebraic definitions for every shape and padding, the inverse times the matrix is the identity for every positive definite (normal-equation) matrix, and vector operations equal their definitions, with inputs unchanged where not documented as outputs.",
     ["inputs"], "all shapes, paddings and integer contents", "One or two fixed matrices per routine.",
     [S + "lsqadj.c", S + "vec_utils.c"], [("ata, atl, matinv, matmul, norm_cross, vec_*", S + "lsqadj.c")], ["output matrices"],
     tech="TLA+ LinAlg: integer matrix reference, random and enumerated matrices replayed and validated",
     note="Integer matrices so results are exact; inverse judged at 1e-4.")

prop("C23", "Objects and array calls of the Python bindings",
     "A field of a parameter, calibration or target object shows exactly what was last stored in it, by constructor, setter, file or writable view, whatever was done to other objects; views (copy=False), a ControlParams and its multimedia parameters, "
     "and a Target and the array it was taken from share one memory that stays valid while any of them lives, while copies share nothing. Calls that cannot be meant (wrong number of values or columns, cameras that do not exist, names that do not fit, "
     "unreadable files) raise and change nothing. Array calls (image_coordinates, flat_image_coordinates, the pixel, distortion and correction transforms, point_positions, dumbbell_target_func, epipolar_curve, MatchedCoords) return for every row what the library computes for it, for every memory layout "
     "of their arguments, leave arguments alone and fill the output array they are given; a Frame shows the particles and targets of its files.",
     ["inputs", "configurations", "histories"], "all argument values, sizes, memory layouts and histories of operations", "Single calls on contiguous arrays; one object at a time.",
     ["py_bind/optv/*.pyx"], [("Cython wrappers", "py_bind/optv")], ["Python return values and objects"],
     tech="TLA+ Objects/Bindings (heap of cells, handles and aliases) checked by TLC; TLC-enumerated histories replayed on the real bindings under AddressSanitizer and validated by TraceBindings; array calls against the C library, judged by TraceCalls",
     note="All histories of 2 operations and a sample of those of 4, per class (8 classes); random array calls of every layout. Known finding: dumbbell-layout.")

prop("C24", "Tracking, matching and segmentation are deterministic functions of their inputs",
     "Running the same tracking, correspondence, detection, calibration-point matching, camera fitting, projection or transform job again gives identical results, whatever memory held before, in a fresh "
     "process or after any other jobs, also ones that share most of their inputs, and in C as in Python. The order of the cameras carries no meaning: where a scene leaves no doubt about which targets belong "
     "together (or, for tracking, where no two particles come near one another in any image), listing the cameras in another order only permutes the results.",
     ["inputs", "histories"], "all jobs, memory contents, job orders and camera orders", "Every test runs once, in a fresh process, with one camera order.",
     [S + "track.c", S + "correspondences.c", S + "segmentation.c", S + "sortgrid.c", S + "tracking_run.c"],
     [("initialisation of run state and work tables", S + "tracking_run.c"), ("usage tables and candidate lists", S + "correspondences.c"),
      ("candidate ranking over cameras", S + "track.c")], ["result files and tables"],
     tech="TLA+ Determinism (two executions side by side) and CamOrder, checked by TLC; trace specification TraceTwin over the answers of the real code run several ways",
     note="Each job run under four heap/stack contents, orders and processes; camera permutations of unambiguous scenes. Sampled jobs, not a proof.")

prop("C25", "The observed volume is exactly what the cameras see between the depth limits",
     "Setting up a tracking run finds the limits of the observed volume: in depth from the lowest of the lower limits to the highest of the upper ones, and in x and y the smallest "
     "range that holds both the limits given beforehand and every point where the ray through an image corner of any camera, refracted on its way, meets one of those two depths. "
     "The order of the cameras and repeating the computation change nothing, and nothing but the limits themselves is written.",
     ["inputs", "configurations"], "all cameras, media, image sizes, depth limits and limits given beforehand",
     "One scene of upright cameras, compared with numbers from an earlier run.",
     [S + "multimed.c", S + "tracking_run.c"], [("volumedimension", S + "multimed.c"), ("tr_new", S + "tracking_run.c")], ["volume limits"],
     tech="TLA+ Volume: box growth by camera checked by TLC for every order; trace specification TraceVolume over random cameras and media",
     note="Random camera sets of 1-4, half of them behind a window; undistorted ones to a ten-thousandth of a millimetre.")

prop("C26", "Peak fitting finds every local maximum and joins only what no valley separates",
     "For any image, window and limits, peak fitting grows one spot from every local maximum above the threshold, through bright neighbours that do not rise by more than the discontinuity limit, "
     "no pixel in two spots. A spot that touches no other gives exactly one target, with its pixel count, extent, grey sum and grey-weighted centre, if it passes the limits and is not cut off by the "
     "edge of a window wider than 32 pixels. Two spots that touch only each other give one target made of both if their centres are less than two pixels apart or no pixel on the line between them lies "
     "by more than the discontinuity limit below the brighter peak, and two targets otherwise. In larger groups every target is the union of some spots and no spot is used twice. "
     "Neither the number nor the size of the spots is limited, and nothing outside the image is read.",
     ["inputs", "configurations"], "all images, windows, thresholds and limits",
     "Two 5x5 images.",
     [S + "segmentation.c"], [("peak_fit, check_touch", S + "segmentation.c")], ["target list"],
     tech="TLA+ Peaks: growth and joining as a state machine checked by TLC, all small images replayed; trace specification TracePeaks recomputes spots, valleys and facts of random images",
     note="All 7x3 and 5x5 images over few greys, random ones to 16x16 and 44x10, one with 4761 spots. Groups of more than four touching spots are judged by pixel totals only.")

prop("C27", "Nothing taken is left behind",
     "Whatever memory a call of the library or of its Python bindings takes and whatever file it opens is given back: a call that fails (missing, cut or garbled files, wrong sizes, wrong types, missing arguments) keeps "
     "no memory of its own, what an object or a returned result holds is freed once by its destructor or by replacing it, and no call, successful or not, leaves a file open. Failing constructors and reads are reported and never crash.",
     ["inputs", "histories", "faults"], "all histories of making, using, re-reading and dropping objects, with good and bad arguments and files, in C and Python",
     "Tests exercise successful calls and never look at what remains afterwards.",
     ["liboptv/src", "py_bind/optv"],
     [("free_*, fb_free, tr_free, read_*, write_*", S + "parameters.c"), ("__dealloc__ of all classes", "py_bind/optv/parameters.pyx"), ("Tracker, Frame.read", "py_bind/optv/tracker.pyx")],
     ["memory and open files of the process"],
     tech="TLA+ Ledger: ownership of blocks and files over calls that succeed or fail, checked by TLC with three broken disciplines refuted; its histories are replayed into C and the bindings with malloc/free/fopen/fclose wrapped at link time, trace specification TraceLedger judges the events",
     note="Allocation failure itself is not injected; what numpy or the interpreter allocate is outside the ledger.")

prop("C28", "A tracking run is set up from its four files exactly as they say, or not at all",
     "Setting up a tracking run from its control, tracking, volume and sequence files succeeds exactly when all four are there and complete, for any number of cameras. The run then holds precisely the values of the "
     "files, the diagonal of the velocity range as its longest step, the volume the given cameras see starting from the file's limits, zero counters, and a window of four frames for as many cameras as the "
     "control file says with room for 20000 targets each, which stores frames under the standard result names and the image names of the sequence file. If any file is missing or ends early there is no run, "
     "and neither memory nor an open file remains; the files and the calibrations are never changed, and freeing the run gives everything back.",
     ["inputs", "configurations", "faults"], "all contents of the four files, camera numbers, and files missing or cut between any two values",
     "Tests set up runs from one directory of good files.",
     [S + "tracking_run.c", S + "parameters.c"], [("tr_new_legacy, tr_new, tr_free", S + "tracking_run.c"), ("read_*_par", S + "parameters.c")],
     ["fields of the run", "files written by its frame window", "memory and open files after a failed start"],
     tech="TLA+ Setup: files read in any admissible order, given back on failure, checked by TLC with termination; every combination of good, missing and cut files and every place to cut replayed, trace specification TraceSetup judges the runs",
     note="1-4 cameras, all 81 combinations and all single cuts for each, random contents. Values inside which a file is cut are left to C14.")


prop("C29", "The whole chain recovers particles that are far apart, with their paths",
     "Take pictures of particles that stay well apart from one another and move smoothly within the tracking limits, each seen by two cameras of two, or at least three of three or four. Detecting the targets, flattening "
     "them, finding correspondences, locating the points, storing the frames and tracking them forward and backward then gives, for any number of cameras, with or without water and lens distortion, and whatever the order in "
     "which targets and points come to be numbered: one target at each picture of a particle, one point at each particle, made of exactly its targets, which name it in turn; and links that join every point to the same "
     "particle in the frames before and after, and nothing else. Tracking alters nothing but links, and tracking backward adds none; where a point of a moving particle was lost though its targets are there, and adding is asked for, it is put back after the others and its path is whole.",
     ["inputs", "configurations", "histories"], "all scenes of sparse, smoothly moving particles, camera arrangements and sightings lost to one camera",
     "Tests check single stages, on stored intermediate results; no test starts from pictures and none follows identities through the numberings.",
     [S + "segmentation.c", S + "correspondences.c", S + "epi.c", S + "orientation.c", S + "track.c", S + "tracking_frame_buf.c", S + "trafo.c", S + "multimed.c", S + "ray_tracing.c"],
     [("targ_rec", S + "segmentation.c"), ("correspondences", S + "correspondences.c"), ("point_position", S + "orientation.c"), ("trackcorr_c_loop, trackback_c", S + "track.c"), ("read_frame, write_frame", S + "tracking_frame_buf.c")],
     ["stored frames after detection, forward and backward tracking"],
     tech="TLA+ Chain/ChainRun: every stage with every numbering, TLC checks that identities and paths can be read back from the references; pictures of random scenes go through the real chain, trace specification TraceChain applies Chain's rules to the stored frames",
     note="1-7 particles, 2-4 cameras, 1 or 3-7 frames. Scenes are drawn so that no group of targets of different particles fits the epipolar band; dense scenes are left to C05-C09.")


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS:
            st = p["statement"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": st,
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(f"{V}/checks/{p['id']}.py"):
            checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
                           "thorough_cmd": f"python3 run.py {p['id']} --thorough",
                           "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check under construction in this session; see DESIGN.md"})
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo are needed: every check observes the library through its public interface. "
                        "Fix commits in /repo are listed in known_findings.txt."},
              open(f"{V}/MANIFEST.json", "w"), indent=1)


main()
