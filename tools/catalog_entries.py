BFS = "explicit-state model checking on the real code (breadth-first search over operation histories, reference model as oracle)"
ENUM = "bounded exhaustive exploration of the real code against an independent oracle"
SCHED = "stateless model checking of the real code under a controlled scheduler (delay-bounded)"
CRASH = "exhaustive fault enumeration on the real code (LD_PRELOAD shim at every file system operation)"

prop("C01", "The scene graph stays consistent after any history of edits",
     "After any sequence of documented edits of a reconstruction (cameras, rig cameras and instances, shots, pano shots, "
     "points, observations, poses, metadata, reference, removals, invalid requests included), everything that can be read "
     "from it agrees with the history of edits, and all ways of reading it agree with each other: a shot and a point list the "
     "same observations, a shot belongs to exactly one rig instance and camera, and its pose is that of its rig. "
     "Removed objects are gone everywhere, and an invalid request fails and changes nothing.",
     ["histories"], "all edit histories up to a depth from several starting scenes",
     "Existing tests run a handful of fixed edit sequences; the guarantee is over all histories, where add/remove/re-add "
     "orders leave dangling or one-sided links.",
     ["opensfm/src/map/src/map.cc", "opensfm/src/map/shot.h", "opensfm/src/map/src/shot.cc", "opensfm/src/map/src/rig.cc",
      "opensfm/src/map/landmark.h", "opensfm/types.py", "opensfm/src/map/pybind_utils.h"],
     [("owner maps and observation cross links", "opensfm/src/map/src/map.cc"),
      ("shot views and reconstruction wrapper", "opensfm/types.py")],
     BFS, "model_checking",
     "BFS over all histories of an edit alphabet from several start scenes to a depth; each transition replayed on a fresh "
     "real Reconstruction and everything readable compared with a reference model")

prop("C02", "Copies of a scene are complete and independent",
     "Deep-copying a reconstruction gives one with exactly the same content (cameras, biases, rigs, shots, pano shots, points "
     "with colors and errors, observations, metadata, reference), and adding a shot, pano shot, point or camera of another "
     "reconstruction copies all of its content. Afterwards no edit of one side is visible on the other.",
     ["inputs", "histories"], "all scenes of a family x all later edits of either side",
     "The existing copy test checks a few fields of one scene; omissions show only for particular ingredients (rigs, panos, "
     "errors, unused objects) and sharing only under particular later edits.",
     ["opensfm/src/map/src/map.cc", "opensfm/types.py", "opensfm/src/map/src/shot.cc"],
     [("Map::DeepCopy and Create/Assign functions", "opensfm/src/map/src/map.cc"), ("add_shot/add_point/__deepcopy__", "opensfm/types.py")],
     BFS, "model_checking",
     "all subsets of scene ingredients, copied and compared with the reference observer, then every edit of an alphabet on one side")

prop("C03", "Tracks table queries, sub-tables and merges are exact",
     "A tracks table answers every query (shots, tracks, observations of a shot or a track, common observations of pairs, "
     "tracks seen by several shots, pair connectivity) exactly like the set of (shot, track, observation) triples put into it. "
     "A sub-table for given shots and tracks holds exactly the matching triples, and merging tables joins precisely the tracks "
     "connected through shared features, without losing an observation.",
     ["histories", "inputs"], "all add/remove histories and all tables, selections and pairs of tables within the bounds",
     "The existing tests use one small table; a lost or duplicated link shows only for particular overlaps.",
     ["opensfm/src/map/src/tracks_manager.cc", "opensfm/src/map/tracks_manager.h", "opensfm/tracking.py"],
     [("two mirrored maps", "opensfm/src/map/src/tracks_manager.cc"), ("common tracks helpers", "opensfm/tracking.py")],
     BFS, "model_checking",
     "BFS over add/remove histories, all 512 tables over 3x3 cells with all selections, all pairs of tables over 2x2x3 for merging")

prop("C04", "Tracks are the consistent connected components of the matches",
     "The tracks created from pairwise feature matches are exactly the connected components of the match graph that contain at "
     "most one feature of each image and at least the configured number of images; every feature appears in its track once, "
     "with its own position, scale, color, segmentation, instance and depth. The order in which matches are given does not "
     "change which features are grouped together, and images without features contribute nothing.",
     ["inputs"], "all sets of matches over few images and features, all orders of the small ones, all subsets of available data",
     "The existing tests use one example; conflicts, minimal lengths and missing data interact only in particular graphs.",
     ["opensfm/tracking.py", "opensfm/unionfind.py"],
     [("create_tracks_manager", "opensfm/tracking.py"), ("UnionFind", "opensfm/unionfind.py")],
     ENUM, "exploration", "all match sets within 4 images x 2-3 features up to a size, against a plain graph search")

prop("C05", "Tracks survive being written and read",
     "Writing a tracks table as text (to a string or a file) and reading it back gives the same shots, tracks and observations, "
     "with coordinates kept to six significant digits; files of all earlier format versions are read with their documented "
     "fields. Malformed files are refused.",
     ["inputs"], "all small tables over boundary values and ids; all versions; malformed variants",
     "The existing test writes one ordinary table; versions, extreme values and unusual names are not sampled.",
     ["opensfm/src/map/src/tracks_manager.cc"], [("versioned text reader/writer", "opensfm/src/map/src/tracks_manager.cc")],
     ENUM, "exploration", "all 2x2 tables with boundary field values; format versions; malformed files")

prop("C08", "An interrupted run can be continued",
     "If metadata extraction, feature extraction, matching, track creation, undistortion or depth map computation stops at any "
     "point (the process dies, or the disk is full), then running the stages again on the same dataset succeeds and leaves the "
     "same artefacts as an uninterrupted run. A partially written file is never taken for a finished one.",
     ["crash_points", "fault_sequences"], "every file system operation of the stages, every torn write, and (thorough) every second crash",
     "No test interrupts a stage; skip markers are the mere existence of output files.",
     ["opensfm/io.py", "opensfm/dataset.py", "opensfm/actions/extract_metadata.py", "opensfm/features_processing.py", "opensfm/dense.py"],
     [("open_wb/open_wt", "opensfm/io.py"), ("*_exists skip markers", "opensfm/dataset.py")],
     CRASH, "fault_enumeration",
     "all fault points of three small dataset runs; crash before each operation, in the middle of each write, disk full from each operation")

prop("C09", "Feature extraction processes every image once and terminates",
     "Whatever the number of images, detector and reader workers, memory limits and timing, feature extraction detects and saves "
     "the features of every image that needs them exactly once, and returns. A failure to read or process an image surfaces as "
     "an error instead of a hang or a silent omission.",
     ["schedules", "configurations", "fault_sequences"], "all schedules within a delay bound of each small configuration",
     "Tests do not run the threaded extraction; deadlocks need particular interleavings of readers, detectors and a full queue.",
     ["opensfm/features_processing.py"], [("producer/consumer over a bounded queue with an end marker", "opensfm/features_processing.py")],
     SCHED, "model_checking", "all schedules with at most 2 (3) departures from run-until-blocked per configuration")

prop("C10", "Parallel maps return every result in order",
     "Mapping a function over arguments in parallel calls it once per argument and returns the results in argument order, "
     "whatever the number of workers, batching and order in which calls finish. It never exceeds the requested concurrency, "
     "raises what a call raises, and leaves OpenCV's thread setting as it found it, also after a failure.",
     ["schedules", "inputs"], "all completion orders for few arguments and workers, every failing argument",
     "No test covers it; ordering and clean-up matter only for particular completion orders and failures.",
     ["opensfm/context.py"], [("parallel_map", "opensfm/context.py")],
     SCHED, "model_checking", "all completion orders for up to 5 arguments and 4 workers, every failing argument, several batch sizes")

prop("C11", "Pair selection picks exactly the pairs its criteria call for",
     "The image pairs selected for matching are exactly those the enabled criteria call for: the nearest images in GPS or known "
     "position, in capture time, in file order, by graph triangulation, or by visual similarity, joined over the criteria, with "
     "maximum distances respected; with no criterion enabled, all pairs. Each unordered pair of different images appears once, "
     "and the order in which images are listed does not change the selection.",
     ["inputs", "configurations"], "all layouts of few images over grids of positions, times and missing metadata x all criteria settings",
     "Tests sample one layout per criterion; ties, missing metadata, reference subsets and joint criteria are not covered.",
     ["opensfm/pairs_selection.py"], [("match_candidates_from_metadata and match_candidates_by_*", "opensfm/pairs_selection.py")],
     ENUM, "exploration", "all small layouts x criteria against direct distance computations")

prop("C12", "Matches are the mutually consistent, geometrically valid ones",
     "Matching two images returns exactly the feature pairs that pass the ratio test (in both directions when symmetric) among "
     "unmasked features and, with known poses, among epipolar neighbours, always as indices into the full feature lists; the "
     "filters for static features, poles and watermarks remove exactly the described matches. Robust matching keeps only given "
     "matches, keeps the correct ones and drops wrong ones, and returns nothing below the configured minimum. Stored matches are "
     "found again for the pair in either order.",
     ["inputs"], "all descriptor layouts, masks and word assignments within bounds; camera models x motions x wrong-match patterns",
     "Tests run one scene; masks, index translation, ties and minimum counts interact only for particular inputs.",
     ["opensfm/matching.py", "opensfm/src/features/src/matching.cc", "opensfm/feature_loading.py", "opensfm/dataset.py"],
     [("match, match_robust, match_brute_force, match_words", "opensfm/matching.py"), ("word matching", "opensfm/src/features/src/matching.cc")],
     ENUM, "exploration", "all small descriptor layouts and masks against a direct ratio test; two-view scenes with wrong-match patterns")

prop("C13", "Camera models project by their formula and bearings invert projection",
     "Each of the ten camera models projects a point by its documented projection, distortion and affine formula, independently "
     "of the point's depth, and the bearing of a projected point is the unit direction of the point wherever the distortion is "
     "monotone. Many-point calls equal one-by-one calls; setting, copying, pickling and mapping parameters keeps every "
     "parameter.",
     ["inputs", "configurations"], "all camera models x grids of parameters and directions",
     "Tests check round trips at a handful of pixels of one parameter set per model.",
     ["opensfm/src/geometry/camera_projections_functions.h", "opensfm/src/geometry/camera_distortions_functions.h",
      "opensfm/src/geometry/src/camera.cc", "opensfm/src/geometry/python/pybind.cc"],
     [("projection, distortion and affine functions", "opensfm/src/geometry/camera_distortions_functions.h")],
     ENUM, "exploration", "ten models x parameter grids x direction grids against the formulas")

prop("C06", "A reconstruction survives being saved and loaded",
     "Saving reconstructions as JSON (plain or minified) and loading them back gives the same cameras with all their parameters, "
     "biases, rig cameras and instances, shots and panorama shots with their poses, rig membership, documented metadata, scale, "
     "covariance, mesh and connected component, points with colors, and reference. Saving cameras as JSON or as a vector keeps "
     "every parameter. Files of earlier versions, which lack some of these, load with their defaults.",
     ["inputs"], "all combinations of scene parts, metadata fields, camera models, unusual ids and numbers",
     "Tests save one or two ordinary scenes; combinations of rigs, panoramas, equal ids, absent fields and extreme numbers are not sampled.",
     ["opensfm/io.py", "opensfm/dataset.py"], [("reconstruction_to_json / reconstruction_from_json", "opensfm/io.py"), ("save_reconstruction / load_reconstruction", "opensfm/dataset.py")],
     ENUM, "exploration", "2^9 scene compositions, metadata combinations, ten camera models, ids and numbers at their limits")

prop("C14", "Pixels, normalized coordinates and masks agree",
     "Pixel centers and fractions convert to normalized coordinates and back, by the feature functions and by the cameras, and to "
     "the upright image for every EXIF orientation. A feature is masked, or given a segmentation label, exactly by the mask or "
     "segmentation pixel it lies in, whatever the resolution of the mask; masks and ignored labels combine as a conjunction.",
     ["inputs", "configurations"], "all pixels of all small image sizes x orientations x mask sizes",
     "Tests convert a few points of one size; orientation, odd sizes and mask resolutions interact.",
     ["opensfm/upright.py", "opensfm/masking.py", "opensfm/features.py", "opensfm/features_processing.py", "opensfm/src/geometry/src/camera.cc"],
     [("opensfm_to_upright", "opensfm/upright.py"), ("load_features_mask, combine_masks", "opensfm/masking.py")],
     ENUM, "exploration", "all image sizes up to 5x5 (9x9) plus large ones, four orientations, masks up to twice the size")

prop("C15", "Poses, similarities and rigs are consistent rigid motions",
     "After any sequence of setters, every getter of a pose (both directions, matrices, angle-axis, origin, transforms) describes "
     "the same rigid motion; composition, relative pose, inverse, copies and pickles are those of matrices; similarities transform "
     "and invert accordingly. The pose of a shot in a rig is always its rig camera's pose after its instance's, however they are "
     "set, and can be set directly only where that is unambiguous.",
     ["call_sequences"], "all sequences of setters up to a depth, all pairs of poses of a grid, all sequences of rig updates",
     "Tests set poses in one order; caches of the inverse and of the minimal rotation go stale only after particular sequences.",
     ["opensfm/src/geometry/pose.h", "opensfm/src/geometry/similarity.h", "opensfm/src/map/src/rig.cc", "opensfm/src/map/src/shot.cc"],
     [("Pose setters and getters", "opensfm/src/geometry/pose.h"), ("GetPoseInRig, UpdateInstancePoseWithShot", "opensfm/src/map/src/shot.cc")],
     BFS, "model_checking", "all setter sequences of length 3 (4), rig sequences of length 2 (3), similarity sequences of length 3 (4)")

prop("C16", "Geographic conversions are exact and mutually inverse",
     "Conversions between latitude/longitude/altitude, earth-centered and topocentric coordinates (east, north, up) follow WGS84 "
     "and invert each other to a millimeter everywhere, including the poles, the equator and the antimeridian. The Python and C++ "
     "versions agree, arrays convert as their elements, and distances are those of the earth-centered points.",
     ["inputs"], "grids of positions x references including all singular places",
     "Tests convert a few mid-latitude points; accuracy is lost only near the poles.",
     ["opensfm/geo.py", "opensfm/src/geo/src/geo.cc"], [("ecef/lla/topocentric conversions", "opensfm/geo.py")],
     ENUM, "exploration", "15 latitudes x 12 longitudes x 7 altitudes x 7 references against written-out WGS84 formulas")

prop("C17", "Camera angles and rotations convert into each other",
     "Rotation matrices from pan/tilt/roll, from its second version and from omega/phi/kappa have the documented axes, and the "
     "angles recovered from a matrix are those it was made from, over the full circle of every angle, up to next to the singular "
     "middle angle.",
     ["inputs"], "full-circle grids of angle triples for the three parametrisations",
     "Tests use a handful of moderate angles; upside-down cameras and quarter turns are not sampled.",
     ["opensfm/geometry.py"], [("ptr, ptr_v2 and opk conversions", "opensfm/geometry.py")],
     ENUM, "exploration", "18x18x18 (38^3) angle triples per parametrisation against written-out matrices")

prop("C07", "A dataset gives back what was last saved in it, and only that",
     "Whatever is saved in a dataset, or its undistorted dataset, is loaded back equal, for each image and file name separately: "
     "EXIF, features (all file versions), words, matches (also asked from the other image), tracks, reconstructions, reference, "
     "cameras, rigs, overrides, reports, GCPs, images, masks, segmentations, depthmaps, point clouds; nothing else appears, saving "
     "changes nothing the caller holds, and matches, features and words files cannot run code. Images and masks come from the list "
     "files or folders, a subset holds exactly the given images with their inputs, and the invented reference is the "
     "accuracy-weighted mean of the GPS, else the mean of the GCPs.",
     ["histories", "inputs"], "all pairs of saves from the empty dataset, all single saves from the full one, all list files, subsets, GPS combinations and pickled globals of a family",
     "Tests save and load one artefact at a time; mixed-up paths, stale files and shared names show only in combination.",
     ["opensfm/dataset.py", "opensfm/features.py", "opensfm/io.py"],
     [("save_*/load_*/*_exists", "opensfm/dataset.py"), ("FeaturesData.save/from_file", "opensfm/features.py"), ("imread/imwrite, ply", "opensfm/io.py")],
     BFS, "model_checking", "65 artefact slots x 3 values: all first saves, all saves on the full dataset, all same-kind (thorough: all) pairs; everything loaded after each")

prop("C39", "Ground control point files mean what they say",
     "Reading gcp_list.txt gives one point per distinct position (altitude included; NaN is an unknown altitude), holding the "
     "observations of all its lines in known images in file order, converted from the declared projection (WGS84, WGS84 UTM zone, "
     "proj4, EPSG) to latitude and longitude and from pixels to normalized coordinates; comments and blank lines do not count. JSON "
     "files are written in the documented format and read back equal (id, position, optional altitude, observations). The points of "
     "a dataset are those of both files.",
     ["inputs"], "all files of up to 3 (4) observations over an alphabet, all UTM zones, all layouts, all small JSON files",
     "Tests read one three-line file and one JSON file.",
     ["opensfm/io.py", "opensfm/dataset.py"], [("read_gcp_list, _parse_projection, read/write_ground_control_points", "opensfm/io.py")],
     ENUM, "exploration", "all files of up to 3 (4) lines over 15 observations, 60 zones x hemispheres, layouts, JSON lists of up to 2 (3) points")

prop("C18", "Triangulated points are right, and accepted exactly when they should be",
     "A point triangulated from rays (midpoint, DLT) is the least-squares point, and is accepted exactly when some pair of rays has "
     "a sufficient angle and every ray sees it within its threshold and at the minimum depth; refinement never worsens it, and "
     "epipolar angles and two-view midpoints are exact. Triangulating a track (full, robust, DLT) from right observations gives its "
     "exact point with all of them; robust triangulation leaves out the wrong ones, whatever their order. The reconstruction then "
     "holds the point with exactly the kept observations.",
     ["inputs", "orders"], "all selections and orders of cameras of a grid x points x thresholds at, below and above each limit x wrong observations",
     "Tests triangulate two or three rays of one layout; limits, order of the observations and the place of the wrong one are not sampled.",
     ["opensfm/src/geometry/triangulation.h", "opensfm/src/geometry/src/triangulation.cc", "opensfm/reconstruction.py"],
     [("TriangulateBearingsMidpoint/DLT, PointRefinement, EpipolarAngle*", "opensfm/src/geometry/src/triangulation.cc"), ("TrackTriangulator", "opensfm/reconstruction.py")],
     ENUM, "exploration", "up to 4 of 7 cameras in all orders x points x thresholds; one wrong observation in every place and order")

prop("C24", "Rigs are found from file names and calibrated exactly",
     "Given patterns, images are grouped into rig instances (images equal but for the pattern, each under the camera of the first "
     "pattern that matches) and single images, each image in one. From reconstructed instances the relative poses of the rig cameras "
     "are exact for an exact rig, wherever and however it stands in the world and in any order; incomplete instances are ignored "
     "and a camera of several groups takes the pose of the one with most instances. Rig creation saves cameras and assignments of "
     "the first calibration round that is complete enough, else nothing.",
     ["inputs", "histories"], "all selections of names x pattern orders; layouts x world poses x missing shots; all outcome sequences of the rounds",
     "There is one test of rigs, with one layout and instances that are not rotated.",
     ["opensfm/rig.py", "opensfm/actions/create_rig.py"],
     [("find_image_rig, create_instances_with_patterns", "opensfm/rig.py"), ("compute_relative_pose, create_rig_cameras_from_reconstruction, create_rigs_with_pattern", "opensfm/rig.py")],
     ENUM, "exploration", "10 names in all selections of 3 (4) x all orders of up to 3 of 5 patterns; 8 layouts x 6 world poses; all sequences of 3 (4) round outcomes")

prop("C25", "Splitting a dataset loses nothing and submodels align into one frame",
     "create_submodels puts each image with a GPS position in exactly one cluster: the given image groups, else as many non-empty "
     "clusters as images divided by the submodel size. Each submodel is a valid dataset with the images of its cluster and exactly "
     "those within the overlap distance of one, sharing image, EXIF and other existing files of the dataset by working links, "
     "whatever the path; nothing of a former split remains. Aligning submodels that are similarities of one truth brings shots and "
     "points of all of them to it.",
     ["inputs", "histories"], "all partitions of up to 4 (5) images x layouts x overlaps x missing GPS; sites x sizes; all pairs of similarities",
     "There is one test of clustering neighbors; nothing runs the splitting or the alignment of submodels.",
     ["opensfm/large/metadataset.py", "opensfm/large/tools.py", "opensfm/actions/create_submodels.py", "opensfm/actions/align_submodels.py"],
     [("MetaDataSet.create_submodels", "opensfm/large/metadataset.py"), ("add_cluster_neighbors, align_reconstructions, apply_transformations", "opensfm/large/tools.py")],
     ENUM, "exploration", "all partitions of up to 4 (5) images x 4 places x 4 overlaps, 25 pairs of similarities x 4 overlaps of submodels x 3 modes")

prop("C27", "Metadata of an image is what the tags of its file say",
     "Whichever EXIF and XMP tags a file has, lacks, or has with broken values (zero denominators, invalid dates), reading it never "
     "fails and gives: the position with the signs of its references (XMP drone position first), altitude below sea level negative and "
     "at most 10 km, DOP; the capture time in UTC from GPS, else the first valid date with its sub-seconds and time zone offset; "
     "focal ratio from the 35 mm focal, focal plane or sensor database; size, make, model, orientation, GPano projection; and "
     "omega, phi, kappa of the camera that yaw, pitch and roll describe, relative to east, north, up.",
     ["inputs"], "all combinations of present, absent and broken values in each group of tags, both byte orders",
     "No test reads EXIF; the fallbacks depend on combinations of tags.",
     ["opensfm/exif.py", "opensfm/sensors.py"], [("EXIF.extract_*", "opensfm/exif.py"), ("compute_focal, gps_to_decimal, get_xmp", "opensfm/exif.py")],
     ENUM, "exploration", "58 000 (75 000) JPEG files with generated EXIF and XMP blocks")

prop("C28", "Every camera gets its model from overrides, database, metadata or default",
     "After extract_metadata each image has the metadata of its file with the configuration and exif_overrides.json applied, and each "
     "camera ID exactly one model, of the first image with it: the one of camera_models_overrides.json (or its \"all\", also for "
     "other IDs), else the calibration of the database for its make, model or focal, else its metadata, else the default focal. Every "
     "documented projection type works with each, the order of images does not change a camera's calibration, and running again, "
     "also after changing overrides, gives the same as running once.",
     ["inputs", "histories"], "all projection types x makes and models x focals; all small datasets x configurations x overrides x reruns",
     "No test extracts metadata.",
     ["opensfm/actions/extract_metadata.py", "opensfm/exif.py", "opensfm/data/camera_calibration.yaml", "opensfm/io.py"],
     [("calibration_from_metadata, camera_from_exif_metadata", "opensfm/exif.py"), ("run_dataset", "opensfm/actions/extract_metadata.py")],
     ENUM, "exploration", "11 projection types x 16 models x 6 focals; triples of types; 5 images in all datasets of up to 3 x 5 configurations; 21 x 6 overrides x reruns")

prop("C31", "The annotation tool edits exactly what one asks for, and its files keep it",
     "After any sequence of requests to the annotation tool (add, delete and select a point, mark, move and unmark it in an image, "
     "save, load) its points, their observations, the selected point and the points shown in every view are those of the edits, and "
     "ground_control_points.json changes by saving only; loading what was saved, or a documented file, restores every position, "
     "observation and precision. Clicks for a point that is not selected change nothing, and removing an observation leaves the "
     "others. The list offers exactly the points, views have the images of their sequence, and worst control points and shots are "
     "those with the largest error.",
     ["inputs", "histories"], "all request sequences up to a depth from several files; all small files; all tables of errors",
     "No test runs the annotation tool.",
     ["annotation_gui_gcp/lib/gcp_manager.py", "annotation_gui_gcp/lib/GUI.py", "annotation_gui_gcp/lib/views/image_view.py",
      "annotation_gui_gcp/lib/views/tools_view.py", "annotation_gui_gcp/js/ToolsView.js", "annotation_gui_gcp/main.py"],
     [("GroundControlPointManager", "annotation_gui_gcp/lib/gcp_manager.py"), ("ImageView.process_client_message", "annotation_gui_gcp/lib/views/image_view.py")],
     BFS, "model_checking", "all sequences of 4 (5) requests through the Flask application from 3 files against the written model")

prop("C37", "The viewer and the annotation tool serve their dataset and nothing else",
     "Requests for data and images get exactly the bytes of the file of the dataset that the path names (links inside of it are "
     "followed), and 404 if there is none, whatever dots, empty or encoded segments the path has; no file outside of the dataset is "
     "ever sent, and a viewer without dataset answers 404. The list of items is exactly the reconstruction files of the dataset, with "
     "working URLs, for absolute and relative dataset paths. The annotation tool shows images of every kind at the requested "
     "size with their proportions.",
     ["inputs"], "all paths of up to 4 (5) segments over 14 kinds; all small sets of file names; image modes x sizes",
     "No test runs the servers.", ["viewer/server.py", "annotation_gui_gcp/lib/image_manager.py"],
     [("get_data, get_image, get_recs, verified_send", "viewer/server.py"), ("ImageManager.get_image", "annotation_gui_gcp/lib/image_manager.py")],
     ENUM, "exploration", "all request paths of up to 4 (5) segments over 14 kinds of segment on three routes")

prop("C32", "GPS tracks are interpolated, sampled and written to images exactly",
     "For every track (repeated points and times, missing elevations, also across the antimeridian and the equator) and time, the "
     "interpolated position, elevation and bearing are those of the segment the time is in, and times outside of the track are refused. "
     "Sampling gives the first point and then exactly the points of the track at each multiple of the interval, or at the sampling "
     "distance from the previous one. Positions, elevations, bearings and time offsets are written to the EXIF tags such that they "
     "decode to the same values, in a copy if asked for. A GPX file is read in the order of its times, in local time (also across changes "
     "to daylight saving time), and the frames of a video are those at the sampled times.",
     ["inputs"], "all tracks of up to 3 (4) points over steps in position, time and elevation, at five places; all sampling steps",
     "Tests cover neither interpolation nor sampling.", ["opensfm/geotag_from_gpx.py", "opensfm/video.py"],
     [("get_lat_lon_time, interpolate_lat_lon, sample_gpx, compute_bearing, to_deg, add_gps_to_exif", "opensfm/geotag_from_gpx.py"),
      ("import_video_with_gpx", "opensfm/video.py")],
     ENUM, "exploration", "197 500 tracks x times or sampling steps, time zones, video frames, 120 positions x 4 elevations x 3 bearings written")

prop("C36", "Features are handed out as saved and masked, whatever was loaded before",
     "Whatever sequence of requests is made for masks, features, points, bearings, words and search indices of images of one or "
     "several datasets, each answer is what was saved for that image: masked ones have exactly the features that the mask image and "
     "the ignored segmentation labels (those baked into the features, if configured) leave, with points, descriptors, colors, labels "
     "and instances in step; unmasked ones have all. Segmentation in descriptors adds the label to each, bearings are those of the "
     "camera asked for, and after clearing the caches new features are seen.",
     ["histories", "configurations"], "all sequences of 2 (3) requests x configurations of masks, segmentations, baked labels and ignored labels",
     "No test loads features through the caches.", ["opensfm/feature_loading.py", "opensfm/features.py", "opensfm/masking.py"],
     [("FeatureLoader", "opensfm/feature_loading.py"), ("FeaturesData.mask, SemanticData.mask", "opensfm/features.py")],
     ENUM, "exploration", "all sequences of 2 (3) of 41 requests in 25 (49) configurations, each answer against a direct computation")

prop("C33", "Statistics and quality report say what the reconstruction contains",
     "The statistics of a dataset (counts of images, points, tracks and components, track lengths and their averages, reprojection errors "
     "up to 4 pixels and their histograms, detected and reconstructed features, GPS and control point errors, initial and optimized "
     "cameras and rig cameras, covered area, step times) equal their definitions on the reconstructions, tracks and reports, for any number of "
     "reconstructions with equal or different cameras. The statistics and report commands succeed for datasets lacking any part, write one "
     "heatmap and residual grid per camera, which show its observations, and the report shows these numbers and images. Decimation keeps the given number of points.",
     ["inputs"], "all assignments of errors, lengths, positions, report files, features, cameras and control points within the bounds; datasets with each part missing",
     "No test computes statistics.", ["opensfm/stats.py", "opensfm/report.py", "opensfm/actions/compute_statistics.py", "opensfm/src/map/src/map.cc"],
     [("compute_all_statistics and the plots", "opensfm/stats.py"), ("Report", "opensfm/report.py"), ("Map::ComputeReprojectionErrors", "opensfm/src/map/src/map.cc")],
     ENUM, "exploration", "8 700 (19 000) assignments of errors, lengths, positions, times, features, cameras, rigs, GPS and control points; 23 datasets through both commands")

prop("C21", "Alignment moves the whole reconstruction to its GPS, control points and prior",
     "Alignment moves points, shots and rigs by one similarity, with every point seen as before. If positions from GPS or triangulated control points (those "
     "enabled by the configuration) are not on a line and fit a similarity, every camera gets to its true position and orientation; if they are on a line, "
     "the orientation prior (no_roll, horizontal, vertical, with EXIF orientations) gives the vertical and the positions the rest. Rigs of several shots keep their size, "
     "single or equal positions only shift, and without positions the prior alone turns. GPS bias compensation places the reconstruction on its "
     "control points and each camera's bias takes its GPS there. Metadata become positions, accuracies and initial poses as documented.",
     ["inputs", "configurations"], "all layouts x similarities x sources x methods x priors x EXIF orientations x rigs x biases; all combinations of tags",
     "Tests align one synthetic scene with noise.", ["opensfm/align.py", "opensfm/reconstruction_helpers.py", "opensfm/multiview.py", "opensfm/transformations.py"],
     [("align_reconstruction, set_gps_bias, triangulate_all_gcp", "opensfm/align.py"), ("fit_plane, plane_horizontalling_rotation", "opensfm/multiview.py"),
      ("exif_to_metadata, rotation_from_shot_metadata, reconstruction_from_metadata", "opensfm/reconstruction_helpers.py")],
     ENUM, "exploration", "19 300 configurations: 7 layouts x 8 frames x 4 sources x 3 methods x 3 priors x 8 orientations, 4 biases per camera")

prop("C20", "Bundle adjustment reaches the truth and moves only what it may",
     "For every camera model, rig, loss, derivative mode and source of position (GPS, control points, GPS bias, depth priors, upright prior with any EXIF orientation), "
     "exact observations of a scene bring a nearby start back to it; with contradictory measurements the result is a minimum of the documented cost (reprojections, "
     "GPS and control points with their accuracies and weight, camera and rig priors). Local adjustment moves only shots and points of the interior of the neighbourhood, "
     "which is that of its definition; pose adjustment moves only the given shots. Fixed cameras and rigs stay. Stored reprojection errors and reported "
     "counts are those of the result, and the alignment method follows from the usable positions.",
     ["inputs", "configurations"], "all neighbourhood graphs of 4 shots; all camera models x rigs x sources x losses x derivatives; all windows of a chain of 6 instances",
     "Tests adjust a few synthetic scenes with one camera.", ["opensfm/src/sfm/src/ba_helpers.cc", "opensfm/src/bundle/src/bundle_adjuster.cc", "opensfm/reconstruction.py"],
     [("BAHelpers::Bundle, BundleLocal, BundleShotPoses, ShotNeighborhood", "opensfm/src/sfm/src/ba_helpers.cc"), ("BundleAdjuster::Run", "opensfm/src/bundle/src/bundle_adjuster.cc"),
      ("bundle, bundle_local, shot_neighborhood", "opensfm/reconstruction.py")],
     ENUM, "exploration", "4 374 neighbourhood graphs x 24 requests, 34 000 adjustments (10 camera models x 3 rigs x 8 sources x 5 losses x 2 derivatives), optimality against a written cost")

prop("C42", "A bundle adjuster honours exactly the constraints it is given",
     "Whatever constraints are added to a bundle adjuster (up vectors, pan, tilt, roll, heatmaps, common positions, relative motions and rotations, linear motions, "
     "gauge, positions with deviation groups, points, projections, depths), however shots share identity, fixed or adjusted rig cameras, and in whatever order, running it "
     "ends at a minimum of the sum of their documented robust errors over what was left free; everything fixed comes back unchanged, shared scales stay equal, every camera "
     "parameter with a given deviation is adjusted, the errors reported are those of the result, and asking for covariances changes nothing and says whether all was determined. Unknown names are refused.",
     ["inputs", "configurations"], "all constraint kinds x rig camera sharing patterns; all pairs of kinds; losses, scale sharing, groups, covariances, orders",
     "Tests use single constraints on one camera without rigs.", ["opensfm/src/bundle/src/bundle_adjuster.cc", "opensfm/src/bundle/error/absolute_motion_errors.h", "opensfm/src/bundle/error/relative_motion_errors.h", "opensfm/src/bundle/error/motion_prior_errors.h"],
     [("BundleAdjuster::Run, ComputeCovariances", "opensfm/src/bundle/src/bundle_adjuster.cc"), ("LinearMotionError", "opensfm/src/bundle/error/motion_prior_errors.h")],
     ENUM, "exploration", "4 700 (9 500) problems: 16 constraint kinds x 116 rig camera patterns x fixed instances, all pairs, 10 camera models, each result against a written-out cost")

prop("C23", "Filters, counts and gates between reconstruction steps are exact",
     "Removing outliers takes away exactly the observations whose reprojection error (all its components, of any camera type) exceeds the configured threshold, then the points of these "
     "left with fewer than two observations, and reports their number. Badly conditioned points (no two rays at the angle, or condition above mean plus deviation) and isolated points "
     "go, and no others. Images still to add, track counts, connections, tracks common to two reconstructions and the similarity between those, point colours, "
     "neighbourhoods and the decisions to bundle or triangulate again follow their definitions, whatever came before. Carrying poses over to another map, or triangulating from a prior, keeps all "
     "shots, rigs, links and relative places.",
     ["inputs", "histories"], "all assignments of error sizes to the observations of small scenes; all sightings of 3 tracks by 3 shots; all growth histories; lattices of cameras and points",
     "Tests cover neither the filters nor the gates.", ["opensfm/reconstruction.py", "opensfm/src/sfm/src/map_helpers.cc", "opensfm/src/sfm/src/retriangulation.cc", "opensfm/src/sfm/src/tracks_helpers.cc"],
     [("remove_outliers, reconstructed_points_for_images, resect_reconstruction, ShouldBundle, shot_neighborhood", "opensfm/reconstruction.py"),
      ("FilterBadlyConditionedPoints, RemoveIsolatedPoints", "opensfm/src/sfm/src/map_helpers.cc"), ("RealignMaps", "opensfm/src/sfm/src/retriangulation.cc")],
     ENUM, "exploration", "151 000 configurations: 14 000 error assignments, all 512 sightings x selections, 8 000 growth histories, 2 000 point layouts")

prop("C22", "Reconstructing exact data places every image that can be, once and right",
     "Reconstructing tracks that are exact observations of a scene (but for some wrong ones) places, at its true pose up to the frame, every image that shares enough tracks with what is placed, in "
     "reconstructions ordered by size, and reports all others as not reconstructed; every point is at its place, with its colour and its right observations and none of the wrong ones. It starts from the "
     "pair with most evidence, sequentially as in parallel; a pair without baseline or with too few points gives none; adding an image takes exactly the inliers, "
     "and on failure leaves the reconstruction untouched. Rigs keep their cameras. The triangulation algorithm starts from the poses of the metadata and keeps all shots and rigs.",
     ["inputs", "configurations"], "all families of up to 3 groups of tracks over 4 (5) images; all places of wrong observations; camera models x rigs; all pairs of settings; all image orders",
     "No test runs the whole pipeline over such families; the existing ones use one synthetic scene with noise.", ["opensfm/reconstruction.py", "opensfm/reconstruction_helpers.py", "opensfm/multiview.py", "opensfm/src/sfm/src/*"],
     [("incremental_reconstruction, triangulation_reconstruction, grow_reconstruction, resect, bootstrap_reconstruction, two_view_reconstruction*, compute_image_pairs", "opensfm/reconstruction.py"),
      ("reconstruction_from_metadata", "opensfm/reconstruction_helpers.py"), ("relative_pose_*, absolute_pose_ransac", "opensfm/multiview.py")],
     ENUM, "exploration", "3 000 runs of the whole reconstruction (373 quick families; more than 1 000 thorough), 1 248 resections, 144 two-view starts per kind")

prop("C19", "Motion solvers and robust estimators find the motion the right samples share",
     "From every sufficient subset of exact correspondences the minimal and non-minimal solvers (essential matrix, relative pose, relative rotation, absolute pose with and without known rotation, similarity, plane "
     "homography) return the true motion, and the best of the decompositions. For every place of wrong samples (while enough right ones remain) robust estimation, with any score and option, returns that motion with exactly the right samples; score and inliers "
     "always are those of the returned model, the result is repeatable, and too few samples give none. The Python functions and two-view reconstruction keep their conventions, count matches as defined "
     "and take the method, or motion reversal, with more of them.",
     ["inputs", "configurations"], "all subsets of points x motions x layouts per solver; all places of up to 4 wrong samples among 8 to 12 x 7 models x 3 scores x options",
     "Tests run each model on one random data set; none checks minimal subsets, score consistency or few samples.", ["opensfm/src/robust/*", "opensfm/src/geometry/relative_pose.h", "opensfm/src/geometry/absolute_pose.h", "opensfm/src/geometry/essential.h", "opensfm/multiview.py", "opensfm/reconstruction.py"],
     [("Estimate, RandomSamplesGenerator", "opensfm/src/robust/robust_estimator.h"), ("RansacScoring, MSacScoring, LMedSScoring", "opensfm/src/robust/scorer.h"),
      ("RelativePoseFromEssential, AbsolutePoseThreePoints, RotationBetweenPoints", "opensfm/src/geometry"), ("two_view_reconstruction_*", "opensfm/reconstruction.py")],
     ENUM, "exploration", "243 000 solver and estimator calls (thorough 299 000)")

prop("C26", "Undistorting gives perspective views of the same world, images and tracks",
     "Undistorting gives, for every image of the dataset in the reconstruction whose camera model has a perspective counterpart, one view without distortion at the pose of its shot, and for every panorama "
     "six square views from its center which cover all directions once; names, metadata, points, colours and reference are kept and the views listed by image. Every pixel of a view shows what the source shows along "
     "the same ray (masks and labels the nearest one, black outside), scaled down to the largest size allowed; every observation is where the view sees its track, and in exactly the one view of a "
     "panorama that contains it. The files written are the same in parallel as sequentially.",
     ["inputs", "configurations"], "grids of parameters of all models x image shapes; panoramas at 6 (12) orientations; all sequences of up to three camera kinds x rigs x missing images x tracks x formats",
     "No test undistorts an image or a reconstruction and compares it with the camera formulas.", ["opensfm/undistort.py", "opensfm/actions/undistort.py", "opensfm/dataset.py", "opensfm/src/geometry/src/camera.cc"],
     [("undistort_reconstruction, undistort_image, add_subshot_tracks, render_perspective_view_of_a_panorama", "opensfm/undistort.py"), ("UndistortedDataSet", "opensfm/dataset.py"),
      ("ComputeCameraMapping", "opensfm/src/geometry/src/camera.cc")],
     ENUM, "exploration", "586 000 pixels and observations against the written-out formulas over 5 300 distinct inputs (quick)")

prop("C29", "Exports describe the same cameras, points and measurements in their formats",
     "Every file exported to another program (Bundler, VisualSfM, COLMAP text, binary and database, OpenMVS, PMVS, PLY, point clouds of depth maps, geographic coordinates, GPS and GeoJSON) is well formed, lists exactly the "
     "images asked for with the points and views they have, and, read by the documented conventions of its format, projects every exported point onto the measurement it was reconstructed from. "
     "Positions in geographic coordinates are the ones of the projection asked for, and poses keep their places and directions.",
     ["inputs", "configurations"], "all sequences of up to 2 (3) kinds of cameras x rigs x one or two reconstructions x masks x all lists of images; four map projections and all selections of outputs",
     "The formats are conventions of signs, axes, origins of pixels and indices; no test reads an exported file back or projects a point with it.",
     ["opensfm/actions/export_bundler.py", "opensfm/actions/export_visualsfm.py", "opensfm/actions/export_colmap.py", "opensfm/actions/export_openmvs.py", "opensfm/actions/export_pmvs.py", "opensfm/actions/export_ply.py",
      "opensfm/actions/export_geocoords.py", "opensfm/io.py", "opensfm/src/dense/openmvs_exporter.h", "bin/export_gps", "bin/export_geojson"],
     [("run_dataset", "opensfm/actions/export_colmap.py"), ("export", "opensfm/actions/export_openmvs.py"), ("OpenMVSExporter", "opensfm/src/dense/openmvs_exporter.h"), ("_transform_reconstruction", "opensfm/actions/export_geocoords.py")],
     ENUM, "exploration", "11 000 exports and measurements over 1 500 distinct worlds and lists (quick), 60 000 (thorough), read back by independent readers")
prop("C30", "Dense depth maps follow their formulas, masks, thresholds and files",
     "Neighbours of an image are exactly the images that share enough points seen under useful angles, best first; depth ranges are the percentiles of its points. Every pixel's score is the weighted correlation of its patch with "
     "the view it names under its plane, brute force finds the best plane and view of the range, and patch matching never keeps masked, flat or isolated pixels. Cleaning keeps a depth exactly if enough views agree, pruning "
     "drops exactly the points another view shows better; the merged cloud is all that is kept, in the right place, colour and label, and nothing is computed twice.",
     ["inputs", "configurations"], "all sequences of up to 2 (3) images from twelve classes of neighbours; whole images x planes x patch sizes x views; all assignments of eight depth patterns to up to three views x thresholds; datasets on disk",
     "The tests check a homography and one correlation; nothing runs the estimator, the cleaner, the pruner or the command, nor looks at masks or missing images.",
     ["opensfm/dense.py", "opensfm/src/dense/src/depthmap.cc", "opensfm/src/dense/depthmap_bind.h", "opensfm/actions/compute_depthmaps.py"],
     [("compute_depthmaps", "opensfm/dense.py"), ("find_neighboring_images", "opensfm/dense.py"), ("DepthmapEstimator", "opensfm/src/dense/depthmap.h"), ("DepthmapCleaner", "opensfm/src/dense/depthmap.h"), ("DepthmapPruner", "opensfm/src/dense/depthmap.h")],
     ENUM, "exploration", "940 000 pixels judged over 900 distinct inputs (quick) against the written-out formulas; random choices of patch matching are not enumerated: every pixel of its result is explained")
prop("C38", "Every shot gets a mesh that covers its view with the points it sees",
     "The mesh of a shot has as vertices the reconstructed points it observes (within the image, for perspective cameras) and the fixed border of its kind of camera: the corners at the mean depth of their neighbours, a rim and a "
     "tip for fisheyes, a cube for panoramas. Its faces cover the view exactly once, perspective ones as the Delaunay triangulation of the projections, round ones as the convex hull of the directions. The command gives every "
     "shot of every reconstruction its mesh, saved beside a reconstruction that stays as it is.",
     ["inputs"], "all 512 subsets of nine points x ten camera models x three poses x three image shapes; datasets of one and two reconstructions with all pairs of models",
     "No test calls the mesh code; a wrong corner, a missing face or a vertex of another shot only shows as a garbled picture in the viewer.",
     ["opensfm/mesh.py", "opensfm/actions/mesh.py", "opensfm/io.py", "opensfm/src/map/shot.h"], [("triangle_mesh", "opensfm/mesh.py"), ("run_dataset", "opensfm/actions/mesh.py")],
     ENUM, "exploration", "every subset within the bounds; 5 000 meshes (quick)")
prop("C40", "Imported reconstructions are what the other program described",
     "A COLMAP database with its reconstruction is imported with the same images, cameras, features with scale and orientation, descriptors, matches, poses, points, colours and tracks, whose observations are the features "
     "they refer to in normalized coordinates, and with undistorted images and tracks to match; the fused point cloud becomes depth maps holding each seen point's depth at its pixel. A Bundler reconstruction is imported "
     "likewise. What was exported and imported again is what it was.",
     ["inputs", "configurations"], "all sequences of up to three perspective and fisheye images x rigs x one or two reconstructions x keypoints of 2, 4 or 6 columns x missing descriptors; Bundler lists from two folders",
     "The importers have no test; every part of a foreign file is a convention.",
     ["bin/import_colmap.py", "bin/import_bundler", "opensfm/actions/export_colmap.py", "opensfm/actions/export_bundler.py"],
     [("import_cameras_images, import_features, import_matches, import_images_reconstruction, project_pointcloud_save_depth", "bin/import_colmap.py"), ("import_bundler", "bin/import_bundler")],
     ENUM, "exploration", "19 000 features and observations over 160 distinct datasets (quick)")
prop("C43", "The viewer shows what its files hold at its place, in any order of arrival",
     "Whatever files are loaded and added, or fetched and answered in any order, what the viewer's data provider offers is exactly the shots, points, meshes and clusters of the files that are reconstructions: each shot once, under a unique "
     "name that leads back to it, at its optical center and its GPS position under the reference, with its compass angle, camera, picture address and mesh. A file that fails changes nothing. The lists, keys, counts and page addresses act on what is shown.",
     ["inputs", "histories", "schedules"], "all histories of three (quick) or four operations over eight files; all answers to up to four files fetched at once in all orders and batches; 43 rotations x translations x orientations x cameras x references; all key and list sequences within bounds",
     "The viewer's code has no test; a wrong angle or a file lost to the order of two answers shows up only as a picture at the wrong place.",
     ["viewer/src/provider/OpensfmDataProvider.js", "viewer/src/provider/DataConverter.js", "viewer/src/provider/math.js", "viewer/src/util/params.js", "viewer/src/util/ids.js", "viewer/src/controller/KeyController.js",
      "viewer/src/controller/ListController.js", "viewer/src/control/StatsControl.js"],
     [("OpensfmDataProvider", "viewer/src/provider/OpensfmDataProvider.js"), ("DataConverter", "viewer/src/provider/DataConverter.js"), ("createProviderOptions", "viewer/src/util/params.js")],
     BFS, "model", "the real modules run in node on stand-ins of mapillary-js and gl-matrix; every history compared with a model of what is shown")

prop("C44", "What the viewer's page shows follows its switches, menus, files and place",
     "After any history of keys, changed menus, chosen, picked and dropped files, selected images and changed references, what the page of the viewer shows is what its switches say: settings of the view, components, controls, "
     "panels and their totals, filter of clusters, axes, grid and map; menus and keys stay in step and offer everything. The map consists of exactly the asked number of tiles, the nearest to the reference, each at its place, height and opacity; "
     "what is replaced is given back. The orbit controls start where the view is and keep its place on earth and its direction when the reference changes.",
     ["inputs", "histories"], "all histories of three operations (of every eleventh triple in quick runs) of 64; all of two to five on files, the list of files, the map and the mouse; 46 views under all sequences of three (four) references",
     "The viewer's code has no test; a switch that acts on the second use only, or a map at the wrong height, shows up only on the screen.",
     ["viewer/src/ui/*.js", "viewer/src/controller/*.js", "viewer/src/control/*.js", "viewer/src/renderer/*.js"],
     [("OpensfmViewer", "viewer/src/ui/OpensfmViewer.js"), ("BasemapRenderer", "viewer/src/renderer/BasemapRenderer.js"), ("OrbitCameraControls", "viewer/src/ui/OrbitCameraControls.js")],
     BFS, "model", "the real modules run in node on stand-ins of mapillary-js, three, dat.gui, gl-matrix and the browser; every history compared with a model of the page")

prop("C34", "Image retrieval selects the images most alike",
     "The visual words of a feature are its nearest words in order, for both matchers. The VLAD descriptor and the bag of words histogram of an image are "
     "those of their definitions over its unmasked features, and descriptor distances those between these vectors; features of another kind than the "
     "words give no descriptor. Pair selection by BoW or VLAD proposes for each reference image exactly its nearest candidates (per same and other cameras "
     "if so configured), among those near by GPS if so preselected, each pair once, and never fails because images lack features, descriptors or GPS.",
     ["inputs", "configurations"], "all small layouts of features and words x masks; all splits of four images in references and candidates x neighbours x camera rule x preselection",
     "No test computes a VLAD descriptor or selects by retrieval with masks, two cameras and preselection.",
     ["opensfm/vlad.py", "opensfm/bow.py", "opensfm/pairs_selection.py", "opensfm/src/features/src/matching.cc"],
     [("unnormalized_vlad, VladCache", "opensfm/vlad.py"), ("BagOfWords", "opensfm/bow.py"), ("match_candidates_with_bow / vlad, preempt_candidates", "opensfm/pairs_selection.py"),
      ("compute_vlad_descriptor, compute_vlad_distances", "opensfm/src/features/src/matching.cc")],
     ENUM, "exploration", "38 400 (45 100) descriptors, histograms, distances and selections against brute force")

prop("C35", "Commands, options, configuration and scripts do what they say",
     "Each command runs exactly its action, once, on the given dataset with the options given (in any order and form) and the documented "
     "values of the others, adds its line to the profile log only if it succeeds, cleans up the dataset in any case and passes errors on; "
     "wrong command lines run nothing. Options in config.yaml replace exactly the defaults they name, for each dataset separately. "
     "Of the scripts, opensfm_run_all runs the stages in order and stops at the first that fails, clean moves all computed files and no "
     "other to the trash, and self calibration starts every iteration from the cameras of the one before.",
     ["inputs", "histories", "faults"], "all combinations of options of all commands; all pairs of configuration options; histories of datasets; subsets of files; failing stages",
     "Tests call actions directly; an option that is passed as another, or dropped, shows only for particular combinations.",
     ["opensfm/commands", "opensfm/config.py", "bin"],
     [("Command.run_impl and add_arguments_impl", "opensfm/commands"), ("command_runner", "opensfm/commands/command_runner.py"),
      ("load_config_from_fileobject", "opensfm/config.py"), ("clean, opensfm_run_all, iterative_self_calibration", "bin")],
     ENUM, "exploration", "real command line with recording actions; real DataSet; real scripts on scratch datasets, as an unprivileged user")

prop("C41", "Extending, bundling and triangulating again keep what they are given",
     "extend_reconstruction starts from the first reconstruction of the named file, keeps its images near where they are and adds exactly the images "
     "that have enough known points, whatever cameras and rigs they use and whichever images the input had; bundle and reconstruct_from_prior keep "
     "images, points, cameras, rigs, reference and metadata of all reconstructions; results go to the named output and to no other file, nothing is "
     "written for an empty input. Reports name exactly the images, pairs and tracks of the results they describe.",
     ["inputs", "histories"], "all subsets of 2 to 5 images of seven scenes as prior x names of input and output; pairs of reconstructions; all small match graphs for the reports",
     "Integration tests run the bootstrap path only; missing cameras, images without tracks or the wrong file show only when a prior covers a certain part.",
     ["opensfm/actions/extend_reconstruction.py", "opensfm/actions/bundle.py", "opensfm/actions/reconstruct_from_prior.py", "opensfm/actions/create_tracks.py",
      "opensfm/actions/match_features.py", "opensfm/actions/detect_features.py", "opensfm/reconstruction.py"],
     [("run_dataset", "opensfm/actions/extend_reconstruction.py"), ("grow_reconstruction, resect, reconstruct_from_prior", "opensfm/reconstruction.py"),
      ("write_report", "opensfm/actions/create_tracks.py"), ("write_report", "opensfm/actions/match_features.py")],
     ENUM, "exploration", "real actions on an in-memory dataset that keeps the files as JSON; synthetic scenes with exact observations")

prop("C45", "The annotation tool's analysis merges, aligns, splits and measures exactly",
     "Analysing a pair of reconstructions with annotated control points moves the second one onto the first by the similarity that the control points seen "
     "in both determine, whatever place, rotation and scale it had, and leaves the first alone; joins them with the points of each kept apart, each image seeing the points of its own; "
     "bundles them if asked; and splits them again into the same images and points. The errors reported for annotations are the distances to the "
     "projections of the triangulated points, those for control points the distances to their survey in metres, and counts, medians and orders are those of these errors. "
     "Images outside of the reconstruction with enough annotations are placed where they were taken. "
     "Each CAD model with three or more points in common is aligned, others are left out.",
     ["inputs", "configurations"], "five places of the second reconstruction x camera types x rigs x who sees what x every kind of wrong annotation x rigid or not; all assignments of images to two or three "
     "reconstructions; all numbers of annotations per image and per CAD model; all sets of missing points",
     "No test runs the analysis; three of its paths failed or compared degrees with metres without notice.",
     ["annotation_gui_gcp/run_ba.py", "opensfm/align.py", "opensfm/multiview.py"],
     [("align, merge_reconstructions, resplit_reconstruction", "annotation_gui_gcp/run_ba.py"), ("gcp_geopositional_error, reproject_gcps", "annotation_gui_gcp/run_ba.py"),
      ("resect_annotated_single_images, align_external_3d_models_to_reconstruction", "annotation_gui_gcp/run_ba.py"), ("triangulate_gcp", "opensfm/multiview.py")],
     ENUM, "exploration", "the real program on datasets on disk with exact annotations, results read back from its files")

prop("C46", "CAD views of the annotation tool record and show what one points at, where it is",
     "Pointing at a CAD model gives the selected point exactly one observation in that model, at the place that was hit, and the position on Earth that the "
     "model's scale, offset and coordinate system give it; nothing is recorded without a hit or a selected point, and taking an observation back leaves the others. "
     "Marking in images keeps positions. After any sequence of requests every CAD view shows exactly the points with an observation in its model, "
     "in their colours, with the place the last analysis projects them to; the page shows these and no others, with labels towards the viewer, and "
     "looks where it is told to and nowhere else. The models offered are the nearest to the dataset.",
     ["inputs", "histories"], "all request sequences up to a depth from three files; all sequences of events on the page up to a depth; all georeferences x points; all places of models around a dataset",
     "No test runs CAD views; marking a point in an image erased its surveyed position when a model was open.",
     ["annotation_gui_gcp/lib/views/cad_view.py", "annotation_gui_gcp/lib/GUI.py", "annotation_gui_gcp/js/CADView.js", "annotation_gui_gcp/js/WebView.js",
      "annotation_gui_gcp/lib/gcp_manager.py", "annotation_gui_gcp/main.py"],
     [("CADView", "annotation_gui_gcp/lib/views/cad_view.py"), ("create_ui, refocus_overhead_views", "annotation_gui_gcp/lib/GUI.py"),
      ("update_gcps, onViewportMouseClick", "annotation_gui_gcp/js/CADView.js"), ("find_suitable_cad_paths", "annotation_gui_gcp/main.py")],
     BFS, "model_checking", "all sequences of 3 (4) requests through the Flask application from 3 files against the written model; the real page in node, all sequences of 2 (3) events")
