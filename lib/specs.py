"""Per-property configuration: harness, instrumented flavours, case counts (quick, thorough)."""
import os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = ["-I" + os.path.join(VERIF, "lib", "chaos_tbb"), "-DVF_CHAOS=1"]
ATOM = ["-Wl,--wrap=__tsan_atomic%d_%s" % (b, o) for b in (32, 64) for o in ("load", "store", "fetch_add", "fetch_sub", "exchange")]

FLAVOURS = {
    # production-like optimised build, real libgomp and TBB: volume
    "rel": {"flags": ["-O2", "-g1", "-fopenmp", "-DNDEBUG"], "link": ["-fopenmp"], "libs": ["-ltbb"], "hang_s": 90},
    # memory safety, undefined behaviour, libstdc++ and Eigen assertions; real libgomp and TBB
    "asan": {"flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DVF_ASAN=1"],
             "link": ["-fsanitize=address,undefined", "-fopenmp"], "libs": ["-ltbb"], "hang_s": 150},
    # data races: chaos OpenMP/TBB runtime with exact happens-before announcements, delays around atomics
    "tsan": {"flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-fsanitize=thread", "-DVF_TSAN=1"], "inc": SHIM,
             "link": ["-fsanitize=thread"] + ATOM, "rt": [("chaos.cpp", ["-O1", "-g1"]), ("chaos_atomics.cpp", ["-O1", "-g1"])], "optional": True, "hang_s": 200},
    # reads of uninitialised memory (valgrind memcheck)
    "vg": {"flags": ["-O1", "-g1", "-fopenmp", "-DVF_VG=1"], "link": ["-fopenmp"], "libs": ["-ltbb"], "hang_s": 400,
           "wrap": ["valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=yes", "--num-callers=16", "--fair-sched=yes", "--undef-value-errors=yes"], "optional": True},
    # schedule diversity without sanitizer cost
    "chaos": {"flags": ["-O2", "-g1", "-fopenmp", "-DNDEBUG"], "inc": SHIM, "link": [], "rt": [("chaos.cpp", ["-O1", "-g1"])], "optional": True, "hang_s": 90},
}
PCL_INC = ["-isystem", "/usr/include/pcl-1.14", "-isystem", "/usr/include"]
PCL_INC = ["-isystem", "/usr/include/pcl-1.14"]
PCL_LIBS = ["-lpcl_common", "-lpcl_kdtree", "-lpcl_search", "-lpcl_octree", "-lpcl_registration", "-lpcl_filters", "-lflann_cpp", "-llz4"]

SPECS = {}


def spec(id, **kw):
    SPECS[id] = kw


spec("C01", src="c01.cpp", runs=[("rel", 6000, 200000), ("asan", 1200, 30000)],
     rule="random clouds of 12 kinds and 0-3000 points, leaf sizes, projections, builders, queries (uniform, on points, far, on split planes) and k, compared with exhaustive search; non-trivial: at least one search returned a neighbour (distinct configuration + cloud hash)",
     require=["queries", "queries_empty_tree", "queries_k_ge_n", "early_termination_queries", "large_clouds", "offset_clouds"],
     assumptions=["finite coordinates", "leaf size >= 1", "distances compared to 1e-9 relative tolerance"])

spec("C02", src="c02.cpp", runs=[("tsan", 160, 4000), ("chaos", 1200, 40000), ("asan", 160, 4000), ("rel", 600, 20000)],
     rule="clouds of 12 kinds on both sides of the parallel cut-off built by the OpenMP and TBB builders under seeded adversarial schedules; census of all points and queries compared with the sequentially built tree; non-trivial: more points than the cut-off (512)",
     require=["queries", "census_points", "trees_omp", "trees_tbb"], technique="race detection + comparison with the sequential tree under adversarial schedules")

spec("C09", src="c09.cpp", runs=[("tsan", 160, 4000), ("chaos", 1500, 50000), ("asan", 300, 8000), ("rel", 1500, 50000)],
     rule="sequences of 10 shapes and sizes around every cut-off, unique payload ids, three comparators, key widths 8-64 bit, reused buffers, under adversarial schedules; sortedness, exactly-once census, guards, stability (radix); non-trivial: at least two elements",
     require=["quick_sorted_elements", "merge_sorted_elements", "radix_sorted_elements"], technique="race detection + exactly-once/sortedness monitor under adversarial schedules")

spec("C06", src="c06.cpp", runs=[("rel", 4000, 150000), ("asan", 1500, 40000)],
     rule="clouds over a known voxel lattice (faces, negative cells, 21-bit limits, out-of-range and non-finite points in any number), three point types, shuffles; every output matched to an occupied voxel and every voxel's mean recomputed; non-trivial: at least one occupied voxel",
     require=["occupied_voxels", "invalid_points", "all_invalid_clouds"], assumptions=["points are kept away from voxel faces unless the resolution is a power of two (face membership is then exact)"])

spec("C07", src="c07.cpp", runs=[("tsan", 120, 4000), ("chaos", 800, 30000), ("asan", 160, 4000), ("rel", 800, 30000)],
     rule="as C06 with sizes around the block sizes, under adversarial schedules; every output assigned to an occupied voxel, single groups must equal the mean, split voxels must have integer group sizes that average to the voxel mean; non-trivial: at least one occupied voxel",
     require=["omp_calls", "tbb_calls", "voxels_split", "splits_solved", "invalid_points"], technique="race detection + conservation monitor over outputs under adversarial schedules")

spec("C08", src="c08.cpp", runs=[("rel", 6000, 60000), ("asan", 1500, 15000)],
     rule="exactly-once census of sampled points for four generators and all sample sizes, repeat determinism; inclusion and subset frequencies over thousands of draws against 7.5-sigma bounds; for large clouds the frequencies of sections, residue classes, adjacent pairs and overlap with the sample before; non-trivial: non-empty input",
     require=["samples_drawn", "uniformity_trials", "large_uniformity_trials", "empty_inputs"])

spec("C03", src="c03.cpp", runs=[("rel", 600, 20000), ("asan", 160, 5000)],
     rule="insertion histories (1-50 insertions, moving/revisiting poses, empty scans, setting changes mid-history, exact lattices with points on voxel faces and at exactly the minimum distance) for the four flat containers; the whole map is read back after every insertion and matched one-to-one with a replay model; non-trivial: some entry stored",
     require=["entries_compared", "evicted_voxels", "recreated_voxels", "rejected_full", "rejected_close", "normals_compared", "covs_compared"],
     assumptions=["points whose voxel or minimum-distance decision depends on rounding are not generated, except on exactly representable lattices"], technique="runtime monitoring: model-based trace oracle after every insertion")

spec("C04", src="c04.cpp", runs=[("rel", 3000, 100000), ("asan", 800, 20000)],
     rule="map states from insertion histories incl. eviction, five container types, offsets 1/7/27/unsupported set in any order, queries on entries, faces, neighbouring and empty voxels, k from 1 to beyond the neighbourhood; compared with brute force over the replay model; non-trivial: a query with a non-empty answer",
     require=["queries_1", "queries_7", "queries_27", "queries_over_several_voxels", "queries_k_ge_m", "queries_empty_neighbourhood", "evicted_voxels"],
     assumptions=["queries whose voxel depends on rounding are not generated, except on exactly representable lattices"])

spec("C05", src="c05.cpp", runs=[("rel", 800, 30000), ("asan", 200, 6000)],
     rule="insertion histories of Gaussian voxel maps (up to 60 insertions, poses, evictions, re-creations), every voxel compared after every insertion with long-double sums since its creation, plus random divisions of one cloud into insertions; non-trivial: some voxel live",
     require=["voxels_compared", "voxels_with_several_points", "evicted_voxels", "recreated_voxels", "split_insertions", "crowded_voxels"],
     assumptions=["points whose voxel depends on rounding are not generated, except on exactly representable lattices"], technique="runtime monitoring: model-based trace oracle after every insertion")

spec("C10", src="c10.cpp", runs=[("rel", 500, 15000), ("tsan", 100, 2500), ("chaos", 200, 6000), ("asan", 120, 3000)],
     rule="12 cloud shapes, k from 1 to beyond N, pre-filled junk features, all 18 entry points (normals/covariances/both x sequential/OMP/TBB x with/without tree); per point: Rayleigh quotient of the reported axis against long-double moments of brute-force neighbours, spectrum, facing, versions agree, nothing else modified; non-trivial: a point with a well-defined smallest direction",
     require=["normals_decided", "covs_decided", "invalid_points", "version_comparisons"],
     assumptions=["neighbourhoods whose k-th neighbour is tied, or whose smallest direction is not determined beyond rounding of the coordinates, are checked for spectrum/unit length/facing only"],
     technique="race detection + numerical oracle monitor under adversarial schedules")

spec("C11", src="c11.cpp", runs=[("tsan", 300, 10000), ("chaos", 2000, 60000), ("rel", 1500, 50000), ("asan", 300, 8000)],
     rule="instrumented factors with exactly summable unique contributions and accept/reject plans (exactly-once census, poisoned outputs of rejected factors), and the five real factor kinds with stale state compared with long-double sums and sequential per-factor state; non-trivial: some factor accepted",
     require=["probe_factors", "reductions_compared", "rejected", "inliers", "with_stale_state"], technique="race detection + exactly-once/conservation monitor under adversarial schedules")

spec("C12", src="c12.cpp", runs=[("rel", 2500, 80000), ("asan", 600, 15000)],
     rule="re-linearisation histories of ICP/point-to-plane/GICP factors (kd-tree and voxel-map targets, empty targets, ties, permissive and strict limits in any order); H, b, e and error() at several poses compared with long-double formulas for an admissible nearest point, numeric gradient of error(), rejector arguments; non-trivial: an accepted factor",
     require=["accepted", "rejected", "no_neighbour", "inlier_then_outlier", "outlier_then_inlier", "gradients_checked"])

spec("C13", src="c13.cpp", runs=[("rel", 1800, 60000), ("asan", 360, 9000)],
     rule="kernel weights over 13 decades of residuals; Huber/Cauchy x ICP/plane/GICP against the plain factor at and away from the linearisation pose; optimiser runs (GN, LM) with every kind of DoF mask, recording each system and each accepted update; non-trivial: accepted robust factor or restricted run",
     require=["kernel_evaluations", "down_weighted", "full_weight", "rejected", "robust_errors", "restricted_systems", "inactive_axes_checked", "active_axes_moved", "poses_checked"])

spec("C14", src="c14.cpp", runs=[("rel", 3000, 100000), ("asan", 500, 12000)],
     rule="optimiser runs traced through the template parameters (every linearisation and trial recorded) with real and rugged factors, pose priors with poor linearisations, all limits/tolerances incl. 0; an offline checker replays each trace; non-trivial: at least one linearisation",
     require=["accepted_steps", "iterations_with_rejected_trials", "runs_stopped_without_step", "runs_at_iteration_limit", "runs_converged", "runs_with_general_factor"],
     technique="runtime monitoring: offline checker over recorded optimiser traces")

spec("C16", src="c16.cpp", runs=[("rel", 6000, 160000), ("asan", 900, 18000)],
     rule="registrations with 4 methods x 2 optimisers x 3 backends on scenes, random and tiny clouds; inlier count, H, b and error recomputed by brute force in long double at the recorded poses; bit-exact repeat; input hashes; non-trivial: at least one inlier",
     require=["inliers", "beyond_range", "error_at_accepted_pose", "repeated_runs", "converged_runs"],
     technique="runtime monitoring: independent recomputation of every reported field")

spec("C27", src="c27.cpp", runs=[("rel", 500, 15000), ("asan", 100, 2500)], repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     rule="empty targets/sources and clouds wholly beyond the correspondence range (also by a hair), every method, optimiser, backend, voxel map kind and the helper interface, iteration limit 0; non-trivial: every case",
     require=["scenes_empty-target", "scenes_empty-source", "scenes_both-empty", "scenes_out-of-range", "scenes_just-beyond", "zero_iteration_runs", "runs_helper-raw", "runs_helper-vgicp"])

spec("C28", src="c28.cpp", runs=[("rel", 2000, 60000), ("asan", 240, 5000)],
     rule="metamorphic pairs: random/reversed/sorted permutations of either cloud (all methods, both optimisers, all backends) and rigid frame changes up to 100 m (ICP, GICP), comparing pose, iterations, inliers, convergence, error and H; non-trivial: more than ten inliers",
     require=["compared_target-order", "compared_source-order", "compared_both-orders", "compared_frame-change"],
     assumptions=["runs whose result already changes when coordinates move by 1e-13 (ties, marginal decisions) are not judged"], technique="runtime monitoring: metamorphic oracle over paired executions")

spec("C17", src="c17.cpp", runs=[("rel", 3000, 60000), ("chaos", 300, 8000), ("asan", 200, 5000)], repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     rule="random settings of every field x 4 registration types x 4 element types x thread counts; helper results (preprocess, align, one-call align, create_gaussian_voxelmap) against the same stages composed from the core components, thread teams observed by the chaos OpenMP runtime; non-trivial: more than five inliers",
     require=["preprocessed_clouds", "features_compared", "compared_voxelmap-align", "compared_cloud-align", "compared_raw-3f", "compared_raw-4f", "compared_raw-3d", "compared_raw-4d", "thread_counts_checked", "type_icp", "type_plane", "type_gicp", "type_vgicp", "empty_inputs"],
     assumptions=["runs whose result already changes when coordinates move by 1e-12 (ties, marginal decisions) are not compared"],
     technique="runtime monitoring: differential oracle against the separately composed pipeline")

spec("C24", src="c24.cpp", runs=[("rel", 3000, 150000), ("asan", 300, 10000)],
     rule="200 twists per case: zero, subnormal, tiny, both sides of the small-angle thresholds, multiples of pi, up to 1e5 rad, translations 0..1e6, aligned with or across the axis; compared with the long-double matrix exponential; non-trivial: non-zero twist",
     require=["twists", "zero_rotation", "tiny_rotation", "small_rotation", "moderate_rotation", "many_turns"],
     assumptions=["the translation's tolerance grows to about 2e-8 of its length near 1e-8 rad, where (1 - cos t) / t^2 loses its digits in double precision"])

spec("C23", src="c23.cpp", runs=[("rel", 12000, 200000), ("asan", 1500, 20000)],
     rule="index maps from 1x1 to 360x90, windows from 0 to wider than the map, three projection/border combinations, clouds incl. points on the seam, poles and at the origin; the index map is audited and every answer compared with brute force over retained points in the window computed in long double; non-trivial: some query found a point",
     require=["retained_points", "windows_compared", "wrapped_windows", "windows_wider_than_map", "clamped_windows", "early_terminations", "self_queries"],
     assumptions=["queries that project within 1e-9 cells of a cell border are only checked for genuine, distinct, ordered results"])

spec("C21", src="c21.cpp", runs=[("asan", 3000, 60000), ("rel", 1500, 40000)],
     rule="round trips of every bit pattern, PLY files of 3-12 properties with comments and trailing data, and nine kinds of damage (truncation anywhere, impossible counts, missing/duplicated/shuffled header lines, flipped bytes, garbage), in a scratch directory; values compared bit by bit, damaged files under ASan/UBSan plus a check that every coordinate's bytes occur in the file; non-trivial: non-empty file",
     require=["points_round_tripped", "raw_points", "ply_three_properties", "ply_four_properties", "ply_many_properties", "ply_trailing_data", "damaged_truncated", "damaged_few-properties", "damaged_oversized-count", "damaged_bad-count", "damaged_flipped-bytes", "damaged_header-lines", "damaged_garbage"],
     assumptions=["an exception is an acceptable answer to a malformed header"], technique="runtime monitoring: sanitizers + byte-exact oracle over generated and damaged files")

spec("C18", src="c18.cpp", runs=[("rel", 4000, 80000), ("asan", 250, 5000)], pcl=True,
     rule="histories of 6-22 operations (set/swap/clear clouds, supply or mis-size covariances, every setting incl. invalid values, rejected empty clouds, GICP/VGICP switches) on one long-lived object; after each alignment compared with a fresh object, with the core pipeline and with brute-force fitness; non-trivial: at least two alignments in the history",
     require=["alignments", "later_alignments", "type_GICP", "type_VGICP", "swaps", "clears", "set_covariances", "rejected_covariances", "invalid_settings", "rejected_empty_clouds", "compared_with_fresh", "compared_with_core", "fitness_scores", "output_points", "estimated_covariances"],
     assumptions=["covariances estimated by an earlier alignment count as the object's current covariances (they are readable by the getters, as in pcl::GeneralizedIterativeClosestPoint)", "clouds are not modified in place while set as inputs", "alignments decided by rounding are compared for output cloud and fitness only"],
     technique="runtime monitoring: model-based history oracle (fresh object, core pipeline)")

spec("C26", src="c26.cpp", runs=[("rel", 240, 4000), ("asan", 40, 500)], pcl=True, flavour_flags={"asan": ["-fno-sanitize=vptr"]}, flags=["-DBUILD_WITH_TBB", "-DBUILD_WITH_PCL"], link=["-lfmt"],
     repo_src=["src/small_gicp/benchmark/benchmark_odom.cpp"] + ["src/benchmark/odometry_benchmark_%s.cpp" % n for n in (
         "small_gicp", "small_gicp_omp", "small_gicp_tbb", "small_gicp_tbb_flow", "small_vgicp_omp", "small_vgicp_tbb",
         "small_gicp_model_omp", "small_gicp_model_tbb", "small_vgicp_model_omp", "small_vgicp_model_tbb", "small_gicp_pcl")],
     rule="synthetic scan sequences (0-10 scans of very different size, also an empty scan), 11 engines, settings and thread counts, delays injected at allocations; every trajectory compared with the sequential core composed the same way and with the true trajectory; several instances one after another and at the same time; registry lookups; datasets of scan files; non-trivial: every case",
     require=["poses", "trajectories_compared", "tracks_checked", "runs_again", "runs_concurrent", "reordered_pipeline_runs", "injected_delays", "datasets", "sequences_one-scan", "sequences_no-scan", "sequences_empty-scan"]
             + ["engine_" + n for n in ("small_gicp", "small_gicp_omp", "small_gicp_tbb", "small_gicp_tbb_flow", "small_vgicp_omp", "small_vgicp_tbb", "small_gicp_model_omp", "small_gicp_model_tbb", "small_vgicp_model_omp", "small_vgicp_model_tbb", "small_gicp_pcl")],
     assumptions=["an engine object is used for one sequence", "sequences whose reference already changes when coordinates move by 1e-12 are not compared with the reference", "fast_gicp engines are not built here (their library is absent); the engine that wraps PCL's own GICP is not covered"],
     technique="runtime monitoring: reference-trajectory oracle with injected delays and pipeline-order observation")

spec("C20", src="c20.cpp", runs=[("tsan", 450, 9000), ("rel", 3000, 60000), ("chaos", 600, 15000)], repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     rule="2-6 threads making 2-8 calls each, drawn from 40 operations (searches of every structure, alignments, feature estimation, downsampling, building over shared clouds, helper interface) on shared clouds, trees, maps and registration objects, under adversarial schedules; every result compared with the result alone; non-trivial: calls overlapped in time",
     require=["overlapping_calls", "results_compared", "op_kdtree-search", "op_align-gicp", "op_align-gicp-omp", "op_align-gicp-tbb", "op_features-shared-tree", "op_downsample", "op_gaussian-voxelmap-search", "op_projective-search", "op_helper-align", "op_helper-align-raw"],
     assumptions=["parallel operations whose result already varies alone beyond 1% of the tolerance are checked for races only"],
     technique="race detection + comparison with the result alone under adversarial schedules")

spec("C19", src="c19.cpp", runs=[("asan", 1500, 40000), ("vg", 24, 800)], pcl=True, repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     flavour_flags={"asan": ["-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all"], "vg": ["-DVF_NOPCL"]},
     rule="18 kinds of degenerate clouds (empty, 1-2 points, coincident, collinear, coplanar, far, very far, denormal, mixed scales, 1e300) in pairs through every public operation and settings at their limits, under ASan + UBSan (incl. float-to-int overflow) + container assertions, and under valgrind for uninitialised reads; answers judged for coordinates up to 1e6; non-trivial: every case",
     require=["kind_" + k for k in ("empty", "single", "pair", "coincident", "collinear", "coplanar", "very-far", "tiny", "extreme", "zero")] + ["searches", "nothing_found", "registrations_with_inliers", "registrations_without_inliers", "downsamplings", "feature_estimations", "map_histories", "pcl_alignments"],
     assumptions=["finite coordinates, leaf sizes 1e-6..1e9, at least one thread, k >= 1", "for coordinates beyond 1e6 only memory safety and defined behaviour are required, not the numbers"],
     technique="runtime monitoring: sanitizers and valgrind over degenerate API workloads, plus answer monitors")

spec("C25", src="c25.cpp", runs=[("rel", 400, 20000), ("asan", 60, 1500)], pcl=True,
     rule="the same float-representable points, normals and covariances in 13 representations (native cloud from 6 vector types, MatrixXd with 3 or 4 columns, six PCL clouds, PCL proxies, three user classes) through every algorithm, compared with the native cloud; attributes read back bit by bit before and after resizing; non-trivial: some registration had more than ten inliers",
     require=["rep_" + n for n in ("MatrixXd", "PointXYZ", "PointNormal", "PointXYZRGBNormal", "PointCovariance", "PointNormalCovariance", "Proxy", "UserSoA", "UserAoS", "PointCloud")]
             + ["constructed_" + n for n in ("Vector3f", "Vector4f", "Vector3d", "Vector4d", "Vector4f-aligned")]
             + ["points_read_back", "normals_read_back", "covs_read_back", "resizes", "downsamplings_compared", "searches_compared", "projective_compared", "features_compared", "voxelmaps_points", "voxelmaps_normals", "voxelmaps_covs", "voxelmaps_gaussian", "registrations_icp", "registrations_plane", "registrations_gicp", "registrations_vgicp", "empty_clouds"],
     assumptions=["coordinates and attributes are representable in float, so that every representation holds the same values", "results that already change when coordinates move by 1e-13 (ties, faces, degenerate neighbourhoods) are not compared"],
     technique="runtime monitoring: differential oracle over paired executions on different representations")

spec("C15", src="c15.cpp", runs=[("rel", 300, 6000), ("chaos", 40, 800)], repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     rule="random furnished rooms (six directions constrained), 1500-3000 points, source identical / a 60% subset / independently sampled with noise, in arbitrary frames up to 20 m apart, initial guesses up to 1.5 point spacings off; every method x optimiser x backend, voxel maps, projected trees, robust kernels, restricted DoF and the helper interface, in both directions; pose error at the scene bounded in units of the point spacing; non-trivial: every case",
     require=["recovered_%s-%s-%s%s" % (m, o, b, d) for m in ("icp", "plane", "gicp", "vgicp") for o in ("lm", "gn") for b in ("omp", "tbb") for d in ("", "-back")]
             + ["recovered_" + w for w in ("huber-lm-serial", "cauchy-gn-serial", "gicp-flat-lm-serial", "gicp-normal-projection-lm-serial", "gicp-restricted-lm-serial", "helper-icp", "helper-plane", "helper-gicp", "helper-vgicp", "helper-raw-icp", "helper-raw-plane", "helper-raw-gicp", "helper-raw-vgicp")],
     assumptions=["scenes constrain all six directions and initial guesses are within the correspondence range at the scene (not at a distant frame origin)", "whether the run reports convergence is not judged (GICP correspondences may alternate), only where it ends"],
     technique="runtime monitoring: ground-truth oracle on synthetic scenes")

spec("C22", src="c22.cpp", runs=[("rel", 4000, 80000), ("asan", 400, 8000), ("chaos", 600, 12000)],
     repo_src=["src/python/%s.cpp" % n for n in ("pointcloud", "kdtree", "voxelmap", "preprocess", "result", "align", "factors", "misc", "python")] + ["src/small_gicp/registration/registration_helper.cpp"],
     flags=["-I/usr/include/python3.12", "-fvisibility=hidden"], flavour_flags={"asan": ["-fno-sanitize=vptr"]}, link=["-lpython3.12", "-ldl", "-lutil", "-lm"],
     rule="an interpreter embedded in the harness drives the module's own sources: arrays in nine memory layouts and types (3 or 4 columns), every function and overload with arguments by position, by keyword or omitted, compared with the native operations called from C++; handed-out arrays, trees and results must survive the release of what they came from; 24 kinds of unusable arguments must raise instead of crash (ASan/UBSan), thread counts are observed at the OpenMP runtime; non-trivial: more than one point",
     require=["arrays_" + a for a in ("plain", "fortran", "strided_columns", "strided_rows", "reversed", "float32", "transposed", "big_endian", "n4", "n4_intensity")]
             + ["keyword_arguments", "omitted_arguments", "clouds_compared", "bad_indices", "calls_that_raised", "misuse_calls", "trees_from_arrays", "trees_from_clouds", "searches_compared", "unfound_marked", "downsampled_arrays", "downsampled_clouds", "downsampled_parallel", "normals_estimated", "covariances_estimated", "both_estimated", "estimated_with_tree", "estimated_without_tree", "preprocessed_arrays", "preprocessed_clouds", "preprocessed_empty", "voxelmap_insertions", "set_lru_calls", "factors_linearized", "factors_rejected", "unavailable_types", "thread_counts_checked", "files_read"]
             + ["class_" + n for n in ("IncrementalVoxelMap", "IncrementalVoxelMapNormal", "IncrementalVoxelMapCov", "IncrementalVoxelMapNormalCov", "GaussianVoxelMap")]
             + ["results_compared_" + n for n in ("align-arrays", "align-clouds", "align-voxelmap")],
     assumptions=["num_threads=0 may be rejected or taken as a default", "an unfound index may be marked by -1 or by 2^64-1 (the documentation says -1, the binding returns the unsigned pattern)", "attributes that were never estimated are not read", "results decided by rounding are not compared"],
     technique="runtime monitoring: differential oracle across the language boundary + sanitizers")

spec("C29", src="c29.cpp", runs=[("rel", 4000, 100000), ("asan", 600, 12000), ("tsan", 200, 4000)], pcl=True, repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     flavour_flags={"tsan": ["-DVF_NOPCL"]},
     rule="search structures, maps, registration objects and clouds are copied, moved, put into growing vectors and outlive what they were made from, with the allocator kept busy; answers compared bit by bit with those before; histories over several voxel maps that are copies of each other, every map compared with one that went through its operations alone, snapshots read by another thread while the original grows; non-trivial: more than one point, or a copy was made",
     require=["tree_copies_" + n for n in ("KdTree", "KdTree-omp", "KdTree-tbb", "UnsafeKdTree", "KdTree-normal-projection", "ProjectiveSearch", "UnsafeProjectiveSearch")]
             + ["map_copies", "maps_replayed", "snapshots_read_concurrently", "registration_copies", "preprocessed_pairs", "downsampled_products", "map_products", "pcl_alignments"],
     assumptions=["the structures named Unsafe refer to a cloud the caller keeps alive", "copies of pcl::Registration objects share PCL's own search objects and are not covered"],
     technique="runtime monitoring: sanitizers + twin-execution oracle over copy/move/destroy histories")

spec("C30", src="c30.cpp", runs=[("rel", 1800, 30000)], pcl=True,
     repo_src=["src/python/%s.cpp" % n for n in ("pointcloud", "kdtree", "voxelmap", "preprocess", "result", "align", "factors", "misc", "python")] + ["src/small_gicp/registration/registration_helper.cpp"],
     flags=["-I/usr/include/python3.12", "-fvisibility=hidden"], link=["-lpython3.12", "-ldl", "-lutil", "-lm", "-rdynamic"],
     rule="every allocation of the process is counted (malloc family interposed); each public operation, native, PCL and Python, is repeated in batches with fresh inputs of many sizes, also calls that fail; growth of memory, threads or open files in every batch is a leak; peak memory is bounded per input point; maps fed by a moving sensor are compared with the size of a copy; non-trivial: every case",
     require=["allocations_observed", "peaks_measured", "map_states_measured"] + ["calls_" + n for n in ("kdtree", "kdtree-omp", "kdtree-tbb", "projective", "queries", "voxelgrid", "voxelgrid-omp", "voxelgrid-tbb", "random-sampling", "features", "features-omp", "features-tbb", "preprocess", "helper-align", "helper-align-tree", "icp-serial", "plane-omp", "gicp-tbb", "gicp-gn", "map-points", "map-gaussian", "map-normals-covs", "pcl-align", "pcl-objects", "write-points", "read-points", "read-ply", "missing-files", "bad-ply", "cut-ply", "python-read-ply")]
             + ["calls_python-" + n for n in ("clouds", "downsampling", "features", "preprocess", "trees", "maps", "align", "factors")],
     assumptions=["memory that reaches a steady state after the first calls (pools, thread-local buffers) is not a leak", "pages held by TBB's own allocator are not counted"],
     technique="runtime monitoring: allocation accounting over repeated operations")

spec("C31", src="c31.cpp", runs=[("rel", 2500, 60000), ("asan", 150, 4000)], repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     rule="histories of 6-24 calls drawn from 55 operations over several worlds (equal sizes at equal addresses, larger and smaller ones, settings that grow and shrink), each in one of ten contexts (new thread, other OpenMP/Eigen defaults, C random generator, stream formats, locale, dirty heap and stack, errno and floating-point flags); results compared with the same call alone in a new process; process-wide state and standard output observed around every call; non-trivial: some call compared",
     require=["compared_with_new_process", "state_comparisons", "repeated_at_once", "verbose_calls", "context_new-thread", "context_omp-defaults", "context_locale", "context_dirty-heap", "context_dirty-stack"],
     assumptions=["results of sequential operations are compared bit by bit, those of parallel ones up to summation order", "floating-point status flags and errno may change"],
     technique="runtime monitoring: fresh-process twin oracle over call histories + observation of process-wide state")

spec("C32", src="c32.cpp", runs=[("rel", 6000, 100000)], pcl=True, repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     flags=["-fsanitize-coverage=trace-pc"], link=["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset"],
     rule="the same kind of input at n and 8n or 16n points, 16 shapes of clouds, 9 patterns of keys, 9 arrangements of voxels, all builders, backends and settings; executed basic blocks and bytes moved are counted by compiler-inserted callbacks; work per unit (N log N, N + live voxels, neighbourhood, iterations x points) is bounded, may not grow with size or history, and all threads together may not work more than twice what the sequential version does; searches, linearisations and trials of a registration are counted by wrappers; non-trivial: every case",
     require=["measurements", "growth_measurements", "parallel_to_sequential", "travelling_maps", "pcl_reuses"] + ["m_" + n for n in ['align', 'align-flat-map', 'align-gaussian-map', 'features', 'features-omp', 'features-tbb', 'files', 'knn', 'map-gaussian-insert', 'map-gaussian-insert-again', 'map-gaussian-listing', 'map-gaussian-query', 'map-normals-covs-insert', 'map-normals-covs-insert-again', 'map-normals-covs-listing', 'map-normals-covs-query', 'map-points-insert', 'map-points-insert-again', 'map-points-listing', 'map-points-query', 'merge-sort', 'nearest', 'pcl-again', 'pcl-next-source', 'preprocess', 'projective-build', 'projective-query', 'quick-sort', 'radix-sort', 'random-sampling', 'tree', 'tree-leaf1', 'tree-normal', 'tree-omp', 'tree-omp-leaf1', 'tree-omp-normal', 'tree-tbb', 'tree-tbb-leaf1', 'tree-tbb-normal', 'voxelgrid', 'voxelgrid-omp', 'voxelgrid-tbb']]
             + ["align_" + n for n in ("icp-lm", "gicp-lm", "plane-gn", "icp-gn", "gicp-lm-omp", "gicp-lm-tbb", "plane-gn-omp", "icp-gn-tbb")]
             + ["pattern_" + n for n in ("random", "equal", "sorted", "reversed", "few-distinct", "saw", "almost-sorted", "sorted-then-equal", "two-runs")],
     assumptions=["queries lie on well-spread data (a query equally far from everything has to look at everything)", "a limit is three times the largest count per unit seen on the unchanged tree, growth with size at most twofold, so constant-factor slowdowns below that pass"],
     technique="runtime monitoring: deterministic work counters (compiler-inserted callbacks) against complexity bounds")

spec("C33", src="c33.cpp", runs=[("rel", 4500, 120000), ("asan", 500, 16000)], pcl=True, repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     rule="every sequential operation over small worlds, voxel-map histories, PointCloud::resize and the PCL interface, each run once clean and then with one chosen failure point failing (or every one from there on): global operator new replaced by a counting version that fails on demand, point-cloud traits, factors, rejectors, general factors, generators and key functions that throw on demand (those also under TBB); observed: the exception that arrives, allocations alive, hashes of the arguments, the result of the same call afterwards, the invariants of what was being modified; non-trivial: some injected failure was reported",
     require=["allocation_failures", "user_failures", "failures_reported", "reruns", "resizes_failed", "constructions_failed", "insertions_failed", "insertions_completed", "copies_after_failure", "offset_changes_failed", "pcl_compared", "failed_pcl_setInputTarget", "failed_pcl_setInputSource", "failed_pcl_align"],
     assumptions=["an exception cannot leave an OpenMP region: failures are not injected inside one; allocations do not fail in operations run by TBB, whose scheduler allocates too", "between a failed insertion and the next successful one, voxel means of a Gaussian map are only required to be finite"],
     technique="runtime monitoring: fault injection at every allocation and customization point, with leak, state and invariant monitors")

spec("C34", src="c34.cpp", runs=[("rel", 2200, 60000), ("asan", 250, 6000)], pcl=True, repo_src=["src/small_gicp/registration/registration_helper.cpp"],
     rule="pairs of executions: data A alone, and A with data B merged in (before, after, between, in a block), B chosen by independent arithmetic such that nothing of it is in reach; registrations (far source points, far target points, both, duplicated target points), tree and image searches, downsampling, voxel maps with eviction, features, helper and PCL pipelines; results compared up to summation order; cases whose outcome already changes when coordinates move by 1e-12 are not judged; non-trivial: something was compared",
     require=["compared_far-source", "compared_far-target", "compared_far-both", "compared_duplicated-target", "searches_compared", "projective_compared", "compared_voxelgrid_sampling", "compared_voxelgrid_sampling_omp", "compared_voxelgrid_sampling_tbb", "entries_compared", "map_searches_compared", "features_compared", "compared_helper", "compared_pcl"],
     assumptions=["parallel downsampling is compared only where no voxel lies across two blocks of the sorted points", "ties and results decided by rounding are not judged"],
     technique="runtime monitoring: metamorphic oracle over paired executions")

spec("C35", src="c35.cpp", runs=[("rel", 6000, 200000), ("asan", 800, 16000), ("chaos", 600, 12000)],
     rule="searches, rejectors, factors, robust kernels, general factors, optimizers, reductions, voxel contents, projections, border modes, feature setters and point types that log every call with its arguments, pose, thread and answer (rejectors and searches that refuse or lose 0-100% of the points), under every optimizer and backend; the log is checked offline against the promised order, arguments and numbers of calls; non-trivial: some component was called",
     require=["events", "linearizations", "evaluations", "rejector_calls", "user_optimizations", "adds", "voxel_searches", "tree_searches", "image_searches", "features_set", "points_set"],
     assumptions=["border modes map different pixels of a window to different pixels", "a factor that did not contribute may or may not be asked for its error"],
     technique="runtime monitoring: event logs of user-supplied components checked against a trace specification")
