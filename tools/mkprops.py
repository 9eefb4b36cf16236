#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so that the file stays well-formed)."""
import json, os
I = "include/small_gicp/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Kd-tree neighbour search is exact",
 "For every finite point cloud, query point and k >= 1, a kd-tree search returns exactly the min(k, N) nearest points: distinct valid indices, each with its true squared distance, in ascending order, and the same distances as exhaustive search; an empty tree returns none. This holds for every axis-selection strategy, leaf size >= 1 and builder, and for the single-neighbour, fixed-k and run-time-k forms. With an early-termination threshold the answer is either the exact one or k points all closer than the (square) threshold.",
 ["inputs", "configurations"], "all finite clouds (any size incl. 0..leaf size, duplicates, collinear, planar, clustered, far from origin), queries, k, leaf sizes, projections",
 "Tests query two fixed clouds with 150 queries, k=20 and the default leaf size; they never query empty or tiny trees, leaf size 1 or 2, duplicate-heavy clouds, on-threshold queries or early termination.",
 [I+"ann/kdtree.hpp", I+"ann/kdtree_omp.hpp", I+"ann/kdtree_tbb.hpp", I+"ann/knn_result.hpp", I+"ann/projection.hpp"],
 [("branch-and-bound descent with split-plane pruning", I+"ann/kdtree.hpp UnsafeKdTree::knn_search"), ("bounded sorted result", I+"ann/knn_result.hpp KnnResult::push"), ("median split", I+"ann/kdtree.hpp KdTreeBuilder::create_node")],
 ["KdTree/UnsafeKdTree::knn_search, nearest_neighbor_search", "traits::knn_search"])

prop("C02", "Parallel kd-tree construction is schedule-independent",
 "Building a kd-tree with the OpenMP or TBB builder yields, for every thread count and every task schedule, a tree that indexes every input point exactly once and answers every query with the same distances as the sequentially built tree. Construction involves no data race, and it terminates.",
 ["schedules", "inputs"], "all task schedules and thread counts of both parallel builders, clouds on both sides of the parallelisation cut-off",
 "Tests build each tree once under the production scheduler with the default thread count; races and ordering faults need particular interleavings and no race detector is run.",
 [I+"ann/kdtree_omp.hpp", I+"ann/kdtree_tbb.hpp", I+"ann/kdtree.hpp"],
 [("atomic node counter", I+"ann/kdtree_omp.hpp create_node"), ("task / taskwait", I+"ann/kdtree_omp.hpp"), ("parallel_invoke", I+"ann/kdtree_tbb.hpp")],
 ["search results of the built tree"], [("node_count", "next free node slot shared by all tasks", I+"ann/kdtree_omp.hpp")])

prop("C03", "Incremental voxel map contents follow the insertion history",
 "After any sequence of insertions (each with its own pose), a voxel map of points holds exactly what a straightforward replay of the documented rules gives: each transformed point goes to the voxel floor(p / leaf size), and is kept unless that voxel is full or holds a point closer than the minimum distance. Voxels not touched for more than the retention horizon are removed at the next clean-up cycle and no others ever are. Stored points, normals and covariances are the input's, transformed by the insertion pose, and stay associated with each other.",
 ["histories", "inputs"], "all sequences of insertions with poses, leaf sizes, capacity / distance / retention settings, including negative and far coordinates",
 "Tests insert one cloud once with identity pose; eviction, re-insertion after eviction, capacity and minimum-distance rules and poses are never exercised.",
 [I+"ann/incremental_voxelmap.hpp", I+"ann/flat_container.hpp", I+"util/fast_floor.hpp", I+"util/vector3i_hash.hpp"],
 [("hash lookup, LRU stamp and clean-up with re-indexing", I+"ann/incremental_voxelmap.hpp insert"), ("capacity and distance filter", I+"ann/flat_container.hpp add"), ("floor to voxel", I+"util/fast_floor.hpp")],
 ["traits::point_indices / voxel_points / voxel_normals / voxel_covs / size"], [("lru", "last step at which a voxel was touched", I+"ann/incremental_voxelmap.hpp"), ("flat_voxels / voxels", "voxel storage and coordinate index, rebuilt on clean-up", I+"ann/incremental_voxelmap.hpp")])

prop("C04", "Voxel-map search is exact within its neighbourhood",
 "For every voxel map state, query and k, neighbour search returns exactly the min(k, M) nearest of the M stored entries lying in the configured set of 1, 7 or 27 voxels around the query's voxel, without duplicates, in ascending order and with true squared distances. Every returned index resolves to the point, normal and covariance of that very entry.",
 ["inputs", "histories", "configurations"], "all map states reached by insert/evict histories, both voxel content kinds, all search patterns set in any order, all queries and k",
 "Tests compare a Gaussian map and a point map once, with 1-offset or default settings and without checking duplicates, adjacency patterns, or index resolution after eviction.",
 [I+"ann/incremental_voxelmap.hpp", I+"ann/flat_container.hpp", I+"ann/gaussian_voxelmap.hpp", I+"ann/knn_result.hpp"],
 [("search offset pattern", I+"ann/incremental_voxelmap.hpp set_search_offsets"), ("(voxel, point) id packing", I+"ann/incremental_voxelmap.hpp calc_index"), ("index transform on push", I+"ann/knn_result.hpp")],
 ["IncrementalVoxelMap::knn_search / nearest_neighbor_search", "traits::point/normal/cov(map, index)"])

prop("C05", "Gaussian voxels are the exact running statistics of their points",
 "In a Gaussian voxel map, after any sequence of insertions, every live voxel's mean and covariance are the averages of all transformed input points and rotated input covariances that fell in it since it was last created, and its point count is their number. This is independent of how the points were divided into insertions, and an occupied voxel exists for exactly the voxels that received points and were not evicted.",
 ["histories", "inputs"], "all insertion sequences (poses, batch splits, revisits, evictions)",
 "Tests check one insertion of one cloud; the finalised/accumulating state switch on repeated insertion and revisit after eviction are never executed.",
 [I+"ann/gaussian_voxelmap.hpp", I+"ann/incremental_voxelmap.hpp"],
 [("un-finalise, accumulate, finalise", I+"ann/gaussian_voxelmap.hpp GaussianVoxel::add/finalize")],
 ["traits::voxel_points, voxel_covs, GaussianVoxel::num_points"], [("finalized", "whether mean/cov hold averages or sums", I+"ann/gaussian_voxelmap.hpp")])

prop("C06", "Voxel-grid downsampling gives one exact centroid per occupied voxel",
 "Sequential voxel-grid downsampling outputs exactly one point for each voxel floor(p / resolution) that contains an input point within the documented 21-bit coordinate range, equal to the mean of all input points in that voxel, and nothing else. Points outside the range (or not finite) are ignored: they neither appear in nor influence the output, even when no valid point remains.",
 ["inputs"], "all clouds and resolutions: negative coordinates, voxel boundaries, range limits, out-of-range and non-finite points in any number and order, all point types",
 "Tests only compare output sizes on two fixed clouds within a tolerance; no centroid is recomputed and no out-of-range point is ever given.",
 [I+"util/downsampling.hpp", I+"util/fast_floor.hpp"],
 [("pack, sort, run-length average", I+"util/downsampling.hpp voxelgrid_sampling")],
 ["returned cloud"])

prop("C07", "Parallel downsampling conserves points under every schedule",
 "For every schedule and thread count, OpenMP/TBB voxel-grid downsampling partitions the in-range input points into groups that never span two voxels, uses each of them exactly once, and outputs the mean of each group; every occupied voxel is represented and only a few voxels (at most about one per thousand input points) are represented by more than one group. Out-of-range points have no influence, nothing else is output, no data race occurs and the call terminates.",
 ["schedules", "inputs"], "all loop / task schedules and thread counts, cloud sizes around and far above the block size, out-of-range points in any number",
 "Tests compare output sizes within 20% once under the production scheduler; lost, duplicated or mixed points change no size noticeably and races are not looked for.",
 [I+"util/downsampling_omp.hpp", I+"util/downsampling_tbb.hpp", I+"util/sort_omp.hpp"],
 [("block-wise sums with an atomically reserved output range", I+"util/downsampling_omp.hpp"), ("parallel sort by packed voxel key", I+"util/sort_omp.hpp")],
 ["returned cloud"], [("num_points", "output slots reserved so far", I+"util/downsampling_omp.hpp")])

prop("C08", "Random downsampling is a uniform sample without replacement",
 "Random downsampling of N points to n returns exactly min(n, N) of the input points, no input point more than once, each with equal probability; the same generator state gives the same sample. An empty input gives an empty output.",
 ["inputs", "configurations"], "all clouds, sample sizes (0, N, > N) and generator states, for every generator type",
 "Tests check only the size of the output for a few values.",
 [I+"util/downsampling.hpp"], [("std::sample over indices", I+"util/downsampling.hpp random_sampling")], ["returned cloud"])

prop("C09", "Parallel sorts return a sorted permutation under every schedule",
 "Each parallel sort (OpenMP merge sort, OpenMP quick sort, TBB radix sort) rearranges any input into non-descending key order and preserves it as a multiset, for every thread count and schedule, element type and key width; elements with equal keys keep their order in the radix sort. No access leaves the given range, no data race occurs, buffers may be reused across calls of any sizes, and the call terminates.",
 ["schedules", "inputs", "configurations"], "all sequences (few distinct keys, sorted, reversed, organ pipe, sizes around the sequential cut-off), comparators, thread counts and schedules",
 "Tests sort uniformly random data of a few sizes under the production scheduler and compare only keys.",
 [I+"util/sort_omp.hpp", I+"util/sort_tbb.hpp"],
 [("tasks over disjoint halves + taskwait + merge", I+"util/sort_omp.hpp merge_sort_omp_impl"), ("three-way partition", I+"util/sort_omp.hpp quick_sort_omp_impl"), ("per-tile histograms and offsets", I+"util/sort_tbb.hpp")],
 ["the sorted range"])

prop("C10", "Estimated normals and covariances are the neighbourhood's PCA",
 "For every point with at least five neighbours found, the estimated normal is a unit vector (w = 0) along the smallest principal direction of its k nearest neighbours, turned to face the origin, and the estimated covariance is symmetric with that direction as the eigenvector of its single small eigenvalue (1e-3) and unit eigenvalues in the plane, with a zero fourth row and column. Points with fewer neighbours get a zero normal and an identity covariance.  Sequential, OpenMP and TBB versions, with or without a given search tree and for every schedule, give identical results and modify nothing else.",
 ["inputs", "schedules", "configurations"], "all clouds (planar, linear, coincident, tiny, far), neighbour counts, thread counts, schedules, overloads",
 "Tests check the angle and eigenvalue shape on one dense cloud with one neighbour count.",
 [I+"util/normal_estimation.hpp", I+"util/normal_estimation_omp.hpp", I+"util/normal_estimation_tbb.hpp"],
 [("kNN scatter matrix and eigen decomposition", I+"util/normal_estimation.hpp estimate_local_features"), ("setters", I+"util/normal_estimation.hpp NormalSetter, CovarianceSetter")],
 ["normals and covs of the cloud after the call"])

prop("C11", "Parallel reduction equals the sequential sum under every schedule",
 "Linearising or evaluating the cost of a set of per-point factors with the OpenMP or TBB reduction gives the sequential sums of the information matrix, vector and error (up to rounding) and the same per-factor correspondence state, for every thread count and schedule: every factor is processed exactly once, rejected factors contribute nothing, and no data race occurs.",
 ["schedules", "inputs"], "all schedules, thread counts (incl. more threads than factors), factor types, inlier patterns and sizes",
 "Tests only compare final poses to a loose tolerance under the production scheduler; a dropped or doubled factor or a lost update moves the pose by less than that.",
 [I+"registration/reduction.hpp", I+"registration/reduction_omp.hpp", I+"registration/reduction_tbb.hpp"],
 [("per-thread accumulators merged after the loop", I+"registration/reduction_omp.hpp"), ("splitting / joining bodies", I+"registration/reduction_tbb.hpp")],
 ["returned (H, b, e), per-factor inlier state"])

prop("C12", "Per-point factors linearise their own cost correctly",
 "For ICP, point-to-plane and GICP factors at every pose: the returned vector is the gradient and the returned matrix the symmetric positive semi-definite Gauss-Newton Hessian (rotation first) of the very error the factor reports for the correspondence and weighting it chose, that correspondence is the nearest target point to the transformed source point, and the value returned equals the error re-evaluated at the same pose. For GICP the weighting is the inverse of the fused covariance C_target + R C_source R^T. A factor whose nearest point is missing or rejected returns false, reports itself as an outlier and contributes zero error, whatever it had matched before.",
 ["inputs", "histories"], "all poses, clouds, covariances/normals, rejection distances, and sequences of re-linearisation of the same factor",
 "Tests never look at a single linearisation; final poses tolerate wrong weights, missed resets and small Jacobian errors.",
 [I+"factors/icp_factor.hpp", I+"factors/plane_icp_factor.hpp", I+"factors/gicp_factor.hpp", I+"registration/rejector.hpp"],
 [("nearest search, rejection, Jacobian", I+"factors/*_factor.hpp linearize"), ("error at fixed correspondence", I+"factors/*_factor.hpp error")],
 ["linearize() outputs, error(), inlier()"], [("target_index", "current correspondence or none", I+"factors/gicp_factor.hpp")])

prop("C13", "Robust kernels and DoF restriction do what they promise",
 "A robustified factor scales the matrix, vector and error of the plain factor by one common weight in (0, 1] that is the kernel's weight at the square root of the plain error, never increases with the residual, and is applied identically when the error is re-evaluated. Restricting degrees of freedom leaves the unrestricted problem untouched for active axes and keeps every inactive axis of the update vanishingly small, so the aligned pose does not move along restricted directions beyond the soft tolerance.",
 ["inputs", "configurations"], "all kernels, widths, residuals and masks",
 "Tests run registration with robust kernels once and never use degree-of-freedom restriction.",
 [I+"factors/robust_kernel.hpp", I+"factors/general_factor.hpp"],
 [("weight on sqrt(e)", I+"factors/robust_kernel.hpp RobustFactor"), ("diagonal penalty", I+"factors/general_factor.hpp RestrictDoFFactor")],
 ["linearize()/error() of robust vs plain factor", "align() result"])

prop("C14", "The optimiser only accepts steps that do not increase the total cost",
 "During a Levenberg-Marquardt run every accepted pose has a total cost (per-point factors at fixed correspondences plus any user-supplied general factor) no greater than the pose it replaces, and the run stops when no such step is found. No run performs more linearisations than the iteration limit nor more trials per iteration than the inner limit; convergence is reported only if the last accepted update was within both the rotation and the translation tolerance, and no further linearisation follows it. Gauss-Newton obeys the same iteration limit and convergence rule.",
 ["inputs", "configurations", "histories"], "all problems, general factors (including ones contributing error), tolerances, limits, damping settings",
 "Tests only look at final poses with default settings; the sequence of trials and acceptances is never observed and no general factor contributes error.",
 [I+"registration/optimizer.hpp", I+"registration/termination_criteria.hpp", I+"registration/registration.hpp"],
 [("damping trial loop", I+"registration/optimizer.hpp LevenbergMarquardtOptimizer::optimize"), ("convergence rule", I+"registration/termination_criteria.hpp")],
 ["calls made to user-supplied reduction / factor / general factor / criteria objects (public template parameters)"], [("lambda", "damping", I+"registration/optimizer.hpp")])

prop("C15", "Registration recovers the true transformation",
 "Given two overlapping, geometrically well-constrained clouds that differ by a rigid motion inside the correspondence range, registration with every method (ICP, point-to-plane, GICP, voxelised GICP), optimiser and reduction backend converges to that motion within the accuracy set by tolerance and sampling, in either direction and from any initial guess in the basin. The result is a proper rigid transformation mapping source coordinates into the target frame.",
 ["inputs", "configurations", "schedules"], "randomised scenes, motions, initial guesses, methods, backends, thread counts",
 "Tests use one pair of scans with one motion near identity, to a loose tolerance (2.5 deg / 0.2 m).",
 [I+"registration/registration.hpp", I+"registration/optimizer.hpp", I+"factors/gicp_factor.hpp", I+"util/lie.hpp"],
 [("iterative linearise / solve / retract", I+"registration/optimizer.hpp")], ["RegistrationResult::T_target_source, converged"])

prop("C16", "The registration result describes the registration truthfully",
 "The reported inlier count is the number of source points whose nearest target at the last linearised pose is within the maximum correspondence distance, the reported information matrix and vector are the sums over exactly those correspondences at that pose, and the reported error is their summed cost at that pose or the accepted next one. The information matrix is symmetric positive semi-definite; the iteration count never exceeds the limit; convergence is reported only if the last update was within the tolerances; two identical sequential runs give bit-identical results, and inputs are left unmodified.",
 ["inputs", "configurations"], "all scenes, methods, rejection distances and iteration limits",
 "No test reads the information matrix, vector, error, inlier or iteration fields for value.",
 [I+"registration/optimizer.hpp", I+"registration/registration_result.hpp", I+"registration/rejector.hpp"],
 [("result bookkeeping", I+"registration/optimizer.hpp"), ("inlier count", I+"registration/optimizer.hpp")], ["RegistrationResult fields, recomputed independently"])

prop("C17", "The helper interface equals the staged pipeline and honours its settings",
 "The one-call alignment of raw points gives the same result as preprocessing both clouds, building the target model and aligning them separately with the same settings. Every setting takes effect for every registration type: source points farther than the maximum correspondence distance never contribute, the iteration limit and tolerances bound the optimisation, and all four point element types give the same result for the same coordinates. Preprocessing returns a downsampled cloud with its own search tree and features, as the individual functions would.",
 ["inputs", "configurations"], "all registration types, point element types, settings and clouds",
 "Tests use default settings and compare only the final pose on one pair of scans.",
 ["src/small_gicp/registration/registration_helper.cpp", I+"registration/registration_helper.hpp", I+"points/point_cloud.hpp"],
 [("settings copied into a registration object per type", "src/small_gicp/registration/registration_helper.cpp align"), ("explicit instantiations", "src/small_gicp/registration/registration_helper.cpp")], ["align(), preprocess_points(), create_gaussian_voxelmap()"])

prop("C18", "The PCL interface depends only on its current inputs, not its history",
 "After any sequence of setting, swapping and clearing source and target clouds, supplying covariances, changing settings and aligning, the next alignment (pose, Hessian, convergence, output cloud, covariances, fitness score) equals that of a freshly created object given the same current clouds, covariances and settings. The output cloud is the source transformed by the reported pose, and invalid settings are rejected or replaced by safe values.",
 ["histories", "inputs", "configurations"], "all call sequences over set/swap/clear/covariances/settings/align",
 "Tests align, swap once and align again with fixed settings; stale caches need other sequences.",
 [I+"pcl/pcl_registration.hpp", I+"pcl/pcl_registration_impl.hpp", I+"pcl/pcl_proxy.hpp"],
 [("cache invalidation in setters", I+"pcl/pcl_registration_impl.hpp"), ("swap of clouds and all derived data", I+"pcl/pcl_registration_impl.hpp swapSourceAndTarget")],
 ["align output, getFinalTransformation, getFinalHessian, getRegistrationResult, get*Covariances, getFitnessScore"], [("target_voxelmap_, target_tree_, target_covs_ and source counterparts", "lazily built caches", I+"pcl/pcl_registration.hpp")])

prop("C19", "No degenerate input causes a memory error or undefined behaviour",
 "Every public operation (building, searching, inserting, downsampling, feature estimation, registration, sampling, sorting, conversion) on any finite input, including empty, single-point, coincident, collinear, coplanar, far-away and mismatched-size clouds and any valid settings, finishes without reading or writing outside its objects, without undefined arithmetic and without aborting. Degenerate data may yield an uninformative result, but one the interface documents (nothing found, invalid feature, unconverged or unmoved pose).",
 ["inputs", "configurations"], "all degenerate clouds x operations x settings",
 "Tests only construct from empty clouds and run without sanitizers.",
 [I+"ann/kdtree.hpp", I+"ann/incremental_voxelmap.hpp", I+"util/downsampling.hpp", I+"util/normal_estimation.hpp", I+"registration/registration.hpp", I+"ann/projective_search.hpp"],
 [("empty guards, fallbacks for few neighbours, invalid-index sentinels", I+"ann/kdtree.hpp, util/*.hpp, factors/*.hpp")], ["AddressSanitizer / UBSan / libstdc++ assertions over API workloads"])

prop("C20", "Read-only objects can be shared by concurrent callers",
 "Clouds, kd-trees, voxel maps and registration objects that are not being modified can be used by any number of threads at once: concurrent searches, alignments against one shared target, feature estimations and downsamplings of a shared input are free of data races, and each call returns what it returns when run alone.",
 ["schedules", "histories"], "all interleavings of concurrent const operations on shared objects",
 "No test runs two operations concurrently; hidden shared state (statics, caches, mutable members) is invisible sequentially.",
 [I+"ann/kdtree.hpp", I+"ann/incremental_voxelmap.hpp", I+"registration/registration.hpp", I+"ann/projective_search.hpp", I+"util/downsampling.hpp"],
 [("const search over immutable structures; per-call result buffers and factors", I+"ann/kdtree.hpp, registration/registration.hpp")], ["ThreadSanitizer + result comparison against solo runs"])

prop("C21", "Point files round-trip and malformed files are handled safely",
 "Writing points and reading them back yields the same coordinates (with w = 1) for every cloud; reading a simple binary PLY yields exactly its vertices' x, y, z for any number of float properties that start with x, y, z. A missing, truncated, oversized or malformed file never causes a memory error, and never yields coordinates that are not in the file other than zeros for missing data.",
 ["inputs", "fault_sequences"], "all clouds, header layouts, property counts, truncations, trailing data, corrupt headers",
 "Tests read two well-formed files with one property layout.",
 [I+"benchmark/read_points.hpp"], [("header parse, bulk read, strided unpack", I+"benchmark/read_points.hpp read_ply")], ["returned points"])

prop("C22", "The Python interface is faithful to the native one and memory-safe",
 "Every Python function gives the same answer as the native operation it wraps with the same arguments (each argument by name or position reaching the parameter it names, (N,3) and (N,4) arrays alike), batch searches equal the corresponding single searches for every thread count, with unfound entries marked, and accessors return the values held. No sequence of calls with well-typed arguments, including empty clouds and out-of-range indices, crashes or reads memory outside the objects; wrong shapes and indices raise or return an error value.",
 ["inputs", "configurations", "histories"], "all Python-callable operations, array shapes/layouts/dtypes, keyword arguments, thread counts, object lifetimes",
 "Python tests call each function on one pair of scans with defaults; argument routing, layouts, thread counts, lifetimes and bad indices are not covered.",
 ["src/python/align.cpp", "src/python/kdtree.cpp", "src/python/pointcloud.cpp", "src/python/preprocess.cpp", "src/python/voxelmap.cpp", "src/python/factors.cpp", "src/python/result.cpp"],
 [("argument conversion and forwarding lambdas", "src/python/*.cpp")], ["Python return values vs. independent NumPy recomputation and native results"])

prop("C23", "Projective search returns genuine neighbours, the nearest in its window",
 "Projective search returns only existing target points, none twice, in ascending order with true squared distances, never more than k; among the points retained by the projection map, the result is the k nearest of those inside the search window around the query's projection, with horizontal wrap-around and vertical clamping. A query that coincides with a retained point finds it.",
 ["inputs", "configurations"], "all clouds, map sizes (including narrower than the window), window sizes, queries incl. poles, seam and origin, k",
 "The projective search has no exactness or duplicate test and is only used inside one registration test.",
 [I+"ann/projective_search.hpp", I+"ann/knn_result.hpp"], [("index map, window scan, border modes", I+"ann/projective_search.hpp")], ["knn_search / nearest_neighbor_search results"])

prop("C24", "Exponential maps are exact and produce proper rigid motions",
 "For every twist, of any magnitude from zero through tiny to many turns, the rotation part of the exponential is orthonormal with determinant one and equals the rotation about the given axis by the given angle, the full map equals the matrix exponential of the twist (rotation-first ordering), and both are continuous across the small-angle switch. Composing the map of a twist and of its negative gives the identity.",
 ["inputs"], "all rotation/translation vectors incl. angles near 0, the series thresholds, pi and multiples of 2 pi",
 "Tests do not exercise the exponential maps; registration needs only small steps and would hide small-angle or large-angle errors.",
 [I+"util/lie.hpp"], [("series / closed form switch", I+"util/lie.hpp so3_exp, se3_exp")], ["so3_exp, se3_exp, skew"])

prop("C25", "Results do not depend on how the points are stored",
 "Any supported point representation holding the same coordinates (the native cloud built from 3- or 4-vectors of float or double, dynamic matrices, PCL clouds with or without covariances, PCL proxies, user classes with traits) gives the same result from every algorithm within the precision of the representation: downsampling, tree search, feature estimation, voxel maps and registration. Reading an attribute back returns what was stored, homogeneous coordinates are filled in (1 for points, 0 for normals and covariance borders), and resizing keeps all attributes the same length.",
 ["inputs", "configurations"], "all representations x algorithms x clouds",
 "Tests run some algorithms on PCL clouds and compare a few summary numbers.",
 [I+"points/traits.hpp", I+"points/point_cloud.hpp", I+"points/eigen.hpp", I+"pcl/pcl_point_traits.hpp", I+"pcl/pcl_proxy.hpp", I+"pcl/pcl_point.hpp"],
 [("traits specialisations", I+"points/*.hpp, "+I+"pcl/*.hpp")], ["algorithm outputs per representation"])

prop("C26", "Odometry engines produce one consistent pose per frame, in order",
 "Every odometry engine, given a sequence of scans, returns exactly one pose per scan, in scan order, the first being the identity, and each the composition of the estimated frame-to-frame (or frame-to-model) motion; on well-constrained synthetic sequences all engines track the true trajectory within sampling accuracy, whatever the number of threads and however pipeline stages interleave. Engines are found by the name they were registered under, and unknown names yield none.",
 ["schedules", "inputs", "configurations"], "synthetic scan sequences x engines x thread counts x pipeline interleavings",
 "The odometry engines and the benchmark registry are built but never executed by any test.",
 ["src/small_gicp/benchmark/benchmark_odom.cpp", I+"benchmark/benchmark_odom.hpp", "src/benchmark/odometry_benchmark_small_gicp.cpp", "src/benchmark/odometry_benchmark_small_gicp_omp.cpp", "src/benchmark/odometry_benchmark_small_gicp_tbb.cpp", "src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp", "src/benchmark/odometry_benchmark_small_gicp_model_omp.cpp", "src/benchmark/odometry_benchmark_small_gicp_model_tbb.cpp", "src/benchmark/odometry_benchmark_small_vgicp_omp.cpp", "src/benchmark/odometry_benchmark_small_vgicp_tbb.cpp", "src/benchmark/odometry_benchmark_small_vgicp_model_omp.cpp", "src/benchmark/odometry_benchmark_small_vgicp_model_tbb.cpp", "src/benchmark/odometry_benchmark_small_gicp_pcl.cpp"],
 [("pose chaining", "src/benchmark/odometry_benchmark_small_gicp*.cpp"), ("flow graph with sequencing", "src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp"), ("registry", "src/small_gicp/benchmark/benchmark_odom.cpp")], ["estimate() trajectories"])

prop("C27", "Registration without usable correspondences leaves the initial guess alone",
 "When the source or target is empty or no source point has a target within the correspondence range, every registration method and backend returns the initial guess unchanged with zero inliers and zero error and information, and terminates. With an iteration limit of zero the initial guess is returned unconverged.",
 ["inputs", "configurations"], "all empty/non-overlapping clouds, initial guesses, methods, optimisers, backends",
 "Tests never align empty or disjoint clouds.",
 [I+"registration/registration.hpp", I+"registration/optimizer.hpp", I+"ann/kdtree.hpp"],
 [("damped solve of a zero system, early convergence", I+"registration/optimizer.hpp")], ["RegistrationResult"])

prop("C28", "Registration commutes with rigid frame changes and ignores point order",
 "Expressing the target (and the initial guess) in another rigid frame changes the result of ICP and GICP only by that frame change, with the same iterations, inliers and error; permuting the points of either cloud changes nothing, for any method. Both hold up to rounding.",
 ["inputs"], "all scenes, rigid frames, permutations",
 "Tests use one frame and one order; a frame- or order-dependent fault (axis mix-up, stale index, wrong side of a rotation) can pass the loose pose tolerance.",
 [I+"factors/icp_factor.hpp", I+"factors/gicp_factor.hpp", I+"registration/optimizer.hpp", I+"ann/kdtree.hpp"],
 [("right-multiplied update, rotated covariances", I+"factors/gicp_factor.hpp")], ["RegistrationResult of metamorphic pairs"])

prop("C29", "Objects keep alive what they refer to, and copies are independent",
 "A search structure that owns its points (KdTree, ProjectiveSearch) stays valid after every other reference to the points is dropped; results and products (downsampled clouds, preprocessed cloud/tree pairs, Gaussian voxel maps, registration results, PCL registration inputs) do not depend on the lifetime or later modification of what they were made from. Copying, moving, or storing any of these objects in a container yields an object with the same answers; afterwards operations on one never change the other, also when they run in different threads, and a copied voxel map continues exactly as the original would have.",
 ["histories", "schedules", "inputs"], "all copy/move/destroy/modify histories over the library's objects, all threads holding copies",
 "Tests keep every object alive to the end and never copy a map, a tree or a registration object.",
 [I+"ann/kdtree.hpp", I+"ann/projective_search.hpp", I+"ann/incremental_voxelmap.hpp", I+"registration/registration.hpp", I+"registration/registration_helper.hpp", "src/small_gicp/registration/registration_helper.cpp", I+"pcl/pcl_registration.hpp"],
 [("owning search structures", I+"ann/kdtree.hpp, "+I+"ann/projective_search.hpp"), ("voxel storage and copies", I+"ann/incremental_voxelmap.hpp"), ("preprocessed pairs", "src/small_gicp/registration/registration_helper.cpp")], ["answers before/after releases", "map contents and answers after branch histories"])

prop("C30", "Memory, threads and files in use depend on live objects, not on past use",
 "Every public operation (native, PCL and Python) returns the memory, threads and file handles it used, also when it fails: repeating any of them any number of times with any inputs does not accumulate resources beyond a steady state. An incremental voxel map occupies memory in proportion to the voxels it currently holds or held at most, however long its history. The memory one call needs at its peak is bounded by a constant per input point, not by the extent or the resolution of the cloud.",
 ["histories", "inputs"], "any number of repetitions of every operation with varying inputs, incl. failing calls and long insertion histories",
 "Tests call each operation a few times in short-lived processes and never look at memory.",
 [I+"ann/incremental_voxelmap.hpp", I+"ann/kdtree.hpp", I+"util/downsampling.hpp", I+"registration/registration.hpp", I+"pcl/pcl_registration_impl.hpp", I+"benchmark/read_points.hpp", "src/python/align.cpp", "src/python/voxelmap.cpp"],
 [("eviction", I+"ann/incremental_voxelmap.hpp"), ("per-call work buffers", I+"util/downsampling*.hpp, "+I+"registration/registration.hpp"), ("file reading", I+"benchmark/read_points.hpp"), ("object ownership across the language boundary", "src/python/*.cpp")], ["live bytes, threads and descriptors after each batch of calls", "peak bytes of a call"])

prop("C31", "Calls depend on their arguments only and leave process-wide state alone",
 "Every operation's result depends only on its arguments: not on calls made before (of any size, setting, data or outcome), on the thread that makes the call, on where the data lie in memory, or on process-wide state such as the locale, stream formatting, OpenMP and Eigen default thread counts and the C random number generator. No operation changes such process-wide state (OpenMP settings, random generator, floating-point environment, locale, stream formatting, working directory, signal handlers), and nothing is written to standard output unless verbose output was asked for; verbose output does not change results.",
 ["histories", "configurations"], "all histories of calls and all contexts they are made in",
 "Tests call few operations per process, in a fixed order with one data set, and never look at process-wide state.",
 [I+"registration/registration.hpp", I+"registration/optimizer.hpp", I+"registration/registration_helper.hpp", "src/small_gicp/registration/registration_helper.cpp", I+"ann/kdtree.hpp", I+"ann/incremental_voxelmap.hpp", I+"util/downsampling.hpp", I+"util/downsampling_omp.hpp", I+"util/normal_estimation.hpp", I+"util/sort_omp.hpp", I+"util/sort_tbb.hpp", I+"benchmark/read_points.hpp"],
 [("thread counts as arguments", I+"util/*_omp.hpp, "+I+"registration/reduction_omp.hpp"), ("verbose output", I+"registration/optimizer.hpp"), ("work buffers local to a call", I+"**")], ["results of every call in a history against the same call alone in a new process", "process-wide state before and after every call", "bytes written to standard output"])

prop("C32", "Work grows near-linearly with the input, whatever its shape",
 "Building a search tree, voxel-grid and random downsampling, sorting and feature estimation take work near-linear (N log N) in the number of points whatever their distribution or order: uniform, clustered, coincident, duplicated, collinear, sorted, reversed, heavy-tailed. A nearest-neighbour query near well-spread data looks at a number of points that grows with log N and k, not with the cloud; a voxel map query looks at the voxels of the chosen neighbourhood only; an insertion costs in proportion to the inserted points and the live voxels, for any arrangement of voxels and however long the history. A registration searches the target once per source point and linearisation, makes at most the configured number of iterations with at most the configured number of trials each, and an alignment to a target used before does not prepare it again. The threads of a parallel version share the work out instead of repeating it.",
 ["inputs", "histories", "configurations"], "all clouds, orders, sizes, settings, builders, backends, insertion histories",
 "Tests time nothing and count nothing; slow paths show only for particular shapes, orders or sizes.",
 [I+"ann/kdtree.hpp", I+"ann/kdtree_omp.hpp", I+"ann/kdtree_tbb.hpp", I+"ann/projection.hpp", I+"ann/incremental_voxelmap.hpp", I+"ann/flat_container.hpp", I+"ann/gaussian_voxelmap.hpp", I+"ann/projective_search.hpp", I+"util/vector3i_hash.hpp", I+"util/sort_omp.hpp", I+"util/sort_tbb.hpp", I+"util/downsampling.hpp", I+"util/downsampling_omp.hpp", I+"util/downsampling_tbb.hpp", I+"util/normal_estimation.hpp", I+"registration/optimizer.hpp", I+"pcl/pcl_registration_impl.hpp"],
 [("median splits, pruning", I+"ann/kdtree.hpp"), ("hash", I+"util/vector3i_hash.hpp"), ("pivot choice, runs of equal keys", I+"util/sort_omp.hpp"), ("iteration limits", I+"registration/optimizer.hpp"), ("prepared targets", I+"pcl/pcl_registration_impl.hpp")], ["executed basic blocks and bytes moved per operation", "calls of comparators, searches, factors"])

prop("C33", "A call that fails says so, leaks nothing and breaks nothing",
 "When memory runs out, or code supplied by the caller (point-cloud traits, factor, rejector, general factor, random generator, key function) throws, anywhere outside an OpenMP parallel region, the call ends with exactly that exception (or absorbs the failure and returns the normal result), keeps no memory, leaves what it was only to read as it was, and the same call made again, on the same registration object where there is one, gives the result it would have given. What it was modifying stays usable: after a failed PointCloud::resize the points, normals and covariances have equal lengths and the kept elements their values; in a voxel map every stored point comes with its own finite attributes and is found by a search, searches return stored points only, a cell is held by one voxel, and a repeated insertion represents every point; after a failed setInputTarget, setInputSource or align of the PCL interface, the same call again leads to the result of a fresh object.",
 ["inputs", "faults", "histories"], "every allocation and every customization point as the place of failure, once or persistently; all sequential operations, user code under TBB too; all voxel maps and insertion histories",
 "Tests never let an allocation or a callback fail.",
 [I+"points/point_cloud.hpp", I+"ann/kdtree.hpp", I+"ann/incremental_voxelmap.hpp", I+"ann/flat_container.hpp", I+"ann/gaussian_voxelmap.hpp", I+"ann/projective_search.hpp", I+"util/downsampling.hpp", I+"util/downsampling_tbb.hpp", I+"util/normal_estimation.hpp", I+"util/sort_tbb.hpp", I+"registration/registration.hpp", I+"registration/reduction.hpp", I+"registration/reduction_tbb.hpp", "src/small_gicp/registration/registration_helper.cpp", I+"pcl/pcl_registration_impl.hpp"],
 [("order of updates in an insertion, LRU removal", I+"ann/incremental_voxelmap.hpp"), ("attributes before the point", I+"ann/flat_container.hpp"), ("sizes restored", I+"points/point_cloud.hpp"), ("cached tree, covariances and voxel maps", I+"pcl/pcl_registration_impl.hpp")], ["allocations and releases", "exceptions leaving a call", "object state after a failure"])

prop("C34", "Data out of reach has no influence",
 "Points beyond the correspondence distance of every point of the other cloud change neither the estimated pose, the inlier count, the error nor the convergence of a registration (ICP, point-to-plane, GICP, VGICP, robust variants; any optimizer and backend), and a target point given twice changes none of them either. What a nearest-neighbour query of a kd-tree or of a projective search answers does not change when points farther than its k-th neighbour (outside its window, respectively) are added. A downsampled voxel depends on the points inside it only, a voxel of a map on the insertions into it and the LRU clock only, a local feature on the neighbours of its point only. The same holds end to end, through the helper functions and the PCL interface, up to the resolution that the shifted data leave to floating point.",
 ["inputs", "configurations"], "all clouds with any number of points added out of reach, merged in any order; all methods, builders, maps and backends",
 "Tests use one scan pair and never compare a run with a run on more data; a limit, extent, count or statistic taken over the whole input instead of over what is in reach shows only so.",
 [I+"registration/registration.hpp", I+"registration/reduction.hpp", I+"registration/reduction_omp.hpp", I+"registration/reduction_tbb.hpp", I+"registration/rejector.hpp", I+"registration/optimizer.hpp", I+"ann/kdtree.hpp", I+"ann/projective_search.hpp", I+"ann/incremental_voxelmap.hpp", I+"ann/gaussian_voxelmap.hpp", I+"util/downsampling.hpp", I+"util/normal_estimation.hpp", "src/small_gicp/registration/registration_helper.cpp", I+"pcl/pcl_registration_impl.hpp"],
 [("rejection by distance", I+"registration/rejector.hpp"), ("pruning", I+"ann/kdtree.hpp"), ("voxel keys", I+"util/downsampling.hpp, "+I+"ann/incremental_voxelmap.hpp"), ("sums over inliers", I+"registration/reduction*.hpp")], ["results of paired executions with and without the added data"])

prop("C35", "User-supplied components are called as promised",
 "In one linearization every source point is looked up once, at its transformed position; the rejector is asked exactly about the points a neighbour was found for, with the transformation, indices and squared distance of that lookup; the point factor made for that point, from the given setting, is linearized once, by one thread at a time, and contributes exactly if it says so; after all of them the general factor is called once, by the calling thread, with the complete sum, and an error evaluation likewise asks every inlier once at the same pose. The first linearization is at the initial guess, there are at most max_iterations, and the inlier count is that of the last one. Optimizer and reduction objects get the caller's objects and settings and align returns the optimizer's answer unchanged; voxel contents get each inserted point once, in order, with the insertion's arguments, and are finalized before any search; a tree's projection gets non-empty valid ranges and the setting, and searches stay exact for any axis it answers; a projective search honours the projection and border modes given; a feature setter is called once per point with a rotation; a point type is accessed inside its bounds only and every output point is set.",
 ["inputs", "schedules", "configurations"], "all user-defined factors, kernels, searches, rejectors, general factors, optimizers, reductions, voxel contents, projections, border modes, setters and point types; all backends",
 "Tests use the built-in components, which hide a call made twice, with other arguments, from another thread or not at all.",
 [I+"registration/registration.hpp", I+"registration/optimizer.hpp", I+"registration/reduction.hpp", I+"registration/reduction_omp.hpp", I+"registration/reduction_tbb.hpp", I+"factors/icp_factor.hpp", I+"factors/plane_icp_factor.hpp", I+"factors/gicp_factor.hpp", I+"factors/robust_kernel.hpp", I+"ann/incremental_voxelmap.hpp", I+"ann/kdtree.hpp", I+"ann/kdtree_omp.hpp", I+"ann/kdtree_tbb.hpp", I+"ann/projective_search.hpp", I+"util/normal_estimation.hpp", I+"util/normal_estimation_omp.hpp", I+"util/normal_estimation_tbb.hpp", I+"util/downsampling.hpp"],
 [("order of calls", I+"registration/optimizer.hpp, "+I+"registration/reduction*.hpp"), ("search, rejector, contribution", I+"factors/*.hpp"), ("contents and settings of voxels", I+"ann/incremental_voxelmap.hpp"), ("axis choice", I+"ann/kdtree*.hpp")], ["an event log of every call of a user component: arguments, pose, thread, answer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
