"""The properties, and the symbolic harness runs that decide each of them.
mkmeta.py derives properties.jsonl and MANIFEST.json from this table; check.py runs it."""
ENGINE_ASSUMPTIONS = [
    "double arithmetic is interpreted as exact real arithmetic (rounding, overflow and underflow are outside the claim); decimal literals in the source stand for the exact rational or square root they abbreviate",
    "every divisor met on a path is assumed non-zero unless a harness says otherwise; divisors_assumed_nonzero counts them",
    "Eigen's JacobiSVD, EigenSolver, large LU/inverse and Levenberg-Marquardt are replaced by contract hooks; a hook verifies with the solver that its answer satisfies the decomposition's defining equations before returning it",
    "branch conditions and inequalities over up to six bounded inputs may be decided by interval branch-and-bound over the whole input box (outward rounded) before Z3 is asked; counted as 'interval'",
    "trusted: clang 18 -O1 IR without optimisation passes, this engine's IR semantics, Z3 4.8.12; every violation is replayed natively against the real library and the real Eigen before it is reported",
]

def R(file, fns, w=1, thorough_only=False, thorough=None, **opts):
    return [{"file": file, "fn": f, "opts": dict(opts), "weight": w, "thorough_only": thorough_only, "thorough": thorough or {}} for f in fns.split()]

PROPS = {}
def P(pid, title, statement, over, text, why, files, mech, runs, bounds, note, assumptions=(), validate=3):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, runs=runs, bounds=bounds, note=note, assumptions=list(assumptions), validate=validate)

P("C01", "Cayley and quaternion conversions are exact inverse rotation maps",
  "Converting Cayley parameters or a unit quaternion to a matrix yields a proper rotation, the very rotation those parameters denote. Converting that rotation back recovers the parameters (the quaternion up to sign), for every rotation without a singularity of the map, and the reduced Cayley matrix is the rotation scaled by one plus the squared parameter norm.",
  ["inputs"], "all Cayley vectors with components up to 50 in magnitude, all unit quaternions, all rotations (including the patterns with vanishing quaternion components)",
  "The conversions are only exercised indirectly by printed demos on random rotations; nothing compares them, and the special rotations where a term vanishes have measure zero for a random test.",
  ["src/math/cayley.cpp", "src/math/quaternion.cpp"], [("cayley2rot, rot2cayley", "src/math/cayley.cpp"), ("quaternion2rot, rot2quaternion", "src/math/quaternion.cpp")],
  R("h_math", "cayley_roundtrip cayley_from_quaternion quaternion_to_rotation") + R("h_math", "quaternion_from_rotation", 5),
  "loop-free code; 3 or 4 symbolic reals, no unrolling; 180-degree rotations are outside the Cayley claims (the map has no value there)",
  "exact-real identity decided by normal form and Z3 over all parameter values")

P("C04", "Gauss-Jordan elimination preserves solutions and reaches echelon form",
  "After elimination every row of the matrix is still a combination of the original equations, so any vector solving the original homogeneous system solves the reduced one. The requested lower rows end up reduced, with unit pivots and zeros in the other pivot columns, whichever rows had to be exchanged on the way.",
  ["inputs"], "all matrices of the listed sizes, including vanishing pivots that force row exchanges",
  "Only the 10-or-larger systems of one solver reach this code in the demos, always with well-conditioned random data; zero pivots and row exchanges never occur.",
  ["src/math/gauss_jordan.cpp"], [("gauss_jordan", "src/math/gauss_jordan.cpp")],
  R("h_math", "gauss_jordan_2x3 gauss_jordan_2x4 gauss_jordan_3x4_col0 gauss_jordan_3x4_diag gauss_jordan_3x4_row2 gauss_jordan_3x5_exit1 gauss_jordan_4x5_exit2", 5),
  "matrices of 2x3, 2x4, 3x4, 3x5 and 4x5 (some entries fixed to zero), with the early-exit parameter of the public function; all loops fully unrolled",
  "complete within the matrix sizes", validate=2)

P("C20", "RANSAC returns a supported model, correct inliers, or failure",
  "When the estimator reports success, the returned model is one of the hypotheses generated from drawn samples, no hypothesis it evaluated had more inliers, and the inlier list holds exactly the correspondences within the threshold of that model. It evaluates at most the configured number of hypotheses, reports failure when no hypothesis was found or data is too short, and a reused object never reports the previous run's model.",
  ["inputs", "configurations", "histories"], "all residual values, all sampled index sets, all thresholds, 3 to 5 correspondences, up to 3 iterations, one and two consecutive runs of the same object",
  "The demos print whatever comes out on random outlier problems; an off-by-one in the iteration bound, a wrong comparison or a stale model does not change the exit status.",
  ["include/opengv/sac/implementation/Ransac.hpp", "include/opengv/sac/implementation/SampleConsensusProblem.hpp", "include/opengv/sac/implementation/SampleConsensus.hpp"],
  [("computeModel", "include/opengv/sac/implementation/Ransac.hpp"), ("countWithinDistance, selectWithinDistance", "include/opengv/sac/implementation/SampleConsensusProblem.hpp")],
  R("h_sac", "sac_ransac_full sac_ransac_subset sac_ransac_reuse", 5) + R("h_sac", "sac_too_few sac_within"),
  "3 to 5 correspondences, at most 3 iterations, symbolic residuals, symbolic draws; the user's problem (residuals, solvability of a sample) is arbitrary",
  "every residual table and every sequence of draws within the bounds")

P("C21", "LMedS returns the hypothesis with the smallest median residual",
  "When the estimator succeeds, the returned model is the evaluated hypothesis whose squared residuals over the chosen correspondences have the smallest median, for odd and even counts. Its inlier list holds exactly the correspondences within the threshold, the configured number of hypotheses bounds the search, and a reused object never reports the previous run's model.",
  ["inputs", "configurations", "histories"], "all residual values for 3 or 4 correspondences, up to 3 iterations, fresh and reused objects",
  "No test of the repository runs this estimator with a checked result; the median of an even count, ties, and reuse depend on residual orderings that random data rarely produces.",
  ["include/opengv/sac/implementation/Lmeds.hpp"], [("computeModel", "include/opengv/sac/implementation/Lmeds.hpp"), ("getDistancesToModel", "include/opengv/sac/implementation/SampleConsensusProblem.hpp")],
  R("h_sac", "sac_lmeds_odd sac_lmeds_even sac_lmeds_reuse", 5) + R("h_sac", "sac_too_few"),
  "3 (odd) and 4 (even) correspondences, at most 3 iterations, all residual orderings",
  "every residual table within the bounds")

P("C22", "Samples are distinct, in-range, from the selected subset, and unbiased",
  "Each drawn sample has the size the problem asks for, contains no index twice and only indices the problem was restricted to. Every subset can be drawn, samples the problem rejects are redrawn up to the retry bound and never reported as good, and a problem with too few indices yields an empty sample.",
  ["inputs", "histories"], "all sequences of random draws, all restrictions of the index set within the bounds, several consecutive draws",
  "Random draws are seeded from the clock or a constant; a sampler that repeats an index, leaves the subset or can never draw some subset passes every demo.",
  ["include/opengv/sac/implementation/SampleConsensusProblem.hpp"], [("drawIndexSample, getSamples", "include/opengv/sac/implementation/SampleConsensusProblem.hpp")],
  R("h_sac", "sac_sample_subset sac_sample_all sac_sample_twice sac_sample_uniform_indices sac_sample_good sac_sample_reachable"),
  "index sets of up to 5, samples of up to 3, up to 3 consecutive draws, every value of every random draw",
  "every draw sequence within the bounds")

P("C23", "Multi-camera RANSAC and sampling keep per-camera index lists right",
  "For problems with several cameras or pairs, each camera contributes the requested number of distinct indices from its own correspondences, and the estimator's reported inliers are, camera by camera, exactly the correspondences within the threshold of the returned model. The best hypothesis by total inlier count is returned, within the configured number of hypotheses, and a reused object never reports an old model.",
  ["inputs", "configurations", "histories"], "all residuals and draws for 2 cameras with up to 3 correspondences each, fresh and reused objects",
  "The multi-camera estimator is only demonstrated on one random scene whose output is printed; mixing up camera and correspondence indices can go unseen.",
  ["include/opengv/sac/implementation/MultiRansac.hpp", "include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp"],
  [("computeModel", "include/opengv/sac/implementation/MultiRansac.hpp"), ("drawIndexSample, getSamples, selectWithinDistance, countWithinDistance", "include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp")],
  R("h_sac", "sac_multi_ransac sac_multi_ransac_subset sac_multi_ransac_reuse sac_multi_ransac_three sac_multi_ransac_three_unequal", 5) + R("h_sac", "sac_multi_sample sac_multi_too_few sac_multi_within sac_multi_uniform"),
  "2 cameras, up to 3 correspondences each, at most 3 iterations, symbolic residuals and draws",
  "every residual table and draw sequence within the bounds")

P("C30", "Adapters hand out exactly the correspondence the user supplied",
  "For every index, an adapter returns the bearing vector, point, camera offset, camera rotation and weight the user stored for that correspondence, in every camera configuration and for arrays as well as containers. Poses given at construction or through setters are returned unchanged, with zero translation and identity rotation as the defaults.",
  ["inputs", "configurations"], "all stored values, all assignments of correspondences to cameras, every constructor of every single-index adapter",
  "All solvers read their data through these classes, but demos use one constructor each and cannot distinguish a swapped camera from noise.",
  ["src/absolute_pose", "src/relative_pose", "src/point_cloud", "include/opengv/absolute_pose", "include/opengv/relative_pose", "include/opengv/point_cloud"],
  [("CentralAbsoluteAdapter, NoncentralAbsoluteAdapter, MACentralAbsolute, MANoncentralAbsolute", "src/absolute_pose"), ("CentralRelativeAdapter, CentralRelativeWeightingAdapter, NoncentralRelativeAdapter, MACentralRelative, MANoncentralRelative", "src/relative_pose"), ("PointCloudAdapter, MAPointCloud", "src/point_cloud")],
  R("h_adapt", "central_absolute noncentral_absolute ma_absolute central_relative weighting_relative noncentral_relative ma_relative point_cloud"),
  "2 or 3 correspondences, 2 cameras, every camera assignment, symbolic values",
  "every stored value and camera assignment within the sizes")

P("C31", "Multi-camera indices and serialized indices agree everywhere",
  "A multi-camera adapter numbers its correspondences camera by camera without gaps, and translating between the running number and (camera, correspondence) in either direction, singly or for lists, is consistent. Every datum read through the running number equals the one read through the pair, and per-camera and total counts match the data, also when cameras have no or different numbers of correspondences.",
  ["inputs", "configurations"], "3 cameras with every combination of 0 to 2 correspondences, all stored values",
  "The demos give each camera the same number of correspondences, so an offset error in the translation cannot show.",
  ["src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp", "src/relative_pose/NoncentralRelativeMultiAdapter.cpp", "src/relative_pose/CentralRelativeMultiAdapter.cpp", "src/relative_pose/MANoncentralRelativeMulti.cpp"],
  [("convertMultiIndex, convertMultiIndices, multiFrameIndex, multiPairIndex, multiCorrespondenceIndex", "src/absolute_pose/NoncentralAbsoluteMultiAdapter.cpp, src/relative_pose/*Multi*.cpp")],
  R("h_adapt", "multi_absolute multi_central_relative multi_noncentral_relative multi_ma_relative"),
  "3 cameras, 0 to 2 correspondences each",
  "every combination of counts within the sizes")

P("C05", "Point-cloud alignment returns the rigid motion relating the clouds",
  "For two clouds related by a rotation and a translation, three or more non-collinear point pairs give exactly that transformation, never a reflection, also for planar clouds and whichever signs the decomposition picks. The rotation is a proper orthonormal matrix, and the all-points and index-list overloads agree.",
  ["inputs"], "all rotations and translations, clouds of three points in a plane and four points in space with symbolic extents, both signs of the decomposition's free vector",
  "The demos align generic random clouds; the planar case, where the sign of a singular vector is arbitrary and a reflection can come out, has measure zero there.",
  ["src/point_cloud/methods.cpp", "src/math/arun.cpp"], [("threept_arun", "src/point_cloud/methods.cpp"), ("arun, arun_complete", "src/math/arun.cpp")],
  R("h_math", "arun_kernel") + R("h_geom", "cloud_three cloud_four cloud_complete", 3),
  "3 (planar) and 4 point pairs in symmetric arrangements with symbolic extents under an arbitrary rigid motion; the SVD is a verified contract",
  "every rigid motion and every extent of the cloud families")

P("C06", "Two-point position with known orientation returns the camera position",
  "Given two world points, their bearing vectors and the camera orientation, the returned position is the true one for every configuration where the two rays differ. It must not depend on how the baseline lies relative to the axes: equal, vanishing or negative baseline components give the same answer, through both overloads.",
  ["inputs"], "symbolic bearing vectors, depths, positions, orientation; baselines with equal or vanishing components in every order and sign",
  "The method branches on which baseline component is largest; random test data never has ties or zero components and only reports timing and printed errors.",
  ["src/absolute_pose/methods.cpp"], [("p2p", "src/absolute_pose/methods.cpp")],
  R("h_geom", "p2p_generic p2p_depths p2p_rot p2p_tie01 p2p_tie02 p2p_tie12 p2p_vanishing p2p_axis", 3),
  "one pair of correspondences; per harness 3 to 7 of the scene parameters are symbolic and the rest fixed rationals",
  "every value of the symbolic parameters within the ranges")

P("C11", "Two-point relative pose with known rotation returns the true direction",
  "With the rotation known, two correspondences determine the direction of translation: the returned vector has unit length, is parallel to the true translation and points the same way, whichever side of the baseline the points lie on. Letting the method unrotate the bearing vectors or passing them already unrotated gives the same answer, in both overloads.",
  ["inputs"], "symbolic bearing vector, depths, rotation and second point on either side of the epipolar plane",
  "A sign-flipped translation has the same epipolar geometry; the demos print the result without asserting a sign, and the sign logic only matters for some arrangements.",
  ["src/relative_pose/methods.cpp"], [("twopt", "src/relative_pose/methods.cpp")],
  R("h_geom", "twopt_unrotate twopt_unrotate_rot twopt_unrotate_depth twopt_unrotated", 3),
  "one pair of correspondences; per harness 2 to 4 scene parameters symbolic",
  "every value of the symbolic parameters within the ranges")

P("C12", "Rotation-only estimation returns the rotation between the views",
  "When corresponding bearing vectors differ by a pure rotation, both the many-point and the two-point estimator return exactly that rotation, a proper orthonormal matrix. This includes coplanar bearing vectors, where the decomposition leaves a sign free, and holds for the all-points, pair and index-list overloads.",
  ["inputs"], "all rotations, families of two, three and four bearing vectors with symbolic spread, both signs of the free singular vector",
  "The demos use many generic bearing vectors; the two-point and coplanar cases where the determinant sign decides between rotation and reflection are not asserted.",
  ["src/relative_pose/methods.cpp", "src/math/arun.cpp"], [("rotationOnly, twopt_rotationOnly", "src/relative_pose/methods.cpp"), ("arun", "src/math/arun.cpp")],
  R("h_math", "arun_kernel") + R("h_geom", "rotation_only twopt_rotation_only", 3),
  "2 to 4 correspondences in symmetric arrangements, arbitrary rotation; the SVD is a verified contract",
  "every rotation and spread of the families")

P("C18", "Triangulation returns the point where the two rays meet",
  "For two bearing vectors pointing at a common scene point, both triangulation methods return that point expressed in the first viewpoint's frame, for every relative rotation and translation given by the adapter and every pair of depths, as long as the rays are not parallel.",
  ["inputs"], "all pairs of bearing vectors (stereographic chart), all depths, all relative rotations",
  "The demos print reconstruction errors over random scenes without asserting them; a frame mix-up hides behind small baselines.",
  ["src/triangulation/methods.cpp"], [("triangulate, triangulate2", "src/triangulation/methods.cpp")],
  R("h_geom", "triangulate_rot triangulate2_rot triangulate2_fix", 3),
  "one correspondence out of several stored; bearing vectors, depths and rotation all symbolic; the SVD of the linear method is a verified contract",
  "every scene within the ranges")

P("C02", "Closed-form cubic and quartic solvers return the polynomial's roots",
  "For every cubic, the closed form returns three finite values: the three real roots, or the real root first followed by the real part of the complex pair, multiple roots included. For every quartic with distinct roots it returns four finite values holding each real root and, for each complex pair, its real part twice; both overloads agree, whatever the leading coefficient, also when odd coefficients vanish.",
  ["inputs"], "all cubics with bounded coefficients; quartics with four real roots, two real roots and a pair, or two pairs, parametrised by their roots, both overloads, biquadratic ones included",
  "The closed forms switch formulas with the sign of a discriminant, vanish-tests and complex branch cuts; the demos only meet the quartics of random perspective scenes, where no term vanishes.",
  ["src/math/roots.cpp"], [("o3_roots, o4_roots", "src/math/roots.cpp")],
  R("h_roots", "o3_three o3_one o3_three_lead o3_double o3_triple o3_vanishing o4_real_vec o4_real_mat o4_pairs_vec o4_pairs_mat o4_mixed_vec o4_mixed_mat o4_shift_vec o4_shift_mat o4_biquad_vec o4_biquad_mat"),
  "loop-free code; cubics: 3 coefficients symbolic with several leading coefficients; quartics: root positions symbolic, lead and shift symbolic in separate runs; the principal complex cube root is a verified contract; quartics with repeated roots only as far as the families contain them",
  "every polynomial of the families")

P("C03", "Sturm chains count, bound and bracket the real roots of a polynomial",
  "For a polynomial with distinct roots, the sign changes of its Sturm chain at two bounds differ by the number of real roots between them, lower bound excluded and upper bound included, through both evaluation functions and both constructors. The root bound encloses every real root, bracketing returns exactly one value per real root within the tolerance, and both root finders return exactly one value approximating each real root.",
  ["inputs"], "polynomials of degree 2 to 4 given by their roots (real and complex), with either sign of the leading coefficient; all bounds, including bounds that are roots and polynomials with vanishing coefficients",
  "The one demo prints the roots of one fixed polynomial; sign conventions at exact zeros, degree drops in the chain and roots lying on a bracket's end never occur there.",
  ["src/math/Sturm.cpp"], [("Sturm, computeNegatedRemainder, evaluateChain, evaluateChain2, computeLagrangianBound, bracketRoots, findRoots, findRoots2", "src/math/Sturm.cpp"), ("Bracket", "src/math/Sturm.cpp")],
  R("h_sturm", "count2 bound2 bound3 find_roots find_roots2") + R("h_sturm", "count3 count4 brackets", 6),
  "degree 2 to 4; counting: up to 2 symbolic roots and a symbolic bound; root finding: families with 1 or 2 symbolic roots whose bound is rational; bisection and Newton loops run to completion",
  "every polynomial and bound of the families")

P("C24", "Absolute-pose and point-cloud residuals measure the true misalignment",
  "The distance a robust estimator thresholds is, for an absolute pose, one minus the cosine between the measured bearing vector and the direction from the correspondence's own camera to its point, zero for exact data, and for point clouds the length of the alignment error. Each selected correspondence gets exactly one distance, in the order of the list, for single cameras, camera rigs and multi-camera adapters.",
  ["inputs", "configurations"], "all poses, points and bearing vectors within the ranges, every camera assignment, several index lists",
  "A wrong camera offset, pose inverse or index in the residual only shifts the inlier statistics; random demos with a few percent outliers still converge and print something.",
  ["src/sac_problems/absolute_pose", "src/sac_problems/point_cloud"], [("getSelectedDistancesToModel", "src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp"), ("getSelectedDistancesToModel", "src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp"), ("getSelectedDistancesToModel", "src/sac_problems/point_cloud/PointCloudSacProblem.cpp")],
  R("h_dist", "absolute absolute_multi cloud", 3),
  "3 to 5 correspondences, up to 2 cameras, 3 index lists; rotation and translation symbolic in separate runs, points and bearing vectors symbolic throughout",
  "identity of the computed and the specified residual, for every value of the symbolic scene")

P("C25", "Relative-pose residuals measure both views' reprojection error",
  "The distance thresholded for a relative pose is the sum over both views of one minus the cosine between the measured bearing vector and the direction to the triangulated point, expressed in the cameras that took the measurement, and for rotation-only problems one minus the cosine after rotating. One distance per selected correspondence, in list order; reading distances leaves the user's prior in the adapter as it was where the problem promises it.",
  ["inputs", "configurations"], "relative poses, bearing vectors and camera assignments within the ranges, several index lists, each single-pair problem class",
  "The residual combines triangulation, body-to-camera transforms and two frames; a mistake in one of them degrades inlier selection without any demo failing.",
  ["src/sac_problems/relative_pose"], [("getSelectedDistancesToModel", "src/sac_problems/relative_pose/{CentralRelativePose,NoncentralRelativePose,RotationOnly,TranslationOnly,Eigensolver}SacProblem.cpp"), ("triangulate2", "src/triangulation/methods.cpp")],
  R("h_dist", "relative_central relative_noncentral rotation_only", 3),
  "3 correspondences, up to 2 cameras with every assignment; per run one or two of rotation, translation and a bearing vector symbolic, rotation-only fully symbolic",
  "identity of the computed and the specified residual, for every value of the symbolic scene")

P("C26", "Multi-camera relative residuals and sample sizes use the right camera pair",
  "For several camera pairs, each selected correspondence of a pair gets the two-view reprojection distance of its own bearing vectors under that pair's own relative pose or camera extrinsics, and lists selecting some of a pair's correspondences read exactly those. The per-camera sample sizes add up to what the chosen algorithm needs, spread evenly over the cameras, for every random choice of the first camera.",
  ["inputs", "configurations", "histories"], "2 camera pairs with different numbers of correspondences, several index lists, poses within the ranges; 2 or 3 cameras and every random draw for the sample sizes",
  "The demos use the full lists of equally sized cameras, so reading the wrong element or an out-of-range starting camera goes unseen.",
  ["src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp", "src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp", "src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp"],
  [("getSelectedDistancesToModel, getSampleSizes", "src/sac_problems/relative_pose/Multi*.cpp, src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp")],
  R("h_dist", "multi_noncentral multi_central sample_sizes", 3) ,
  "2 pairs with 2 and 3 correspondences, 3 index lists; one rotation parameter and one translation component symbolic; sample sizes for every value of rand() and each algorithm",
  "identity of the computed and the specified residual, for every value of the symbolic scene")

REF = "the minimiser's own iterations (Eigen's Levenberg-Marquardt) are outside the claim: the harness plays the minimiser, in the symbolic and the native build"
P("C10", "Absolute pose refinement minimises the reprojection error it is given",
  "Nonlinear absolute-pose refinement starts from the pose stored in the adapter, hands the minimiser one residual per selected correspondence, each the misalignment of that correspondence under the evaluated pose, and returns the pose the minimiser found. Refining a robust model starts from that model and uses exactly its inliers, for single cameras, rigs and multi-camera adapters.",
  ["inputs", "configurations"], "all start poses, evaluated poses, points and bearing vectors within the ranges; all camera assignments listed; all call forms",
  "The demos start near the truth and print the result, so a residual using the wrong camera or a start point that is ignored still converges.",
  ["src/absolute_pose/methods.cpp", "src/sac_problems/absolute_pose"], [("optimize_nonlinear", "src/absolute_pose/methods.cpp"), ("optimizeModelCoefficients", "src/sac_problems/absolute_pose/*.cpp")],
  R("h_refine", "absolute_start absolute_rot absolute_pos absolute_multi", 3),
  "4 or 5 correspondences, up to 2 cameras; start pose, evaluated rotation and evaluated position symbolic in separate runs", "identity of residuals, start and result for every value of the symbolic scene", assumptions=[REF])

P("C17", "Relative pose refinement minimises both views' reprojection error",
  "Nonlinear relative-pose refinement starts from the relative pose stored in the adapter, hands the minimiser one residual per selected correspondence, each the sum of both views' misalignments with the triangulated point under the evaluated pose, independent of earlier evaluations, and returns the pose found. Refining a robust model starts from that model and uses exactly its inliers, for central, non-central, translation-only and multi-camera problems.",
  ["inputs", "configurations", "histories"], "start poses, evaluated poses within the ranges, all camera assignments listed, all call forms; evaluations interleaved with other poses",
  "The residual function writes to the adapter it reads from; demos start near the truth and only print the result.",
  ["src/relative_pose/methods.cpp", "src/sac_problems/relative_pose"], [("optimize_nonlinear", "src/relative_pose/methods.cpp"), ("optimizeModelCoefficients", "src/sac_problems/relative_pose/*.cpp"), ("triangulate2", "src/triangulation/methods.cpp")],
  R("h_refine", "relative_start relative_rot relative_pos relative_multi", 3),
  "4 or 5 correspondences with fixed bearing vectors, up to 2 cameras; start pose fully symbolic, of the evaluated pose one rotation or translation component", "identity of residuals, start and result for every value of the symbolic scene", assumptions=[REF])

P("C28", "Point-cloud refinement minimises the alignment error from the given start",
  "Nonlinear point-cloud refinement starts from the transformation stored in the adapter, hands the minimiser one residual per selected pair, each the distance between the first point and the transformed second point, and returns the transformation the minimiser found, through the all-points and the index-list overload.",
  ["inputs"], "all start transformations, evaluated transformations and points within the ranges, both overloads",
  "The demo starts near the truth and prints the result; ignoring the start or the index list still converges there.",
  ["src/point_cloud/methods.cpp"], [("optimize_nonlinear", "src/point_cloud/methods.cpp")],
  R("h_refine", "cloud_start cloud_rot cloud_pos", 3),
  "4 point pairs; start, evaluated rotation and evaluated translation symbolic in separate runs", "identity of residuals, start and result for every value of the symbolic scene", assumptions=[REF])

P("C07", "Three-point absolute pose returns the true pose among its solutions",
  "For three non-collinear world points seen along their true directions, both three-point solvers return at most four poses, one of which is the true camera pose, whatever the order of the points, the side from which the camera sees them and the index overload used. Directions aligned with the solver's internal frame must not lose it; for the second solver's elimination (Gao) degenerate angles, such as one direction perpendicular to both others, are excluded.",
  ["inputs", "configurations"], "angles, baseline, third point, orientations and origin symbolic; depths and directions symbolic for the second solver; directions perpendicular to the frame axes",
  "The demos check nothing and use random points; aligned directions, swapped order and each of the root slots only differ on inputs a random test never produces.",
  ["src/absolute_pose/methods.cpp", "src/absolute_pose/modules/main.cpp", "src/math/roots.cpp", "src/math/arun.cpp"],
  [("p3p_kneip, p3p_gao", "src/absolute_pose/methods.cpp"), ("p3p_kneip_main, p3p_gao_main", "src/absolute_pose/modules/main.cpp"), ("o4_roots", "src/math/roots.cpp"), ("arun_complete", "src/math/arun.cpp")],
  R("h_p3p", "kneip_theta kneip_alpha kneip_beta kneip_point kneip_base kneip_angles kneip_all kneip_world kneip_camera kneip_flat gao_d1 gao_depths gao_angle gao_ray gao_all gao_world gao_sixty", 3) + R("h_roots", "o4_real_mat o4_mixed_mat o4_pairs_mat o4_biquad_mat", 2) + R("h_geom", "cloud_complete", 2) + R("h_math", "arun_kernel"),
  "loop-free apart from the four roots; up to 7 symbolic reals per run; the quartic's root is a verified contract (the polynomial built by the solver is shown to have the scene's root, in any of the four slots), as is the final alignment of the second solver; both contracts' implementations are checked by their own runs",
  "every scene within the ranges")

P("C13", "Five-point relative pose solvers return the true essential matrix",
  "For five correspondences of points seen from two poses, both five-point solvers (Stewenius, Nister) return candidate matrices among which is the scene's essential matrix up to scale, wherever its solution sits among the candidates and whatever basis of the solution space the decomposition picks. Correspondences beyond five are used, and the all-points and index-list overloads agree.",
  ["inputs", "configurations"], "baseline, depths, rotation, points symbolic; every position of the true solution among the candidates; arbitrary bases of the solution space",
  "The demos print the candidates without looking for the truth; a slip in one of the hundreds of polynomial coefficients, or in one root slot, only degrades some solutions.",
  ["src/relative_pose/methods.cpp", "src/relative_pose/modules/main.cpp", "src/relative_pose/modules/fivept_stewenius", "src/relative_pose/modules/fivept_nister"],
  [("fivept_stewenius, fivept_nister", "src/relative_pose/methods.cpp"), ("fivept_stewenius_main, fivept_nister_main", "src/relative_pose/modules/main.cpp"), ("modules", "src/relative_pose/modules/fivept_stewenius/modules.cpp, src/relative_pose/modules/fivept_nister/modules.cpp")],
  R("h_five", "stew_xyz stew_t stew_r stew_scene stew_basis stew_solve stew_all nister_xyz nister_t nister_r nister_basis nister_scene nister_row", 2) + R("h_five", "stew_pub_t stew_pub_r stew_pub_ray stew_pub_more nister_pub_t nister_pub_r nister_pub_ray nister_pub_more", 2),
  "5 or 6 correspondences; one group of scene parameters symbolic per run, the rest fixed rationals; SVD, the 10x10 linear solve, the eigen-decomposition and the Sturm root finder are verified contracts (the action matrix or degree-10 polynomial built by the solver is shown to have the scene's solution); the root finder has its own runs under C03",
  "every scene of the families")

P("C14", "Seven- and eight-point solvers return the true essential matrix",
  "For seven correspondences, at most three matrices are returned, one of which is the scene's essential matrix up to scale. For eight or more correspondences the single returned matrix is the scene's essential matrix up to scale, and for inconsistent data the rank-two matrix closest to the linear solution. Additional correspondences beyond the minimum and index lists are honoured.",
  ["inputs"], "baseline, rotation, points, basis of the solution space symbolic in separate runs; 7 to 9 correspondences; arbitrary orderings",
  "The demos print the matrices without comparing them to the scene; a lost root or an unprojected matrix still looks plausible.",
  ["src/relative_pose/methods.cpp"], [("sevenpt, eightpt", "src/relative_pose/methods.cpp")],
  R("h_epi", "eight_t eight_r eight_ray eight_more eight_all eight_rank seven_t seven_r seven_basis seven_other seven_exact seven_more_t seven_more_r", 2),
  "7 to 9 correspondences; one group of scene parameters symbolic per run; SVD and eigenvalues are verified contracts (the pencil handed to the eigenvalue solver is shown to have the scene's matrix at an eigenvalue); bases of the solution space whose first vector happens to be singular are excluded unless it is the truth",
  "every scene of the families")

P("C16", "Seventeen-point generalized relative pose returns the true pose with scale",
  "For seventeen or more correspondences between two poses of a multi-camera rig, whose bearing vectors come from generic cameras of the rig, the returned rotation is the true one and the returned translation is the true one including its length, because the rig's extrinsics fix the scale. Both overloads agree.",
  ["inputs", "configurations"], "baseline length, rotation, a ray, a depth, a camera offset symbolic in separate runs",
  "The demo prints one random result; errors in the mixed blocks of the generalized epipolar constraint or in the sign disambiguation go unnoticed.",
  ["src/relative_pose/methods.cpp"], [("seventeenpt", "src/relative_pose/methods.cpp")],
  R("h_epi", "seventeen_len seventeen_rot seventeen_ray seventeen_depth seventeen_offset", 3),
  "17 correspondences between several cameras; one scene parameter symbolic per run; SVD and pseudo-inverse are verified contracts; rigs with coincident centres or only intra-camera correspondences are degenerate and excluded",
  "every scene of the families")

P("C27", "A robust-estimation sample yields the scene's pose as its model",
  "Computing a model from a noise-free sample yields the scene's pose for every sample-consensus problem and algorithm: the minimal solver is given members of that sample only, the true solution among its candidates wins whatever its position, ambiguities are resolved with the remaining members, and the result is expressed in the body frame for cameras anywhere on the rig.",
  ["inputs", "configurations"], "absolute, relative, point-cloud, rotation-only, translation-only, eigensolver problems, single cameras, rigs and multi-camera problems; pose, a depth, a ray or a camera offset symbolic; every position of the truth among candidates",
  "The demos feed hundreds of samples and print the outcome; a disambiguation that uses the wrong correspondence, camera or frame only lowers the inlier count of some samples.",
  ["src/sac_problems", "src/relative_pose/methods.cpp", "src/triangulation/methods.cpp"],
  [("computeModelCoefficients", "src/sac_problems/absolute_pose/*.cpp, src/sac_problems/relative_pose/*.cpp, src/sac_problems/point_cloud/PointCloudSacProblem.cpp")],
  R("h_model", "rel_eight_len rel_stew_ray rel_seven_ray rel_eight_ray rel_nister_ray", 3) + R("h_model2", "abs_kneip_pose abs_kneip_rot abs_kneip_depth abs_gao_pose abs_gao_depth abs_epnp abs_gp3p_pose abs_gp3p_depth abs_gp3p_rot abs_twopt absm_pose absm_rot absm_central cloud_model rotation_model translation_model eigensolver_model gen_seventeen gen_ge gen_six_t gen_six_rot gen_six_ray gen_central gen_central_rot genm_seventeen genm_ge genm_six_len genm_six_rot genm_six_ray genm_central genm_central_rot", 3, ivbudget="8"),
  "samples of 2 to 17 correspondences out of up to 21, up to 3 cameras; at most 6 symbolic reals per run, one when competing candidates must be scored; minimal solvers are replaced by lists holding the truth and displaced poses (the solvers have their own properties); the multi-pair central problem, which computes no model, is outside the claim",
  "every scene of the families and every position of the truth", assumptions=["minimal solvers are replaced in both the symbolic and the native build by a stand-in that records its indices and returns the listed candidates"])

P("C19", "Six-point generalized relative pose returns the true rotation",
  "For six correspondences between two poses of a multi-camera rig, with unit bearing vectors and the cameras anywhere on the rig, the rotations returned by the minimal generalized relative pose solver contain the true relative rotation, through the all-points and the index-list overload, wherever the solution sits among the eigenvectors.",
  ["inputs", "configurations"], "rotation, translation, a ray, two depths, a camera offset symbolic in separate runs; different cameras for all correspondences; first and last eigenvector",
  "The demos print 64 rotations without looking for the truth; a slip in one of the thousands of generated template coefficients only degrades some of them.",
  ["src/relative_pose/methods.cpp", "src/relative_pose/modules/main.cpp", "src/relative_pose/modules/sixpt/modules2.cpp"],
  [("sixpt", "src/relative_pose/methods.cpp"), ("sixpt_main", "src/relative_pose/modules/main.cpp"), ("fillRow1, fillRow2, setupAction", "src/relative_pose/modules/sixpt/modules2.cpp")],
  R("h_six", "six_rot six_t six_ray six_depth six_offset six_det0 six_det1 six_det2", 3),
  "6 correspondences (out of up to 8); one group of scene parameters symbolic per run; the equations entering the elimination are shown to vanish at the true rotation and then replaced by fifteen arbitrary-looking equations with that root, the 93x93 solve and the 64x64 eigen-decomposition are verified contracts; genericity (the equations determine the rotation) is assumed",
  "every scene of the families")

P("C08", "Three-point generalized absolute pose returns the true pose",
  "For three bearing vectors of a multi-camera rig seeing known world points in general position, wherever the cameras sit and however they are oriented, the poses returned by the minimal non-central absolute pose solver contain the true one, for any selection of three indices, and no pose is reported for a complex pair of solutions of the underlying polynomial system.",
  ["inputs", "configurations"], "rotation, translation, rays, depths and camera offsets all symbolic for the equations and the pose recovery; six ray configurations with symbolic translation and scene scale for the elimination; first and last eigenvector",
  "The demo prints up to eight poses and never looks for the truth; one wrong coefficient among the generated elimination steps, a swapped depth or an unrotated ray goes unnoticed.",
  ["src/absolute_pose/methods.cpp", "src/absolute_pose/modules/main.cpp", "src/absolute_pose/modules/gp3p"],
  [("gp3p", "src/absolute_pose/methods.cpp"), ("gp3p_main", "src/absolute_pose/modules/main.cpp"), ("init, compute", "src/absolute_pose/modules/gp3p/*.cpp")],
  R("h_gp3p", "gp3p_a gp3p_b gp3p_c gp3p_d gp3p_e gp3p_f", 2) + R("h_gp3p", "gp3p_all", 3),
  "3 of 5 correspondences, 2 to 5 cameras. Elimination executed exactly for six ray/rotation configurations with symbolic world origin and unit of length; for all other scenes the equations are shown to vanish at the true pose and the elimination is replaced by an arbitrary system with that solution. The 8x8 eigen-decomposition is a verified contract. Rays with a vanishing coordinate in the rig frame (division by zero in the elimination) are excluded",
  "every scene of the families")

P("C09", "Six-or-more-point absolute pose (EPnP, GPnP) returns the true pose",
  "For six or more known world points in general position (not coplanar) seen by one camera, EPnP returns the true pose from exact bearings, also when the points lie behind the image plane, for any selection of indices. GPnP returns the true pose of a rig whose cameras have any positions and orientations, as long as they do not all coincide. The refinement system of EPnP is the derivative of its distance equations and is solved exactly; in GPnP the factors of each set of null vectors are those that restore the distances between the control points, and the candidate with the smallest reprojection error is returned.",
  ["inputs", "configurations"], "rotation, translation, extents and centre of the point cloud, camera offsets; coefficients and right-hand side of the refinement system; factors of up to four null vectors; which candidate is best",
  "The demos print one pose next to the truth; a wrong sign when the cloud lies behind the camera, a lost camera offset or a swapped control point in a candidate that rarely wins goes unnoticed.",
  ["src/absolute_pose/methods.cpp", "src/absolute_pose/modules/Epnp.cpp", "src/absolute_pose/modules/main.cpp", "src/absolute_pose/modules/gpnp1"],
  [("epnp, gpnp", "src/absolute_pose/methods.cpp"), ("Epnp::*", "src/absolute_pose/modules/Epnp.cpp"), ("gpnp_main, gpnp_evaluate", "src/absolute_pose/modules/main.cpp"), ("init, compute", "src/absolute_pose/modules/gpnp1..gpnp4/*.cpp"), ("arun_complete", "src/math/arun.cpp")],
  R("h_pnp", "epnp_rot", 3) + R("h_pnp", "epnp_t epnp_shape epnp_behind epnp_jacobian epnp_qr epnp_qr4 epnp_betas1 epnp_betas2 epnp_betas3") + R("h_pnp", "epnp_qr3", 2) + R("h_pnp", "gpnp_rot gpnp_t gpnp_shape gpnp_rig gpnp_all gpnp_driver mod1 mod2 mod2_pose mod3 mod3_s mod4"),
  "Eight points on the corners of a rotated box, 3 cameras for rigs, 8 of 9 correspondences. Singular value decompositions, the least-squares solution and the QR solution inside the EPnP iteration are contracts whose defining equations are verified on the data; the QR routine is checked separately on 6x4 systems with symbolic entries. The elimination with five null vectors and the Levenberg-Marquardt polish of GPnP are outside; coplanar points and rigs whose cameras coincide (GPnP) are excluded",
  "every scene of the families")

P("C33", "Five-point rotation solver returns the true rotation",
  "For five correspondences between two views of points in front of both, in general position, the rotations returned by the direct five-point rotation solver contain the true relative rotation, in the convention shared by all relative pose methods, for any selection of five indices, and no rotation is reported for a complex pair of solutions.",
  ["inputs", "configurations"], "rotation, translation direction, a point symbolic in separate runs for the equations and the recovery; ray lengths symbolic for the full elimination; first and last eigenvector",
  "The demo prints the rotations without looking for the truth; the solver consists of nine thousand generated lines where a wrong coefficient only degrades the result.",
  ["src/relative_pose/methods.cpp", "src/relative_pose/modules/main.cpp", "src/relative_pose/modules/fivept_kneip"],
  [("fivept_kneip", "src/relative_pose/methods.cpp"), ("fivept_kneip_main", "src/relative_pose/modules/main.cpp"), ("initEpncpRowR, initMatrix, computeBasis", "src/relative_pose/modules/fivept_kneip/*.cpp")],
  R("h_fivek", "fivek_rot fivek_point fivek_full_a fivek_full_b fivek_full_c", 3) + R("h_fivek", "fivek_t", 5),
  "5 of 7 correspondences. Elimination executed exactly for three scenes with symbolic lengths of all bearing vectors; for the other scenes the equations are shown to vanish at the true rotation and the elimination is replaced by an arbitrary system with that solution. The 20x20 eigen-decomposition is a verified contract",
  "every scene of the families")

P("C34", "Universal absolute pose (UPnP) returns the true pose",
  "For three or more known world points in general position seen by a camera or by a multi-camera rig whose cameras have any positions and orientations, the poses returned by UPnP contain the true one, for any selection of indices; with more than three points, a solution that puts the points behind the cameras is not preferred to the true one. The objective handed to the solver vanishes with its gradient at the true rotation, every equation of the elimination templates holds there, the recovered candidates contain it, and the polish uses the gradient and Hessian of that objective.",
  ["inputs", "configurations"], "rotation, translation, ray lengths, camera positions, a ray; further stationary points; position of the true solution among the eigenvectors",
  "The demos print the list of poses; with exact data a lost camera offset, a wrong template coefficient or the wrong solver for four points only degrades the answer.",
  ["src/absolute_pose/methods.cpp", "src/absolute_pose/modules/main.cpp", "src/absolute_pose/modules/upnp2.cpp", "src/absolute_pose/modules/upnp4.cpp"],
  [("upnp, upnp_main, upnp_main_sym", "src/absolute_pose/methods.cpp, modules/main.cpp"), ("upnp_fill_s", "src/absolute_pose/modules/main.cpp"), ("setupAction_gj", "src/absolute_pose/modules/upnp2.cpp, upnp4.cpp")],
  R("h_upnp", "upnp_t upnp_rot upnp_depth upnp_offset upnp_ray upnp_3 upnp_4 upnp_near upnp_behind upnp_all", 3) + R("h_upnp", "upnp_phi upnp_polish") + R("h_upnp", "upnp_sym0 upnp_sym1 upnp_symw upnp_gen0 upnp_gen1 upnp_genw", 2),
  "3 to 6 points, 3 cameras. The objective is computed by the real code and shown stationary and zero at the true rotation; elimination rows are shown to vanish at the truth and the reduction is replaced by an arbitrary reduced system with that solution; eigen-decompositions are verified contracts. Convergence of the Newton polish from an inexact solution is outside",
  "every scene of the families")

P("C15", "Eigenvalue-based relative pose: objective, derivatives and result",
  "For any bearing vectors, weights and selection of indices, the central and the generalised eigenvalue solver minimise the smallest eigenvalue of the matrix that sums, with the weights asked for, the outer products of the (generalised) epipolar constraints of exactly the selected correspondences; the closed-form eigenvalues and the derivatives are exact, the search starts at the rotation given by the caller (central) or at the one aligning the rays (generalised), and the generalised search never ends at a rotation whose value is worse than that of its start, restarts near the identity aside. The translation reported is the eigenvector of the smallest eigenvalue, for exact data that of the true motion and, in the central case, pointing from the first to the second viewpoint; eigenvalues are reported in descending order with their eigenvectors.",
  ["inputs", "configurations"], "all 36 and 441 summation terms, the rotation, rays, weights, depths, camera offsets; eigenvalues; values of the objective along the search",
  "The demos print rotations from one start; a lost weight, a wrong term in a derivative or a flipped translation sign still converges near the truth most of the time.",
  ["src/relative_pose/methods.cpp", "src/relative_pose/modules/main.cpp", "src/relative_pose/modules/eigensolver/modules.cpp", "src/relative_pose/modules/ge/modules.cpp"],
  [("eigensolver, ge", "src/relative_pose/methods.cpp"), ("eigensolver_main, ge_main2", "src/relative_pose/modules/main.cpp"), ("composeM, composeMwithJacobians, getSmallestEV, getSmallestEVwithJacobian", "src/relative_pose/modules/eigensolver/modules.cpp"), ("composeG, composeGwithJacobians, getEV, getCost", "src/relative_pose/modules/ge/modules.cpp"), ("arun", "src/math/arun.cpp")],
  R("h_eig", "eig_compose ge_compose eig_ev eig_evjac eig_evjac2 ge_ev ge_ev2 ge_ev_scale eig_sum eig_sum_depth eig_sum_weight eig_sum_ray eig_sum_pose eig_main_t eig_main_rot eig_main_start eig_main_order ge_sum ge_sum_offset ge_sum_weight ge_sum_ray ge_start ge_descent ge_main_t ge_main_order") + R("h_eig", "ge_descent_long", 2, thorough_only=True),
  "6 or 7 correspondences (5 or 6 selected), 3 cameras; eigenvalues from two- to four-parameter families in five and three frames; up to 5 (thorough: 7) distinct values of the objective along the generalised search. The Levenberg-Marquardt iterations, convergence to the global minimum and the final eigen-decompositions (verified contracts) are outside; so is the random restart of the generalised search when it ends within 0.01 of the identity",
  "every scene of the families")
