P("C01", "Rotation and pose algebra is exact for every rotation",
  "Composition, inversion, exponential, logarithm and their Jacobians for rotations and rigid transforms satisfy their defining identities for every input: products compose, exp and log invert each other, quaternions stay unit with non-negative scalar part, and conversions round-trip. Near the singular angles zero and pi the results stay accurate.",
  ["inputs"], "for every unit quaternion, rotation vector, twist and transform",
  ["ov_core/src/utils/quat_ops.h"], [("quaternion and Lie-group operations", "ov_core/src/utils/quat_ops.h")])
P("C14", "Propagation carries the covariance through the linearised dynamics exactly",
  "Propagating a block of the state with a transition matrix and a noise turns the joint covariance P into F P F^T + Q, where F acts only on that block: cross terms with every other variable are carried along and nothing else changes. It holds for any listed order and position of the variables.",
  ["inputs", "configurations", "histories"], "for every covariance, transition matrix and noise, every state layout and every choice of propagated and source variables",
  ["ov_msckf/src/state/StateHelper.cpp"], [("covariance propagation", "ov_msckf/src/state/StateHelper.cpp EKFPropagation")])
P("C15", "A measurement update is the exact Kalman update of mean and covariance",
  "Given a residual with a Jacobian over any variables in any order, the new covariance is P - P H^T (H P H^T + R)^-1 H P, stays symmetric, and every variable moves on its manifold by its own part of K r. Camera models follow the calibration estimates after every update.",
  ["inputs", "configurations"], "for every residual, Jacobian, noise and covariance, and every subset and order of involved variables",
  ["ov_msckf/src/state/StateHelper.cpp"], [("measurement update", "ov_msckf/src/state/StateHelper.cpp EKFUpdate")])
P("C16", "Adding, copying and removing variables keeps the joint distribution right",
  "Removing a variable leaves exactly the marginal of the others, copying one yields the joint distribution with a perfectly correlated copy (including the dependence on the camera time offset), and covariance queries return the requested blocks in the requested order. After any of them the variable positions tile the covariance, the window keeps its newest poses, and only flagged non-tag landmarks are dropped.",
  ["inputs", "histories", "configurations"], "for every covariance and every variable, landmark flagging and clone insertion order",
  ["ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/state/State.h"], [("marginalisation, cloning and covariance queries", "ov_msckf/src/state/StateHelper.cpp")])
P("C13", "The propagation transition matrix and noise match the mean model",
  "For one propagation step the state transition matrix is the derivative of the mean prediction with respect to the error of every propagated variable: orientation, position, velocity, biases and, when calibrated, every inertial intrinsic. The injected noise is what white noise on the readings and bias random walks produce over the step. Position and rotation about gravity stay unobservable whatever linearisation point is used, and the linearisation point after the step is the new estimate.",
  ["inputs", "configurations"], "for every body rate about the chosen axes, specific force, step length and noise level, and every calibration option",
  ["ov_msckf/src/state/Propagator.cpp"], [("transition matrix and noise", "ov_msckf/src/state/Propagator.cpp predict_and_compute, compute_F_and_G_analytic, compute_F_and_G_discrete, compute_Xi_sum, compute_H_*")])
P("C17", "Delayed initialisation gives new variables the right estimate and covariance",
  "When a measurement set first involves a new variable, the system is split so that the invertible part gives the new variable its value, covariance and correlations with everything else exactly as the measurements and the prior determine, and the remainder updates the state as a normal measurement. A set that fails the chi-square gate or does not determine the variable leaves the state untouched.",
  ["inputs", "configurations"], "for every prior covariance or residual, Jacobian shape, involved-variable order and gate value in the explored sizes",
  ["ov_msckf/src/state/StateHelper.cpp"], [("delayed initialisation", "ov_msckf/src/state/StateHelper.cpp initialize, initialize_invertible")])
P("C12", "The inertial mean prediction solves the motion equations",
  "Between two readings the predicted orientation, velocity and position follow the calibrated readings: the closed form solves the strapdown equations for constant rate and specific force, the Runge-Kutta option agrees with the exact motion for linearly changing readings up to its order, the first-order option uses the exact rotation and constant global acceleration. Biases do not move and gravity is subtracted once.",
  ["inputs", "configurations"], "for every specific force, velocity, position, step length and rate about the chosen axes, and every intrinsic model",
  ["ov_msckf/src/state/Propagator.cpp"], [("mean prediction", "ov_msckf/src/state/Propagator.cpp predict_and_compute, predict_mean_analytic, predict_mean_rk4, predict_mean_discrete")])
P("C04", "Camera models project, differentiate and undistort consistently",
  "Projecting a normalised point follows the radial-tangential or fisheye model of the configured parameters through every interface, the analytic Jacobians are its derivatives with respect to the point and all eight parameters (also at the image centre), undistortion inverts it with the same parameters, and changing the parameters takes effect everywhere at once.",
  ["inputs", "configurations"], "for every normalised point and every intrinsic and distortion parameter of both camera models",
  ["ov_core/src/cam/CamBase.h", "ov_core/src/cam/CamRadtan.h", "ov_core/src/cam/CamEqui.h"], [("camera models", "ov_core/src/cam/CamRadtan.h, CamEqui.h, CamBase.h")])
P("C18", "Feature residuals and Jacobians match the projection model",
  "For a feature seen from any set of poses and cameras the residual is measurement minus prediction at the current estimate, and the Jacobians by every pose, extrinsic, intrinsic and feature parameter are the derivatives of the prediction, for all six feature representations, with or without calibration. With first-estimate Jacobians, poses and feature enter at their first estimates. Every listed variable appears once.",
  ["inputs", "configurations"], "for every feature position on the explored lines, every pixel, representation, calibration option, anchor choice and linearisation mode",
  ["ov_msckf/src/update/UpdaterHelper.cpp"], [("feature Jacobians", "ov_msckf/src/update/UpdaterHelper.cpp get_feature_jacobian_full, get_feature_jacobian_representation")])
P("C19", "Nullspace projection and compression keep the information and nothing else",
  "Projecting a stacked measurement onto the left nullspace of the feature Jacobian gives a system independent of the feature that carries exactly the information the original has about the state, with noise still white; compressing a tall system to a square one keeps its information matrix and vector. Systems that are not tall are left alone.",
  ["inputs", "configurations"], "for every state Jacobian and residual over seeded and partly symbolic feature Jacobians",
  ["ov_msckf/src/update/UpdaterHelper.cpp"], [("nullspace projection", "ov_msckf/src/update/UpdaterHelper.cpp nullspace_project_inplace"), ("measurement compression", "ov_msckf/src/update/UpdaterHelper.cpp measurement_compress_inplace")])
P("C02", "State variables apply errors on their manifold and keep first estimates",
  "Applying an error to a variable composes rotation errors on the left and adds the rest; every accessor and part (orientation, position, velocity, biases, poses) then agrees with the new value. First estimates change only when set, copies are independent with the same value and first estimate, and assigning a position in the covariance places every part at its own offset.",
  ["inputs", "configurations"], "for every value and error of every variable type and every position",
  ["ov_core/src/types/Type.h", "ov_core/src/types/JPLQuat.h", "ov_core/src/types/PoseJPL.h", "ov_core/src/types/IMU.h", "ov_core/src/types/Vec.h"], [("state variables", "ov_core/src/types/*.h")])
P("C03", "Landmark representations round-trip points, for estimate and first estimate",
  "Setting a landmark from a point and reading it back returns that point in every representation, independently for the estimate and the first estimate; updates move the estimate along the representation's own parameters and leave the first estimate alone.",
  ["inputs", "configurations"], "for every point with positive depth and every representation",
  ["ov_core/src/types/Landmark.cpp", "ov_core/src/types/Landmark.h", "ov_core/src/types/LandmarkRepresentation.h"], [("landmarks", "ov_core/src/types/Landmark.cpp get_xyz, set_from_xyz")])
P("C05", "Preintegrated measurements equal the integrated motion and its sensitivity",
  "Accumulating readings gives exactly the relative rotation, velocity and position change of the strapdown motion for piecewise-constant (or averaged) readings, with and without gravity inside the interval; feeding two readings composes them; nothing fed is the identity. The bias Jacobians are the derivatives of those quantities, the covariance the propagated sensor noise, and slow rotation joins the general formula.",
  ["inputs", "histories"], "for every rate, specific force, bias, gravity direction, step length and noise level, over one or two successive readings",
  ["ov_core/src/cpi/CpiV1.cpp", "ov_core/src/cpi/CpiV2.cpp", "ov_core/src/cpi/CpiBase.h"], [("preintegration", "ov_core/src/cpi/CpiV1.cpp, CpiV2.cpp feed_IMU"), ("base", "ov_core/src/cpi/CpiBase.h")])
P("C06", "The feature database answers queries by observation times and loses nothing",
  "Queries return exactly the features whose observations satisfy the time condition (none newer, some older, one at the time), honouring and reporting deletion flags; removal and clean-up delete exactly what is asked and keep every other observation with its values; adding or merging observations neither drops nor duplicates one.",
  ["inputs", "histories"], "for every arrangement of observation times and query time, and every combination of the options",
  ["ov_core/src/feat/FeatureDatabase.cpp", "ov_core/src/feat/FeatureDatabase.h"], [("feature database", "ov_core/src/feat/FeatureDatabase.cpp")])
P("C07", "Removing observations of a feature by time keeps the three lists aligned",
  "Keeping only listed times, dropping listed times or dropping everything older than a time removes exactly those observations from the pixel, normalised and time lists of every camera, in step and in order.",
  ["inputs"], "for every arrangement of observation times and listed times in the explored sizes",
  ["ov_core/src/feat/Feature.cpp"], [("feature observations", "ov_core/src/feat/Feature.cpp clean_old_measurements, clean_invalid_measurements, clean_older_measurements")])
P("C08", "Triangulation solves its least-squares problem and accepts only sound points",
  "The linear methods return the point (or the depth along the anchor bearing) closest to all rays, in the anchor and the global frame alike; refinement steps are Levenberg-Marquardt steps on the reprojection error that are only taken when the error falls; a point is accepted exactly when condition number, depth range and the depth-to-baseline ratio satisfy the options.",
  ["inputs", "configurations"], "for every camera position, observation or distance on the explored lines, in one or two cameras",
  ["ov_core/src/feat/FeatureInitializer.cpp", "ov_core/src/feat/FeatureInitializerOptions.h"], [("triangulation", "ov_core/src/feat/FeatureInitializer.cpp single_triangulation, single_triangulation_1d, single_gaussnewton, compute_error")])
P("C09", "The simulation spline is smooth and its rates are its derivatives",
  "Within its domain the spline pose is the cumulative cubic B-spline of its control poses, angular and linear velocity and acceleration are its exact time derivatives in the documented frames, adjoining segments meet; outside its domain it reports failure; control poses sampled from a trajectory lie on it.",
  ["inputs"], "for every time in a segment and every translation of the control poses, over seeded rotations",
  ["ov_core/src/sim/BsplineSE3.cpp"], [("spline", "ov_core/src/sim/BsplineSE3.cpp get_pose, get_velocity, get_acceleration, feed_trajectory, find_bounding_*")])
P("C10", "Disparity statistics are those of the tracks between the two times",
  "The mean, deviation and count of the disparity are those of exactly the tracks that qualify: seen at both times, or from the first to the last observation within the given bounds; with fewer than two such tracks mean and deviation are the documented -1.",
  ["inputs"], "for every pixel position, observation time and query time over the explored track shapes",
  ["ov_core/src/feat/FeatureHelper.h"], [("disparity", "ov_core/src/feat/FeatureHelper.h compute_disparity")])
P("C11", "Readings selected between two times are the signal over exactly that interval",
  "The readings used between two times start and end exactly at these times, with linearly interpolated values there and the recorded ones in between, in strictly increasing time; both for propagation (which may hold the last value past the end of the data) and for initialisation; with no or too little data nothing is returned. The buffer drops only what is older than asked.",
  ["inputs", "schedules"], "for every spacing of readings and interval ends and every reading value",
  ["ov_msckf/src/state/Propagator.cpp", "ov_init/src/utils/helper.h", "ov_msckf/src/state/Propagator.h"], [("selection in propagation", "ov_msckf/src/state/Propagator.cpp select_imu_readings"), ("selection in initialisation", "ov_init/src/utils/helper.h select_imu_readings"), ("buffer", "ov_msckf/src/state/Propagator.h feed_imu, clean_old_imu_measurements")])
P("C20", "Features outside the state update it with their point exactly eliminated",
  "A feature that is not kept in the state enters the update only if it can be triangulated and its chi-square distance is within the gate; the update is then the minimum-variance one of all accepted features with their points unknown. Every offered feature is spent, only the used ones stay listed, rejected ones change nothing.",
  ["inputs", "configurations"], "for every error of an observed pixel, on both sides of the gate, over representations, cameras and mixtures of good and bad features",
  ["ov_msckf/src/update/UpdaterMSCKF.cpp"], [("update", "ov_msckf/src/update/UpdaterMSCKF.cpp update")])
P("C21", "Moving an anchored landmark keeps the point and its joint distribution",
  "Before the window pose a landmark is anchored in leaves the window, the landmark is re-expressed in another pose: its global estimate is unchanged and the covariance of the point with everything else is carried through exactly the change of variables, with first-estimate Jacobians evaluated at first estimates. Landmarks anchored elsewhere stay as they are.",
  ["inputs", "configurations"], "for every cross covariance at seeded geometry, every point on seeded lines, each anchored representation and option",
  ["ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterHelper.cpp"], [("anchor change", "ov_msckf/src/update/UpdaterSLAM.cpp change_anchors, perform_anchor_change")])
P("C22", "Standing still is detected within the gate and used as a measurement",
  "When the readings since the last image agree with zero rotation and plain gravity within the gate at low speed, or the image disparity is small over enough features, the state moves to the image time with the minimum-variance update of those readings and the biases' random walk, without a new window pose; otherwise nothing changes. Successive calls cover successive intervals of the inertial clock, and only observations of superseded standstill images are dropped.",
  ["inputs", "histories", "configurations"], "for every disturbance of a reading and every speed on both sides of the thresholds, over disparity situations and successive calls",
  ["ov_msckf/src/update/UpdaterZeroVelocity.cpp", "ov_msckf/src/update/UpdaterZeroVelocity.h"], [("zero velocity update", "ov_msckf/src/update/UpdaterZeroVelocity.cpp try_update")])
P("C23", "A new filter state holds exactly what is estimated, with consistent priors",
  "The state contains the inertial state and exactly the calibration variables switched on, each at its own place; default calibration is the identity; the intrinsic matrices follow the documented layouts; priors are block diagonal and follow the documented deviations; the initial covariance given by an initialiser lands at the right variables.",
  ["inputs", "configurations"], "for every combination of calibration options, inertial models and one to three cameras, and every initial covariance",
  ["ov_msckf/src/state/State.cpp", "ov_msckf/src/state/State.h", "ov_msckf/src/state/StateHelper.cpp"], [("state construction", "ov_msckf/src/state/State.cpp State::State"), ("initial covariance", "ov_msckf/src/state/StateHelper.cpp set_initial_covariance")])
P("C24", "Moving to an image integrates the interval once and clones the pose there",
  "Propagating to an image integrates the readings from where the last propagation ended to the image time on the inertial clock, carries the joint covariance through the whole chain of transition matrices and noise, and adds the pose at that time to the window; time does not move backwards. High-rate prediction from the newest state gives the same state and covariance without changing the filter, also when answered from its cache.",
  ["inputs", "histories", "schedules"], "for every joint covariance and noise level, over two successive images and up to three predictions",
  ["ov_msckf/src/state/Propagator.cpp"], [("propagation", "ov_msckf/src/state/Propagator.cpp propagate_and_clone"), ("high-rate prediction", "ov_msckf/src/state/Propagator.cpp fast_state_propagate")])
P("C34", "Landmarks of the state are added and updated by their own options and gates",
  "A landmark enters the state exactly when its observations determine and support it within the gate, then with the value, covariance and correlations they give; later observations update it and everything correlated as measurements. Tag corners use the tag options and are never dropped, plain landmarks the others and are flagged once they fail; each landmark's options decide its own noise, gate and representation.",
  ["inputs", "configurations"], "for every error of an observed pixel, on both sides of the gate, over representations, cameras, landmark numbers around the tag limit, and mixtures",
  ["ov_msckf/src/update/UpdaterSLAM.cpp"], [("update", "ov_msckf/src/update/UpdaterSLAM.cpp update"), ("entering", "ov_msckf/src/update/UpdaterSLAM.cpp delayed_init")])
P("C28", "Trajectory alignment recovers the transformation between two trajectories",
  "Aligning an estimated with a true trajectory returns the least-squares similarity, rigid transform, or rotation about gravity with translation, from the configured number of leading poses (all when not positive): when the truth is a transformed copy of the estimate, exactly that transform is found, and otherwise no other transform of the kind fits better. Each method name selects its own kind of transform.",
  ["inputs", "configurations"], "for every scale, offset, turn about gravity and size of residuals at seeded trajectories",
  ["ov_eval/src/alignment/AlignTrajectory.cpp", "ov_eval/src/alignment/AlignUtils.cpp"], [("alignment", "ov_eval/src/alignment/AlignTrajectory.cpp"), ("least squares", "ov_eval/src/alignment/AlignUtils.cpp")])
P("C29", "Timestamps are matched to the nearest in the limit; statistics are as defined",
  "Matching an estimate with ground truth keeps, for each estimate that has a truth within the allowed time difference, the closest one, together with its own pose and covariances, in order and each truth once; others are dropped. Root mean square, mean, median, standard deviation, largest, smallest and 99th percentile are those of the values held, also when computed again.",
  ["inputs"], "for every position of the timestamps and every value of the numbers, up to the stated counts",
  ["ov_eval/src/alignment/AlignUtils.cpp", "ov_eval/src/utils/Statistics.h"], [("association", "ov_eval/src/alignment/AlignUtils.cpp perform_association"), ("statistics", "ov_eval/src/utils/Statistics.h calculate")])
P("C35", "Evaluation errors are those of the aligned estimate against ground truth",
  "After alignment, absolute errors are the angle and distance between estimated and true poses (heading and horizontal distance in the planar variant), relative errors compare the motion over segments of the asked length that start at every pose which has an end within half a meter, consistency is the squared error in its covariance, and per-axis errors and three-sigma bounds are those of position, orientation and roll, pitch and yaw, differences of angles wrapped to a half turn.",
  ["inputs", "configurations"], "for every turn and offset of a pose, every spacing along the path and every covariance at seeded geometry",
  ["ov_eval/src/calc/ResultTrajectory.cpp"], [("errors", "ov_eval/src/calc/ResultTrajectory.cpp")])
P("C31", "Every image uses each track once, bounds the window and forgets what was used",
  "When an image arrives, an image older than the state or one that cannot be reached changes nothing; otherwise tracks that a camera of the image lost, and tracks that reach back to the oldest pose once the window is full, are used in exactly one update, longest first within the limit. Tracks longer than the window become landmarks only after the delay and while there is room. Landmarks still tracked are updated once, in batches within the limit; lost or repeatedly rejected ones leave, tags never. Used tracks are forgotten, anchors move before the oldest pose leaves, observations from before the window are dropped, and the window never exceeds its size.",
  ["inputs", "configurations", "histories"], "for every time a track was seen, every delay and every arrangement of tracks and landmarks within the stated counts",
  ["ov_msckf/src/core/VioManager.cpp"], [("routing", "ov_msckf/src/core/VioManager.cpp do_feature_propagate_update")])
P("C36", "The filter starts, queues images, keeps readings and rests as it should",
  "The filter starts from the configured calibration, holding exactly the parts that are calibrated, each once with its own uncertainty, everything sharing one camera model and one set of tracks; given a known motion it starts exactly there, given an estimated one it first cleans up what is older and then catches up with the images that arrived meanwhile, each handled once and in time order; before that it waits. Images too close together for the configured tracking rate are skipped per camera. Inertial readings are kept as long as any later interval can need them and dropped once nothing can. Standing still is tried only where allowed, decided once per time, and while it holds the window does not grow. Simulated measurements are recorded as given under ids that never collide with tags.",
  ["inputs", "configurations", "histories"], "for every calibration, start, arrival time of images and readings, and every order of the stated events within the stated counts",
  ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp"], [("life", "ov_msckf/src/core/VioManager.cpp feed_measurement_imu track_image_and_update VioManagerHelper.cpp try_to_initialize")])
P("C25", "A start from standing still is aligned with gravity and recognised only at rest",
  "Starting from rest takes the older half of the window that ends at the newest reading: it succeeds only if the accelerations there spread no more than the threshold and, as asked, those of the newer half do (still) or do not (a jerk follows); with too few readings or too short a record it fails and changes nothing. The state given is at the origin, not moving, at the last reading of the older half, its vertical axis along the mean acceleration, the gyroscope bias the mean rate, and gravity plus bias giving the mean acceleration back, with first estimate equal and a diagonal covariance. The gravity constraint's polynomial is the determinant it stands for.",
  ["inputs", "configurations"], "for every direction and size of gravity, every threshold and spread, and every time of a reading within the stated counts",
  ["ov_init/src/static/StaticInitializer.cpp", "ov_init/src/utils/helper.h"], [("rest", "ov_init/src/static/StaticInitializer.cpp initialize"), ("frame", "ov_init/src/utils/helper.h gram_schmidt compute_dongsi_coeff")])
P("C26", "The right way to start is chosen, from enough tracks of the last window only",
  "Before a start is attempted, observations and readings from before the window that ends at the newest image (a tenth of a second spare, readings shifted by the camera's time offset) are forgotten and nothing else is. With fewer than fifteen tracks seen twice in either half nothing starts. The start from rest runs exactly when the average motion stayed within the limit in the older half and, as asked, exceeded it or not in the newer; the start in motion exactly when that did not apply, it is allowed, and there was motion. The result is that of the one that ran. Readings older than needed are dropped when fed.",
  ["inputs", "configurations"], "for every motion of the tracks, every threshold, and every time of an observation and a reading within the stated counts",
  ["ov_init/src/init/InertialInitializer.cpp", "ov_core/src/feat/FeatureHelper.h"], [("choice", "ov_init/src/init/InertialInitializer.cpp initialize feed_imu")])
P("C37", "Points are reported where the estimate and the observations put them",
  "Landmarks and tags are reported, apart from each other, at their position in the world whatever their representation and anchor. A track that is not a landmark is placed once it was seen four times without a break, where all its observations so far by any camera meet best given the poses they were made from, unless its depth is outside the limits; landmarks keep their estimate. With each comes the pixel the first camera sees it at now and its depth there, if it is in front and inside the image. Tracks no longer seen are forgotten.",
  ["inputs", "configurations", "histories"], "for every landmark position and representation, every displacement of a pose, every limit of depth and pixels around the image border",
  ["ov_msckf/src/core/VioManagerHelper.cpp"], [("points", "ov_msckf/src/core/VioManagerHelper.cpp retriangulate_active_tracks get_features_SLAM get_features_ARUCO")])
P("C27", "The start's refinement minimises the errors it states, with their derivatives",
  "Every cost term of the nonlinear start is the stated error in the stated weight: the camera term is predicted less measured pixel under either camera model, the inertial term what is left between two states after the preintegrated motion (nothing when the motion follows the readings, to first order also after the biases change) in the information of the measurement, the prior a quadratic with the given information and gradient at its linearisation point. Jacobians are the derivatives of these errors by each parameter, whichever are asked for, and the quaternion parameter turns on the left, stays unit and its difference inverts it.",
  ["inputs", "configurations"], "for every measured value, noise, weight, intrinsic, gradient, turn, position, velocity and bias within the stated bounds",
  ["ov_init/src/ceres/Factor_GenericPrior.cpp", "ov_init/src/ceres/Factor_ImageReprojCalib.cpp", "ov_init/src/ceres/Factor_ImuCPIv1.cpp", "ov_init/src/ceres/State_JPLQuatLocal.cpp"], [("cost terms", "ov_init/src/ceres Factor_GenericPrior Factor_ImageReprojCalib Factor_ImuCPIv1 Evaluate"), ("parameter", "ov_init/src/ceres/State_JPLQuatLocal.cpp Plus Minus")])
P("C30", "The simulator's measurements follow from its truth and stated noise",
  "A simulated inertial reading is the true motion at its time (specific force with gravity, in the sensor) which the filter's own sensor model turns back into the motion once calibration and bias are undone; noise has the stated densities (white noise by the root of the rate, bias steps by the root of the interval) and the truth reported for a time holds the biases the readings had. Measurements come in time order at the stated rates, images on the camera's clock, until the trajectory ends, from the first image at which the path exceeds the threshold. An image holds exactly the features in it within the depth limits, up to the asked number, at their projection, under an identity that stays and is shared between cameras only for stereo. New points lie in the view at a depth in the range. Guesses handed to the filter are the truth plus noise of the documented size in what is calibrated, the truth itself stays.",
  ["inputs", "configurations", "histories"], "for every motion, calibration, rate, noise size and draw, clock offset and feature position within the stated bounds",
  ["ov_msckf/src/sim/Simulator.cpp"], [("readings", "ov_msckf/src/sim/Simulator.cpp get_next_imu get_state"), ("images", "ov_msckf/src/sim/Simulator.cpp get_next_cam project_pointcloud generate_points"), ("guesses", "ov_msckf/src/sim/Simulator.cpp Simulator perturb_parameters")])
P("C33", "A track is one point: its identity, its observations and its place",
  "Between images a tracked point keeps its identity and, in every image where it was followed, agrees with the motion and lies in the image outside the mask, is recorded once for its camera at its place, undistorted by that camera; otherwise it ends and never comes back. New points have new identities above the tags', lie outside the mask and apart from each other and from the tracks, the stronger of two is taken, and are added where there is room up to the asked number. With stereo a point seen by both cameras has one identity and an observation for each camera that has a good one. Simulated measurements are recorded as they are. Renaming a track keeps its history.",
  ["inputs", "configurations", "histories"], "for every place a point is followed to around the borders of image, mask and occupied cells, every outcome of following it and every camera arrangement within the stated bounds",
  ["ov_core/src/track/TrackKLT.cpp", "ov_core/src/track/TrackBase.cpp", "ov_core/src/track/TrackSIM.cpp"], [("tracks", "ov_core/src/track/TrackKLT.cpp feed_monocular feed_stereo perform_detection_monocular perform_detection_stereo perform_matching"), ("renaming", "ov_core/src/track/TrackBase.cpp change_feat_id"), ("simulated", "ov_core/src/track/TrackSIM.cpp feed_measurement_simulation")])
P("C38", "Tags and described points have the identities and places they should",
  "Each corner of each fiducial tag numbered below the number of tags has one identity of its own, the same in every image and camera and below four times the number of tags; it is recorded at its place in the full image unless it is masked, tags beyond are ignored. With descriptors, exactly the points found outside the mask, apart from each other and inside the image are tracked; a point keeps the identity of the last image's point it matches, that is each is the other's most alike, distinctly more than the second, and the match is no outlier; any other has a new identity. With stereo the pairs matched across the images are tracked, which keep their identity if both sides match the same last pair.",
  ["inputs", "configurations", "histories"], "for every corner place around masks, tag number around the limit, likeness of two points and refinement within the stated bounds",
  ["ov_core/src/track/TrackAruco.cpp", "ov_core/src/track/TrackDescriptor.cpp", "ov_core/src/track/Grider_FAST.h"], [("tags", "ov_core/src/track/TrackAruco.cpp perform_tracking"), ("descriptors", "ov_core/src/track/TrackDescriptor.cpp feed_monocular feed_stereo robust_match")])
P("C32", "Trajectory, timing and ground-truth files are read as their formats say",
  "Reading a trajectory, value, timing or ground-truth file gives one entry for each complete line, in order, every number in the place its format gives it (orientation with the scalar last whatever the file's order, covariances symmetric from their upper part, nanoseconds as seconds); comments, incomplete lines and repeated blanks add nothing. The ground truth for a time is that of the nearest state, its own time, orientation, position, velocity and biases, if one lies within a tenth of a second, otherwise there is none. The length of a trajectory is the sum of the distances between its positions.",
  ["inputs", "configurations"], "for every number in files of up to four lines, every order of up to three states in time and every asked time",
  ["ov_eval/src/utils/Loader.cpp", "ov_core/src/utils/dataset_reader.h"], [("files", "ov_eval/src/utils/Loader.cpp load_data load_data_csv load_simulation load_timing_flamegraph load_timing_percent get_total_length"), ("ground truth", "ov_core/src/utils/dataset_reader.h load_gt_file get_gt_state load_simulated_trajectory")])
P("C39", "A configured value is the one the system uses",
  "Every key of the configuration files reaches the setting it names, in the estimator and in its starting procedure alike, and no other; a key left out leaves its setting at the default and, if it is required, the loading is reported as unsuccessful; switches are understood in all their spellings with remarks after them, words select the method they name. Calibrations arrive in the filter's conventions: a camera's pose from the transform given in either direction, its intrinsics and image size halved if images are, its distortion model, the offset of the first camera's clock; the inertial sensor's intrinsics as the inverse of those given, in the columns its model keeps, its sensitivity column by column, its axes' rotations inverted. The filter built from settings holds them: calibrations as values and first estimates, noises and their squares, and each tracker, updater, propagator and initialiser has its own settings and not another's.",
  ["inputs", "configurations"], "for every real number in the files, each switch, each key left out, every word, both directions of the transform, one or two cameras",
  ["ov_msckf/src/core/VioManagerOptions.h", "ov_init/src/init/InertialInitializerOptions.h", "ov_core/src/utils/opencv_yaml_parse.h", "ov_msckf/src/state/StateOptions.h", "ov_core/src/feat/FeatureInitializerOptions.h", "ov_msckf/src/core/VioManager.cpp"], [("reading", "ov_core/src/utils/opencv_yaml_parse.h YamlParser"), ("settings", "ov_msckf/src/core/VioManagerOptions.h print_and_load"), ("built", "ov_msckf/src/core/VioManager.cpp VioManager")])
