ALLCFG = "vehicle type, sensor suite, aiding mode, height and yaw source, rates, latencies, lever arms and noise parameters"
prop("P01", "No history of finite samples can crash the estimator or make it publish NaN",
     "Whatever finite samples arrive, in whatever order, at whatever rate, with whatever losses, repetitions, time stamp errors, configuration changes, restarts and failing buffer allocations, the estimator neither reads nor writes outside its objects, nor executes undefined behaviour, nor stops. Every value it publishes stays finite, except values documented to be NaN when there is no such limit or no such sensor value.",
     ["histories", "inputs", "schedules", "configurations", "fault_sequences"],
     "every finite history of finite samples with positive IMU integration intervals, any supported configuration and any change of it at run time, and any single failing buffer allocation after construction",
     "Memory errors and divisions by zero need unusual buffer lengths, clocks that stand still, counters that wrap after seconds or an allocation that fails, none of which a handful of nominal flights contains.",
     ["EKF/*", "EKF/RingBuffer.h", "EKF/estimator_interface.cpp"],
     [("ring buffers and their allocation", "EKF/RingBuffer.h, EKF/estimator_interface.cpp"), ("guards on divisions and innovation variances", "EKF/*_fusion.cpp")],
     ["all public getters", "process exit"],
     tech="deterministic simulation with sensor, clock, restart and allocator faults under address and undefined behaviour sanitizers",
     note="Seeded search under ASan and UBSan with a finiteness invariant on every published value. Samples with zero integration interval are outside the property.")
prop("P02", "State and covariance stay inside their physical and mathematical bounds",
     "After every fusion step the attitude quaternion has unit norm, every state is within the limits the filter imposes on it, every variance is non-negative and within its cap, and the covariance is symmetric. Variances of the position and velocity states do not stay zero while the filter runs, and the magnetic field and wind covariances are zero whenever those states are not being estimated.",
     ["histories", "inputs", "schedules", "configurations", "fault_sequences"],
     "every history of finite samples, parameter sets and bias resets, after every fusion step",
     "An indefinite or saturated covariance needs particular sequences of rejected data, resets and mode changes over tens of seconds; tests look at a few moments of a few flights.",
     ["EKF/covariance.cpp", "EKF/ekf_helper.cpp"],
     [("constrainStates, fixCovarianceErrors", "EKF/ekf_helper.cpp, EKF/covariance.cpp")],
     ["getStateAtFusionHorizonAsVector()", "covariances()", "getQuaternion()"],
     tech="deterministic simulation: invariants evaluated after every fusion step of seeded faulty flights",
     note="Seeded search. A correction applied after the prediction step may exceed a limit until the next prediction clamps it, so the limit is required of states that did not change since the previous step.")
prop("P03", "Same history, same result: no hidden or shared state, reads have no effect",
     "Everything the estimator publishes is determined by the sequence of calls and samples it was given since construction. The previous contents of the memory it is constructed in, other estimator instances running in the same process, and any number of read-only queries in between never change a published value, bit for bit.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "every sequence of sensor deliveries, faults, parameter sets and restarts, executed twice with different memory contents, with a second instance interleaved, or with extra queries",
     "Each test builds one instance in fresh (often zeroed) memory and runs one history once; a value read before it is written or a function-local static only shows when the same history is repeated under different surroundings.",
     ["EKF/ekf.h", "EKF/ekf.cpp", "EKF/estimator_interface.h", "EKF/EKFGSF_yaw.h", "EKF/common.h"],
     [("member initialisers and state held per instance", "EKF/ekf.h, EKF/estimator_interface.h"), ("const getters", "EKF/ekf_helper.cpp")],
     ["all public getters after every update()"],
     tech="deterministic simulation: differential execution of one seeded schedule under changed memory, neighbours and reads",
     note="Seeded search over histories; bit-exact comparison of about 900 published values after every fusion step. Trusts the compiler to keep both executions on the same code.")
prop("P04", "Only time differences matter: results do not depend on the clock's origin",
     "Shifting every time stamp given to the estimator by the same whole number of milliseconds changes no published value, bit for bit, for any start time from one minute after the clock's zero up to wall clock time since 1970, including runs during which the clock crosses a 31 or 32 bit boundary of microseconds or milliseconds.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every history and every pair of clock origins more than a minute after zero",
     "Tests start near time zero and run for seconds, so single precision or 32 bit arithmetic on absolute time stays exact.",
     ["EKF/estimator_interface.cpp", "EKF/RingBuffer.h", "EKF/control.cpp", "EKF/ekf_helper.cpp", "EKF/gps_checks.cpp"],
     [("64 bit microsecond time stamps and differences", "EKF/estimator_interface.cpp, EKF/control.cpp")],
     ["all public getters after every update()"],
     tech="deterministic simulation: clock-jump fault, differential execution at two clock origins",
     note="Seeded search; bit-exact comparison after every fusion step.")
prop("P05", "Delivery order across sensors and repeated deliveries do not matter",
     "Between two inertial samples, the order in which different sensors hand over their samples changes no published value, bit for bit. Handing over a GPS, airspeed, range, optical flow, external vision or auxiliary velocity sample a second time right after the first changes nothing either.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of the sensor drivers within a cycle, and any number of immediate repetitions",
     "Tests always deliver in one fixed order and never twice.",
     ["EKF/estimator_interface.cpp", "EKF/RingBuffer.h"],
     [("per sensor buffers and minimum interval between samples", "EKF/estimator_interface.cpp")],
     ["all public getters after every update()"],
     tech="deterministic simulation: seeded scheduler permutes and duplicates deliveries within a cycle; differential execution",
     note="Seeded search; bit-exact comparison after every fusion step. Magnetometer and barometer repetitions are excluded: they are averaged, so a repeated sample legitimately weighs twice.")
prop("P06", "Each measurement is used once, at the fusion step matching when it was taken",
     "Every measurement the estimator accepts is evaluated at the first fusion step whose delayed inertial sample is not older than the measurement's time stamp minus its configured delay, only if it is at most 0.1 s older than that sample, and never a second time; when several are due the newest wins. Magnetometer and barometer samples that arrive closer together than the buffers can hold are replaced by their mean. The fusion horizon itself lags the newest inertial sample by the largest configured delay.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "every sequence of arrivals (late, repeated, reordered, lost, with wrong or frozen time stamps), every set of configured delays and sensor rates, every inertial sample rate and jitter, across restarts",
     "Which sample meets which fusion step depends on the interleaving of nine sensor streams, their latencies, the buffer lengths derived from the parameters and the down-sampling phase; a test fixes one combination.",
     ["EKF/estimator_interface.cpp", "EKF/RingBuffer.h", "EKF/control.cpp", "EKF/ekf.cpp"],
     [("ring buffers searched for the newest sample at the horizon", "EKF/RingBuffer.h"), ("rate limiting, averaging and delay compensation on arrival", "EKF/estimator_interface.cpp"), ("consumption in controlFusionModes", "EKF/control.cpp")],
     ["get_imu_sample_delayed()", "get_baro_sample_delayed()", "getFlowUncompensated()", "innovation getters", "return value of update()"],
     tech="deterministic simulation of sensor arrival schedules against an executable reference model of buffering and delivery",
     note="Seeded search. An innovation that keeps its value bit for bit is taken as not evaluated, three in a row are needed for an alarm. One finding (external vision height is applied again at every step) is listed in known-findings.txt.")
prop("P07", "Down-sampling the inertial data loses and invents nothing",
     "Every inertial sample handed over is contained in exactly one of the down-sampled samples the filter consumes, and that sample has the same total rotation, velocity change, duration, end time and clipping indication as the samples it stands for, at 10 ms on average whatever the input rate. The vibration metrics, the mean sample interval and the at-rest decision follow from the same samples.",
     ["histories", "inputs", "schedules", "configurations"],
     "every sequence of inertial samples: any rate from 80 Hz to 2 kHz, jitter, gaps, repeated samples, vibration, spikes, biases and clipping on any axis",
     "Rotation, velocity and clipping have to add up for every partition of the input into fusion steps, while tests use one fixed rate with almost no rotation within a step.",
     ["EKF/imu_down_sampler.cpp", "EKF/imu_down_sampler.hpp", "EKF/estimator_interface.cpp"],
     [("quaternion accumulation and interval adjustment", "EKF/imu_down_sampler.cpp"), ("vibration metrics and at-rest detection", "EKF/estimator_interface.cpp")],
     ["get_imu_sample_delayed()", "getImuVibrationMetrics()", "get_dt_imu_avg()", "isVehicleAtRest()"],
     tech="deterministic simulation with inertial timing, vibration and clipping faults; conservation check over the recorded history against double precision",
     note="Seeded search with double precision recomputation of every group. The trapezoidal rotation of velocity increments is part of the documented algorithm and is reproduced by the reference.")
prop("P08", "Outputs are the delayed estimate carried to now, moved only by announced resets",
     "After every inertial sample the published attitude, velocity, acceleration, position and vertical position derivative are those of an output predictor that integrates the newest inertial data corrected for the estimated biases, pulls its history towards the delayed filter state with the time constants given by the parameters, accounts for the position of the inertial unit on the vehicle, and is shifted by exactly the amount announced with each reset. They never jump in any other way.",
     ["histories", "schedules", "configurations", "fault_sequences"],
     "every history including resets of position, velocity, height and yaw in any combination, any delay, time constant, lever arm and inertial sample rate",
     "The predictor is a feedback loop over a history buffer whose errors only show over many cycles, with large delays, lever arms and resets that coincide.",
     ["EKF/ekf.cpp", "EKF/ekf_helper.cpp", "EKF/estimator_interface.h"],
     [("calculateOutputStates and the output history corrections", "EKF/ekf.cpp"), ("reset functions shifting the output history and recording the change", "EKF/ekf_helper.cpp")],
     ["getQuaternion()", "getVelocity()", "getPosition()", "getVerticalPositionDerivative()", "getVelocityDerivative()", "getOutputTrackingError()", "get_*_reset()"],
     tech="deterministic simulation of faulty flights, lock-step refinement against a double precision reference output predictor",
     note="Seeded search. When a quantity is reset twice within one fusion step only the last change is reported; the sum is then solved for from one output and checked from the next step on. Two attitude resets in one step end the run.")
prop("P09", "Between corrections the estimate and its uncertainty follow the motion equations",
     "At every fusion step in which no measurement is used, attitude, velocity and position advance by the delayed inertial sample corrected for the estimated biases, the earth's rotation and gravity, and every other state stays as it was. The covariance advances as F P F' + G Q G' with the noise given by the parameters, limited to the documented bounds, and inertial biases are learned or frozen exactly under the documented conditions (disabled by parameter, excessive manoeuvre, vertical acceleration fault).",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every reachable state and covariance, every inertial sample (rates, manoeuvres, gaps, clipping), every noise and bias-limit parameter, with wind and magnetic field states on or off",
     "The prediction is thousands of generated terms over 24 states; a wrong index or sign shows only for particular attitudes, rates and correlations, and slowly.",
     ["EKF/ekf.cpp", "EKF/covariance.cpp", "EKF/ekf.h"],
     [("predictState", "EKF/ekf.cpp"), ("predictCovariance and fixCovarianceErrors", "EKF/covariance.cpp")],
     ["get_state_delayed_vec()", "covariances()", "innovation getters (to know which steps used a measurement)", "get_imu_sample_delayed()"],
     tech="deterministic simulation of faulty flights, one-step refinement against a double precision reference prediction of state and covariance",
     note="Seeded search. The Jacobians of the reference are differentiated numerically from the motion equations, not copied. Steps in which a reset, control transition or undecidable correction happens are skipped and counted.")

prop("P10", "Velocity, position and height measurements are fused as documented",
     "Whenever a GPS, external vision, auxiliary velocity, barometer, range finder or synthetic position measurement is evaluated, the published innovation, innovation variance and consistency ratio are those of the delayed sample (lever arms, frame rotation, odometry increments, ground effect, noise floors included). A measurement within its gate, or limited to it while the vertical acceleration is declared bad, corrects all states and the covariance by the Kalman update; one outside changes nothing.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every state, covariance and measurement sequence; every combination of position aiding, height source, lever arm, vision frame and noise parameter; outliers, clipping, quality changes and lost or duplicated samples",
     "A wrong lever arm, frame, variance floor, stale innovation or skipped covariance row is only visible with particular mounting, attitude, mode and event order; tests look at the converged estimate.",
     ["EKF/vel_pos_fusion.cpp", "EKF/control.cpp", "EKF/ekf_helper.cpp"],
     [("fuseHorizontalVelocity, fuseVerticalVelocity, fuseHorizontalPosition, fuseVerticalPosition, fuseVelPosHeight", "EKF/vel_pos_fusion.cpp"), ("controlGpsFusion, controlHeightFusion, controlExternalVisionFusion, controlAuxVelFusion, controlFakePosFusion", "EKF/control.cpp")],
     ["innovation, innovation variance and ratio getters", "get_state_delayed_vec()", "covariances()"],
     tech="deterministic simulation of faulty flights, one-step refinement against a double precision reference of the measurement updates",
     note="Seeded search. Exact comparison on steps in which only these sources are used. Constant height offsets are inferred from the first use after a reset and must then stay constant. The vision height that is re-used without a new sample is the known finding of P06 and not judged here.")

prop("P11", "Heading and magnetic field measurements are fused as documented",
     "Whenever a heading (magnetometer, GPS dual antenna, external vision, held or synthetic), a magnetometer vector or a declination is evaluated, the published innovation, variance and ratio are those of the delayed sample, the declination in force and the Euler convention suited to the attitude. Inside the gate it corrects the states and covariance by the Kalman update, restricted to the magnetic field states when the attitude must not follow the field; outside it changes nothing. A heading declared untrustworthy is never used; another valid source takes over.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every attitude (including near vertical), state, covariance, magnetic disturbance, field strength, declination source, fusion mode, inhibition and hand-over between heading sources",
     "Wrong Jacobians, gains of the wrong axis, a stale inhibition flag or a skipped covariance row show only for some attitudes, correlations and hand-over sequences.",
     ["EKF/mag_fusion.cpp", "EKF/gps_yaw_fusion.cpp", "EKF/mag_control.cpp", "EKF/ekf_helper.cpp"],
     [("fuseMag, fuseHeading, fuseYaw321, fuseYaw312, fuseDeclination, limitDeclination", "EKF/mag_fusion.cpp"), ("fuseGpsYaw", "EKF/gps_yaw_fusion.cpp"), ("controlMagFusion and inhibition logic", "EKF/mag_control.cpp")],
     ["getHeadingInnov(), getMagInnov() with variances and ratios", "get_state_delayed_vec()", "covariances()"],
     tech="deterministic simulation of faulty flights, one-step refinement against a double precision reference of the measurement updates",
     note="Seeded search. Jacobians of the reference are numeric. Whether only the field states are corrected is decided from the time since the last reset where that is observable, otherwise either is accepted; steps with a saturated or too small heading innovation and gains that are numerically undecidable are skipped and counted.")

prop("P12", "Airspeed, sideslip, drag and optical flow are fused as documented",
     "Whenever an airspeed, zero-sideslip, specific-force drag or optical flow observation is evaluated, the published innovation, variance and ratio are those of the delayed (for drag: averaged) sample, including lever arm, terrain height, flow quality, rate compensation and air density. Inside the gate it corrects by the Kalman update, the wind states only while other aiding exists and always for drag; outside it changes nothing. Each axis is fused with gains of the covariance left by the previous axis, so the covariance stays valid.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every state, covariance and wind, every combination of air data, sideslip, drag and flow with or without other aiding; outliers, quality changes, delays and lost samples",
     "Sequential fusion with gains of a stale covariance, or a wrong term among hundreds of generated ones, needs particular correlations to matter and then looks like slow inconsistency.",
     ["EKF/airspeed_fusion.cpp", "EKF/sideslip_fusion.cpp", "EKF/drag_fusion.cpp", "EKF/optflow_fusion.cpp"],
     [("fuseAirspeed", "EKF/airspeed_fusion.cpp"), ("fuseSideslip", "EKF/sideslip_fusion.cpp"), ("fuseDrag", "EKF/drag_fusion.cpp"), ("fuseOptFlow, calcOptFlowBodyRateComp, calcOptFlowMeasVar", "EKF/optflow_fusion.cpp"), ("setDragData", "EKF/estimator_interface.cpp")],
     ["getAirspeedInnov(), getBetaInnov(), getDragInnov(), getFlowInnov() with variances and ratios", "getFlowCompensated(), getFlowGyro(), getFlowVelBody()", "get_state_delayed_vec()", "covariances()"],
     tech="deterministic simulation of faulty flights, one-step refinement against a double precision reference of the measurement updates",
     note="Seeded search. The flow sensor's gyro bias estimate is not published: it is inferred and must change slowly and stay inside its limits. Small drag forces make the reference sensitivity ill-conditioned and are skipped.")

prop("P13", "Terrain height estimate follows its measurements and reports validity",
     "The published terrain height and variance are those of the documented terrain filter: held at the ground clearance while landed, grown by terrain noise, corrected by each acceptable range measurement (fresh, regular, sufficient quality for long enough, tilt and distance inside limits, not stuck, lever arm removed), reset to it after ten seconds of rejection, and by optical flow only when range is lost and flow is not aiding navigation. An unacceptable or rejected measurement never moves it, the vehicle never sinks below it, and validity and reported sources are exactly the recent updates.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every flight and terrain profile, sample rate, mounting, tilt, range limit, quality history, stuck or lost sensor, fusion mode and timing of landing, take-off and range loss",
     "Acceptance depends on ten seconds of sensor history, hysteresis and arrival timing; the effect of a wrong gate, timer or term is a plausible height above ground that is wrong only after particular outages.",
     ["EKF/terrain_estimator.cpp", "EKF/sensor_range_finder.cpp", "EKF/control.cpp", "EKF/optflow_fusion.cpp"],
     [("runTerrainEstimator, initHagl, fuseHagl, fuseFlowForTerrain, updateTerrainValidity", "EKF/terrain_estimator.cpp"), ("SensorRangeFinder::runChecks", "EKF/sensor_range_finder.cpp"), ("controlFusionModes, controlOpticalFlowFusion", "EKF/control.cpp"), ("calcOptFlowBodyRateComp, calcOptFlowMeasVar", "EKF/optflow_fusion.cpp")],
     ["getTerrainVertPos(), get_terrain_var(), isTerrainEstimateValid(), getTerrainEstimateSensorBitfield()", "getHaglInnov(), getFlowInnov() with variances and ratios", "getFlowCompensated(), getFlowGyro()"],
     tech="deterministic simulation of flights with range finder and flow faults, one-step refinement against a double precision reference of range acceptance and the terrain filter",
     note="Seeded search. Every decision the reference cannot decide within rounding is tried both ways and either result accepted. Flow samples without duration are skipped and counted.")

prop("P14", "GPS quality gate decides when to trust GPS and where the origin is",
     "Every GPS message that passes the rate limit is judged by the documented checks: satellites, dilution, accuracies, drift and speed while at rest on the ground, vertical speed difference; each is reported in the fail status and the drift metrics are the documented filtered values. GPS is accepted exactly when no selected check failed for the required time; the first acceptance sets the global origin, its altitude, time and declination once, keeping a place set by the user. Moving the origin while aiding leaves the estimated place on earth unchanged and announces the shift.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every sequence of GPS messages, quality reports, drifts, rates, selected checks, thresholds and required times, any alternation of rest, movement and flight, origins set by the user at any time",
     "The gate is a history: filters with resets, a timer restarted by each selected failure and an origin set once; a wrong mask bit, threshold or reset only shows after particular sequences of several seconds.",
     ["EKF/gps_checks.cpp", "EKF/ekf_helper.cpp", "EKF/estimator_interface.cpp", "EKF/estimator_interface.h"],
     [("collect_gps, gps_is_good", "EKF/gps_checks.cpp"), ("setEkfGlobalOrigin, getEkfGlobalOrigin, get_gps_drift_metrics", "EKF/ekf_helper.cpp"), ("setGpsData", "EKF/estimator_interface.cpp"), ("get_mag_decl_deg", "EKF/estimator_interface.h")],
     ["get_gps_check_status(), get_gps_drift_metrics()", "getEkfGlobalOrigin(), global_origin_valid(), get_mag_decl_deg()", "state_reset_status(), information_event_flags()"],
     tech="deterministic simulation of GPS quality faults, refinement against an executable reference of the gate after every message",
     note="Seeded search. A check value within rounding of its threshold takes the reported decision. An origin set by the user before the first acceptance keeps its place but takes its altitude from GPS, as the code does.")

prop("P15", "Estimates return to the truth after disturbances end",
     "With healthy, calibrated sensors and at least thirty seconds after every disturbance has ended, attitude, heading, velocity, position and altitude stay within stated bounds of the true motion at every fusion step, for any vehicle type, aiding mode, height source, flight and sequence of earlier losses, delays, duplicates, reordering, jittered time stamps, noise, outliers, offsets or jumps. The local (and, with GPS, global) position is then reported valid and the filter is not dead reckoning.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "every flight, place, wind, sensor suite, aiding mode, height source, sensor mounting and delay, and every earlier fault sequence that the documented checks can detect",
     "Recovery is liveness over minutes of closed-loop history: rejection timeouts, resets and covariances interact, and a defect in any of them shows only as an estimate that never comes back.",
     ["EKF/ekf.cpp", "EKF/control.cpp", "EKF/ekf_helper.cpp", "EKF/mag_control.cpp", "EKF/covariance.cpp", "EKF/vel_pos_fusion.cpp"],
     [("controlFusionModes and all control functions", "EKF/control.cpp"), ("resetQuatStateYaw, resetVelocity, resetHorizontalPosition, resetHeight", "EKF/ekf_helper.cpp"), ("controlMagFusion", "EKF/mag_control.cpp"), ("predictState, calculateOutputStates", "EKF/ekf.cpp"), ("predictCovariance, fixCovarianceErrors", "EKF/covariance.cpp")],
     ["getQuaternion(), getVelocity(), getPosition()", "getEkfGlobalOrigin()", "local_position_is_valid(), global_position_is_valid(), attitude_valid(), inertial_dead_reckoning()"],
     tech="deterministic simulation of faulty flights, bounded recovery: comparison with the simulated truth once faults have stopped",
     note="Seeded search. Bounds leave at least a factor 1.5 to the worst of 60000 clean runs. Faults that no check can detect (GPS, vision or flow that lie consistently for seconds, a magnetic disturbance, self-reported poor GPS quality) are not part of it; inertial faults neither.")

prop("P16", "The independent yaw estimate follows its documented filter bank",
     "The bank of five velocity and yaw filters that supplies the emergency yaw (its activity, the yaw, velocity innovations and weight of every filter, the combined yaw and its variance) evolves exactly as the documented attitude references, Kalman filters and Gaussian sum prescribe, step by step, whatever the magnetometer and the main filter do. The main filter adopts that yaw only when it has converged, not more often than every 5 s and not more often than the configured limit, announces the attitude reset, and then has that yaw.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "every inertial, GPS and airspeed history, vehicle type, in-air history, accuracy report, mounting and every sequence of magnetometer, GPS and airspeed faults",
     "The bank is a recursive filter with hidden attitude, bias and covariance per model, started, collapsed and restarted by the flight history; its emergency use occurs only after long sequences of failed fusions.",
     ["EKF/EKFGSF_yaw.cpp", "EKF/EKFGSF_yaw.h", "EKF/ekf_helper.cpp", "EKF/control.cpp", "EKF/utils.cpp"],
     [("EKFGSF_yaw::update, ahrsPredict, predictEKF, updateEKF, gaussianDensity, initialiseEKFGSF", "EKF/EKFGSF_yaw.cpp"), ("runYawEKFGSF, resetYawToEKFGSF", "EKF/ekf_helper.cpp"), ("controlGpsFusion: emergency yaw reset conditions", "EKF/control.cpp")],
     ["getDataEKFGSF()", "getGyroBias(), get_imu_sample_delayed(), control_status()", "warning_event_flags(), information_event_flags(), state_reset_status()"],
     tech="deterministic simulation with fault injection, lock-step double precision reference of the filter bank driven by the simulated sensor history",
     note="Seeded search. The reference keeps its own attitude, bias, velocity and covariance of every model for the whole run; only weights are taken over after each comparison. Tolerances are wider while a GPS lever arm is configured or after the covariance has been large. The accuracy of the yaw itself is part of P15.")

prop("P17", "The stand-alone wind estimator follows its documented filter",
     "After every call the published wind, airspeed scale, wind variances, innovations and innovation variances of WindEstimator are those of the documented three state filter applied to the same calls: initialisation only above 3 m/s, prediction at 1 Hz, fusion at no more than 10 Hz, gates, re-initialisation after more than five seconds of rejection, enforced scale and limits. A valid estimate is finite, and is given up only after such a series of rejections at low speed, never because consistent measurements were fused.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "every sequence of update, fuse_airspeed and fuse_beta calls at any rate and clock value with increasing time, every flight, wind, tuning, stalled caller and sequence of wrong, lost, late or repeated measurements",
     "The estimator is recursive with timers and a re-initialisation path: a wrong Jacobian sign, a limit that breaks the covariance or a timer that is not cleared shows only minutes later, after particular losses and manoeuvres.",
     ["airdata/WindEstimator.cpp", "airdata/WindEstimator.hpp"],
     [("update, fuse_airspeed, fuse_beta, run_sanity_checks, check_if_meas_is_rejected, initialise", "airdata/WindEstimator.cpp"), ("filter equations", "airdata/python/wind_est_derivation.py")],
     ["get_wind(), get_wind_var(), get_tas_scale()", "get_tas_innov(), get_tas_innov_var(), get_beta_innov(), get_beta_innov_var()", "is_estimate_valid(), get_wind_estimator_reset()"],
     tech="deterministic simulation of a faulty air data caller, lock-step double precision reference after every call",
     note="Seeded search. Time never goes backwards and inputs are finite. Where single precision rounding decides the result (relative wind below 5 cm/s, near-singular covariance measured with perturbed copies of the reference) comparison pauses until the next initialisation and is counted. Accuracy against the true wind is not claimed: the initial guess assumes that heading equals course.")

prop("P18", "Aiding sources start, stop, fall back and reset by the documented rules",
     "At every fusion step exactly one height source is in use, and GPS, vision, optical flow, airspeed, wind estimation and the fallback without aiding start and stop exactly when data continuity, quality checks, alignment, selection and the other sources require it, announced by the matching event. A source that was not used for its time-out causes the documented fallback or reset, never earlier, and an announced reset puts position, velocity or height where its source says. Dead reckoning and position validity follow from when each source was last used.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every combination of selected sources, height source, time-out and delay, every flight, every sequence of outages, rejections, quality losses and recoveries of several sensors at once",
     "The rules are a state machine over timers of all sensors together; a wrong timer, flag or order of checks shows only when particular sources fail and return in a particular order, seconds apart.",
     ["EKF/control.cpp", "EKF/ekf_helper.cpp", "EKF/vel_pos_fusion.cpp", "EKF/optflow_fusion.cpp", "EKF/airspeed_fusion.cpp", "EKF/sideslip_fusion.cpp"],
     [("controlHeightSensorTimeouts, controlHeightFusion", "EKF/control.cpp"), ("controlGpsFusion, controlExternalVisionFusion, controlOpticalFlowFusion, controlAirDataFusion, controlFakePosFusion", "EKF/control.cpp"), ("update_deadreckoning_status, startGpsFusion, stopGpsFusion, stopEvFusion, resetHeight, resetVelocity, resetHorizontalPosition", "EKF/ekf_helper.cpp")],
     ["control_status(), information_event_flags(), warning_event_flags()", "state_reset_status(), getStateAtFusionHorizonAsVector()", "inertial_dead_reckoning(), local_position_is_valid(), global_position_is_valid()"],
     tech="deterministic simulation of overlapping outages, step-by-step comparison with a reference of the source selection rules",
     note="Seeded search. Whether a measurement passed its gate is taken from the published ratio (its correctness is P10 to P12). Reset values are compared when no other correction came between in the same step. Quality conditions of starting flow and range aid inside the air are only bounded, not decided.")

prop("P19", "What the filter reports about itself follows from its state",
     "At every fusion step the solution status, the summary of consistency checks, the fault mask, the accuracies of local and global position and of velocity, the bias and other variances, the number of aiding sources, validity, previous flags, reset getters and control limits are exactly those that follow from the control flags, faults, state, covariance, innovations and test ratios of the same step. A rejection flag becomes set exactly when its own axis or source fails its own check and changes at no other time, and the 16 and 32 bit masks agree with the individual flags.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every fusion step of every flight with any sensors, configuration, sensor limits, gates, rejections, faults, dead reckoning periods and origins",
     "The reports combine many flags and ratios; a wrong bit, source or unit only shows while that source is rejected, faulty, dead reckoning or off, in combinations that a handful of flights never reaches.",
     ["EKF/ekf_helper.cpp", "EKF/ekf.h", "EKF/estimator_interface.h", "EKF/estimator_interface.cpp", "EKF/common.h", "EKF/vel_pos_fusion.cpp", "EKF/mag_fusion.cpp", "EKF/optflow_fusion.cpp", "EKF/terrain_estimator.cpp"],
     [("get_ekf_soln_status, get_innovation_test_status, get_ekf_gpos_accuracy, get_ekf_lpos_accuracy, get_ekf_vel_accuracy, get_ekf_ctrl_limits", "EKF/ekf_helper.cpp"), ("getGyroBiasVariance, getAccelBiasVariance, getWindVelocityVariance, covariance views", "EKF/ekf.h"), ("innovation_fault_status_u, fault_status_u, control_status_u", "EKF/common.h"), ("rejection flags", "EKF/vel_pos_fusion.cpp, EKF/mag_fusion.cpp, EKF/optflow_fusion.cpp, EKF/terrain_estimator.cpp, EKF/airspeed_fusion.cpp, EKF/sideslip_fusion.cpp")],
     ["get_ekf_soln_status(), get_innovation_test_status()", "innov_check_fail_status(), fault_status()", "get_ekf_lpos_accuracy(), get_ekf_gpos_accuracy(), get_ekf_vel_accuracy(), get_ekf_ctrl_limits()", "getGyroBiasVariance(), getAccelBiasVariance()", "reset getters, validity getters"],
     tech="deterministic simulation of flights with rejections, outages and faults, recomputation of every report from the published state of the same step",
     note="Seeded search. Whether dead reckoning has lasted longer than allowed is decided from validity and time, and either accuracy is accepted in between. A rejection flag is not judged in a step in which its source starts or stops or its ratio is within 1e-4 of the gate.")

prop("P20", "Geographic calculations agree with spherical geometry everywhere",
     "For all finite inputs distance, bearing, vectors, cross-track errors and waypoints are those of the sphere, projecting and reprojecting a place gives that place back, and functions that undo each other do so, including at the poles, across the date line and for coincident points.",
     ["inputs"],
     "all latitudes, longitudes, distances and bearings",
     "Tests sample a few places; singular ones (poles, antipodes, date line, zero distance) are where such functions go wrong.",
     ["geo/geo.cpp", "geo/geo.h"],
     [("map_projection_*, get_distance_*, waypoint_*, get_bearing_*", "geo/geo.cpp")],
     ["return values"])

prop("P21", "The magnetic field tables are interpolated continuously over the whole earth",
     "For every latitude and longitude, also out of range ones, declination, inclination and strength are the bilinear interpolation of the surrounding table points, continuous across cells, and clamped to the table at its edges.",
     ["inputs"],
     "all pairs of latitude and longitude",
     "Tests sample grid points; errors of an interpolation show between them and at the edges.",
     ["geo_lookup/geo_mag_declination.cpp", "geo_lookup/geo_magnetic_tables.hpp"],
     [("get_table_data, get_lookup_table_index", "geo_lookup/geo_mag_declination.cpp")],
     ["return values"])
