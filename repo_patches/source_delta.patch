From d9c8747f1236b489121bc352726eefe6af900ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 01/23] fix: initialise the vertical innovation monitoring
 members

checkVerticalAccelerationHealth() reads _vert_pos_innov_ratio, _vert_vel_innov_ratio and
their time stamps before the first height or vertical velocity fusion. They were never
initialised, so the outcome of the first cycles (a vertical velocity and height reset)
depended on the memory the estimator was constructed in.
---
 EKF/ekf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index ade36dd..9d8ec49 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -401,10 +401,10 @@ private:
 	Vector3f _last_vel_obs;			///< last velocity observation (m/s)
 	Vector3f _last_vel_obs_var;		///< last velocity observation variance (m/s)**2
 	Vector2f _last_fail_hvel_innov;		///< last failed horizontal velocity innovation (m/s)**2
-	float _vert_pos_innov_ratio;		///< vertical position innovation divided by estimated standard deviation of innovation
-	uint64_t _vert_pos_fuse_attempt_time_us;	///< last system time in usec vertical position measurement fuson was attempted
-	float _vert_vel_innov_ratio;		///< standard deviation of vertical velocity innovation
-	uint64_t _vert_vel_fuse_time_us;	///< last system time in usec time vertical velocity measurement fuson was attempted
+	float _vert_pos_innov_ratio{0.0f};		///< vertical position innovation divided by estimated standard deviation of innovation
+	uint64_t _vert_pos_fuse_attempt_time_us{0};	///< last system time in usec vertical position measurement fuson was attempted
+	float _vert_vel_innov_ratio{0.0f};		///< standard deviation of vertical velocity innovation
+	uint64_t _vert_vel_fuse_time_us{0};	///< last system time in usec time vertical velocity measurement fuson was attempted
 
 	Vector3f _gps_vel_innov;	///< GPS velocity innovations (m/sec)
 	Vector3f _gps_vel_innov_var;	///< GPS velocity innovation variances ((m/sec)**2)
-- 
2.43.0


From 61e47eecb2749f6196d255841cf7b3da4c0a7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 02/23] fix: subtract sensor delays in integer microseconds

The delay was subtracted as a float, which converted the 64 bit time stamp to single
precision: after 17 minutes of uptime samples were placed on a 64 us grid, after a day
on an 8 ms grid and with an epoch based clock on a 2 minute grid, i.e. they were fused
at the wrong time or not at all.
---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..68565ef 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<uint64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<uint64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<uint64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<uint64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<uint64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<uint64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<uint64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<uint64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From ac94e4fd0ede82432b6c3eb0834b19320110281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 03/23] fix: guard the minimum observation interval against a
 single element buffer

---
 EKF/estimator_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 68565ef..bccaa01 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -79,7 +79,7 @@ void EstimatorInterface::setIMUData(const imuSample &imu_sample)
 
 		// calculate the minimum interval between observations required to guarantee no loss of data
 		// this will occur if data is overwritten before its time stamp falls behind the fusion time horizon
-		_min_obs_interval_us = (imu_sample.time_us - _imu_sample_delayed.time_us) / (_obs_buffer_length - 1);
+		_min_obs_interval_us = (imu_sample.time_us - _imu_sample_delayed.time_us) / math::max(_obs_buffer_length - 1, 1);
 
 		setDragData(imu_sample);
 	}
-- 
2.43.0


From 5eb50111b99db9d5272512080e6d9a002f39e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 04/23] fix: do not use buffers whose allocation failed

---
 EKF/RingBuffer.h            | 13 ++++++++-----
 EKF/ekf.cpp                 |  5 +++++
 EKF/estimator_interface.cpp |  5 +++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/EKF/RingBuffer.h b/EKF/RingBuffer.h
index bc36fcb..40769f8 100644
--- a/EKF/RingBuffer.h
+++ b/EKF/RingBuffer.h
@@ -66,15 +66,18 @@ public:
 			return false;
 		}
 
+		data_type *buffer = new data_type[size]{};
+
+		if (buffer == nullptr) {
+			// keep the existing buffer
+			return false;
+		}
+
 		if (_buffer != nullptr) {
 			delete[] _buffer;
 		}
 
-		_buffer = new data_type[size]{};
-
-		if (_buffer == nullptr) {
-			return false;
-		}
+		_buffer = buffer;
 
 		_size = size;
 
diff --git a/EKF/ekf.cpp b/EKF/ekf.cpp
index 6ca20cb..43d63e3 100644
--- a/EKF/ekf.cpp
+++ b/EKF/ekf.cpp
@@ -102,6 +102,11 @@ bool Ekf::update()
 {
 	bool updated = false;
 
+	if (!_initialised) {
+		// no IMU data has been received or the IMU and output buffers are not available
+		return false;
+	}
+
 	if (!_filter_initialised) {
 		_filter_initialised = initialiseFilter();
 
diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index bccaa01..96bb954 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -51,6 +51,11 @@ void EstimatorInterface::setIMUData(const imuSample &imu_sample)
 	// TODO: resolve misplaced responsibility
 	if (!_initialised) {
 		_initialised = init(imu_sample.time_us);
+
+		if (!_initialised) {
+			// the IMU and output buffers are not available
+			return;
+		}
 	}
 
 	const float dt = math::constrain((imu_sample.time_us - _time_last_imu) / 1e6f, 1.0e-4f, 0.02f);
-- 
2.43.0


From 60a6e8f08806db95e3244f1d99f61a186984ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 05/23] fix: always initialise the reported innovation and
 solution status

---
 EKF/ekf_helper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..bde225e 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -947,6 +947,9 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 
 	} else if (_control_status.flags.ev_hgt) {
 		hgt = sqrtf(_ev_pos_test_ratio(1));
+
+	} else {
+		hgt = 0.0f;
 	}
 
 	// return the airspeed fusion innovation test ratio
@@ -960,7 +963,7 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 // return a bitmask integer that describes which state estimates are valid
 void Ekf::get_ekf_soln_status(uint16_t *status) const
 {
-	ekf_solution_status soln_status;
+	ekf_solution_status soln_status{};
 	// TODO: Is this accurate enough?
 	soln_status.flags.attitude = _control_status.flags.tilt_align && _control_status.flags.yaw_align && (_fault_status.value == 0);
 	soln_status.flags.velocity_horiz = (isHorizontalAidingActive() || (_control_status.flags.fuse_beta && _control_status.flags.fuse_aspd)) && (_fault_status.value == 0);
-- 
2.43.0


From 7e989bf0265b12ea1587dc334a29b77c362406a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 06/23] fix: do not overflow the magnetometer and barometer
 sample counters

---
 EKF/estimator_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.h b/EKF/estimator_interface.h
index 843674d..659db10 100644
--- a/EKF/estimator_interface.h
+++ b/EKF/estimator_interface.h
@@ -418,7 +418,7 @@ private:
 	// Used to down sample barometer data
 	uint64_t _baro_timestamp_sum{0};	// summed timestamp to provide the timestamp of the averaged sample
 	float _baro_alt_sum{0.0f};			// summed pressure altitude readings (m)
-	uint8_t _baro_sample_count{0};		// number of barometric altitude measurements summed
+	uint32_t _baro_sample_count{0};		// number of barometric altitude measurements summed
 
 	// Used by the multi-rotor specific drag force fusion
 	uint8_t _drag_sample_count{0};	// number of drag specific force samples assumulated at the filter prediction rate
@@ -427,7 +427,7 @@ private:
 	// Used to downsample magnetometer data
 	uint64_t _mag_timestamp_sum{0};
 	Vector3f _mag_data_sum;
-	uint8_t _mag_sample_count{0};
+	uint32_t _mag_sample_count{0};
 
 	// observation buffer final allocation failed
 	bool _gps_buffer_fail{false};
-- 
2.43.0


From 906d8f7cdab3ee481a5413b4a6cd8d0f2a4da966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 07/23] fix: tolerate large vertical innovations while the
 vertical acceleration is declared bad

The fusion tested a member that is never written, so measurements were
rejected instead of limited when they are needed most. Use the fault flag.
---
 EKF/ekf.h              | 1 -
 EKF/vel_pos_fusion.cpp | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 9d8ec49..0f7aef0 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -524,7 +524,6 @@ private:
 	// imu fault status
 	uint64_t _time_bad_vert_accel{0};	///< last time a bad vertical accel was detected (uSec)
 	uint64_t _time_good_vert_accel{0};	///< last time a good vertical accel was detected (uSec)
-	bool _bad_vert_accel_detected{false};	///< true when bad vertical accelerometer data has been detected
 	uint16_t _clip_counter{0};		///< counter that increments when clipping ad decrements when not
 
 	// variables used to control range aid functionality
diff --git a/EKF/vel_pos_fusion.cpp b/EKF/vel_pos_fusion.cpp
index 9631304..f3b2bfb 100644
--- a/EKF/vel_pos_fusion.cpp
+++ b/EKF/vel_pos_fusion.cpp
@@ -86,7 +86,7 @@ bool Ekf::fuseVerticalVelocity(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
@@ -157,7 +157,7 @@ bool Ekf::fuseVerticalPosition(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
-- 
2.43.0


From 1486511bf09e099344bf9cfdbe5d4b6c4271c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 08/23] fix: do not fuse the first vision odometry sample with
 a stale innovation

The first sample only provides the reference for the position increments:
no innovation and observation variance have been computed for it.
---
 EKF/control.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 2a354f5..51f0029 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -229,6 +229,7 @@ void Ekf::controlExternalVisionFusion()
 
 			Vector3f ev_pos_obs_var;
 			Vector2f ev_pos_innov_gates;
+			bool ev_pos_innov_available = true;
 
 			// correct position and height for offset relative to IMU
 			const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
@@ -246,6 +247,7 @@ void Ekf::controlExternalVisionFusion()
 				if (!_hpos_prev_available) {
 					// no previous observation available to calculate position change
 					_hpos_prev_available = true;
+					ev_pos_innov_available = false;
 
 				} else {
 					// calculate the change in position since the last measurement
@@ -298,7 +300,9 @@ void Ekf::controlExternalVisionFusion()
 			// innovation gate size
 			ev_pos_innov_gates(0) = fmaxf(_params.ev_pos_innov_gate, 1.0f);
 
-			fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			if (ev_pos_innov_available) {
+				fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			}
 		}
 
 		// determine if we should use the velocity observations
-- 
2.43.0


From a736dd69f444e03d496f2bda01144f6054c575e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 09/23] fix: do not fuse an untrusted heading while yaw fusion
 is inhibited and the vehicle is moving

---
 EKF/mag_fusion.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..504cb4c 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -743,6 +743,7 @@ void Ekf::fuseHeading()
 
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
+		bool fusion_required = true;
 		if (_is_yaw_fusion_inhibited) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
@@ -756,6 +757,8 @@ void Ekf::fuseHeading()
 					fuse_zero_innov = true;
 					R_YAW = 0.25f;
 
+				} else {
+					fusion_required = false;
 				}
 				_last_static_yaw = predicted_hdg;
 
@@ -771,7 +774,9 @@ void Ekf::fuseHeading()
 
 		}
 
-		fuseYaw321(measured_hdg, R_YAW, fuse_zero_innov);
+		if (fusion_required) {
+			fuseYaw321(measured_hdg, R_YAW, fuse_zero_innov);
+		}
 
 	} else {
 		const float predicted_hdg = getEuler312Yaw(_R_to_earth);
@@ -794,6 +799,7 @@ void Ekf::fuseHeading()
 
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
+		bool fusion_required = true;
 		if (_is_yaw_fusion_inhibited) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
@@ -807,6 +813,8 @@ void Ekf::fuseHeading()
 					fuse_zero_innov = true;
 					R_YAW = 0.25f;
 
+				} else {
+					fusion_required = false;
 				}
 				_last_static_yaw = predicted_hdg;
 
@@ -822,7 +830,9 @@ void Ekf::fuseHeading()
 
 		}
 
-		fuseYaw312(measured_hdg, R_YAW, fuse_zero_innov);
+		if (fusion_required) {
+			fuseYaw312(measured_hdg, R_YAW, fuse_zero_innov);
+		}
 
 	}
 }
-- 
2.43.0


From 05e3be9a9acdb746ad867d640c7defafd6d56301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 10/23] fix: use the vision heading even if the inhibited
 magnetometer heading was used before

---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 504cb4c..67952bb 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -744,7 +744,7 @@ void Ekf::fuseHeading()
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
 		bool fusion_required = true;
-		if (_is_yaw_fusion_inhibited) {
+		if (_is_yaw_fusion_inhibited && !_control_status.flags.ev_yaw) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
 			if (!_control_status.flags.vehicle_at_rest) {
@@ -800,7 +800,7 @@ void Ekf::fuseHeading()
 		// handle special case where yaw measurement is unavailable
 		bool fuse_zero_innov = false;
 		bool fusion_required = true;
-		if (_is_yaw_fusion_inhibited) {
+		if (_is_yaw_fusion_inhibited && !_control_status.flags.ev_yaw) {
 			// The yaw measurement cannot be trusted but we need to fuse something to prevent a badly
 			// conditioned covariance matrix developing over time.
 			if (!_control_status.flags.vehicle_at_rest) {
-- 
2.43.0


From 7561b638ba5122602738e7bcdb0f1cba3280f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 11/23] fix: keep inhibited delta velocity bias states
 uncorrelated with the states computed after them

---
 EKF/covariance.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index 94bafce..749db5b 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -827,6 +827,14 @@ void Ekf::predictCovariance()
 
 	}
 
+	// the rows above have been calculated for all axes, so ensure that an inhibited delta velocity bias state
+	// does not remain correlated with the other delta velocity bias, magnetic field and wind states
+	for (unsigned i = 0; i < 3; i++) {
+		if (_accel_bias_inhibit[i]) {
+			nextP.uncorrelateCovarianceSetVariance<1>(13 + i, _prev_dvel_bias_var(i));
+		}
+	}
+
 	// stop position covariance growth if our total position variance reaches 100m
 	// this can happen if we lose gps for some time
 	if ((P(7,7) + P(8,8)) > 1e4f) {
-- 
2.43.0


From cc3e8cbc2f72fa5590bf32b138055e849f6f5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 12/23] fix: recompute the optical flow Y axis gains after
 fusing the X axis

---
 EKF/optflow_fusion.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..7b63774 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -232,8 +232,6 @@ void Ekf::fuseOptFlow()
 		initialiseCovariance();
 		return;
 	}
-	const float HK95 = HK4/_flow_innov_var(1);
-
 
 	// run the innovation consistency check and record result
 	bool flow_fail = false;
@@ -298,19 +296,24 @@ void Ekf::fuseOptFlow()
 			Hfusion.at<5>() = -HK4*HK77;
 			Hfusion.at<6>() = -HK4*HK79;
 
-			// Kalman gains - axis 1
-			Kfusion(0) = -HK87*HK95;
-			Kfusion(1) = -HK94*HK95;
-			Kfusion(2) = -HK91*HK95;
-			Kfusion(3) = -HK93*HK95;
-			Kfusion(4) = -HK90*HK95;
-			Kfusion(5) = -HK89*HK95;
-			Kfusion(6) = -HK88*HK95;
+			// recalculate the innovation variance because the covariances have changed due to the X axis fusion
+			Vector24f PHt; // product of the covariance matrix and the (unscaled, negative) observation Jacobian
 
-			for (unsigned row = 7; row <= 23; row++) {
-				Kfusion(row) = -HK95*(HK80*P(0,row) + HK81*P(1,row) + HK82*P(2,row) + HK83*P(3,row) + HK84*P(4,row) + HK85*P(5,row) + HK86*P(6,row));
+			for (unsigned row = 0; row <= 23; row++) {
+				PHt(row) = HK80*P(0,row) + HK81*P(1,row) + HK82*P(2,row) + HK83*P(3,row) + HK84*P(4,row) + HK85*P(5,row) + HK86*P(6,row);
+			}
+
+			_flow_innov_var(1) = HK43*(HK80*PHt(0) + HK81*PHt(1) + HK82*PHt(2) + HK83*PHt(3) + HK84*PHt(4) + HK85*PHt(5) + HK86*PHt(6)) + R_LOS;
+
+			if (_flow_innov_var(1) < R_LOS) {
+				// we need to reinitialise the covariance matrix and abort this fusion step
+				initialiseCovariance();
+				return;
 			}
 
+			// Kalman gains - axis 1
+			Kfusion = PHt * (-HK4/_flow_innov_var(1));
+
 		}
 
 		const bool is_fused = measurementUpdate(Kfusion, Hfusion, _flow_innov(obs_index));
-- 
2.43.0


From c5a8dd3a735b759537dbdef81ac883670053b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 13/23] fix: rotate the quaternion covariances with the state
 when the yaw angle is reset

After a yaw reset the covariances of the quaternion states still described the
old orientation, so that tilt uncertainty ended up along the quaternion norm.
That direction cannot be observed, its uncertainty looks like an error of the
gravity vector and correlates with the vertical accelerometer bias, which then
drifts to its limit and takes the vertical velocity with it.
---
 EKF/ekf_helper.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index bde225e..549f838 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1568,6 +1568,18 @@ void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
 	_state.quat_nominal = quat_after_reset;
 	uncorrelateQuatFromOtherStates();
 
+	// rotate the quaternion covariances by the same amount, otherwise the uncertainty in attitude
+	// would end up in the direction of the quaternion norm, which is not observable
+	const float rot_data[4][4] = {{q_error(0), -q_error(1), -q_error(2), -q_error(3)},
+		{q_error(1), q_error(0), -q_error(3), q_error(2)},
+		{q_error(2), q_error(3), q_error(0), -q_error(1)},
+		{q_error(3), -q_error(2), q_error(1), q_error(0)}
+	};
+	const matrix::SquareMatrix<float, 4> rot(rot_data);
+	const matrix::SquareMatrix<float, 4> quat_cov = P.slice<4, 4>(0, 0);
+	P.slice<4, 4>(0, 0) = matrix::SquareMatrix<float, 4>(rot * quat_cov * rot.transpose());
+	P.makeRowColSymmetric<4>(0);
+
 	// record the state change
 	_state_reset_status.quat_change = q_error;
 
-- 
2.43.0


From 06e444a8551dff7608b5afe1363757092c9684a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:36 +0000
Subject: [PATCH 14/23] fix: start GPS height fusion only when a GPS sample has
 reached the fusion time horizon

---
 EKF/control.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 51f0029..032d418 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1048,8 +1048,9 @@ void Ekf::controlHeightFusion()
 				// Use baro as a fallback
 				startBaroHgtFusion();
 			}
-		} else if (_control_status.flags.baro_hgt && !do_range_aid && !_gps_hgt_intermittent && _gps_checks_passed) {
-			// In baro fallback mode and GPS has recovered so start using it
+		} else if (_control_status.flags.baro_hgt && !do_range_aid && !_gps_hgt_intermittent && _gps_checks_passed && _gps_data_ready) {
+			// In baro fallback mode and GPS has recovered so start using it once a sample has reached the fusion
+			// time horizon, because the height sensor offset is calculated from that sample
 			startGpsHgtFusion();
 		}
 		if (_control_status.flags.gps_hgt && _gps_data_ready) {
-- 
2.43.0


From 8c98b9642196036a8492b60cfd521c95743116bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:09 +0000
Subject: [PATCH 15/23] fix: take the GPS height offset only from a GPS sample
 that has reached the fusion time horizon

---
 EKF/gps_checks.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EKF/gps_checks.cpp b/EKF/gps_checks.cpp
index c2fdca1..260b621 100644
--- a/EKF/gps_checks.cpp
+++ b/EKF/gps_checks.cpp
@@ -108,7 +108,9 @@ bool Ekf::collect_gps(const gps_message &gps)
 		_gps_origin_epv = gps.epv;
 
 		// if the user has selected GPS as the primary height source, switch across to using it
-		if (_params.vdist_sensor_type == VDIST_SENSOR_GPS) {
+		// if no sample has reached the fusion time horizon yet, the switch is left to controlHeightFusion()
+		// because the height sensor offset is calculated from that sample
+		if (_params.vdist_sensor_type == VDIST_SENSOR_GPS && _gps_sample_delayed.time_us > 0) {
 			startGpsHgtFusion();
 		}
 
-- 
2.43.0


From a93f6657e22bc052f0d7f8448e5246122e7599c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:49 +0000
Subject: [PATCH 16/23] fix: WindEstimator: scale correlated terms when
 limiting the covariance

Only the diagonal was limited, so that two strongly correlated wind variances
(the process noise is common to both) lost positive definiteness when they were
capped. The next fusion then produced a negative variance and the estimate was
discarded although all measurements were consistent.
---
 airdata/WindEstimator.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index f755893..e26bf6c 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -316,12 +316,16 @@ WindEstimator::run_sanity_checks()
 			return;
 		}
 
-		// limit covariance diagonals if they grow too large
-		if (i < 2) {
-			_P(i, i) = _P(i, i) > 25.0f ? 25.0f : _P(i, i);
+		// limit covariance diagonals if they grow too large, scale the correlated terms to keep the matrix positive
+		const float var_max = (i < 2) ? 25.0f : 0.1f;
 
-		} else if (i == 2) {
-			_P(i, i) = _P(i, i) > 0.1f ? 0.1f : _P(i, i);
+		if (_P(i, i) > var_max) {
+			const float scale = sqrtf(var_max / _P(i, i));
+
+			for (unsigned j = 0; j < 3; j++) {
+				_P(i, j) *= scale;
+				_P(j, i) *= scale;
+			}
 		}
 	}
 
-- 
2.43.0


From 77fc45857767096bdf038594579e3850a4f7db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:19 +0000
Subject: [PATCH 17/23] fix: keep a height source when GPS fusion stops

stopGpsPosFusion() cleared the gps_hgt flag without selecting another height
source, so with GPS as the height reference and a non GPS vertical distance
sensor type (after a baro timeout) no height measurement was ever fused again.
---
 EKF/ekf_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 549f838..bca9bf6 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1441,7 +1441,12 @@ void Ekf::stopGpsFusion()
 void Ekf::stopGpsPosFusion()
 {
 	_control_status.flags.gps = false;
-	_control_status.flags.gps_hgt = false;
+
+	// the height reference needs a source, the GPS is used again when it is back
+	if (_control_status.flags.gps_hgt) {
+		startBaroHgtFusion();
+	}
+
 	_gps_pos_innov.setZero();
 	_gps_pos_innov_var.setZero();
 	_gps_pos_test_ratio.setZero();
-- 
2.43.0


From f160d5a31dec5b1c5f3b15250784089691b2a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:33 +0000
Subject: [PATCH 18/23] fix: count fused GPS position as absolute when vision
 is used as odometry

With GPS and external vision position both in use the odometry flag left behind
by the vision fusion made an accepted GPS position refresh the odometry timer
instead of the absolute position timer, so that a GPS fusion timeout reset
happened again and again although every GPS position was used.
---
 EKF/control.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 032d418..e7e2fa9 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -721,6 +721,8 @@ void Ekf::controlGpsFusion()
 			// fuse GPS measurement
 			fuseHorizontalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
 			fuseVerticalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
+			// GPS is an absolute position measurement, external vision may have been fused as odometry in the last step
+			_fuse_hpos_as_odom = false;
 			fuseHorizontalPosition(_gps_pos_innov, gps_pos_innov_gates, gps_pos_obs_var, _gps_pos_innov_var, _gps_pos_test_ratio);
 		}
 
-- 
2.43.0


From c09ac140152eb8c0ce5e99880dd83eb8a8d5f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:59 +0000
Subject: [PATCH 19/23] fix: judge barometer, GPS and vision continuity by
 arrival time

The ring buffers clear the time stamp of a sample when it is consumed. When the
newest sample had been consumed, a source that sends regularly looked silent
until its next sample, and a height reset during that time set the vertical
velocity to zero instead of the GPS value or found no source to reset to.
---
 EKF/control.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index e7e2fa9..a4311c4 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -84,12 +84,9 @@ void Ekf::controlFusionModes()
 		}
 	}
 
-	// check for intermittent data (before pop_first_older_than)
-	const baroSample &baro_init = _baro_buffer.get_newest();
-	_baro_hgt_faulty = !isRecent(baro_init.time_us, 2 * BARO_MAX_INTERVAL);
-
-	const gpsSample &gps_init = _gps_buffer.get_newest();
-	_gps_hgt_intermittent = !isRecent(gps_init.time_us, 2 * GPS_MAX_INTERVAL);
+	// check for intermittent data, the buffers cannot tell because they forget the time of a sample when it is consumed
+	_baro_hgt_faulty = !isRecent(_time_last_baro, 2 * BARO_MAX_INTERVAL);
+	_gps_hgt_intermittent = !isRecent(_time_last_gps, 2 * GPS_MAX_INTERVAL);
 
 	// check for arrival of new sensor data at the fusion time horizon
 	_time_prev_gps_us = _gps_sample_delayed.time_us;
@@ -872,8 +869,7 @@ void Ekf::controlHeightSensorTimeouts()
 
 		} else if (_control_status.flags.ev_hgt) {
 			// check if vision data is available
-			const extVisionSample &ev_init = _ext_vision_buffer.get_newest();
-			const bool ev_data_available = isRecent(ev_init.time_us, 2 * EV_MAX_INTERVAL);
+			const bool ev_data_available = isRecent(_time_last_ext_vision, 2 * EV_MAX_INTERVAL);
 
 			if (ev_data_available) {
 				request_height_reset = true;
-- 
2.43.0


From caffda576ce7f0c0cf1ea08b680b1f5c8e03bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:49 +0000
Subject: [PATCH 20/23] fix: publish IMU bias variances in squared rate units

The states are delta angles and delta velocities: their variances are
divided by the square of the interval, as the biases are by the interval.
---
 EKF/ekf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 0f7aef0..ad52567 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -224,8 +224,8 @@ public:
 	Vector3f getAccelBias() const { return _state.delta_vel_bias / _dt_ekf_avg; } // get the accelerometer bias in m/s**2
 	const Vector3f &getMagBias() const { return _state.mag_B; }
 
-	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / _dt_ekf_avg; } // get the gyroscope bias variance in rad/s
-	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / _dt_ekf_avg; } // get the accelerometer bias variance in m/s**2
+	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / sq(_dt_ekf_avg); } // get the gyroscope bias variance in (rad/s)**2
+	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / sq(_dt_ekf_avg); } // get the accelerometer bias variance in (m/s**2)**2
 	Vector3f getMagBiasVariance() const { return Vector3f{P(19, 19), P(20, 20), P(21, 21)}; }
 
 	// get GPS check status
-- 
2.43.0


From 9060d8633fb08d880873c23b76a9aa17a6191bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:49 +0000
Subject: [PATCH 21/23] fix: report rejected magnetometer axes in their own
 bits

The three magnetometer rejection bits start at bit 4; a rejected X axis
was reported as rejected height.
---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 67952bb..355a8bb 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
-- 
2.43.0


From 66527a048cc3132da5e9995ecc6b0a97e5956f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:49 +0000
Subject: [PATCH 22/23] fix: report rejected optical flow axes in their own
 bits

The two optical flow rejection bits start at bit 11; a rejected X axis
was reported as rejected height above ground.
---
 EKF/optflow_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index 7b63774..c60bd4b 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -243,10 +243,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From 76077faa709325e6afec457ae5e4fe03b27c7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:49 +0000
Subject: [PATCH 23/23] fix: fault status value covers all 18 faults

bad_acc_vertical and bad_acc_clipping did not fit in the 16 bit value, so
the published mask and the solution status did not show them.
---
 EKF/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..37f3c85 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint16_t value;
+	uint32_t value;
 
 };
 
-- 
2.43.0

