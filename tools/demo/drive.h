// Minimal flight driver for the demonstrations: a vehicle that sits, then flies a gentle weave at constant height.
#pragma once
#include <EKF/ekf.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <new>
#include <functional>
#include <memory>
using matrix::Vector3f;
struct Drive {
	Ekf *e;
	uint64_t t;			// us
	double ts{0};			// seconds since start
	uint64_t t0;
	uint32_t imu_us{4000};
	double lat0{47.356}, lon0{8.519}; float alt0{480.f};
	bool useMag{true}, useBaro{true}, useGps{true}, useAsp{false}, useRng{false}, useFlow{false}, useEv{false};
	double takeoff{10}; double amp{0};	// lateral sine amplitude m (period 10 s), starts at takeoff
	double up{0};			// climb rate m/s after takeoff for 5 s
	double vn{0};			// forward speed after takeoff (ramped over 2 s)
	Vector3f gyroErr{}, accErr{};
	double yaw0{0};
	std::function<void(imuSample &)> onImu;
	std::function<bool(magSample &)> onMag;
	std::function<bool(baroSample &)> onBaro;
	std::function<bool(gps_message &)> onGps;
	std::function<bool(airspeedSample &)> onAsp;
	std::function<bool(rangeSample &)> onRng;
	std::function<bool(flowSample &)> onFlow;
	std::function<bool(extVisionSample &)> onEv;
	std::function<void(bool)> onStep;	// after update(), argument: filter updated
	uint32_t magN{0}, baroN{0}, gpsN{0}, aspN{0}, rngN{0}, flowN{0}, evN{0};
	double p[3]{}, v[3]{}, a[3]{};
	explicit Drive(Ekf *k, uint64_t start = 1000000) : e(k), t(start), t0(start) {}
	static double ramp(double x, double T, double &d1, double &d2)
	{	// smooth 0..1 over T (quintic), derivatives in d1,d2
		if (x <= 0) { d1 = d2 = 0; return 0; }
		if (x >= T) { d1 = d2 = 0; return 1; }
		const double s = x / T;
		d1 = 30 * s * s * (1 - s) * (1 - s) / T; d2 = 60 * s * (1 - s) * (1 - 2 * s) / T / T;
		return s * s * s * (10 - 15 * s + 6 * s * s);
	}
	void truth(double s)
	{
		const double x = s - takeoff;
		for (int i = 0; i < 3; i++) { p[i] = v[i] = a[i] = 0; }
		if (x <= 0) { return; }
		double d1, d2, m = ramp(x, 5, d1, d2);
		p[2] = -up * 5 * m; v[2] = -up * 5 * d1; a[2] = -up * 5 * d2;
		const double w = 0.628318530718, sn = sin(w * x), cs = cos(w * x);
		p[1] = amp * m * sn; v[1] = amp * (d1 * sn + m * w * cs); a[1] = amp * (d2 * sn + 2 * d1 * w * cs - m * w * w * sn);
		// forward: v = vn*m
		v[0] = vn * m; a[0] = vn * d1;
		const double sx = x < 5 ? x / 5 : 1;
		p[0] = x < 5 ? vn * 5 * (sx * sx * sx * sx * (2.5 - 3 * sx + sx * sx)) : vn * (2.5 + (x - 5));
	}
	void run(double secs)
	{
		const uint64_t end = t + (uint64_t)(secs * 1e6);
		while (t < end) {
			t += imu_us; ts = (t - t0) * 1e-6;
			truth(ts);
			const float dt = imu_us * 1e-6f;
			const float cy = cosf(yaw0), sy = sinf(yaw0);
			auto body = [&](double n, double ee, double d) { return Vector3f(cy * n + sy * ee, -sy * n + cy * ee, d); };
			imuSample m{};
			m.time_us = t; m.delta_ang_dt = m.delta_vel_dt = dt;
			m.delta_ang = gyroErr * dt;
			m.delta_vel = (body(a[0], a[1], a[2] - 9.80665) + accErr) * dt;
			// keep the vibration metric alive in flight
			if (ts > takeoff) { m.delta_vel(2) += (((t - t0) / imu_us) & 1) ? 0.0006f : -0.0006f; }
			if (onImu) { onImu(m); }
			e->setIMUData(m);
			auto due = [&](uint32_t &n, double hz) { if (ts * hz >= n) { n++; return true; } return false; };
			if (useMag && due(magN, 50)) { magSample s{}; s.time_us = t; const Vector3f f = body(0.21, 0.01, 0.43); s.mag = f; if (!onMag || onMag(s)) { e->setMagData(s); } }
			if (useBaro && due(baroN, 50)) { baroSample s{}; s.time_us = t; s.hgt = alt0 - p[2]; if (!onBaro || onBaro(s)) { e->setBaroData(s); } }
			if (useGps && due(gpsN, 5)) {
				gps_message g{}; g.time_usec = t; g.fix_type = 3; g.nsats = 14; g.eph = 0.8f; g.epv = 1.2f; g.sacc = 0.3f; g.pdop = 0.9f; g.yaw = NAN; g.yaw_offset = NAN; g.vel_ned_valid = true;
				g.lat = (int32_t)std::lround((lat0 + p[0] / 6371000.0 * 57.29577951308232) * 1e7);
				g.lon = (int32_t)std::lround((lon0 + p[1] / 6371000.0 / cos(lat0 / 57.29577951308232) * 57.29577951308232) * 1e7);
				g.alt = (int32_t)std::lround((alt0 - p[2]) * 1000);
				g.vel_ned = Vector3f(v[0], v[1], v[2]); g.vel_m_s = g.vel_ned.norm();
				if (!onGps || onGps(g)) { e->setGpsData(g); }
			}
			if (useAsp && due(aspN, 10)) { airspeedSample s{}; s.time_us = t; s.eas2tas = 1.05f; s.true_airspeed = hypot(v[0], v[1]); if (!onAsp || onAsp(s)) { e->setAirspeedData(s); } }
			if (useRng && due(rngN, 20)) { rangeSample s{}; s.time_us = t; s.rng = 0.2f - p[2]; s.quality = 100; if (!onRng || onRng(s)) { e->setRangeData(s); } }
			if (useFlow && due(flowN, 30)) { flowSample s{}; s.time_us = t; s.dt = 0.0333f; s.quality = 200; const float h = 0.2f - p[2]; const Vector3f vb = body(v[0], v[1], v[2]); s.flow_xy_rad = matrix::Vector2f(vb(1) / h * s.dt, -vb(0) / h * s.dt); s.gyro_xyz = Vector3f(0, 0, 0); if (!onFlow || onFlow(s)) { e->setOpticalFlowData(s); } }
			if (useEv && due(evN, 30)) { extVisionSample s{}; s.time_us = t; s.pos = Vector3f(p[0], p[1], p[2]); s.vel = Vector3f(v[0], v[1], v[2]); s.quat = matrix::Quatf(matrix::Eulerf(0, 0, yaw0)); s.posVar = Vector3f(0.01f, 0.01f, 0.01f); s.velCov = matrix::eye<float, 3>() * 0.01f; s.angVar = 0.01f; if (!onEv || onEv(s)) { e->setExtVisionData(s); } }
			if (ts > takeoff) { e->set_in_air_status(true); }
			const bool up_ = e->update();
			if (onStep) { onStep(up_); }
		}
	}
};
