#include "../core.h"

namespace sim
{
const uint32_t kAllFaults = (1u << NFAULT) - 1;
const uint32_t kAllSensors = (1u << NSENS) - 1;

int paramIndex(const char *name)
{
	const auto &n = paramNames();

	for (size_t i = 0; i < n.size(); i++) { if (n[i] == name) { return (int)i; } }

	return -1;
}

Scn richScn(uint64_t seed, double dur, unsigned flags)
{
	Rng r(seed * 3 + 17);
	Scn s = baseScn(seed, dur);
	auto q = [](double x) { return std::floor(x * 1000) / 1000; };
	const bool fw = (flags & R_FORCEFW) || (!(flags & R_NOFW) && r.p(0.25));
	// imu
	s.s("imu_us", r.pick({1000.0, 2000.0, 2500.0, 4000.0, 4000.0, 4000.0, 5000.0, 8000.0, 10000.0}));
	s.s("imu_jit", r.p(0.5) ? 0.0 : q(r.u(0, 0.3)));
	// place on earth
	static const double places[][3] = {{47.356, 8.519, 480}, { -33.9, 151.2, 20}, {37.77, -122.42, 30}, {1.35, 103.8, 15}, {64.1, -21.9, 50}, { -41.3, 174.8, 10}, {35.0, 139.0, 40}, { -1.28, 36.8, 1700}, {0.0, 179.9995, 5}};
	const double *pl = places[r.i(0, 8)];
	s.s("lat", pl[0]); s.s("lon", pl[1]); s.s("alt", pl[2]);
	// core sensors
	s.s("hz.mag", r.pick({25.0, 50.0, 50.0, 75.0, 100.0}));
	s.s("hz.baro", r.pick({20.0, 25.0, 50.0, 50.0, 80.0}));
	s.s("hz.gps", r.pick({5.0, 5.0, 5.0, 8.0, 10.0}));

	for (const char *n : {"mag", "baro", "gps", "asp", "rng", "flow", "ev", "aux"}) {
		if (r.p(0.6)) { s.s(std::string("lat.") + n, std::floor(r.u(0, 8000))); s.s(std::string("lj.") + n, std::floor(r.u(0, 15000))); }
	}

	s.s("order", r.i(0, 1));
	int mode = 0;
	const bool gps = (flags & R_FORCEGPS) || r.p(0.8);

	if (gps) { mode |= MASK_USE_GPS; }

	if (!fw && !(flags & R_NOFLOW) && (r.p(0.3) || (!gps && r.p(0.6)))) {
		mode |= MASK_USE_OF;
		s.s("hz.flow", r.pick({15.0, 30.0, 50.0}));
		s.s("hz.rng", r.pick({15.0, 20.0, 30.0}));

		if (r.p(0.3)) { s.s("flow_nogyro", 1); }
	}

	if (!fw && !(flags & R_NOEV) && (r.p(0.25) || (!gps && !(mode & MASK_USE_OF)))) {
		s.s("hz.ev", r.pick({20.0, 30.0, 50.0}));

		if (r.p(0.7)) { mode |= MASK_USE_EVPOS; }

		if (r.p(0.5)) { mode |= MASK_USE_EVVEL; }

		if (r.p(0.3)) { mode |= MASK_USE_EVYAW; }

		if (!(mode & MASK_USE_EVYAW) && r.p(0.5)) { mode |= MASK_ROTATE_EV; s.s("ev_yaw", q(r.u(-3, 3))); }

		if (r.p(0.5)) { s.s("ev_body", 1); }

		if (r.p(0.5)) { s.s("P.ev_delay_ms", r.pick({20.0, 50.0, 100.0, 175.0})); }
	}

	if (!fw && r.p(0.25)) { mode |= MASK_USE_DRAG; s.s("drag", 1); s.s("P.drag_noise", 0.5); }

	if (r.p(0.1)) { mode |= MASK_INHIBIT_ACC_BIAS; }

	if (gps && r.p(0.12)) { mode |= MASK_USE_GPSYAW; s.s("gps_yaw", 1); s.s("gps_yaw_off", r.pick({0.0, 1.5707, -0.6})); }

	if (s.g("hz.rng", 0) <= 0 && r.p(0.35)) { s.s("hz.rng", r.pick({10.0, 20.0, 50.0})); }

	if (fw || r.p(0.15)) { s.s("hz.asp", r.pick({10.0, 20.0, 25.0})); s.s("eas2tas", q(r.u(1.0, 1.2))); }

	if (r.p(0.1)) { s.s("hz.aux", r.pick({10.0, 30.0})); }

	s.s("P.fusion_mode", mode);
	// height source
	const double x = r.u();

	if (x < 0.15 && gps) { s.s("P.vdist_sensor_type", VDIST_SENSOR_GPS); }

	else if (x < 0.25 && s.g("hz.rng", 0) > 0 && !fw) { s.s("P.vdist_sensor_type", VDIST_SENSOR_RANGE); }

	else if (x < 0.32 && s.g("hz.ev", 0) > 0) { s.s("P.vdist_sensor_type", VDIST_SENSOR_EV); }

	else if (s.g("hz.rng", 0) > 0 && r.p(0.3)) { s.s("P.range_aid", 1); }

	// yaw source
	s.s("P.mag_fusion_type", r.pick({0.0, 0.0, 0.0, 1.0, 2.0, 4.0, 5.0}));

	if (r.p(0.1)) { s.s("P.synthesize_mag_z", 1); }

	if (r.p(0.3)) { s.s("P.check_mag_strength", 1); }

	if (r.p(0.3)) { s.s("P.mag_declination_source", r.i(0, 7)); s.s("P.mag_declination_deg", q(worldDecl(pl[0], pl[1]) * 57.29578)); }

	if (r.p(0.3)) { s.s("P.gps_delay_ms", r.pick({50.0, 100.0, 110.0, 150.0, 200.0})); }

	if (r.p(0.3)) { s.s("P.sensor_interval_min_ms", r.pick({10.0, 20.0, 20.0, 30.0})); }

	if (r.p(0.2)) { s.s("P.gps_check_mask", r.pick({0.0, 21.0, 245.0, 511.0})); }

	// lever arms
	if (r.p(0.4)) {
		for (const char *n : {"imu_pos_body", "gps_pos_body", "rng_pos_body", "flow_pos_body", "ev_pos_body"}) {
			if (r.p(0.6)) { for (const char *ax : {".x", ".y", ".z"}) { s.s(std::string("P.") + n + ax, q(r.u(-0.4, 0.4))); } }
		}
	}

	// environment
	if (r.p(0.5)) { s.s("wind_n", q(r.u(-5, 5))); s.s("wind_e", q(r.u(-5, 5))); }

	if (r.p(0.5)) { s.s("mb_x", q(r.u(-0.05, 0.05))); s.s("mb_y", q(r.u(-0.05, 0.05))); s.s("mb_z", q(r.u(-0.05, 0.05))); }

	if (r.p(0.4)) { s.s("tilt_r", q(r.u(-0.12, 0.12))); s.s("tilt_p", q(r.u(-0.12, 0.12))); }

	s.s("gnd", q(r.u(0.12, 0.4)));
	s.ops.push_back({O_RNGLIM, 0, 0.05, fw ? 60.0 : 40.0, 0});
	s.ops.push_back({O_FLOWLIM, 0, 5.0, 0.05, 30.0});
	s.s("rng_max", fw ? 60 : 40);

	if (r.p(0.4)) { s.ops.push_back({O_CLEAREV, q(r.u(5, dur)), 0, 0, 0}); }

	if (flags & R_PARAMSWARM) {
		static const char *const tun[] = {"gyro_noise", "accel_noise", "gyro_bias_p_noise", "accel_bias_p_noise", "mage_p_noise", "magb_p_noise",
						  "wind_vel_p_noise", "gps_vel_noise", "gps_pos_noise", "baro_noise", "mag_heading_noise", "mag_noise", "eas_noise",
						  "beta_noise", "range_noise", "flow_noise", "drag_noise", "terrain_p_noise", "vel_Tau", "pos_Tau", "switch_on_gyro_bias", "initial_tilt_err"
						 };
		parameters d;

		for (const char *n : tun) { if (r.p(0.25)) { s.s(std::string("P.") + n, getParam(d, n) * r.logu(0.5, 2)); } }
	}

	{
		// what the sensors say about their own accuracy
		Rng m(seed * 5 + 101);

		if (m.p(0.4)) { s.s("acc_var", q(m.u(0.1, 0.6))); }

		if (m.p(0.4)) { s.s("ev_an", m.pick({0.2, 0.5, 2.0, 5.0, 20.0})); s.s("ev_corr", q(m.u(-0.4, 0.6))); }

		if (m.p(0.3)) { s.s("ev_pvar", q(m.logu(0.002, 1))); s.s("ev_vvar", q(m.logu(0.002, 0.5))); }

		if (m.p(0.4)) { s.s("ev_avar", m.pick({0.0001, 0.001, 0.01, 0.1, 0.5})); }

		if (m.p(0.2)) { s.s("gps_sacc", q(m.u(0.05, 0.6))); s.s("gps_eph", q(m.u(0.3, 2.9))); s.s("gps_epv", q(m.u(0.5, 4.5))); }

		if (m.p(0.3) && s.g("hz.asp", 0) > 0) { s.s("eas2tas", q(m.u(0.85, 2.2))); }

		if (m.p(0.2)) { s.s("aux_var", q(m.logu(0.005, 1))); }
	}
	// flight
	const double t0 = (flags & R_LONGGROUND) ? r.u(14, 18) : r.u(7, 16);

	if (fw) {
		addFlight(s, r, t0, dur - r.u(2, 6), true);

		if (r.p(0.6)) { s.ops.push_back({O_BETA, q(t0 + 1), 1, 0, 0}); }

	} else {
		addFlight(s, r, t0, dur - r.u(2, 10), false);

		if (r.p(0.3)) { s.ops.push_back({O_GNDEFF, q(t0), 1, 0, 0}); s.ops.push_back({O_GNDEFF, q(t0 + 3), 0, 0, 0}); }
	}

	if (r.p(0.25)) { s.ops.push_back({O_INAIR, q(dur - 2), 0, 0, 0}); }

	return s;
}

namespace
{
struct Recorder : Hooks {
	Trace &t;
	Result &r;
	const Filter &f;
	Hooks *x;
	Recorder(Trace &t_, Result &r_, const Filter &f_, Hooks *x_) : t(t_), r(r_), f(f_), x(x_) {}
	void onDeliver(const Ev &e, const World &w, Ekf &k) override { if (x) { x->onDeliver(e, w, k); } }
	void onOp(const Op &o, Ekf &k) override { if (x) { x->onOp(o, k); } }
	void onOpBefore(const Op &o, Ekf &k) override { if (x) { x->onOpBefore(o, k); } }
	void preImu(const imuSample &m, Ekf &k) override { if (x) { x->preImu(m, k); } }
	void preUpdate(const StepInfo &s, Ekf &k) override { if (x) { x->preUpdate(s, k); } }
	bool onStep(const StepInfo &s, Ekf &k) override
	{
		if (x && !x->onStep(s, k)) { return false; }

		uint64_t h = s.updated ? 11 : 7;

		if (s.updated || s.k % 16 == 0) {
			const char *last = nullptr;
			bool use = true;
			visitAll(k, [&](const char *n, int, float v) {
				if (n != last) { last = n; use = f(n); }

				if (use) { fnv(h, bitsOf(v)); }
			});
			if (s.updated) { r.states.insert(ctrlState(k)); }

		} else {
			const auto q = k.getQuaternion();
			const auto v = k.getVelocity(), p = k.getPosition();

			for (int i = 0; i < 4; i++) { fnv(h, bitsOf(q(i))); }

			for (int i = 0; i < 3; i++) { fnv(h, bitsOf(v(i))); fnv(h, bitsOf(p(i))); }
		}

		t.h.push_back(h);
		return true;
	}
};
struct Snapshot : Hooks {
	size_t target, k{0};
	const Filter &f;
	Hooks *x;
	std::vector<std::pair<std::string, float>> v;
	Snapshot(size_t t, const Filter &f_, Hooks *x_) : target(t), f(f_), x(x_) {}
	void onDeliver(const Ev &e, const World &w, Ekf &kf) override { if (x) { x->onDeliver(e, w, kf); } }
	void onOp(const Op &o, Ekf &kf) override { if (x) { x->onOp(o, kf); } }
	void onOpBefore(const Op &o, Ekf &kf) override { if (x) { x->onOpBefore(o, kf); } }
	void preImu(const imuSample &m, Ekf &kf) override { if (x) { x->preImu(m, kf); } }
	void preUpdate(const StepInfo &s, Ekf &kf) override { if (x) { x->preUpdate(s, kf); } }
	bool onStep(const StepInfo &s, Ekf &kf) override
	{
		if (x && !x->onStep(s, kf)) { return false; }

		if (k++ == target) {
			v.push_back({"fusion_step", (float)s.updated});
			visitAll(kf, [&](const char *n, int i, float y) { if (f(n)) { v.push_back({std::string(n) + "[" + std::to_string(i) + "]", y}); } });
			return false;
		}

		return true;
	}
};
}

Trace record(const Scn &s, const World &w, uint8_t fill, const Filter &f, Hooks *extra, Result &r)
{
	Trace t;
	Recorder rec(t, r, f, extra);
	Vehicle v(fill);
	run(s, w, v, rec);
	r.simSeconds += s.g("dur", 0);

	for (uint64_t h : t.h) { fnv(r.hash, h); }

	return t;
}

std::string explain(const Scn &a, const World &wa, const Scn &b, const World &wb, size_t k, const Filter &f, Hooks *ea, Hooks *eb)
{
	Snapshot sa(k, f, ea), sb(k, f, eb);
	Vehicle va((uint8_t)a.g("fill", 0)), vb((uint8_t)b.g("fill", 0));
	run(a, wa, va, sa);
	run(b, wb, vb, sb);
	std::string o;
	int n = 0;

	for (size_t i = 0; i < sa.v.size() && i < sb.v.size(); i++) {
		if (bitsOf(sa.v[i].second) != bitsOf(sb.v[i].second) && n++ < 3) { o += fmt(" %s: %.9g vs %.9g", sa.v[i].first.c_str(), sa.v[i].second, sb.v[i].second); }
	}

	return o.empty() ? " (outputs differ only through construction storage)" : o;
}
} // namespace sim
