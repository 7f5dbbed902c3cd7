// P14: the GPS quality gate and the global origin, against an executable reference fed with the same messages
#include "../refgps.h"
using namespace sim;
namespace
{
struct Hook : Hooks {
	Result &r;
	const World &w;
	RefFront f;
	GpsGate g;
	uint64_t tNow{0}, steps{0}, h{1469598103934665603ull};
	bool pending{false}, restarted{false}, stop{false};
	// reference of the origin
	bool mapSet{false}, nedSet{false};
	double oLat{0}, oLon{0}, oAlt{0}, oTolM{0}, oAltTol{0};
	uint64_t oTime{0};
	double decl{0};
	bool justSet{false};
	bool evt{false};
	uint16_t lastBits{0};
	// before a user change of the origin
	matrix::Vector3f pos0;
	double lat0{0}, lon0{0}, alt0{0};
	bool aiding0{false};
	uint8_t cNE{0}, cD{0};

	Hook(Result &r_, const World &w_) : r(r_), w(w_) {}
	double t() const { return (double)(tNow - w.t0) * 1e-6; }
	static bool aiding(const filter_control_status_u &c) { return c.flags.gps || c.flags.opt_flow || c.flags.ev_pos || c.flags.ev_vel || (c.flags.fuse_aspd && c.flags.fuse_beta); }
	void flush(Ekf &e)
	{
		if (stop) { return; }

		if (pending) { pending = false; judge(e); }

		origin(e);
	}
	void judge(Ekf &e)
	{
		uint16_t v;
		e.get_gps_check_status(&v);
		static const char *const nm[] = {"fix", "number of satellites", "position dilution", "horizontal accuracy", "vertical accuracy", "speed accuracy", "horizontal drift", "vertical drift", "horizontal speed", "vertical speed"};

		for (int i = 0; i < 10; i++) {
			if ((v ^ g.bits) >> i & 1) {
				if (g.unsure >> i & 1) { g.set(i, v >> i & 1); r.cnt["undecided"]++; }

				else { r.bad(std::string("gate_") + (i < 6 ? "quality" : i < 9 ? "drift" : "vspeed"), fmt("t=%.3f s: the %s check of the GPS message reports %s", t(), nm[i], v >> i & 1 ? "a failure although the message is within the limit" : "no failure although the message is outside the limit")); stop = true; return; }
			}

			if (g.bits >> i & 1) { r.cnt[std::string("fail_bit") + std::to_string(i)]++; }
		}

		float d[3];
		bool blk;
		const bool fresh = e.get_gps_drift_metrics(d, &blk);

		for (int i = 0; i < 3; i++) { if (!(std::fabs(d[i] - g.drift[i]) <= g.driftTol[i] + 1e-6 * g.drift[i] + 1e-7)) { r.bad("gate_metric", fmt("t=%.3f s: GPS %s metric is %.8g instead of %.8g m/s (tolerance %.2g)", t(), i == 0 ? "horizontal drift" : i == 1 ? "vertical drift" : "speed", d[i], g.drift[i], g.driftTol[i])); stop = true; return; } }

		if (fresh != g.driftNew) { r.bad("gate_metric_new", fmt("t=%.3f s: GPS drift metrics reported as %s", t(), fresh ? "updated although they were not" : "already read although they were updated")); stop = true; return; }

		if (blk != !e.control_status().flags.vehicle_at_rest) { r.bad("gate_blocked", fmt("t=%.3f s: GPS drift check blocking reported %d, vehicle at rest %d", t(), blk, e.control_status().flags.vehicle_at_rest)); stop = true; return; }

		g.driftNew = false;
		const bool was = g.passed;
		g.conclude(*e.getParamHandle(), tGate);

		if (g.passed && !was) { r.cnt["gate_passes"]++; }

		if (!g.passed && was) { r.cnt["gate_lost"]++; }

		uint64_t sh = 3;
		fnv(sh, g.bits | (uint64_t)g.passed << 12 | (uint64_t)nedSet << 13 | (uint64_t)mapSet << 14 | (uint64_t)gRest << 15 | (uint64_t)gAir << 16);
		fnv(sh, e.getParamHandle()->gps_check_mask);
		r.states.insert(sh);

		// ---- the origin follows from the conclusion
		if (gInited && !nedSet && g.passed) {
			const double la = msg.lat * 1.0e-7, lo = msg.lon * 1.0e-7;

			if (!mapSet) {
				oLat = la;
				oLon = lo;
				oTolM = 0.002;

				if (gAiding) { projInv(la, lo, -(double)gPos(0), -(double)gPos(1), oLat, oLon); oTolM = 0.002 + 1e-6 * std::hypot(gPos(0), gPos(1)); r.cnt["origin_while_aiding"]++; }

				mapSet = true;

			} else { r.cnt["origin_kept_user"]++; }

			oAlt = 1e-3 * msg.alt + (double)gPos(2);
			oAltTol = 3e-7 * std::fabs(1e-3 * msg.alt) + 1e-4;
			oTime = tGate;
			nedSet = true;
			decl = worldDecl(la, lo) * 180 / M_PI;
			r.cnt["origin_set"]++;
			justSet = true;
		}
	}
	void origin(Ekf &e)
	{
		if (stop) { return; }

		uint64_t ot;
		double la, lo;
		float al;
		const bool v = e.getEkfGlobalOrigin(ot, la, lo, al);

		if (v != nedSet || e.global_origin_valid() != nedSet) {
			r.bad("origin_valid", fmt("t=%.3f s: global origin reported %s; last check failure %.3f s ago, %.3f s required", t(), v ? "valid before the GPS checks passed for the required time" : "not valid although the GPS checks passed for the required time", 1e-6 * (double)(tNow - g.lastFail), 1e-6 * (double)g.minHealth));
			stop = true;
			return;
		}

		if (mapSet) {
			double x, y;
			projFwd(oLat, oLon, la, lo, x, y);

			if (!(std::hypot(x, y) <= oTolM)) { r.bad("origin_place", fmt("t=%.3f s: the global origin is %.3f m away from where it belongs (%.7f,%.7f instead of %.7f,%.7f)", t(), std::hypot(x, y), la, lo, oLat, oLon)); stop = true; return; }
		}

		if ((nedSet || mapSet) && !(std::fabs(al - oAlt) <= oAltTol + 2e-7 * std::fabs(oAlt))) { r.bad("origin_altitude", fmt("t=%.3f s: altitude of the global origin %.4f instead of %.4f m", t(), al, oAlt)); stop = true; return; }

		if (nedSet && ot != oTime) { r.bad("origin_time", fmt("t=%.3f s: origin time %.3f s instead of %.3f s", t(), 1e-6 * (double)(int64_t)(ot - w.t0), 1e-6 * (double)(oTime - w.t0))); stop = true; return; }

		float d = 0;
		const bool save = e.get_mag_decl_deg(&d), want = nedSet && (e.getParamHandle()->mag_declination_source & MASK_SAVE_GEO_DECL);

		if (save != want) { r.bad("decl_valid", fmt("t=%.3f s: magnetic declination offered for saving %d instead of %d", t(), save, want)); stop = true; return; }

		if (save && !(std::fabs(d - decl) <= 0.002)) { r.bad("decl_value", fmt("t=%.3f s: magnetic declination %.5f instead of %.5f degrees", t(), d, decl)); stop = true; return; }

		const bool ev = e.information_event_flags().gps_checks_passed;

		if (justSet ? !ev : (ev && !evt)) { r.bad("origin_event", fmt("t=%.3f s: GPS-checks-passed event reported %d", t(), ev)); stop = true; return; }

		evt = ev;
		justSet = false;
	}
	gps_message msg{};
	uint64_t tGate{0};
	bool gInited{false}, gAiding{false}, gRest{false}, gAir{false};
	matrix::Vector3f gPos;
	static matrix::Vector3f pos(Ekf &e)
	{
		const auto x = e.getStateAtFusionHorizonAsVector();
		return matrix::Vector3f(x(7), x(8), x(9));
	}
	void preImu(const imuSample &s, Ekf &e) override
	{
		flush(e);
		f.imu(s, *e.getParamHandle());
		tNow = s.time_us;
	}
	void onDeliver(const Ev &v, const World &wd, Ekf &e) override
	{
		flush(e);
		const uint64_t last = f.last[GPS];
		f.deliver(v, wd, *e.getParamHandle());

		if (v.type != GPS || f.last[GPS] == last || stop) { return; }

		msg = wd.gps[v.idx];
		const auto c = e.control_status();
		tGate = tNow;
		gInited = f.inited;
		gAiding = aiding(c);
		gRest = c.flags.vehicle_at_rest;
		gAir = c.flags.in_air;
		gPos = pos(e);
		g.message(msg, *e.getParamHandle(), tNow, gAir, gRest, e.getStateAtFusionHorizonAsVector()(6));
		pending = true;
	}
	void onOpBefore(const Op &o, Ekf &e) override
	{
		flush(e);

		if (o.kind == O_ORIGIN) {
			pos0 = pos(e);
			aiding0 = mapSet && aiding(e.control_status());
			uint64_t ot;
			float al;
			e.getEkfGlobalOrigin(ot, lat0, lon0, al);
			alt0 = al;
			cNE = e.state_reset_status().posNE_counter;
			cD = e.state_reset_status().posD_counter;
		}
	}
	void onOp(const Op &o, Ekf &e) override
	{
		if (o.kind == O_RESTART) { restarted = true; }

		if (o.kind == O_GPSHEALTH) { g.minHealth = (uint32_t)o.a; }

		if (o.kind == O_READ) { g.driftNew = false; }

		if (o.kind == O_CLEAREV) { evt = false; }

		if (o.kind == O_ORIGIN && !stop) {
			mapSet = true;
			oLat = o.a;
			oLon = o.b;
			oTolM = 1e-6;
			oAlt = (float)o.c;
			oAltTol = 0;
			const auto p = pos(e);
			const auto &rs = e.state_reset_status();

			if (aiding0) {
				r.cnt["origin_moved_aiding"]++;
				// the place on earth stays where it was
				double a0, b0, a1, b1, x, y;
				projInv(lat0, lon0, pos0(0), pos0(1), a0, b0);
				projInv(oLat, oLon, p(0), p(1), a1, b1);
				projFwd(a0, b0, a1, b1, x, y);
				const double tol = 0.003 + 3e-7 * (std::hypot(p(0), p(1)) + std::hypot(pos0(0), pos0(1)));

				if (!(std::hypot(x, y) <= tol)) { r.bad("origin_shift", fmt("t=%.3f s: moving the global origin moved the estimated place on earth by %.3f m", t(), std::hypot(x, y))); stop = true; return; }

				const double az = alt0 - (double)pos0(2), an = oAlt - (double)p(2);

				if (!(std::fabs(az - an) <= 3e-3 + 1e-6 * (std::fabs(alt0) + std::fabs(oAlt)))) { r.bad("origin_shift_alt", fmt("t=%.3f s: moving the global origin changed the estimated altitude from %.3f to %.3f m", t(), az, an)); stop = true; return; }

				if ((uint8_t)(rs.posNE_counter - cNE) != 1 || (uint8_t)(rs.posD_counter - cD) != 1) { r.bad("origin_announce", fmt("t=%.3f s: moving the global origin announced %d horizontal and %d vertical position resets", t(), (uint8_t)(rs.posNE_counter - cNE), (uint8_t)(rs.posD_counter - cD))); stop = true; return; }

				for (int i = 0; i < 2; i++) { if (!(std::fabs(rs.posNE_change(i) - (p(i) - pos0(i))) <= 1e-3 + 3e-7 * std::fabs(p(i)) + 3e-7 * std::fabs(pos0(i)))) { r.bad("origin_announce", fmt("t=%.3f s: moving the global origin announced a shift of %.4f m, actual %.4f m", t(), rs.posNE_change(i), p(i) - pos0(i))); stop = true; return; } }

			} else {
				r.cnt["origin_moved_idle"]++;

				for (int i = 0; i < 3; i++) { if (bitsOf(p(i)) != bitsOf(pos0(i))) { r.bad("origin_idle_shift", fmt("t=%.3f s: setting the global origin without horizontal aiding changed the local position", t())); stop = true; return; } }
			}
		}
	}
	void preUpdate(const StepInfo &, Ekf &e) override { flush(e); }
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		if (restarted || stop) { return false; }

		flush(e);
		f.step(st.updated, e.covariances()(4, 4) > 0);
		steps++;
		fnv(h, g.bits);
		fnv(h, (uint64_t)nedSet);

		if (f.lost || stop) { return false; }

		return true;
	}
};

Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1414);
	Scn s = richScn(seed * 17 + 5, r.u(26, thorough ? 70 : 42), R_LONGGROUND);
	auto q = [](double x) { return std::floor(x * 1e6) / 1e6; };
	const double dur = s.g("dur", 30);

	if (!((int)s.g("P.fusion_mode", 0) & MASK_USE_GPS) && r.p(0.7)) { s.s("P.fusion_mode", (int)s.g("P.fusion_mode", 0) | MASK_USE_GPS); }

	if (r.p(0.4)) { s.s("P.gps_check_mask", r.i(0, 511)); }

	if (r.p(0.5)) { s.ops.push_back({O_GPSHEALTH, 0, std::floor(r.logu(0.2, 12) * 1e6), 0, 0}); }

	if (r.p(0.15)) { s.ops.push_back({O_GPSHEALTH, std::floor(r.u(2, dur)), std::floor(r.logu(0.2, 12) * 1e6), 0, 0}); }

	for (const auto &n : std::vector<std::tuple<const char *, double, double>> {{"req_hacc", 0.3, 6}, {"req_vacc", 0.5, 8}, {"req_sacc", 0.1, 1}, {"req_pdop", 0.8, 3}, {"req_hdrift", 0.02, 0.6}, {"req_vdrift", 0.02, 0.8}}) {
		if (r.p(0.3)) { s.s(std::string("P.") + std::get<0>(n), std::max(q(r.logu(std::get<1>(n), std::get<2>(n))), std::get<1>(n))); }
	}

	if (r.p(0.3)) { s.s("P.req_nsats", r.i(4, 17)); }

	// reported quality exactly at the limit
	if (r.p(0.15)) { s.s("gps_pdop", 1.5); s.s("P.req_pdop", 1.5); }

	if (r.p(0.1)) { s.s("gps_nsats", 9); s.s("P.req_nsats", 9); }

	if (r.p(0.1)) { s.s("gps_eph", 2); s.s("P.req_hacc", 2); s.s("gps_epv", 3); s.s("P.req_vacc", 3); s.s("gps_sacc", 0.25); s.s("P.req_sacc", 0.25); }

	if (r.p(0.3)) {
		// one selected check, and the one thing that makes it fail
		const int b = r.i(0, 8);
		s.s("P.gps_check_mask", r.p(0.7) ? 1 << b : 511 & ~(1 << b));
		const double t = std::floor(r.u(1, 8)), d = std::floor(r.u(1, 8));

		if (b == 0) { s.faults.push_back(Fault{F_QUALITY, GPS, t, t + d, -1, 3}); }

		if (b == 1) { s.faults.push_back(Fault{F_QUALITY, GPS, t, t + d, -1, -1, -1}); }

		if (b == 2) { s.s("P.req_hacc", 0.5); }

		if (b == 3) { s.s("P.req_vacc", 0.7); }

		if (b == 4) { s.s("P.req_sacc", 0.15); }

		if (b == 5) { s.s("n.gpsp", q(r.u(0.5, 2))); s.s("P.req_hdrift", 0.05); }

		if (b == 6) { s.s("n.gpsp", q(r.u(0.5, 2))); s.s("P.req_vdrift", 0.05); }

		if (b == 7) { s.faults.push_back(Fault{F_VEL, GPS, t, t + d, q(r.u(-2, 2)), q(r.u(0.5, 2)), 0}); }

		if (b == 8) { s.faults.push_back(Fault{F_VEL, GPS, t, t + d, 0, 0, q(r.u(0.5, 2))}); }
	}

	if (r.p(0.5)) { s.s("P.mag_declination_source", r.i(0, 7)); }

	if (r.p(0.3)) { s.s("n.gpsp", q(r.logu(0.02, 2))); }

	if (r.p(0.3)) { s.s("n.gpsv", q(r.logu(0.01, 1))); }

	if (r.p(0.3)) { s.s("hz.gps", r.pick({1.0, 2.0, 4.0, 20.0})); }

	for (int i = r.i(0, 4); i > 0; i--) {
		const double t = std::floor(r.u(1, dur - 3)), d = std::floor(r.u(1, 12));
		const int k = r.i(0, 9);

		if (k == 0) { s.faults.push_back(Fault{F_QUALITY, GPS, t, t + d, (double)r.i(0, 5), -1}); }

		if (k == 1) { s.faults.push_back(Fault{F_QUALITY, GPS, t, t + d, -1, (double)r.i(0, 12)}); }

		if (k == 2) { s.faults.push_back(Fault{F_QUALITY, GPS, t, t + d, -1, -1, q(r.logu(0.5, 20))}); }

		if (k == 3) { s.faults.push_back(Fault{F_QUALITY, GPS, t, t + d, -1, -1, -1}); }

		if (k == 4) { s.faults.push_back(Fault{F_BIAS, GPS, t, t + d, q(r.u(-5, 5)), q(r.u(-5, 5)), q(r.u(-8, 8))}); }

		if (k == 5) { s.faults.push_back(Fault{F_NOISE, GPS, t, t + d, q(r.logu(0.1, 5)), 0}); }

		if (k == 6) { s.faults.push_back(Fault{F_VEL, GPS, t, t + d, q(r.u(-1, 1)), q(r.u(-1, 1)), q(r.u(-1, 1))}); }

		if (k == 7) { s.faults.push_back(Fault{F_VIB, IMU, t, t + d, q(r.u(0.01, 0.3)), q(r.u(0.2, 3))}); }

		if (k == 8) { s.faults.push_back(Fault{F_LOSS, GPS, t, t + d, q(r.u(0.4, 1)), 0}); }

		if (k == 9) { s.faults.push_back(Fault{F_SPIKE, GPS, t, t + d, q(r.u(0.05, 0.5)), q(r.u(-10, 10))}); }
	}

	for (int i = r.i(0, 3); i > 1; i--) { s.ops.push_back({O_ORIGIN, std::floor(r.u(1, dur)), s.g("lat", 47) + q(r.u(-0.01, 0.01)), s.g("lon", 8) + q(r.u(-0.01, 0.01)), s.g("alt", 400) + q(r.u(-100, 100))}); }

	if (r.p(0.3)) { s.ops.push_back({O_CLEAREV, std::floor(r.u(5, dur)), 0, 0, 0}); }

	if (r.p(0.1)) { s.ops.push_back({O_INAIR, 0, 1, 0, 0}); }

	else if (r.p(0.25)) {
		// declared in air for a moment while standing
		const double t = std::floor(r.u(2, 9)) + 0.25;
		s.ops.push_back({O_INAIR, t, 1, 0, 0});
		s.ops.push_back({O_INAIR, t + r.i(1, 3), 0, 0, 0});
	}

	if (r.p(0.15)) { s.ops.push_back({O_INAIR, std::floor(r.u(12, dur)), (double)r.i(0, 1), 0, 0}); }

	swarmFaults(s, r, 2, dur, 4, bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_IMUGAP) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_VIB) | bit(F_BIAS) | bit(F_SPIKE), kAllSensors);
	return s;
}
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Hook a(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["messages"] += a.g.calls;
	r.cnt["fusion_steps"] += a.steps;
	r.nontrivial = a.g.calls > 50;
}
Reg reg({"P14", gen, exec, "a run counts when more than 50 GPS messages were judged"});
}
