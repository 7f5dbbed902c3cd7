// P18: which sensors aid the filter: starts, stops, time-outs, fallbacks, resets and their announcements,
// against an executable reference of the documented rules driven by the same history
#include "../refgps.h"
#include "../refekf.h"
using namespace sim;
namespace
{
using CF = decltype(filter_control_status_u::flags);

struct Hook : Hooks {
	Result &r;
	const World &w;
	RefFront f;
	GpsGate g;
	bool dead{false}, pending{false}, first{true};
	uint64_t tNow{0}, steps{0}, h{1469598103934665603ull}, tGate{0};
	int lastGps{-1}, lastEv{-1};
	uint64_t evMax{0}; // latest vision sample time stored so far: samples may arrive out of order
	std::map<int, std::pair<double, double>> gpsPos;
	// times the rules refer to
	uint64_t hv{0}, hp{0}, dp{0}, of{0}, arsp{0}, beta{0}, hgt{0}, gyaw{0}, fake{0}, aided{0};
	uint64_t lastFlow{0};
	bool everDisturbed{false}, odom{false}, gpsYawFaulty{false}, syn{false};
	uint64_t badT{0};
	// before the update
	filter_control_status_u c0;
	matrix::Vector<float, 24> x0;
	uint8_t n0[4] {};
	float flow0[3] {}, beta0[3] {}, hgt0[4][3] {}, gy0[3] {}, tas0[3] {};
	bool gateWasPassing{false}, origin0{false};

	Hook(Result &r_, const World &w_) : r(r_), w(w_) {}
	double t() const { return (double)(tNow - w.t0) * 1e-6; }
	double ago(uint64_t x) const { return x ? (double)(int64_t)(tNow - x) * 1e-6 : 1e9; }
	bool out(uint64_t x, uint64_t d) const { return x + d < tNow; }
	bool recent(uint64_t x, uint64_t d) const { return x + d > tNow; }
	bool bad(const char *kind, const std::string &what)
	{
		r.bad(kind, fmt("t=%.3f s: ", t()) + what);
		dead = true;
		return false;
	}
	void flush(Ekf &e)
	{
		if (!pending) { return; }

		pending = false;
		uint16_t v;
		e.get_gps_check_status(&v);
		g.bits = v;
		g.anyCall = true;
		g.conclude(*e.getParamHandle(), tGate);
		uint64_t ot;
		double la, lo, x = 0, y = 0;
		float al;

		if (e.getEkfGlobalOrigin(ot, la, lo, al) && lastGps >= 0) { const gps_message &m = w.gps[lastGps]; projFwd(la, lo, m.lat * 1e-7, m.lon * 1e-7, x, y); }

		gpsPos[lastGps] = {x, y};
	}
	void preImu(const imuSample &m, Ekf &e) override { flush(e); f.imu(m, *e.getParamHandle()); tNow = m.time_us; }
	void onDeliver(const Ev &v, const World &wd, Ekf &e) override
	{
		flush(e);
		const uint64_t a = f.last[GPS], b = f.last[EV], c = f.last[FLOW];
		f.deliver(v, wd, *e.getParamHandle());

		if (v.type == GPS && f.last[GPS] != a) { pending = true; tGate = tNow; lastGps = v.idx; }

		if (v.type == EV && f.last[EV] != b) { lastEv = v.idx; evMax = std::max(evMax, w.ev[lastEv].time_us); }

		if (v.type == FLOW && f.last[FLOW] != c) { lastFlow = f.last[FLOW]; }
	}
	void onOpBefore(const Op &, Ekf &e) override { flush(e); }
	void onOp(const Op &o, Ekf &) override
	{
		if (o.kind == O_RESTART) { dead = true; }

		if (o.kind == O_GPSHEALTH) { g.minHealth = (uint32_t)o.a; }
	}
	static void readHgt(const Ekf &e, float o[4][3])
	{
		float a[2], b[2];
		e.getBaroHgtInnov(o[0][0]); e.getBaroHgtInnovVar(o[0][1]); e.getBaroHgtInnovRatio(o[0][2]);
		float v;
		e.getGpsVelPosInnov(a, v, b, o[1][0]);
		e.getGpsVelPosInnovVar(a, v, b, o[1][1]);
		float q1, q2, q3;
		e.getGpsVelPosInnovRatio(q1, q2, q3, o[1][2]);
		e.getRngHgtInnov(o[2][0]); e.getRngHgtInnovVar(o[2][1]); e.getRngHgtInnovRatio(o[2][2]);
		e.getEvVelPosInnov(a, v, b, o[3][0]);
		e.getEvVelPosInnovVar(a, v, b, o[3][1]);
		e.getEvVelPosInnovRatio(q1, q2, q3, o[3][2]);
	}
	static void readFlow(const Ekf &e, float *o) { e.getFlowInnov(o); float v[2]; e.getFlowInnovVar(v); o[2] = v[0]; }
	static void readBeta(const Ekf &e, float *o) { e.getBetaInnov(o[0]); e.getBetaInnovVar(o[1]); e.getBetaInnovRatio(o[2]); }
	static void readTas(const Ekf &e, float *o) { e.getAirspeedInnov(o[0]); e.getAirspeedInnovVar(o[1]); e.getAirspeedInnovRatio(o[2]); }
	static void readYaw(const Ekf &e, float *o) { e.getHeadingInnov(o[0]); e.getHeadingInnovVar(o[1]); e.getHeadingInnovRatio(o[2]); }
	static bool differ(const float *a, const float *b, int n) { for (int i = 0; i < n; i++) { if (bitsOf(a[i]) != bitsOf(b[i])) { return true; } } return false; }
	void preUpdate(const StepInfo &, Ekf &e) override
	{
		flush(e);
		c0 = e.control_status();
		x0 = e.getStateAtFusionHorizonAsVector();
		const auto &q = e.state_reset_status();
		n0[0] = q.velNE_counter; n0[1] = q.velD_counter; n0[2] = q.posNE_counter; n0[3] = q.posD_counter;
		readHgt(e, hgt0);
		readFlow(e, flow0);
		readBeta(e, beta0);
		readYaw(e, gy0);
		readTas(e, tas0);
		{ float i2[2], v1, v2; e.getEvVelPosInnovVar(i2, v1, ev0, v2); }
		e.clear_information_events();
		e.clear_warning_events();
		origin0 = e.global_origin_valid();
	}
	static int sources(const CF &c, bool gps, bool flow, bool evp, bool evv, bool air) { (void)c; return gps + flow + evp + evv + air; }
	static const char *hname(int k) { static const char *const n[] = {"barometer", "GPS", "range finder", "vision", "none"}; return n[k]; }
	static int heightOf(const CF &c) { return c.baro_hgt ? 0 : c.gps_hgt ? 1 : c.rng_hgt ? 2 : c.ev_hgt ? 3 : 4; }

	bool onStep(const StepInfo &st, Ekf &e) override
	{
		if (dead) { return false; }

		flush(e);
		f.step(st.updated, e.covariances()(4, 4) > 0);

		if (f.lost) { r.cnt["lost"]++; return false; }

		if (!st.updated || !f.inited) { return true; }

		const parameters &p = *e.getParamHandle();

		if (first) {
			first = false;
			hv = hp = dp = of = hgt = tNow;
		}

		steps++;
		const CF &a = c0.flags;
		const CF b = e.control_status().flags;
		const auto ie = e.information_event_flags();
		const auto we = e.warning_event_flags();
		const uint64_t tD = f.delayed.t;
		const int mask = p.fusion_mode;
		const bool failing = out(g.lastPass, 5000000), passing = out(g.lastFail, 5000000);
		const bool emergency = we.emergency_yaw_reset_mag_stopped || ie.yaw_aligned_to_imu_gps;
		const uint64_t newGps = f.last[GPS], newBaro = f.last[BARO], newEv = f.last[EV];
		const bool gpsInt = !recent(newGps, 1000000), baroOld = !recent(newBaro, 400000);
		const bool badAcc = e.fault_status().flags.bad_acc_vertical;
		const auto &rs = e.state_reset_status();
		const int dn[4] = {(uint8_t)(rs.velNE_counter - n0[0]), (uint8_t)(rs.velD_counter - n0[1]), (uint8_t)(rs.posNE_counter - n0[2]), (uint8_t)(rs.posD_counter - n0[3])};
		const bool starting = f.justInited;	// the same update also initialised the filter
		float gv, gvv, gp, gpv, ev, evv, ep, epv;
		e.getGpsVelPosInnovRatio(gv, gvv, gp, gpv);
		e.getEvVelPosInnovRatio(ev, evv, ep, epv);

		// ---- height time-out: first thing in a step
		bool hgtReset = false;

		if (!starting && out(hgt, 5000000) && !badAcc) {
			const int src = heightOf(a);
			const bool acc = lastGps >= 0 && newGps && gpsVacc() < p.req_vacc;
			bool may = true, must = false;

			if (src == 0) {
				const bool toGps = !gpsInt && (acc || baroOld);
				must = toGps || !baroOld;
				may = must;

			} else if (src == 1) {
				must = !gpsInt || !baroOld;
				may = must;

			} else if (src == 2) {
				must = !baroOld;

			} else if (src == 3) {
				must = recent(newEv, 400000) || !baroOld;
				may = must;

			} else { may = false; }

			if (we.height_sensor_timeout ? !may : must) { return bad("height_timeout", fmt("no height measurement was used for %.2f s (%s, newest barometer %.2f s ago, newest GPS %.2f s ago): %s", ago(hgt), hname(src), ago(newBaro), ago(newGps), must ? "height was not reset" : "height was reset without any usable source")); }

			hgtReset = we.height_sensor_timeout;
			r.cnt[std::string("height_timeout_") + (src == 0 ? "baro" : src == 1 ? "gps" : src == 2 ? "rng" : src == 3 ? "ev" : "none")]++;

		} else if (!starting && we.height_sensor_timeout && !badAcc && !recent(badT, 100000)) {
			return bad("height_timeout_early", fmt("height was declared timed out %.2f s after the last used measurement", ago(hgt)));
		}

		if (we.height_sensor_timeout) { hgt = tNow; hgtReset = true; }

		if (badAcc) { badT = tNow; }

		if (hgtReset && dn[3] == 0) {
			// a faulty barometer or intermittent GPS gives nothing to reset to
			if (!(b.baro_hgt && baroOld) && !(b.gps_hgt && gpsInt)) { return bad("height_reset", "height time-out did not announce a height reset"); }
		}

		// ---- height source
		{
			const int ka = heightOf(a), kb = heightOf(b), n = b.baro_hgt + b.gps_hgt + b.rng_hgt + b.ev_hgt;

			if (n != 1) { return bad(n ? "height_sources" : "height_none", n ? fmt("%d height sources are in use at the same time", n) : fmt("no height source is in use any more (last was %s), the barometer is %s", hname(ka), baroOld ? "silent" : "healthy")); }

			if (ka != kb && !starting) {
				r.cnt[std::string("height_to_") + (kb == 0 ? "baro" : kb == 1 ? "gps" : kb == 2 ? "rng" : "ev")]++;

				if (kb == 0 && baroOld && !(a.gps && !b.gps)) { return bad("height_to_baro", fmt("height switched to the barometer, whose newest sample is %.2f s old", ago(newBaro))); }

				if (kb == 1 && gpsInt) { return bad("height_to_gps", fmt("height switched to GPS, whose newest sample is %.2f s old", ago(newGps))); }

				if (kb == 1 && p.vdist_sensor_type != VDIST_SENSOR_GPS && !hgtReset) { return bad("height_to_gps", "height switched to GPS, which is not the configured source, without a time-out"); }

				if (kb == 1 && !hgtReset && !g.passed) { return bad("height_to_gps", "height switched to GPS, whose quality checks never passed"); }

				if (kb == 2 && p.vdist_sensor_type != VDIST_SENSOR_RANGE && !(p.range_aid == 1 && b.in_air && p.vdist_sensor_type != VDIST_SENSOR_EV)) { return bad("height_to_range", "height switched to the range finder, which is not configured for it"); }

				if (kb == 3 && (p.vdist_sensor_type != VDIST_SENSOR_EV || !recent(f.last[EV], 400000))) { return bad("height_to_vision", fmt("height switched to vision (configured source %d, newest sample %.2f s old)", p.vdist_sensor_type, ago(f.last[EV]))); }
			}

			if (a.gps && !b.gps && kb == 1 && p.vdist_sensor_type != VDIST_SENSOR_GPS) { return bad("height_gps_kept", "height from GPS continues although GPS aiding was stopped and GPS is not the configured height source"); }

			// what a time-out falls back to
			if (hgtReset && ka == 0 && !starting && p.vdist_sensor_type == VDIST_SENSOR_BARO && p.range_aid != 1 && !(a.gps && !b.gps)) {
				const bool acc = lastGps >= 0 && newGps && gpsVacc() < p.req_vacc;
				const bool sure = baroOld || !acc || !(badAcc || recent(badT, 10500000));
				const bool want = !gpsInt && (baroOld || acc);

				if (sure && (kb == 1) != want) { return bad("height_choice", fmt("barometric height timed out (newest sample %.2f s ago) and %s (newest sample %.2f s ago, accuracy %.3g of %.3g m) was %sused instead", ago(newBaro), "GPS", ago(newGps), lastGps >= 0 ? gpsVacc() : 0.f, p.req_vacc, kb == 1 ? "" : "not ")); }

				r.cnt[want ? "fallback_to_gps" : "fallback_stays_baro"]++;
			}

			// the configured source is taken as soon as it can be
			if (p.vdist_sensor_type == VDIST_SENSOR_EV && recent(f.last[EV], 400000) && kb == 0 && !starting) { return bad("height_not_vision", "vision is configured and fresh, but the barometer is used for height"); }

			if (p.vdist_sensor_type == VDIST_SENSOR_GPS && p.range_aid != 1 && kb == 0 && f.ready[GPS] && !gpsInt && g.passed && !starting && !hgtReset && !(mask & MASK_USE_GPS && a.gps && !b.gps)) { return bad("height_not_gps", "GPS is configured, fresh and accepted, but the barometer is used for height"); }

			if (p.vdist_sensor_type == VDIST_SENSOR_BARO && p.range_aid != 1 && kb != 0 && f.ready[BARO] && !baroOld && !starting && !hgtReset) { return bad("height_not_baro", fmt("the barometer is configured and fresh, but %s is used for height", hname(kb))); }
		}

		// ---- optical flow
		if (!a.opt_flow && b.opt_flow) {
			r.cnt["flow_start"]++;

			if (!(mask & MASK_USE_OF) || !b.tilt_align || !(a.yaw_align || b.yaw_align)) { return bad("flow_start", fmt("optical flow aiding started with mode %d, tilt aligned %d, yaw aligned %d", mask, b.tilt_align, b.yaw_align)); }

			of = tNow;

			// first source of horizontal aiding: velocity and position are set
			const bool only = !(a.gps || a.ev_pos || a.ev_vel || (a.fuse_aspd && a.fuse_beta));

			if (only && (!ie.reset_vel_to_flow || !ie.reset_pos_to_last_known)) { return bad("flow_start_reset", "optical flow aiding started alone without setting velocity and position"); }

			if (!only && !b.gps && !emergency && ie.reset_vel_to_flow && !ie.starting_vision_vel_fusion && !out(hv, 1000000) && !out(hp, 1000000)) { return bad("flow_start_reset", "optical flow aiding reset the velocity although another source was in use"); }
		}

		if (a.opt_flow && !b.opt_flow) { r.cnt["flow_stop"]++; }

		if (b.opt_flow && lastFlow && f.back(lastFlow, p.flow_delay_ms) + 10500000 < tD) { return bad("flow_stop", fmt("optical flow aiding is still on %.2f s after its last sample", 1e-6 * (double)(tD - lastFlow))); }

		{
			float fl[3], fr;
			readFlow(e, fl);
			e.getFlowInnovRatio(fr);

			if (b.opt_flow && differ(fl, flow0, 3) && fr <= 1.f && !(e.fault_status().flags.bad_optflow_X && e.fault_status().flags.bad_optflow_Y)) { of = tNow; }
		}

		// ---- GPS
		const bool airBefore = a.fuse_aspd && a.fuse_beta;
		bool gpsLo = a.gps, gpsHi = a.gps;	// has to be / may be in use afterwards
		bool wantPoor = false, wantStop = false, wantAlt = false, started = false;

		if (f.ready[GPS]) {
			gpsYaw(p, a, b);

			if (!a.gps && (mask & MASK_USE_GPS)) {
				if (b.tilt_align && origin0 && passing) {
					gpsHi = b.yaw_align;
					// (the yaw can also become valid, or be reset to an invalid one, within this step)
					const bool realign = a.ev_yaw;
					gpsLo = a.yaw_align && b.yaw_align && a.tilt_align && !realign && b.gps == gpsHi ? gpsHi : a.yaw_align && b.yaw_align && a.tilt_align && !realign;
					started = b.gps;
				}

			} else if (!(mask & MASK_USE_GPS)) { gpsLo = gpsHi = false; }

			const int others = (int)b.opt_flow + a.ev_pos + a.ev_vel + airBefore;

			if (failing && others) {
				wantPoor = gpsLo;

				if (gpsHi && gpsLo) { gpsLo = gpsHi = false; }

				else if (gpsHi && !b.gps) { gpsLo = gpsHi = false; }
			}

		} else if (a.gps) {
			const uint64_t age = tD - f.when[GPS];
			const int others = (int)b.opt_flow + a.ev_pos + a.ev_vel + airBefore;

			if (age > 10000000) { gpsLo = gpsHi = false; wantStop = true; }

			else if (age > 1000000 && others) { gpsLo = gpsHi = false; wantAlt = true; }
		}

		if (starting) { gpsLo = false; gpsHi = true; }

		if (b.gps && !gpsHi) {
			return a.gps ? bad("gps_not_stopped", fmt("GPS aiding continues (mode %d, checks last passed %.2f s ago, last sample %.2f s behind, other sources %d%d%d%d)", mask, ago(g.lastPass), 1e-6 * (double)(tD - f.when[GPS]), b.opt_flow, a.ev_pos, a.ev_vel, airBefore))
			       : bad("gps_start", fmt("GPS aiding started although %s", !f.ready[GPS] ? "no GPS sample was due" : !(mask & MASK_USE_GPS) ? "GPS is not selected" : !b.tilt_align ? "the tilt is not aligned" : !origin0 ? "the origin is not set" : !passing ? "the checks failed within the last 5 s" : !b.yaw_align ? "the yaw is not aligned" : "the checks are failing and another source is in use"));
		}

		if (!b.gps && gpsLo) {
			return a.gps ? bad("gps_stop", fmt("GPS aiding stopped (checks last passed %.2f s ago, last sample %.2f s behind, other sources %d%d%d%d)", ago(g.lastPass), 1e-6 * (double)(tD - f.when[GPS]), b.opt_flow, a.ev_pos, a.ev_vel, airBefore))
			       : bad("gps_not_started", fmt("GPS aiding did not start although everything it needs is there (checks last failed %.2f s ago)", ago(g.lastFail)));
		}

		if (!starting) {
			if (started != ie.starting_gps_fusion && !(failing && started != b.gps) && !(ie.starting_gps_fusion && wantPoor)) { return bad("gps_announce", fmt("GPS aiding %s, but its start was %sannounced", started ? "started" : "did not start", ie.starting_gps_fusion ? "" : "not ")); }

			if (we.gps_quality_poor != wantPoor && !(f.ready[GPS] && failing && !a.gps)) { return bad("gps_warning", fmt("poor GPS quality %s", wantPoor ? "was not announced" : "was announced although GPS aiding was not stopped for it")); }

			if (we.gps_data_stopped != wantStop || we.gps_data_stopped_using_alternate != wantAlt) { return bad("gps_warning", fmt("GPS data stop announced %d/%d instead of %d/%d", we.gps_data_stopped, we.gps_data_stopped_using_alternate, wantStop, wantAlt)); }
		}

		r.cnt["gps_start"] += started;
		r.cnt["gps_stop_quality"] += wantPoor;
		r.cnt["gps_stop_data"] += wantStop;
		r.cnt["gps_stop_alternate"] += wantAlt;

		if (started && b.gps) {
			// the estimate is moved to where GPS says it is
			if (!ie.reset_pos_to_gps || (!b.opt_flow && !ie.reset_vel_to_gps)) { return bad("gps_start_reset", "GPS aiding started without setting position and velocity"); }
		}

		// long rejection: reset to GPS
		bool gpsTimeout = false;

		if (f.ready[GPS] && b.gps && !starting) {
			const uint64_t T = p.reset_timeout_max;
			const bool need = (out(hp, T) && out(dp, T) && out(hv, T) && out(of, T)) || out(hp, 2 * T);
			gpsTimeout = we.gps_fusion_timout;

			if (gpsTimeout && !need) { return bad("gps_timeout_early", fmt("velocity and position were reset for a GPS fusion time-out, but position was used %.2f s ago, velocity %.2f s ago, flow %.2f s ago (limit %.2f s)", ago(hp), ago(hv), ago(of), 1e-6 * (double)T)); }

			if (need && !gpsTimeout && !emergency) {
				// a yaw reset may take precedence in the air
				const double sp = std::hypot(x0(4), x0(5));
				const bool lost = f.when[GPS] && prevGps && prevGps + 1000000 < tNow;
				const bool yawPossible = ((b.in_air && sp > 0.9) || p.mag_fusion_type == MAG_FUSE_TYPE_NONE) && !lost;

				if (!yawPossible) { return bad("gps_timeout", fmt("GPS position was not used for %.2f s and velocity for %.2f s, but nothing was reset (limit %.2f s)", ago(hp), ago(hv), 1e-6 * (double)T)); }

				r.cnt["timeout_left_to_yaw_reset"]++;
			}

			if (gpsTimeout) {
				r.cnt["gps_timeout"]++;

				if (!ie.reset_pos_to_gps) { return bad("gps_timeout_reset", "GPS fusion time-out did not reset the position to GPS"); }

				const bool healthy = out(g.lastFail, g.minHealth);

				if (healthy && !ie.reset_vel_to_gps) { return bad("gps_timeout_reset", "GPS fusion time-out did not reset the velocity to GPS although the checks pass"); }

				hp = hv = tNow;
			}

			if (emergency) { hp = dp = hv = of = tNow; }

			if (gv <= 1.f) { hv = tNow; }

			if (gp <= 1.f) { hp = tNow; }
		}

		if (we.gps_fusion_timout && !gpsTimeout && !starting) { return bad("gps_timeout_early", "GPS fusion time-out announced without a GPS sample in use"); }

		prevGps = f.ready[GPS] ? f.when[GPS] : prevGps;

		// ---- air data
		float tr;
		e.getAirspeedInnovRatio(tr);
		float ts[3];
		readTas(e, ts);
		const bool tasUsed = differ(ts, tas0, 3) && tr <= 1.f && !e.fault_status().flags.bad_airspeed;
		{
			const bool aOut = out(arsp, 10000000), bOut = out(beta, 10000000);
			bool wind = a.wind, asp = a.fuse_aspd;

			if (wind && (syn || (aOut && bOut && !(mask & MASK_USE_DRAG)))) { wind = false; r.cnt["wind_stop"]++; }

			if (asp && aOut) { asp = false; r.cnt["airspeed_stop"]++; }

			if (!syn && f.ready[ASP] && b.in_air) {
				if (!wind) { wind = true; arsp = tNow; r.cnt["wind_start"]++; }

				// fused, as published
				if (b.fuse_aspd && !asp && !tasUsed) { return bad("airspeed_start", fmt("airspeed is declared in use although its last sample was rejected (ratio %.3g)", tr)); }

				if (tasUsed) { asp = true; arsp = tNow; }
			}

			float bt[3];
			readBeta(e, bt);

			if (!syn && out(beta, p.beta_avg_ft_us) && b.fuse_beta && b.in_air) {
				if (!wind) { wind = true; beta = tNow; r.cnt["wind_start"]++; }

				if (differ(bt, beta0, 3) && bt[2] <= 1.f && !e.fault_status().flags.bad_sideslip) { beta = tNow; }

			} else if (differ(bt, beta0, 3)) { return bad("sideslip_period", fmt("synthetic sideslip was used %.3f s after the last one (enabled %d, in air %d)", ago(beta), b.fuse_beta, b.in_air)); }

			everDisturbed |= b.mag_field_disturbed;
			// drag is left out until the heading is aligned again after a long inhibition of the magnetometer
			const bool maybeNoDrag = p.mag_fusion_type == MAG_FUSE_TYPE_INDOOR || everDisturbed;
			const bool drag = (mask & MASK_USE_DRAG) && !syn && b.in_air;

			if (b.wind != wind && !(drag && !wind && (maybeNoDrag || b.wind)) && !starting) { return bad("wind_state", fmt("wind estimation is %s (airspeed used %.2f s ago, sideslip %.2f s ago, drag %d, synthetic position %d)", b.wind ? "on" : "off", ago(arsp), ago(beta), drag, syn)); }

			if (drag && !b.wind && !maybeNoDrag && !starting) { return bad("wind_state", "drag fusion is selected and in air, but wind estimation is off"); }

			if (b.fuse_aspd != asp && !starting) { return bad("airspeed_state", fmt("airspeed declared %s (last used %.2f s ago)", b.fuse_aspd ? "in use" : "not in use", ago(arsp))); }
		}

		// ---- external vision
		const uint64_t hp0 = hp, hv0 = hv;

		if (f.ready[FLOW]) { lastFlowStep = tNow; }

		bool wantEvStop = false, evStopped = false;
		{
			bool pLo = a.ev_pos, pHi = a.ev_pos, vLo = a.ev_vel, vHi = a.ev_vel;

			if (f.ready[EV]) {
				const bool ok = recent(f.last[EV], 400000);
				const bool may = ok && b.tilt_align && b.yaw_align, must = may && a.tilt_align && a.yaw_align && !ie.starting_vision_yaw_fusion;

				if (mask & MASK_USE_EVPOS) { pHi |= may; pLo |= must; }

				if (mask & MASK_USE_EVVEL) { vHi |= may; vLo |= must; }

				if (!a.ev_yaw && b.ev_yaw) {
					r.cnt["vision_yaw_start"]++;

					if (b.gps || !(mask & MASK_USE_EVYAW) || !b.tilt_align || !ok) { return bad("vision_yaw_start", fmt("vision heading started (GPS in use %d, mode %d, tilt aligned %d, newest vision sample %.2f s ago)", b.gps, mask, b.tilt_align, ago(f.last[EV]))); }
				}

				if (!b.ev_yaw && !b.gps && !a.gps && (mask & MASK_USE_EVYAW) && b.tilt_align && ok && !starting) { return bad("vision_yaw_not_started", "vision heading is selected, fresh and not in conflict with GPS, but it is not used"); }

			} else if ((a.ev_pos || a.ev_vel || a.ev_yaw) && out(f.last[EV], p.reset_timeout_max)) {
				wantEvStop = !(a.ev_yaw && !a.ev_pos && !a.ev_vel && f.ready[GPS]);
				evStopped = true;
				pLo = pHi = vLo = vHi = false;
				r.cnt["vision_stop"]++;
			}

			if (!starting) {
				if (b.ev_pos ? !pHi : pLo) { return bad("vision_pos_state", fmt("vision position is %s (newest vision sample %.2f s ago, selected %d, tilt %d, yaw %d)", b.ev_pos ? "in use" : "not in use", ago(f.last[EV]), !!(mask & MASK_USE_EVPOS), b.tilt_align, b.yaw_align)); }

				if (b.ev_vel ? !vHi : vLo) { return bad("vision_vel_state", fmt("vision velocity is %s (newest vision sample %.2f s ago, selected %d)", b.ev_vel ? "in use" : "not in use", ago(f.last[EV]), !!(mask & MASK_USE_EVVEL))); }

				if (a.ev_yaw && b.ev_yaw && evStopped) { return bad("vision_yaw_state", fmt("vision heading is still in use %.2f s after the last vision sample", ago(f.last[EV]))); }

				if (a.ev_yaw && !b.ev_yaw && !evStopped && !(b.gps && !a.gps) && !b.gps_yaw && !(f.ready[GPS] && (mask & MASK_USE_GPS))) { return bad("vision_yaw_state", "vision heading stopped although its data continues and GPS did not take over"); }

				if (we.vision_data_stopped ? !evStopped : wantEvStop) { return bad("vision_warning", fmt("loss of vision data %s", evStopped ? "was not announced" : "was announced although it did not happen")); }

				if (ie.starting_vision_pos_fusion != (b.ev_pos && !a.ev_pos) || ie.starting_vision_vel_fusion != (b.ev_vel && !a.ev_vel) || ie.starting_vision_yaw_fusion != (b.ev_yaw && !a.ev_yaw)) {
					if (!(ie.starting_vision_yaw_fusion && a.ev_yaw && b.ev_yaw)) { return bad("vision_announce", "start of vision aiding and its announcement differ"); }
				}
			}

			if (b.ev_pos && !a.ev_pos) {
				r.cnt["vision_pos_start"]++;

				if (dn[2] == 0 && !starting) { return bad("vision_start_reset", "vision position started without setting the position"); }
			}

			if (b.ev_vel && !a.ev_vel) {
				r.cnt["vision_vel_start"]++;

				if (dn[0] == 0 && !starting) { return bad("vision_start_reset", "vision velocity started without setting the velocity"); }
			}

			if (f.ready[EV]) {
				if (b.ev_pos) {
					odom = (mask & MASK_USE_GPS) != 0;

					if (!odom && out(hp, p.reset_timeout_max) && !starting) {
						r.cnt["vision_timeout"]++;

						if (!(dn[2] > 0)) { return bad("vision_timeout", fmt("vision position was not used for %.2f s, but the position was not reset", ago(hp))); }
					}

					// an odometry step without a predecessor leaves the ratio as it was: it counts only when it was renewed
					if (!odom && ep <= 1.f) { hp = tNow; }

					float i2[2], i3[2], v1, v2;
					e.getEvVelPosInnovVar(i2, v1, i3, v2);

					if (odom && ep <= 1.f && differ(i3, ev0, 2)) { dp = tNow; }

				}

				// vision moves the velocity only when nothing else constrains it
				if (dn[0] > 0 && !f.ready[GPS] && !f.ready[FLOW] && a.opt_flow == b.opt_flow && a.ev_pos == b.ev_pos && a.ev_vel == b.ev_vel && (b.ev_pos || b.ev_vel) && !starting && lastFlowStep + 100000 < tNow) {
					const bool byPos = b.ev_pos && !odom && out(hp0, p.reset_timeout_max) && out(hv0, 1000000), byVel = b.ev_vel && out(hv0, p.reset_timeout_max) && (out(hp0, 1000000) || b.ev_pos);

					if (!(out(of, 1000000) && (byPos || byVel))) { return bad("vision_vel_reset_early", fmt("the velocity was reset although flow was used %.2f s ago, position %.2f s ago and velocity %.2f s ago", ago(of), ago(hp0), ago(hv0))); }

					r.cnt["vision_vel_reset"]++;
				}

				if (b.ev_vel) {
					if (out(hv, p.reset_timeout_max) && out(of, 1000000) && out(hp, 1000000) && !starting && dn[0] == 0) { return bad("vision_vel_timeout", fmt("vision velocity was not used for %.2f s, but the velocity was not reset", ago(hv))); }

					if (ev <= 1.f) { hv = tNow; }
				}
			}
		}
		// ---- auxiliary velocity
		const bool air = b.fuse_aspd && b.fuse_beta;
		const bool aiding = b.gps || b.opt_flow || b.ev_pos || b.ev_vel || air;

		if (f.ready[AUX] && aiding) { float q; e.getAuxVelInnovRatio(q); if (q <= 1.f) { hv = tNow; } }

		// ---- synthetic position when nothing else is there
		bool wantNav = false;

		if (!aiding) {
			syn = true;

			if (out(fake, 200000)) {
				if (out(fake, 400000)) {
					wantNav = fake != 0;
					r.cnt["navigation_stop"] += wantNav;
					odom = false;

					if (!starting && (dn[0] == 0 || dn[2] == 0)) { return bad("synthetic_reset", "the fallback to attitude and height only did not reset velocity and position"); }

					if (!starting && dn[2] == 1 && !(std::hypot(rs.posNE_change(0), rs.posNE_change(1)) <= 1e-6)) { return bad("synthetic_position", fmt("the fallback to attitude and height only moved the position by %.3g m", std::hypot(rs.posNE_change(0), rs.posNE_change(1)))); }
				}

				fake = tNow;

				if (gp <= sq(100.f / 3.f)) { if (!odom) { hp = tNow; } else { dp = tNow; } }
			}

		} else { syn = false; }

		if (we.stopping_navigation != wantNav && !starting) { return bad("navigation_warning", fmt("stop of navigation %s", wantNav ? "was not announced" : "was announced although aiding continues or never existed")); }

		// ---- what was used for height
		{
			float o[4][3];
			readHgt(e, o);
			const int k = heightOf(b);

			if (differ(o[k], hgt0[k], 3) && o[k][1] > 0 && !(k == 1 && !f.ready[GPS]) && (o[k][2] <= 1.f || badAcc)) { hgt = tNow; }
		}

		// ---- dead reckoning and validity
		{
			const uint64_t N = p.no_aid_timeout_max;
			const bool vp = (b.gps || b.ev_pos || b.ev_vel) && (recent(hp, N) || recent(hv, N) || recent(dp, N));
			const bool fl = b.opt_flow && recent(of, N), ad = b.wind && recent(arsp, N) && recent(beta, N);
			const bool dr = !vp && !fl && !ad;

			if (!dr) { aided = tNow - N; }

			const bool exceeded = !aided || out(aided, p.valid_timeout_max);

			if (e.inertial_dead_reckoning() != dr) { return bad("dead_reckoning", fmt("inertial dead reckoning reported %d; position used %.2f s ago, odometry %.2f s, velocity %.2f s, flow %.2f s, airspeed %.2f s, sideslip %.2f s (limit %.2f s), GPS %d vision %d%d flow %d wind %d", e.inertial_dead_reckoning(), ago(hp), ago(dp), ago(hv), ago(of), ago(arsp), ago(beta), 1e-6 * (double)N, b.gps, b.ev_pos, b.ev_vel, b.opt_flow, b.wind)); }

			const bool valid = !exceeded && !syn;

			if (e.local_position_is_valid() != valid) { return bad("position_valid", fmt("local position reported %s; last aided %.2f s ago, synthetic position %d", e.local_position_is_valid() ? "valid" : "not valid", ago(aided) - 1e-6 * (double)N, syn)); }

			if (e.global_position_is_valid() != (valid && e.global_origin_valid())) { return bad("global_valid", fmt("global position reported %s; local position valid %d, origin set %d", e.global_position_is_valid() ? "valid" : "not valid", valid, e.global_origin_valid())); }

			r.cnt["dead_reckoning_steps"] += dr;
			r.cnt["valid_steps"] += valid;
		}

		if (!starting && !resets(e, p, a, b, dn, hgtReset)) { return false; }

		uint64_t sh = 5;
		fnv(sh, e.control_status().value & 0x05c8fe03u);
		fnv(sh, (uint64_t)syn | (uint64_t)failing << 1 | (uint64_t)passing << 2 | (uint64_t)e.inertial_dead_reckoning() << 3);
		r.states.insert(sh);
		fnv(h, e.control_status().value);
		fnv(h, e.warning_event_status().value);
		fnv(h, e.information_event_status().value);
		return true;
	}
	uint64_t prevGps{0}, lastFlowStep{0};
	float ev0[2] {};
	float gpsVacc() const { return w.gps[lastGps].epv; }
	void gpsYaw(const parameters &, const CF &, const CF &) {}

	// announced resets put the estimate where the announced source says
	bool resets(Ekf &e, const parameters &p, const CF &a, const CF &b, const int *dn, bool hgtReset)
	{
		const auto ie = e.information_event_flags();
		const auto &rs = e.state_reset_status();
		const int nv = ie.reset_vel_to_gps + ie.reset_vel_to_flow + ie.reset_vel_to_vision + ie.reset_vel_to_zero;
		const int np = ie.reset_pos_to_gps + ie.reset_pos_to_last_known + ie.reset_pos_to_vision;

		if (dn[0] > 0 && nv == 0) { return bad("reset_announce", "the horizontal velocity was reset without announcing to what"); }

		if (dn[2] > 0 && np == 0) { return bad("reset_announce", "the horizontal position was reset without announcing to what"); }

		if ((nv > 0 && dn[0] == 0) || (np > 0 && dn[2] == 0)) { return bad("reset_count", "a reset was announced without counting it"); }

		if (!dn[0] && !dn[1] && !dn[2] && !dn[3]) { return true; }

		// the prediction of this step, before any correction
		const imuSample im = e.get_imu_sample_delayed();
		RefEkf k;

		for (int i = 0; i < 24; i++) { k.x[i] = x0(i); }

		RefEkf::PredIn in{};
		in.da = d3(im.delta_ang); in.dv = d3(im.delta_vel); in.dadt = im.delta_ang_dt; in.dvdt = im.delta_vel_dt;
		in.Rprev = Mat3::of(&k.x[0]);
		in.accBiasLim = 10;
		k.predictState(in);
		const double vt = 5e-4 + 2e-6 * std::fabs((double)x0(4)) + 2e-6 * std::fabs((double)x0(5)) + 2e-6 * std::fabs((double)x0(6));
		const V3 lever = d3(p.gps_pos_body) - d3(p.imu_pos_body), elever = d3(p.ev_pos_body) - d3(p.imu_pos_body);
		const double rate = d3(im.delta_ang).norm() / std::max(1e-3, (double)im.delta_ang_dt) + 0.02;
		float yw[3];
		readYaw(e, yw);
		// other corrections earlier in the same step move the estimate before the reset
		const bool clean = !f.ready[MAG] && !differ(yw, gy0, 3);

		if (hgtReset && dn[1] == 1 && nv == 0) {
			const bool aGps = a.gps;
			const bool gps = aGps && recent(f.last[GPS], 1000000) && lastGps >= 0;
			const double want = gps ? (double)w.gps[lastGps].vel_ned(2) : 0, got = rs.velD_change + k.x[6];

			if (!(std::fabs(want - got) <= vt + 2e-6 * std::fabs(want))) { return bad("reset_vertical_velocity", fmt("height reset set the vertical velocity to %.5g instead of %.5g m/s (%s)", got, want, gps ? "GPS" : "unknown")); }

			r.cnt["checked_reset_velD"]++;
		}

		if (hgtReset && dn[3] == 1 && b.ev_hgt && lastEv >= 0 && f.ev.newestT && w.ev[lastEv].time_us == evMax) {
			const double want = w.ev[lastEv].pos(2), got = rs.posD_change + k.x[9];

			if (!(std::fabs(want - got) <= 1e-3 + 2e-6 * std::fabs(want) + elever.norm())) { return bad("reset_height", fmt("height reset to vision set the vertical position to %.5g instead of %.5g m", got, want)); }

			r.cnt["checked_reset_posD"]++;
		}

		if (!clean) { return true; }

		const bool flowUsed = [&] { float fl[3]; readFlow(e, fl); return differ(fl, flow0, 3); }();

		if (dn[0] == 1 && nv == 1) {
			const double gx = rs.velNE_change(0) + k.x[4], gy = rs.velNE_change(1) + k.x[5];
			double wx = 0, wy = 0, tol = vt;
			bool known = false;
			const char *what = "";

			if (ie.reset_vel_to_gps && f.ready[GPS] && !f.ready[EV] && !flowUsed) {
				const gps_message &m = w.gps[f.idx[GPS]];
				wx = m.vel_ned(0); wy = m.vel_ned(1); known = true; what = "GPS";
				tol += rate * lever.norm() * 1.1;

			} else if (ie.reset_vel_to_zero && !f.ready[GPS] && !f.ready[EV] && !flowUsed) { known = !b.wind && heightQuiet(e); what = "zero"; }

			else if (ie.reset_vel_to_vision && f.ready[EV] && !f.ready[GPS] && !flowUsed && !b.wind && w.ev[f.idx[EV]].vel_frame != velocity_frame_t::BODY_FRAME_FRD && !(p.fusion_mode & MASK_ROTATE_EV)) {
				const auto &m = w.ev[f.idx[EV]];
				known = !f.ready[BARO] && heightQuiet(e); wx = m.vel(0); wy = m.vel(1); what = "vision";
				tol += rate * elever.norm() * 1.1;
			}

			if (known) {
				tol += 2e-6 * (std::fabs(wx) + std::fabs(wy));
				r.cnt[std::string("checked_reset_vel_") + what]++;

				if (!(std::fabs(gx - wx) <= tol && std::fabs(gy - wy) <= tol)) { return bad("reset_velocity", fmt("velocity reset to %s set (%.5g, %.5g) instead of (%.5g, %.5g) m/s", what, gx, gy, wx, wy)); }
			}
		}

		if (dn[2] == 1 && np == 1) {
			const double gx = rs.posNE_change(0) + k.x[7], gy = rs.posNE_change(1) + k.x[8];
			double wx = 0, wy = 0, tol = 2e-3 + 3e-6 * (std::fabs((double)x0(7)) + std::fabs((double)x0(8)));
			bool known = false;
			const char *what = "";

			if (ie.reset_pos_to_gps && f.ready[GPS] && !f.ready[EV] && !flowUsed && gpsPos.count(f.idx[GPS])) {
				const auto q = gpsPos[f.idx[GPS]];
				wx = q.first; wy = q.second; known = true; what = "GPS";
				const double dist = std::hypot(wx, wy);
				tol += lever.norm() * 1.01 + std::min(0.25, 0.03 / std::max(dist, 0.1));

			} else if (ie.reset_pos_to_vision && f.ready[EV] && !f.ready[GPS] && !flowUsed && !b.wind && !(p.fusion_mode & MASK_ROTATE_EV)) {
				const auto &m = w.ev[f.idx[EV]];
				known = !f.ready[BARO] && heightQuiet(e); wx = m.pos(0); wy = m.pos(1); what = "vision";
				tol += elever.norm() * 1.01;
			}

			if (known) {
				tol += 2e-6 * (std::fabs(wx) + std::fabs(wy));
				r.cnt[std::string("checked_reset_pos_") + what]++;

				if (!(std::fabs(gx - wx) <= tol && std::fabs(gy - wy) <= tol)) { return bad("reset_position", fmt("position reset to %s set (%.6g, %.6g) instead of (%.6g, %.6g) m", what, gx, gy, wx, wy)); }
			}
		}

		return true;
	}
	bool heightQuiet(Ekf &e)
	{
		float o[4][3];
		readHgt(e, o);

		for (int i = 0; i < 3; i++) { if (differ(o[i], hgt0[i], 3)) { return false; } }

		return !e.control_status().flags.ev_hgt;
	}
};

Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1818);
	Scn s = richScn(seed * 23 + 7, r.u(40, thorough ? 140 : 75), r.p(0.5) ? R_FORCEGPS : 0);
	auto q = [](double x) { return std::floor(x * 1e6) / 1e6; };
	const double dur = s.g("dur", 30);
	s.s("P.mag_fusion_type", r.pick({0., 0., 0., 1., 2., 3., 4., 5.}));

	if (r.p(0.3)) { s.s("P.vdist_sensor_type", r.pick({0., 1., 1., 2., 3.})); }

	if ((int)s.g("P.vdist_sensor_type", 0) == VDIST_SENSOR_EV && s.g("hz.ev", 0) <= 0) { s.s("hz.ev", 30); }

	if ((int)s.g("P.vdist_sensor_type", 0) == VDIST_SENSOR_RANGE && s.g("hz.rng", 0) <= 0) { s.s("hz.rng", 20); }

	if ((int)s.g("P.vdist_sensor_type", 0) == VDIST_SENSOR_EV && r.p(0.7)) { const double t0 = std::floor(r.u(12, dur - 6)); s.faults.push_back(Fault{F_LOSS, EV, t0, t0 + std::floor(r.logu(1, 15) * 10) / 10, 1, 0}); }

	if (r.p(0.25)) { s.s("P.req_vacc", q(r.logu(0.5, 10))); s.s("P.req_hacc", q(r.logu(1, 10))); }

	if (r.p(0.25)) { s.s("P.reset_timeout_max", q(std::floor(r.logu(2e6, 1e7)))); }

	if (r.p(0.25)) { s.s("P.no_aid_timeout_max", q(std::floor(r.logu(3e5, 4e6)))); }

	if (r.p(0.25)) { s.s("P.valid_timeout_max", q(std::floor(r.logu(1e6, 1e7)))); }

	if (r.p(0.3)) { s.ops.push_back({O_GPSHEALTH, 0, std::floor(r.logu(0.2, 12) * 1e6), 0, 0}); }

	if (r.p(0.3)) { s.ops.push_back({O_INAIR, std::floor(r.u(12, dur)), (double)r.i(0, 1), 0, 0}); }

	if (r.p(0.6)) { for (const char *ax : {".x", ".y", ".z"}) { for (const char *n : {"P.gps_pos_body", "P.imu_pos_body", "P.ev_pos_body"}) { s.v.erase(std::string(n) + ax); } } }

	// outages and lies, long enough for a time-out, alone or together
	for (int i = r.i(0, thorough ? 5 : 3); i > 0; i--) {
		const double t0 = std::floor(r.u(3, dur - 6) * 10) / 10, d = std::floor(r.logu(0.5, 20) * 10) / 10;
		const int sn = r.pick({(int)GPS, (int)GPS, (int)GPS, (int)BARO, (int)EV, (int)EV, (int)FLOW, (int)RNG, (int)MAG, (int)ASP});

		if (r.p(0.6)) { s.faults.push_back(Fault{F_LOSS, sn, t0, t0 + d, r.p(0.8) ? 1 : q(r.u(0.5, 1)), 0}); }

		else if (sn == GPS && r.p(0.4)) { s.faults.push_back(Fault{F_QUALITY, GPS, t0, t0 + d, r.pick({-1., 2.}), r.pick({-1., 3.}), r.pick({-1., 10.})}); }

		else { s.faults.push_back(Fault{F_BIAS, sn, t0, t0 + d, q(r.u(-100, 100)), q(r.u(-100, 100)), q(r.u(-60, 60))}); }
	}

	// the fallback for the height fails as well
	if (r.p(0.2)) {
		const double t0 = std::floor(r.u(12, std::max(13., dur - 18))), d = std::floor(r.u(6, 20)), t1 = t0 + std::floor(r.u(4, 10)), d1 = std::floor(r.logu(1.2, 15) * 10) / 10;

		if (r.p(0.7)) { s.faults.push_back(Fault{F_LOSS, BARO, t0, t0 + d, 1, 0}); }

		else { s.faults.push_back(Fault{F_BIAS, BARO, t0, t0 + d, 0, 0, q(r.pick({-1, 1}) * r.u(20, 80))}); }

		if (r.p(0.6)) { s.faults.push_back(Fault{F_LOSS, GPS, t1, t1 + d1, 1, 0}); }

		else { s.faults.push_back(Fault{F_QUALITY, GPS, t0 - std::floor(r.u(0, 4)), t1 + d1, r.pick({-1., 2.}), r.pick({-1., 3.}), r.pick({-1., 10.})}); }
	}

	if (r.p(0.15)) { const double t0 = std::floor(r.u(12, dur - 5)); s.faults.push_back(Fault{F_VEL, GPS, t0, t0 + std::floor(r.u(5, 15)), q(r.u(-25, 25)), q(r.u(-25, 25))}); }

	swarmFaults(s, r, 2, dur, 4, bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_IMUGAP) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_VIB) | bit(F_BIAS) | bit(F_SPIKE) | bit(F_STUCK) | bit(F_VEL) | bit(F_ROT), kAllSensors);
	return s;
}
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Hook a(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["fusion_steps"] += a.steps;
	r.nontrivial = a.steps > 500;
}
Reg reg({"P18", gen, exec, "a run counts when more than 500 fusion steps were compared with the reference"});
}
