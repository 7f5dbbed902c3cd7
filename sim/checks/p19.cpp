// P19: what the filter says about itself: solution status, test summary, rejection flags, accuracies, bias variances,
// covariance and state views, control limits and validity all follow from the state, covariance and checks of the same step
#include "../core.h"
using namespace sim;
namespace
{
struct Snap {	// single test ratios
	float gv[2], gp[2], ev[2], ep[2], baro, rng, aux, tas, beta, hagl, yaw, magMax, flow;
	float mi[3], mv[3], fi[2], fv[2], gpi[2], epi[2], evi[2];
	uint16_t rej;
	void read(const Ekf &e)
	{
		float h2[2], a, b;
		e.getGpsVelPosInnovRatio(gv[0], gv[1], gp[0], gp[1]);
		e.getEvVelPosInnovRatio(ev[0], ev[1], ep[0], ep[1]);
		e.getBaroHgtInnovRatio(baro); e.getRngHgtInnovRatio(rng); e.getAuxVelInnovRatio(aux);
		e.getAirspeedInnovRatio(tas); e.getBetaInnovRatio(beta); e.getHaglInnovRatio(hagl);
		e.getHeadingInnovRatio(yaw); e.getMagInnovRatio(magMax); e.getFlowInnovRatio(flow);
		e.getMagInnov(mi); e.getMagInnovVar(mv); e.getFlowInnov(fi); e.getFlowInnovVar(fv);
		e.getGpsVelPosInnov(h2, a, gpi, b);
		e.getEvVelPosInnov(evi, a, epi, b);
		rej = e.innov_check_fail_status().value;
	}
};

struct Hook : Hooks {
	Result &r;
	const World &w;
	bool dead{false}, pending{false}, haveOrigin{false}, known{false}, have{false};
	int lastGps{-1};
	float oeph{0}, oepv{0};
	float rlo{0}, rhi{0}, fmaxr{0}, flo{0}, fhi{0};
	uint64_t tNow{0}, steps{0}, h{1469598103934665603ull}, lastAided{0};
	Snap s0, s1;
	filter_control_status_u c0, cPre;
	Hook(Result &r_, const World &w_) : r(r_), w(w_) {}
	double t() const { return (double)(tNow - w.t0) * 1e-6; }
	bool bad(const char *kind, const std::string &what)
	{
		r.bad(kind, fmt("t=%.3f s: ", t()) + what);
		dead = true;
		return false;
	}
	void flush(Ekf &e)
	{
		if (!pending) { return; }

		pending = false;

		if (e.global_origin_valid() && !haveOrigin) {
			haveOrigin = true;

			if (lastGps >= 0) { known = true; oeph = w.gps[lastGps].eph; oepv = w.gps[lastGps].epv; }
		}
	}
	void preImu(const imuSample &m, Ekf &e) override { flush(e); tNow = m.time_us; }
	void onDeliver(const Ev &v, const World &, Ekf &e) override { flush(e); pending = v.type == GPS; if (pending) { lastGps = v.idx; } }
	void onOpBefore(const Op &, Ekf &e) override { flush(e); }
	void onOp(const Op &o, Ekf &e) override
	{
		if (o.kind == O_RESTART) { dead = true; }

		if (o.kind == O_RNGLIM) { rlo = (float)o.a; rhi = (float)o.b; }

		if (o.kind == O_FLOWLIM) { fmaxr = (float)o.a; flo = (float)o.b; fhi = (float)o.c; }

		if (e.global_origin_valid()) { haveOrigin = true; }
	}
	void preUpdate(const StepInfo &, Ekf &e) override { flush(e); s0.read(e); cPre = e.control_status(); }
	static bool near(double a, double b, double rel = 2e-5) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-7 + rel * std::max(std::fabs(a), std::fabs(b)); }
	static double sq_(double x) { return x * x; }

	// a rejection flag follows the ratio that was computed in this step and does not change otherwise
	struct Src { float a, b; bool valid; };
	bool rejection(const char *name, bool before, bool after, std::initializer_list<Src> l, bool free = false)
	{
		int changed = 0;
		bool ok = false, amb = free;

		for (const Src &s : l) {
			// exactly zero: cleared by a stop later in the step
			if (s.valid && s.b == 0) { amb = true; }

			if (bitsOf(s.a) == bitsOf(s.b)) { continue; }

			changed++;

			if (!s.valid || s.b == 0 || std::fabs(s.b - 1) < 1e-4f || !std::isfinite(s.b)) { amb = true; }

			ok |= after == (s.b > 1);
		}

		if (amb) { return true; }

		if (!changed && before != after) { return bad("rejection_flag", fmt("the %s rejection flag became %d without any %s check", name, after, name)); }

		if (changed && !ok) { return bad("rejection_flag", fmt("the %s rejection flag is %d with a test ratio of %.5g", name, after, l.begin()->b)); }

		if (changed) { r.cnt[std::string("checked_reject_") + name]++; if (after) { r.cnt[std::string("rejected_") + name]++; } }

		return true;
	}
	bool onStep(const StepInfo &si, Ekf &e) override
	{
		flush(e);

		if (dead || !si.updated) { return !dead; }

		const bool fresh = !have;
		have = true;
		steps++;
		s1.read(e);
		const auto c = e.control_status_flags();
		const auto ft = e.fault_status_flags();
		const parameters &p = *e.getParamHandle();
		const auto x = e.getStateAtFusionHorizonAsVector();
		const auto &P = e.covariances();
		// ---- views of state and covariance
		{
			const auto d = e.covariances_diagonal();
			const auto o = e.orientation_covariances();
			const auto vc = e.velocity_covariances(), pc = e.position_covariances();
			const auto vv = e.getVelocityVariance(), pv = e.getPositionVariance(), mb = e.getMagBiasVariance();
			const auto wv = e.getWindVelocityVariance(), wd = e.getWindVelocity();
			const auto mbs = e.getMagBias();
			bool ok = true;

			for (int i = 0; i < 24; i++) { ok &= bitsOf(d(i)) == bitsOf(P(i, i)); }

			for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { ok &= bitsOf(o(i, j)) == bitsOf(P(i, j)); } }

			for (int i = 0; i < 3; i++) {
				for (int j = 0; j < 3; j++) { ok &= bitsOf(vc(i, j)) == bitsOf(P(4 + i, 4 + j)) && bitsOf(pc(i, j)) == bitsOf(P(7 + i, 7 + j)); }

				ok &= bitsOf(vv(i)) == bitsOf(P(4 + i, 4 + i)) && bitsOf(pv(i)) == bitsOf(P(7 + i, 7 + i)) && bitsOf(mb(i)) == bitsOf(P(19 + i, 19 + i)) && bitsOf(mbs(i)) == bitsOf(x(19 + i));
			}

			for (int i = 0; i < 2; i++) { ok &= bitsOf(wv(i)) == bitsOf(P(22 + i, 22 + i)) && bitsOf(wd(i)) == bitsOf(x(22 + i)); }

			if (!ok) { return bad("views", "a view of the state or covariance differs from the state or covariance"); }

			// biases are published as rates: the same factor relates states and published values, its square the variances
			const auto gb = e.getGyroBias(), ab = e.getAccelBias(), gbv = e.getGyroBiasVariance(), abv = e.getAccelBiasVariance();
			double dt = 0, best = 0;

			for (int i = 0; i < 3; i++) {
				if (std::fabs(gb(i)) > best && std::fabs(x(10 + i)) > 1e-12f) { best = std::fabs(gb(i)); dt = (double)x(10 + i) / gb(i); }

				if (std::fabs(ab(i)) > best && std::fabs(x(13 + i)) > 1e-12f) { best = std::fabs(ab(i)); dt = (double)x(13 + i) / ab(i); }
			}

			if (best > 1e-6) {
				for (int i = 0; i < 3; i++) {
					if (!near(gb(i) * dt, x(10 + i), 1e-4) || !near(ab(i) * dt, x(13 + i), 1e-4)) { return bad("bias_units", "published biases and bias states are not related by one interval"); }

					if (!near(gbv(i), P(10 + i, 10 + i) / (dt * dt), 1e-3)) { return bad("bias_variance", fmt("gyro bias variance %.6g (rad/s)^2 published, the filter has %.6g", gbv(i), P(10 + i, 10 + i) / (dt * dt))); }

					if (!near(abv(i), P(13 + i, 13 + i) / (dt * dt), 1e-3)) { return bad("bias_variance", fmt("accelerometer bias variance %.6g (m/s^2)^2 published, the filter has %.6g", abv(i), P(13 + i, 13 + i) / (dt * dt))); }
				}

				r.cnt["checked_bias_variance"]++;
			}

			float tas;
			e.get_true_airspeed(&tas);

			if (!near(tas, std::sqrt(sq_(x(4) - x(22)) + sq_(x(5) - x(23)) + sq_(x(6))), 1e-4)) { return bad("true_airspeed", fmt("true airspeed %.6g is not the speed relative to the wind", tas)); }
		}
		// ---- reset getters
		{
			const auto &rs = e.state_reset_status();
			float d1, d2, v2[2], p2[2], q4[4];
			uint8_t n1, n2, n3, n4, n5;
			e.get_posD_reset(&d1, &n1); e.get_velD_reset(&d2, &n2); e.get_posNE_reset(p2, &n3); e.get_velNE_reset(v2, &n4); e.get_quat_reset(q4, &n5);
			bool ok = n1 == rs.posD_counter && n2 == rs.velD_counter && n3 == rs.posNE_counter && n4 == rs.velNE_counter && n5 == rs.quat_counter && bitsOf(d1) == bitsOf(rs.posD_change) && bitsOf(d2) == bitsOf(rs.velD_change);

			for (int i = 0; i < 2; i++) { ok &= bitsOf(p2[i]) == bitsOf(rs.posNE_change(i)) && bitsOf(v2[i]) == bitsOf(rs.velNE_change(i)); }

			for (int i = 0; i < 4; i++) { ok &= bitsOf(q4[i]) == bitsOf(rs.quat_change(i)); }

			if (!ok) { return bad("reset_getters", "the reset getters disagree with the reset status"); }
		}
		// ---- simple flags
		// airspeed and sideslip together count as one source
		const int nAid = (int)c.gps + (int)c.opt_flow + (int)c.ev_pos + (int)c.ev_vel + (int)(c.fuse_aspd && c.fuse_beta);
		const bool lpos = e.local_position_is_valid();

		if (e.getNumberOfActiveHorizontalAidingSources() != nAid || e.isHorizontalAidingActive() != (nAid > 0)
		    || e.isOnlyActiveSourceOfHorizontalAiding(c.gps) != (c.gps && nAid == 1) || e.isOtherSourceOfHorizontalAidingThan(c.opt_flow) != (nAid - (int)c.opt_flow > 0)) { return bad("aiding_count", fmt("the number of horizontal aiding sources is reported as %d, it is %d", e.getNumberOfActiveHorizontalAidingSources(), nAid)); }

		if (e.global_position_is_valid() != (lpos && e.global_origin_valid())) { return bad("validity", "global validity is not local validity with an origin"); }

		if (e.get_wind_status() != c.wind || e.get_in_air_status() != c.in_air || e.isVehicleAtRest() != c.vehicle_at_rest || e.attitude_valid() != (bool)c.tilt_align) { return bad("validity", "a status getter disagrees with the control flags"); }

		if (!fresh && e.control_status_prev().value != cPre.value) { return bad("previous_flags", fmt("the previous control flags are %08x, they were %08x", e.control_status_prev().value, cPre.value)); }

		if (!e.inertial_dead_reckoning()) { lastAided = tNow; }

		// ---- fault mask: one bit per fault
		{
			const bool f[18] = {ft.bad_mag_x, ft.bad_mag_y, ft.bad_mag_z, ft.bad_hdg, ft.bad_mag_decl, ft.bad_airspeed, ft.bad_sideslip, ft.bad_optflow_X, ft.bad_optflow_Y, ft.bad_vel_N, ft.bad_vel_E, ft.bad_vel_D, ft.bad_pos_N, ft.bad_pos_E, ft.bad_pos_D, ft.bad_acc_bias, ft.bad_acc_vertical, ft.bad_acc_clipping};
			uint32_t m = 0;

			for (int i = 0; i < 18; i++) { m |= (uint32_t)f[i] << i; }

			if ((uint32_t)e.fault_status().value != m) { return bad("fault_mask", fmt("fault mask %05x, flags %05x", (unsigned)e.fault_status().value, m)); }

			r.cnt["steps_with_fault"] += m != 0;
			const auto &jf = e.innov_check_fail_status_flags();
			const bool j[13] = {jf.reject_hor_vel, jf.reject_ver_vel, jf.reject_hor_pos, jf.reject_ver_pos, jf.reject_mag_x, jf.reject_mag_y, jf.reject_mag_z, jf.reject_yaw, jf.reject_airspeed, jf.reject_sideslip, jf.reject_hagl, jf.reject_optflow_X, jf.reject_optflow_Y};
			uint32_t jm = 0;

			for (int i = 0; i < 13; i++) { jm |= (uint32_t)j[i] << i; }

			if (jm != (uint32_t)e.innov_check_fail_status().value) { return bad("rejection_mask", "the rejection mask differs from the rejection flags"); }

			// ---- solution status
			const bool good = m == 0, hv = nAid > 0 && good, vv = (c.baro_hgt || c.ev_hgt || c.gps_hgt || c.rng_hgt) && good;
			const bool rel = (c.gps || c.ev_pos || c.opt_flow) && good, ab = (c.gps || c.ev_pos) && good;
			const bool glitch = (s1.gv[0] > 1 || s1.gv[1] > 1 || s1.gp[0] > 1) && s1.magMax < 1 && s1.yaw < 1;
			const bool want[12] = {c.tilt_align && c.yaw_align && good, hv, vv, rel, ab, vv, e.isTerrainEstimateValid(), !hv, rel, ab, glitch, ft.bad_acc_vertical};
			static const char *const nm[12] = {"attitude", "horizontal velocity", "vertical velocity", "relative position", "absolute position", "vertical position", "height above ground", "constant position", "predicted relative position", "predicted absolute position", "GPS glitch", "accelerometer error"};
			uint16_t got;
			e.get_ekf_soln_status(&got);

			for (int i = 0; i < 12; i++) { if (((got >> i) & 1) != want[i]) { return bad("solution_status", fmt("solution status '%s' is %d, the filter says %d (faults %05x)", nm[i], (got >> i) & 1, want[i], m)); } }

			fnv(h, got);
			r.states.insert((uint64_t)got << 16 | jm);
		}
		// ---- summary of the consistency checks
		{
			uint16_t st;
			float q[7];
			e.get_innovation_test_status(st, q[0], q[1], q[2], q[3], q[4], q[5], q[6]);
			const float hg = c.baro_hgt ? s1.baro : c.gps_hgt ? s1.gp[1] : c.rng_hgt ? s1.rng : c.ev_hgt ? s1.ep[1] : 0;
			const double want[7] = {std::sqrt((double)std::max(s1.yaw, s1.magMax)), std::sqrt((double)std::max(std::max(s1.gv[0], s1.gv[1]), std::max(s1.ev[0], s1.ev[1]))), std::sqrt((double)std::max(s1.gp[0], s1.ep[0])), std::sqrt((double)hg), std::sqrt((double)s1.tas), std::sqrt((double)s1.hagl), std::sqrt((double)s1.beta)};
			static const char *const nm[7] = {"magnetometer", "velocity", "position", "height", "airspeed", "height above ground", "sideslip"};

			if (st != s1.rej) { return bad("test_summary", "the rejection mask of the summary differs"); }

			for (int i = 0; i < 7; i++) { if (!near(q[i], want[i])) { return bad("test_summary", fmt("%s test ratio %.6g, the largest single ratio is %.6g", nm[i], q[i], want[i])); } }
		}
		// three axis and heading checks exclude each other: the ratios of the one not in use are cleared
		if (s1.yaw > 0 && s1.magMax > 0) { return bad("stale_ratio", fmt("heading ratio %.5g and magnetometer ratio %.5g are reported together", s1.yaw, s1.magMax)); }

		// ---- accuracies
		{
			const bool dr = e.inertial_dead_reckoning();
			const uint64_t lim = (uint64_t)p.valid_timeout_max;
			// dead reckoning for too long: known from validity or from time, else either
			const int exc = lpos || !dr ? 0 : (lastAided && tNow - lastAided > lim + 500000 + (uint64_t)p.no_aid_timeout_max) ? 1 : -1;
			const double hp = std::sqrt((double)P(7, 7) + P(8, 8)), gpi = std::hypot(s1.gpi[0], s1.gpi[1]), epi = std::hypot(s1.epi[0], s1.epi[1]), hv = std::sqrt((double)P(4, 4) + P(5, 5));
			float a, b;
			e.get_ekf_lpos_accuracy(&a, &b);
			const double l0 = hp, l1 = c.gps ? std::max(hp, gpi) : hp;

			if (!((exc != 1 && near(a, l0)) || (exc != 0 && near(a, l1)))) { return bad("local_accuracy", fmt("local horizontal accuracy %.6g m, expected %.6g%s", a, exc == 1 ? l1 : l0, exc < 0 ? " or with innovations" : "")); }

			if (!near(b, std::sqrt((double)P(9, 9)))) { return bad("local_accuracy", fmt("local vertical accuracy %.6g m, the filter has %.6g", b, std::sqrt((double)P(9, 9)))); }

			e.get_ekf_vel_accuracy(&a, &b);
			double cons = 0;

			if (c.opt_flow) { cons = std::max((double)e.getTerrainVertPos() - x(9), std::max((double)p.rng_gnd_clearance, 0.1)) * std::hypot(s1.fi[0], s1.fi[1]); }

			if (c.gps) { cons = std::max(cons, gpi); } else if (c.ev_pos) { cons = std::max(cons, epi); }

			if (c.ev_vel) { cons = std::max(cons, (double)std::hypot(s1.evi[0], s1.evi[1])); }

			if (!((exc != 1 && near(a, hv)) || (exc != 0 && near(a, std::max(hv, cons), 1e-4)))) { return bad("velocity_accuracy", fmt("horizontal velocity accuracy %.6g m/s, expected %.6g%s", a, exc == 1 ? std::max(hv, cons) : hv, exc < 0 ? " or with innovations" : "")); }

			if (!near(b, std::sqrt((double)P(6, 6)))) { return bad("velocity_accuracy", fmt("vertical velocity accuracy %.6g m/s, the filter has %.6g", b, std::sqrt((double)P(6, 6)))); }

			e.get_ekf_gpos_accuracy(&a, &b);

			if (known) {
				double g = std::sqrt((double)P(7, 7) + P(8, 8) + sq_(oeph));

				if (dr && c.gps) { g = std::max(g, gpi); } else if (dr && c.ev_pos) { g = std::max(g, epi); }

				if (!near(a, g)) { return bad("global_accuracy", fmt("global horizontal accuracy %.6g m, expected %.6g (origin %.4g)", a, g, oeph)); }

				if (!near(b, std::sqrt((double)P(9, 9) + sq_(oepv)))) { return bad("global_accuracy", fmt("global vertical accuracy %.6g m, expected %.6g (origin %.4g)", b, std::sqrt((double)P(9, 9) + sq_(oepv)), oepv)); }

				r.cnt["checked_global_accuracy"]++;
			}

			r.cnt["accuracy_dead_reckoning_exceeded"] += exc == 1;
			fnv(h, bitsOf(a));
			fnv(h, bitsOf(b));
		}
		// ---- control limits
		{
			float v[4];
			e.get_ekf_ctrl_limits(&v[0], &v[1], &v[2], &v[3]);
			double q[4] = {NAN, NAN, NAN, NAN};

			if (c.rng_hgt && !p.range_aid) { q[2] = rlo; q[3] = 0.75 * rhi; r.cnt["limits_range"]++; }

			if (c.opt_flow && nAid == 1) {
				q[0] = std::max(0.5 * fmaxr * ((double)e.getTerrainVertPos() - x(9)), 0.);
				q[2] = std::max(rlo, flo);
				q[3] = std::min(0.75 * rhi, (double)fhi);
				r.cnt["limits_flow"]++;
			}

			static const char *const nm[4] = {"horizontal speed", "vertical speed", "lowest height", "greatest height"};

			for (int i = 0; i < 4; i++) { if (!near(v[i], q[i], 1e-5) && !(i == 0 && std::fabs(v[i] - q[i]) < 1e-4 + 1e-6 * fmaxr * (std::fabs(e.getTerrainVertPos()) + std::fabs(x(9))))) { return bad("control_limits", fmt("limit of %s %.6g, expected %.6g", nm[i], v[i], q[i])); } }
		}

		// ---- rejection flags
		if (!fresh && cPre.flags.tilt_align) {
			auto bit_ = [](uint16_t m, int i) { return (bool)((m >> i) & 1); };
			const uint16_t b0 = s0.rej, b1 = s1.rej;
			// a source that starts or stops in the step of its check has its ratios cleared
			constexpr uint32_t kModes = 1u << 2 | 1u << 3 | 1u << 9 | 1u << 10 | 1u << 11 | 1u << 12 | 1u << 14 | 1u << 24;
			const bool modes = (e.control_status().value ^ cPre.value) & kModes, acc = ft.bad_acc_vertical || modes;
			const bool gpsOn = c.gps && cPre.flags.gps;

			if (!rejection("horizontal_velocity", bit_(b0, 0), bit_(b1, 0), {{s0.gv[0], s1.gv[0], gpsOn}, {s0.ev[0], s1.ev[0], c.ev_vel && cPre.flags.ev_vel}, {s0.aux, s1.aux, s1.aux > 0}}, modes)) { return false; }

			if (!rejection("vertical_velocity", bit_(b0, 1), bit_(b1, 1), {{s0.gv[1], s1.gv[1], gpsOn}, {s0.ev[1], s1.ev[1], c.ev_vel && cPre.flags.ev_vel}}, acc)) { return false; }

			if (!rejection("horizontal_position", bit_(b0, 2), bit_(b1, 2), {{s0.gp[0], s1.gp[0], gpsOn}, {s0.ep[0], s1.ep[0], c.ev_pos && cPre.flags.ev_pos}}, nAid == 0 || modes)) { return false; }

			if (!rejection("vertical_position", bit_(b0, 3), bit_(b1, 3), {{s0.baro, s1.baro, (bool)c.baro_hgt}, {s0.gp[1], s1.gp[1], c.gps_hgt && cPre.flags.gps_hgt}, {s0.rng, s1.rng, (bool)c.rng_hgt}, {s0.ep[1], s1.ep[1], c.ev_hgt && cPre.flags.ev_hgt}}, acc)) { return false; }

			const double mg = sq_(std::max((double)p.mag_innov_gate, 1.)), fg = sq_(std::max((double)p.flow_innov_gate, 1.));
			static const char *const mn[3] = {"magnetometer_x", "magnetometer_y", "magnetometer_z"}, *const fn[2] = {"flow_x", "flow_y"};
			bool mc = false;

			for (int i = 0; i < 3; i++) { mc |= bitsOf(s0.mi[i]) != bitsOf(s1.mi[i]); }

			for (int i = 0; i < 3; i++) {
				// the variances of Y and Z are computed again while fusing, which happens when all axes passed
				if (s1.magMax == 0) { break; } // cleared by a heading check later in the step

				const float q = s1.magMax > 1 ? (float)(sq_(s1.mi[i]) / (mg * s1.mv[i])) : 2e-9f;

				if (!rejection(mn[i], bit_(b0, 4 + i), bit_(b1, 4 + i), {{1e-9f, mc ? std::max(q, 2e-9f) : 1e-9f, true}})) { return false; }
			}

			const bool fc = bitsOf(s0.flow) != bitsOf(s1.flow);

			for (int i = 0; i < 2; i++) {
				const float q = s1.flow > 1 ? (float)(sq_(s1.fi[i]) / (fg * s1.fv[i])) : 2e-9f;

				if (!rejection(fn[i], bit_(b0, 11 + i), bit_(b1, 11 + i), {{1e-9f, fc ? std::max(q, 2e-9f) : 1e-9f, c.opt_flow && cPre.flags.opt_flow}})) { return false; }
			}

			if (!rejection("yaw", bit_(b0, 7), bit_(b1, 7), {{s0.yaw, s1.yaw, s1.yaw > 0}}, mc || s1.yaw == 0)) { return false; }

			if (!rejection("airspeed", bit_(b0, 8), bit_(b1, 8), {{s0.tas, s1.tas, s1.tas > 0}})) { return false; }

			if (!rejection("sideslip", bit_(b0, 9), bit_(b1, 9), {{s0.beta, s1.beta, s1.beta > 0}})) { return false; }

			// after ten seconds of rejection the terrain is set to the measurement instead (P13)
			if (!rejection("height_above_ground", bit_(b0, 10), bit_(b1, 10), {{s0.hagl, s1.hagl, s1.hagl > 0}}, s1.hagl > 1 && !bit_(b0, 10) && !bit_(b1, 10))) { return false; }
		}

		return true;
	}
};

static double q(double v) { return std::round(v * 1000) / 1000; }
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed * 31 + 19);
	const double dur0 = r.u(30, thorough ? 110 : 55);
	Scn s = richScn(seed * 29 + 11, dur0, r.p(0.3) ? R_FORCEGPS : 0);
	s.check = "P19";
	const double dur = s.g("dur", dur0);

	if (r.p(0.4)) { s.ops.push_back({O_RNGLIM, std::floor(r.u(0, dur)), q(r.u(0.01, 1)), q(r.u(3, 60)), 0}); }

	if (r.p(0.4)) { s.ops.push_back({O_FLOWLIM, std::floor(r.u(0, dur)), q(r.u(0.5, 8)), q(r.u(0.01, 1)), q(r.u(3, 60))}); }

	if (r.p(0.3)) { s.s("P.mag_innov_gate", q(r.u(0.5, 4))); }

	if (r.p(0.3)) { s.s("P.flow_innov_gate", q(r.u(0.5, 4))); }

	if (r.p(0.3)) { s.s("P.valid_timeout_max", q(std::floor(r.logu(1e6, 1e7)))); }

	if (r.p(0.3)) { s.s("P.rng_gnd_clearance", q(r.u(0, 1))); }

	// sensors that disagree with the filter for a while: every kind of rejection
	for (int i = r.i(1, thorough ? 6 : 4); i > 0; i--) {
		const double t0 = std::floor(r.u(8, dur - 4) * 10) / 10, d = std::floor(r.logu(0.3, 12) * 10) / 10;
		const int sn = r.pick({(int)GPS, (int)GPS, (int)BARO, (int)EV, (int)FLOW, (int)RNG, (int)MAG, (int)MAG, (int)ASP, (int)AUX});
		const double k = sn == MAG ? 0.6 : sn == FLOW ? 2 : sn == ASP || sn == AUX ? 15 : 60;

		if (r.p(0.65)) { s.faults.push_back(Fault{F_BIAS, sn, t0, t0 + d, q(r.u(-k, k)), q(r.u(-k, k)), q(r.u(-k, k))}); }

		else { s.faults.push_back(Fault{F_LOSS, sn, t0, t0 + d, 1, 0}); }
	}

	if (r.p(0.2)) { const double t0 = std::floor(r.u(8, dur - 4)); s.faults.push_back(Fault{F_CLIP, IMU, t0, t0 + std::floor(r.u(1, 5)), (double)r.i(1, 7), q(r.u(2, 15))}); }

	if (r.p(0.15)) { const double t0 = std::floor(r.u(8, dur - 4)); s.faults.push_back(Fault{F_BIAS, IMU, t0, t0 + q(r.u(1, 6)), 0, 0, q(r.u(-12, 12))}); }

	swarmFaults(s, r, 2, dur, 4, bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_IMUGAP) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_VIB) | bit(F_BIAS) | bit(F_SPIKE) | bit(F_STUCK) | bit(F_VEL) | bit(F_ROT), kAllSensors);
	return s;
}
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Hook a(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["fusion_steps"] += a.steps;
	r.nontrivial = a.steps > 500;
}
Reg reg({"P19", gen, exec, "a run counts when more than 500 fusion steps were compared"});
}
