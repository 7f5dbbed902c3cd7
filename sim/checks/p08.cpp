// P08: the published attitude, velocity and position are the delayed estimate carried to the present with the inertial
//      data, pulled towards the estimate with the configured time constants, and moved by exactly the announced resets
#include "../ref.h"
using namespace sim;
namespace
{
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x808);
	Scn s = richScn(seed, r.u(22, thorough ? 60 : 36), r.p(0.3) ? R_PARAMSWARM : 0);

	if (r.p(0.5)) { s.s("P.vel_Tau", r.pick({0.02, 0.1, 0.25, 0.5, 2.0, 15.0})); s.s("P.pos_Tau", r.pick({0.02, 0.1, 0.25, 0.5, 2.0, 15.0})); }

	if (r.p(0.6)) { for (const char *ax : {".x", ".y", ".z"}) { s.s(std::string("P.imu_pos_body") + ax, std::floor(r.u(-600, 600)) / 1000); } }

	for (const char *n : {"mag_delay_ms", "baro_delay_ms", "gps_delay_ms", "ev_delay_ms"}) { if (r.p(0.25)) { s.s(std::string("P.") + n, std::floor(r.u(0, 200))); } }

	// what makes the estimator reset: jumps, losses that last, bad yaw, changed sources
	const uint32_t kinds = bit(F_LOSS) | bit(F_BIAS) | bit(F_VEL) | bit(F_QUALITY) | bit(F_ROT) | bit(F_STUCK) | bit(F_NOISE) | bit(F_DELAY) | bit(F_IMUGAP) | bit(F_VIB);
	swarmFaults(s, r, 3, s.g("dur", 30), 6, kinds, kAllSensors);

	for (int i = r.i(0, 2); i > 0; i--) {
		const double t = std::floor(r.u(12, s.g("dur", 30) - 8));
		const int se = r.pick({(int)GPS, (int)BARO, (int)EV, (int)RNG, (int)FLOW});
		s.faults.push_back({F_LOSS, se, t, t + r.u(5.2, 9), 1, 0, 0});
	}

	if (r.p(0.2)) { const double d = s.g("dur", 30); s.ops.push_back({O_ORIGIN, std::floor(r.u(10, d)), s.g("lat", 47) + r.u(-1e-3, 1e-3), s.g("lon", 8) + r.u(-1e-3, 1e-3), (double)s.g("alt", 400) + r.u(-50, 50)}); }

	if (r.p(0.15)) { s.ops.push_back({O_RSTACC, std::floor(r.u(8, s.g("dur", 30))), 0, 0, 0}); }

	if (r.p(0.15)) { s.ops.push_back({O_RSTGYR, std::floor(r.u(8, s.g("dur", 30))), 0, 0, 0}); }

	return s;
}
struct Cnt { uint8_t pn{0}, pd{0}, vn{0}, vd{0}, q{0}; };
struct Out : Hooks {
	Result &r;
	const World &w;
	RefFront f;
	RefOut o;
	Cnt c;
	bool have{false}, dead{false};
	imuSample m;
	double dtAvg{0};
	uint64_t pt{0};
	uint64_t h{1469598103934665603ull}, steps{0}, resets{0};
	double worst[8] {};
	Out(Result &r_, const World &w_) : r(r_), w(w_) {}
	static Cnt counters(Ekf &e)
	{
		Cnt c;
		float d, d2[2], d4[4];
		e.get_posNE_reset(d2, &c.pn);
		e.get_posD_reset(&d, &c.pd);
		e.get_velNE_reset(d2, &c.vn);
		e.get_velD_reset(&d, &c.vd);
		e.get_quat_reset(d4, &c.q);
		return c;
	}
	void preImu(const imuSample &s, Ekf &e) override { m = s; f.imu(s, *e.getParamHandle()); }
	void onOp(const Op &op, Ekf &) override { if (op.kind == O_RESTART) { dead = true; } }
	bool cmp(const char *what, double a, double b, double tol, double t, int k)
	{
		const double d = std::fabs(a - b);

		if (!(d <= tol)) { r.bad(what, fmt("published %s is %.7g, the delayed estimate carried to now gives %.7g (tolerance %.2g) at t=%.3f", what, a, b, tol, t)); return false; }

		worst[k] = std::max(worst[k], d / tol);
		return true;
	}
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		if (dead) { return false; }

		const double t = (double)(st.t - w.t0) * 1e-6;
		const bool up = o.on || e.covariances()(4, 4) > 0;
		const Cnt n = counters(e);

		if (!up) { c = n; return true; }

		const imuSample &dl = e.get_imu_sample_delayed();

		if (st.updated) {
			double in = 0.5 * ((double)dl.delta_vel_dt + dl.delta_ang_dt);
			in = std::min(0.02, std::max(0.005, in));
			o.dtEkf = 0.99 * o.dtEkf + 0.01 * in;
		}

		const auto x = e.getStateAtFusionHorizonAsVector();
		const Q sq(x(0), x(1), x(2), x(3));
		const V3 sv(x(4), x(5), x(6)), sp(x(7), x(8), x(9)), bg(x(10), x(11), x(12)), ba(x(13), x(14), x(15));
		const parameters &p = *e.getParamHandle();
		const V3 imuPos = d3(p.imu_pos_body);
		const double dtImu = e.get_dt_imu_avg();
		const auto pq = e.getQuaternion();
		const Q oq(pq(0), pq(1), pq(2), pq(3));
		bool rotate = true;
		V3 dV, dP;
		bool unkV[2] {}, unkP[2] {};
		float d, d2[2], d4[4];
		uint8_t dummy;

		if (!o.on) { o.start(); o.now.q = oq; rotate = false; r.cnt["starts"]++; }

		{
			if (n.pn != c.pn) { e.get_posNE_reset(d2, &dummy); dP.x = d2[0]; dP.y = d2[1]; unkP[0] = (uint8_t)(n.pn - c.pn) > 1; resets++; }

			if (n.vn != c.vn) { e.get_velNE_reset(d2, &dummy); dV.x = d2[0]; dV.y = d2[1]; unkV[0] = (uint8_t)(n.vn - c.vn) > 1; resets++; }

			if (n.pd != c.pd) { e.get_posD_reset(&d, &dummy); dP.z = d; unkP[1] = (uint8_t)(n.pd - c.pd) > 1; resets++; }

			if (n.vd != c.vd) { e.get_velD_reset(&d, &dummy); dV.z = d; unkV[1] = (uint8_t)(n.vd - c.vd) > 1; resets++; }

			if (n.q != c.q && rotate) {
				if ((uint8_t)(n.q - c.q) > 1) { return false; } // the first of two attitude resets in one step is not observable

				e.get_quat_reset(d4, &dummy);
				o.addQ(Q(d4[0], d4[1], d4[2], d4[3]).unit());
				resets++;
				r.cnt["quat_resets"]++;
			}

		}

		c = n;
		const auto ev = e.getVelocity();
		const auto ep = e.getPosition();
		const float vd = e.getVerticalPositionDerivative();
		const bool big = unkV[0] || unkV[1] || unkP[0] || unkP[1];
		const RefOut before = o;
		auto step = [&]() {
			o = before;
			o.addV(dV);
			o.addP(dP);
			o.prop(m, bg, ba, dtImu, imuPos, rotate);

			if (st.updated) { o.correct(sq, sv, sp, f.imuLen, (double)(st.t - dl.time_us) * 1e-6, dtImu, p.vel_Tau, p.pos_Tau); }
		};
		step();

		if (big) {
			// two resets of one quantity within a step: only the last is reported, the sum is solved for from the output
			const double gv = st.updated ? 1 - o.g1v : 1, gp = st.updated ? 1 - o.g1p : 1;

			if (gv < 0.2 || gp < 0.2) { return false; }

			for (int ax = 0; ax < 3; ax++) { if (unkV[ax == 2]) { dV[ax] += (ev(ax) - (o.now.v - o.relVel)[ax]) / gv; } }

			step();

			for (int ax = 0; ax < 3; ax++) { if (unkP[ax == 2]) { dP[ax] += (ep(ax) - (o.now.p - o.now.q.rot(imuPos))[ax]) / gp; } }

			step();
			r.cnt["double_resets"]++;
		}

		steps += st.updated;
		const double ang = (oq.inv() * o.now.q).log().norm();

		if (!cmp("attitude", ang, 0, 2e-4, t, 0)) { return false; }

		double pm = 1, vm = 1;

		for (const auto &b : o.buf) { pm = std::max(pm, b.p.norm()); vm = std::max(vm, b.v.norm()); }

		pm = std::max(pm, sp.norm());
		const V3 v2 = o.now.v - o.relVel, p2 = o.now.p - o.now.q.rot(imuPos);
		const char *const vn[] = {"velocity_north", "velocity_east", "velocity_down"}, *const pn[] = {"position_north", "position_east", "position_down"};
		// a constant rate can round the same way at every IMU sample: what the feedback has not removed yet
		const double acc1 = 6e-8 / std::max(dtImu, 2e-4) * (p.vel_Tau + p.pos_Tau + 0.3);
		const double tv = (2e-5 + acc1) * vm + 1e-4 * (big ? 10 : 1), tp = (2e-5 + acc1) * pm + tv * p.pos_Tau + 2e-4 * (big ? 10 : 1);

		for (int i = 0; i < 3; i++) {
			if (!cmp(vn[i], ev(i), v2[i], tv, t, 1)) { return false; }

			if (!cmp(pn[i], ep(i), p2[i], tp, t, 2)) { return false; }
		}

		if (!cmp("vertical_position_derivative", vd, o.now.vv - o.relVel.z, 4 * (tv + tp), t, 3)) { return false; }

		const auto acc = e.getVelocityDerivative();

		for (int i = 0; i < 3; i++) { if (!cmp("acceleration", acc(i), o.velDeriv[i], 2e-3 + 1e-4 * o.velDeriv.norm() + 2e-6 / std::max((double)m.delta_vel_dt, 1e-4), t, 4)) { return false; } }

		if (st.updated) {
			const auto te = e.getOutputTrackingError();

			if (!cmp("attitude_tracking_error", te(0), o.track.x, 1e-4, t, 5) || !cmp("velocity_tracking_error", te(1), o.track.y, 2 * tv, t, 6) || !cmp("position_tracking_error", te(2), o.track.z, 2 * tp, t, 7)) { return false; }
		}

		fnv(h, bitsOf(ev(0)));
		fnv(h, bitsOf(ep(2)));
		fnv(h, bitsOf(pq(3)));

		if (st.updated && steps % 16 == 0) { r.states.insert(hash3(ctrlState(e), (uint64_t)f.imuLen, 0)); }

		return true;
	}
};
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Out a(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["fusion_steps"] += a.steps;
	r.cnt["resets_followed"] += a.resets;
	r.nontrivial = a.steps > 500;

	if (getenv("SIM_DEBUG")) { for (double x : a.worst) { printf(" %.3g", x); } printf("\n"); }
}
Reg reg({"P08", gen, exec, "a run counts when the published outputs were compared with the reference predictor over more than 500 fusion steps"});
}
