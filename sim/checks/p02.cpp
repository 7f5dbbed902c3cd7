// P02: state and covariance invariants hold after every fusion step
#include "../core.h"
using namespace sim;
namespace
{
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x202);
	Scn s = richScn(seed, r.u(30, thorough ? 90 : 50), R_PARAMSWARM);
	const double dur = s.g("dur", 20);
	auto q = [](double x) { return std::floor(x * 1000) / 1000; };
	swarmFaults(s, r, 3, dur, 7, kAllFaults, kAllSensors);

	if (r.p(0.2)) { s.ops.push_back({O_RESTART, q(r.u(6, dur - 5)), (double)r.i(0, 1), 0, 0}); }

	for (int k : {O_RSTBIAS, O_RSTGYR, O_RSTACC, O_RSTMAG}) { if (r.p(0.15)) { s.ops.push_back({k, q(r.u(1, dur)), 0, 0, 0}); } }

	if (r.p(0.3)) { s.s("P.acc_bias_lim", q(r.u(0.05, 0.6))); }

	if (r.p(0.25)) { // strong sustained imu errors drive states into their limits
		Fault f;
		f.kind = r.p(0.5) ? F_BIAS : F_VEL;
		f.sensor = IMU;
		f.t0 = q(r.u(5, dur / 2));
		f.t1 = dur;

		if (f.kind == F_BIAS) { f.a = q(r.u(-3, 3)); f.b = q(r.u(-3, 3)); f.c = q(r.u(-3, 3)); }

		else { f.a = q(r.u(-0.5, 0.5)); f.b = q(r.u(-0.5, 0.5)); f.c = q(r.u(-0.5, 0.5)); }

		s.faults.push_back(f);
	}

	Rng m(seed ^ 0x20202);

	if (m.p(0.2)) { // air data that puts the wind at its limit
		if (s.g("hz.asp", 0) <= 0) { s.s("hz.asp", 20); }

		s.s("P.wind_vel_p_noise", q(m.u(0.3, 1)));
		s.s("P.tas_innov_gate", q(m.u(3, 20)));
		const double t = q(m.u(2, 10)), b = q(m.u(85, 115));
		s.faults.push_back(Fault{F_BIAS, ASP, t, dur, b, 0, 0});
		s.faults.push_back(Fault{F_NOISE, ASP, t, dur, q(m.u(0, 6)), 0, 0});
	}

	if (m.p(0.15)) { // and the magnetometer bias at its own
		const double t = q(m.u(2, dur - 8));
		s.s("P.magb_p_noise", q(m.logu(0.001, 0.1)));
		s.s("P.mag_innov_gate", q(m.u(3, 30)));
		s.faults.push_back(Fault{F_BIAS, MAG, t, dur, q(m.u(-0.8, 0.8)), q(m.u(-0.8, 0.8)), q(m.u(-0.8, 0.8))});
	}

	return s;
}
struct Inv : Hooks {
	Result &r;
	const World &w;
	uint64_t h{14695981039346656037ull};
	uint64_t steps{0};
	double dtAvg{0.01};
	uint32_t prevCtl{0};
	bool prevOk{false}, have{false};
	float px[24], pv[24];
	int zero[24] {}, over[24] {};
	Inv(Result &r_, const World &w_) : r(r_), w(w_) {}
	void onOp(const Op &o, Ekf &) override { if (o.kind == O_RESTART) { dtAvg = 0.01; } prevOk = have = false; }
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		const double t = (double)(st.t - w.t0) * 1e-6;
		const auto q = e.getQuaternion();
		const double qn = std::sqrt((double)q(0) * q(0) + (double)q(1) * q(1) + (double)q(2) * q(2) + (double)q(3) * q(3));

		if (!(std::fabs(qn - 1) < 1e-4)) { r.bad("quat_output", fmt("output attitude quaternion has norm %.9g at t=%.3f", qn, t)); return false; }

		if (!st.updated) { return true; }

		steps++;
		r.states.insert(ctrlState(e));
		const imuSample &im = e.get_imu_sample_delayed();
		dtAvg = 0.99 * dtAvg + 0.01 * std::min(0.02, std::max(0.005, 0.5 * (im.delta_ang_dt + im.delta_vel_dt)));
		const auto x = e.getStateAtFusionHorizonAsVector();
		const auto &P = e.covariances();

		for (int i = 0; i < 24; i++) { fnv(h, bitsOf(x(i))); fnv(h, bitsOf(P(i, i))); if (!std::isfinite(x(i))) { r.bad("finite_state", fmt("state %d not finite at t=%.3f", i, t)); return false; } }

		double n = 0;

		for (int i = 0; i < 4; i++) { n += (double)x(i) * x(i); }

		n = std::sqrt(n);

		if (!(std::fabs(n - 1) < 1e-4)) { r.bad("quat_norm", fmt("attitude quaternion has norm %.9g at t=%.3f", n, t)); return false; }

		parameters &p = *e.getParamHandle();
		double lim[24];

		for (int i = 0; i < 4; i++) { lim[i] = 1.0001; }

		for (int i = 4; i < 7; i++) { lim[i] = 1000; }

		for (int i = 7; i < 10; i++) { lim[i] = 1e6; }

		for (int i = 10; i < 13; i++) { lim[i] = 20 * M_PI / 180 * dtAvg * 1.02; }

		for (int i = 13; i < 16; i++) { lim[i] = (double)p.acc_bias_lim * dtAvg * 1.02; }

		for (int i = 16; i < 19; i++) { lim[i] = 1; }

		for (int i = 19; i < 22; i++) { lim[i] = 0.5; }

		for (int i = 22; i < 24; i++) { lim[i] = 100; }

		for (int i = 0; i < 24; i++) {
			// a measurement correction may carry a state beyond its limit until the next prediction clamps it
			if (std::fabs((double)x(i)) > lim[i] * 1.02 && have && x(i) == px[i]) { r.bad("state_limit", fmt("state %d = %.7g stays beyond its limit %.7g at t=%.3f", i, x(i), lim[i], t)); return false; }

			if (std::fabs((double)x(i)) > 0.98 * lim[i] && i > 3) { r.cnt[i < 13 ? "at_limit_kin_or_gyro_bias" : i < 16 ? "at_limit_acc_bias" : i < 22 ? "at_limit_mag" : "at_limit_wind"]++; }
		}

		static const double vmax[24] = {1, 1, 1, 1, 1e6, 1e6, 1e6, 1e6, 1e6, 1e6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1e6, 1e6};

		for (int i = 0; i < 24; i++) {
			const double v = P(i, i);

			if (!(v >= 0)) { r.bad("variance_negative", fmt("variance of state %d is %.7g at t=%.3f", i, v, t)); return false; }

			// a reset sets the variance to that of a measurement; the next prediction caps it
			over[i] = v <= vmax[i] * (1 + 1e-6) ? 0 : over[i] + 1;

			if (over[i] > 2) { r.bad("variance_limit", fmt("variance of state %d is %.7g at t=%.3f", i, v, t)); return false; }

			zero[i] = v > 0 ? 0 : zero[i] + 1;

			if (i >= 4 && i <= 9 && zero[i] > 20) { r.bad("variance_zero", fmt("variance of kinematic state %d stays zero at t=%.3f", i, t)); return false; }
		}

		for (int i = 0; i < 24; i++) {
			for (int j = 0; j < i; j++) {
				const double a = P(i, j), b = P(j, i);

				if (!(std::fabs(a - b) <= 2e-3 * std::sqrt((double)P(i, i) * P(j, j)) + 1e-12)) { r.bad("symmetry", fmt("covariance (%d,%d)=%.7g but (%d,%d)=%.7g at t=%.3f", i, j, a, j, i, b, t)); return false; }
			}
		}

		const auto f = e.control_status().flags;

		if (prevOk) {
			filter_control_status_u pc;
			pc.value = prevCtl;

			if (!f.mag_3D && !pc.flags.mag_3D) {
				for (int i = 16; i < 22; i++) { for (int j = 0; j < 24; j++) { if ((P(i, j) != 0.f || P(j, i) != 0.f) && have && pv[i] == P(i, i)) { r.bad("inactive_mag", fmt("magnetic field states are not being estimated but covariance (%d,%d) is %.7g at t=%.3f", i, j, P(i, j), t)); return false; } } }

				r.cnt["steps_mag_inactive"]++;
			}

			if (!f.wind && !pc.flags.wind) {
				for (int i = 22; i < 24; i++) { for (int j = 0; j < 24; j++) { if ((P(i, j) != 0.f || P(j, i) != 0.f) && have && pv[i] == P(i, i)) { r.bad("inactive_wind", fmt("wind is not being estimated but covariance (%d,%d) is %.7g at t=%.3f", i, j, P(i, j), t)); return false; } } }

				r.cnt["steps_wind_inactive"]++;
			}
		}

		for (int i = 0; i < 24; i++) { px[i] = x(i); pv[i] = P(i, i); }

		have = true;
		prevCtl = e.control_status().value;
		prevOk = true;
		return true;
	}
};
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Inv f(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, f);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, f.h);
	r.cnt["fusion_steps"] += f.steps;
	r.nontrivial = f.steps > 500;
}
Reg reg({"P02", gen, exec, "a run counts when more than 500 fusion steps were executed with every invariant evaluated after each of them"});
}
