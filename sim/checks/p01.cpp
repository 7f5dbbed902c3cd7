// P01: any history of finite samples is processed without crash, undefined behaviour or non-finite output
#include "../core.h"
using namespace sim;
namespace
{
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x101);
	Scn s = richScn(seed, r.u(14, thorough ? 40 : 26), R_PARAMSWARM);
	const double dur = s.g("dur", 20);
	swarmFaults(s, r, 1, dur, 8, kAllFaults, kAllSensors);

	auto q = [](double x) { return std::floor(x * 1000) / 1000; };

	if (r.p(0.5)) { // delays from none to the longest supported
		for (const char *n : {"mag_delay_ms", "baro_delay_ms", "gps_delay_ms", "airspeed_delay_ms", "flow_delay_ms", "range_delay_ms", "ev_delay_ms", "auxvel_delay_ms"}) {
			if (r.p(0.7)) { s.s(std::string("P.") + n, r.p(0.5) ? 0 : std::floor(r.logu(1, 300))); }
		}
	}

	if (r.p(0.25)) { // short delays only: the smallest buffers
		for (const char *n : {"mag_delay_ms", "baro_delay_ms", "gps_delay_ms", "airspeed_delay_ms", "flow_delay_ms", "range_delay_ms", "ev_delay_ms", "auxvel_delay_ms"}) { s.s(std::string("P.") + n, std::floor(r.u(0, 30))); }
	}

	if (r.p(0.2)) { s.s("P.sensor_interval_min_ms", r.pick({5.0, 10.0, 40.0, 100.0})); }

	if (r.p(0.15)) { // a driver whose clock hangs while it keeps publishing
		Fault f;
		f.kind = F_TSFREEZE;
		f.sensor = r.p(0.5) ? MAG : BARO;
		f.t0 = q(r.u(1, dur / 2));
		f.t1 = q(f.t0 + r.u(0.3, 12));
		s.faults.push_back(f);
		s.s(f.sensor == MAG ? "hz.mag" : "hz.baro", r.pick({50.0, 100.0, 200.0, 500.0}));
	}

	if (r.p(0.3)) { s.s("imu_us", r.pick({250.0, 500.0, 12000.0, 15000.0, 20000.0})); }

	if (r.p(0.2)) { s.s("on.gps", q(r.u(0, dur))); }

	if (r.p(0.2)) { s.s("off.baro", q(r.u(1, dur))); }

	if (r.p(0.2)) { s.s("off.mag", q(r.u(1, dur))); }

	// configuration changed while running
	const int n = r.p(0.5) ? r.i(1, 6) : 0;
	static const char *const chg[] = {"fusion_mode", "vdist_sensor_type", "mag_fusion_type", "range_aid", "terrain_fusion_mode", "check_mag_strength", "synthesize_mag_z", "gps_check_mask", "mag_declination_source"};

	for (int i = 0; i < n; i++) {
		const char *p = chg[r.i(0, 8)];
		double v = 0;
		const std::string ps = p;

		if (ps == "fusion_mode") { v = r.i(0, 2047) & (int)~MASK_USE_DRAG; if (r.p(0.3)) { v = (int)v | MASK_USE_DRAG; } }

		else if (ps == "vdist_sensor_type") { v = r.i(0, 3); }

		else if (ps == "mag_fusion_type") { v = r.i(0, 5); }

		else if (ps == "terrain_fusion_mode") { v = r.i(0, 3); }

		else if (ps == "gps_check_mask") { v = r.i(0, 511); }

		else if (ps == "mag_declination_source") { v = r.i(0, 7); }

		else { v = r.i(0, 1); }

		s.ops.push_back({O_PARAM, q(r.u(1, dur)), (double)paramIndex(p), v, 0});
	}

	if (r.p(0.4)) { s.ops.push_back({O_RESTART, q(r.u(1, dur)), (double)r.i(0, 1), 0, 0}); }

	if (r.p(0.3)) { s.ops.push_back({O_ORIGIN, q(r.u(1, dur)), s.g("lat", 0) + r.u(-0.5, 0.5), s.g("lon", 0) + r.u(-0.5, 0.5), r.u(-100, 2000)}); }

	for (int k : {O_RSTBIAS, O_RSTGYR, O_RSTACC, O_RSTMAG}) { if (r.p(0.15)) { s.ops.push_back({k, q(r.u(1, dur)), 0, 0, 0}); } }

	if (r.p(0.2)) { s.ops.push_back({O_ALLOCFAIL, q(r.u(0, 3)), (double)r.i(1, 12), 0, 0}); }

	if (r.p(0.2)) { s.ops.push_back({O_INAIR, q(r.u(1, dur)), (double)r.i(0, 1), 0, 0}); }

	if (r.p(0.2)) { s.ops.push_back({O_AIRDENS, q(r.u(1, dur)), r.u(0.3, 1.5), 0, 0}); }

	if (r.p(0.3)) { for (const char *n2 : {"static_pressure_coef_xp", "static_pressure_coef_xn", "static_pressure_coef_yp", "static_pressure_coef_yn", "static_pressure_coef_z"}) { s.s(std::string("P.") + n2, q(r.u(-0.5, 0.5))); } }

	if (r.p(0.1)) { s.s("t0", std::floor(r.u(0, 200000))); }

	return s;
}
struct Finite : Hooks {
	Result &r;
	const World &w;
	bool flowNan;
	uint64_t h{14695981039346656037ull};
	uint64_t steps{0};
	Finite(Result &r_, const World &w_, bool fn) : r(r_), w(w_), flowNan(fn) {}
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		if (st.updated) {
			steps++;
			r.states.insert(ctrlState(e));
		}

		bool ok = true;

		auto chk = [&](const char *n, int i, float v) {
			fnv(h, bitsOf(v));

			if (!std::isfinite(v) && ok) {
				const std::string ns = n;

				if (ns == "ctrl_lim") { return; }	// NaN means: no limit

				if (flowNan && ns.compare(0, 5, "flow_") == 0) { return; }

				ok = false;
				r.bad("nonfinite_" + ns, fmt("published value %s[%d] is not finite at imu step %d (t=%.3f s)", n, i, st.k, (double)(st.t - w.t0) * 1e-6));
			}
		};

		if (st.updated || st.k % 8 == 0) { visitAll(e, chk); }

		return ok;
	}
};
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Finite f(r, w, s.g("flow_nogyro", 0) > 0.5);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, f);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, f.h);
	r.cnt["fusion_steps"] += f.steps;
	r.nontrivial = f.steps > 300;
}
Reg reg({"P01", gen, exec, "a run counts when the filter initialised and executed more than 300 fusion steps under address and undefined behaviour sanitizers with every published value tested for finiteness"});
}
