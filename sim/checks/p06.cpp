// P06: every measurement is applied at the instant it was taken: delivery at the delayed fusion horizon
// P07: down-sampling the inertial data neither loses nor invents rotation, velocity, time or clipping
#include "../ref.h"
using namespace sim;
namespace
{
void timingSwarm(Scn &s, Rng &r)
{
	auto q = [](double x) { return std::floor(x * 1000) / 1000; };
	static const char *const dl[] = {"mag_delay_ms", "baro_delay_ms", "gps_delay_ms", "airspeed_delay_ms", "flow_delay_ms", "range_delay_ms", "ev_delay_ms", "auxvel_delay_ms"};

	for (const char *n : dl) { if (r.p(0.35)) { s.s(std::string("P.") + n, r.p(0.2) ? 0.0 : r.p(0.3) ? q(r.u(0, 220)) : std::floor(r.u(0, 220))); } }

	if (r.p(0.4)) { s.s("P.sensor_interval_min_ms", r.pick({5.0, 10.0, 15.0, 20.0, 40.0, 100.0})); }

	for (const char *n : {"mag", "baro", "gps", "asp", "rng", "flow", "ev", "aux"}) {
		const std::string k = std::string("hz.") + n;

		if (s.g(k, 0) > 0 && r.p(0.3)) { s.s(k, s.g(k, 10) * r.pick({0.3, 0.6, 1.7, 3.0})); }
	}
}
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x606);
	Scn s = richScn(seed, r.u(25, thorough ? 70 : 40), 0);
	timingSwarm(s, r);
	const uint32_t kinds = bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_TSSKEW) | bit(F_IMUGAP) | bit(F_TSFREEZE) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_CLIP);
	swarmFaults(s, r, 2, s.g("dur", 30), 7, kinds, kAllSensors);

	if (r.p(0.15)) { s.ops.push_back({O_RESTART, std::floor(r.u(6, s.g("dur", 30) - 5)), 0, 0, 0}); }

	return s;
}
struct Innov { float v[24]; };
void readInnov(Ekf &e, Innov &o)
{
	float hv[2], hp[2], a, b, m[3];
	e.getGpsVelPosInnov(hv, a, hp, b);
	o.v[0] = hv[0]; o.v[1] = hv[1]; o.v[2] = a; o.v[3] = hp[0]; o.v[4] = hp[1]; o.v[5] = b;
	e.getEvVelPosInnov(hv, a, hp, b);
	o.v[6] = hv[0]; o.v[7] = hv[1]; o.v[8] = a; o.v[9] = hp[0]; o.v[10] = hp[1]; o.v[11] = b;
	e.getBaroHgtInnov(o.v[12]);
	e.getRngHgtInnov(o.v[13]);
	e.getAuxVelInnov(&o.v[14]);
	e.getAirspeedInnov(o.v[16]);
	e.getMagInnov(m);
	o.v[17] = m[0]; o.v[18] = m[1]; o.v[19] = m[2];
}
bool changed(const Innov &a, const Innov &b, int i0, int i1) { for (int i = i0; i <= i1; i++) { if (bitsOf(a.v[i]) != bitsOf(b.v[i])) { return true; } } return false; }

struct Align : Hooks {
	Result &r;
	const World &w;
	RefFront f;
	Innov pi{};
	bool havePi{false};
	uint32_t pctl{0};
	bool evReused{false};
	int same[8] {};
	int stage{0};
	float pbaro{0};
	uint64_t pbaroT{0}, h{1469598103934665603ull}, steps{0};
	float pflow[2] {};
	bool haveFlow{false};
	Align(Result &r_, const World &w_) : r(r_), w(w_) {}
	void preImu(const imuSample &m, Ekf &e) override { f.imu(m, *e.getParamHandle()); }
	void onDeliver(const Ev &v, const World &wd, Ekf &e) override { f.deliver(v, wd, *e.getParamHandle()); }
	void onOp(const Op &o, Ekf &) override { if (o.kind == O_RESTART) { f = RefFront(); havePi = false; for (int &x : same) { x = 0; } pbaroT = 0; haveFlow = false; } }
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		const double t = (double)(st.t - w.t0) * 1e-6;
		const bool was = f.inited;
		f.step(st.updated, e.covariances()(4, 4) > 0);

		if (f.lost) { return false; }

		if (!f.inited) { return true; }

		if (st.updated != f.emit) { r.bad("rate", fmt("fusion step %s at t=%.3f although the accumulated inertial data %s 10 ms", st.updated ? "ran" : "did not run", t, st.updated ? "has not reached" : "has reached")); return false; }

		if (!st.updated) { return true; }

		const imuSample &im = e.get_imu_sample_delayed();

		if (im.time_us != f.delayed.t) {
			if (!was && f.everAmbiguous) { return false; }

			r.bad("horizon", fmt("the inertial sample at the fusion horizon is %.3f ms old, the configured delays call for %.3f ms, at t=%.3f", (double)(st.t - im.time_us) * 1e-3, (double)(st.t - f.delayed.t) * 1e-3, t));
			return false;
		}

		steps++;
		r.states.insert(hash3((uint64_t)f.imuLen, (uint64_t)f.obsLen, (f.ready[GPS] ? 1u : 0u) | (f.ready[MAG] ? 2u : 0u) | (f.ready[BARO] ? 4u : 0u) | (f.ready[RNG] ? 8u : 0u) | (f.ready[EV] ? 16u : 0u) | (f.ready[ASP] ? 32u : 0u) | (f.ready[AUX] ? 64u : 0u)));

		// barometer: the very sample is published
		const baroSample &b = e.get_baro_sample_delayed();
		parameters &p = *e.getParamHandle();
		const bool comp = p.static_pressure_coef_xp != 0 || p.static_pressure_coef_xn != 0 || p.static_pressure_coef_yp != 0 || p.static_pressure_coef_yn != 0 || p.static_pressure_coef_z != 0;

		if (f.ready[BARO]) {
			r.cnt["baro_delivered"]++;

			if (b.time_us != f.when[BARO]) { r.bad("baro_time", fmt("barometer sample used at t=%.3f carries time %.3f ms before now, expected %.3f ms", t, (double)(st.t - b.time_us) * 1e-3, (double)(st.t - f.when[BARO]) * 1e-3)); return false; }

			if (!comp && !(std::fabs(b.hgt - f.baroAvg.v.x) <= 1e-3 + 2e-6 * std::fabs(f.baroAvg.v.x))) { r.bad("baro_value", fmt("barometer sample used at t=%.3f is %.5f m, the mean of the %d samples it stands for is %.5f m", t, b.hgt, f.baroAvg.n, f.baroAvg.v.x)); return false; }

		} else if (pbaroT && (b.time_us != pbaroT || b.hgt != pbaro)) { r.bad("baro_spurious", fmt("the barometer sample at the fusion horizon changed at t=%.3f although none was due", t)); return false; }

		pbaroT = b.time_us;
		pbaro = b.hgt;

		// optical flow: taken when due, unless the previous one still waits for its integration period
		{
			const auto &fx = e.getFlowUncompensated();
			int cand = -1;
			const bool have = f.flow.peek(f.delayed.t, cand);
			const bool ch = haveFlow && (fx(0) != pflow[0] || fx(1) != pflow[1]);

			if (ch && !have) { r.bad("flow_spurious", fmt("the optical flow sample changed at t=%.3f although none was due", t)); return false; }

			if (have) {
				const flowSample &s = w.flow[cand];
				const bool same = fx(0) == s.flow_xy_rad(0) && fx(1) == s.flow_xy_rad(1);

				if (ch && !same) { r.bad("flow_value", fmt("the optical flow sample used at t=%.3f is not the newest one at the fusion horizon", t)); return false; }

				filter_control_status_u pc;
				pc.value = pctl;
				const bool mustPop = havePi && !pc.flags.opt_flow;

				if (mustPop && !same) { r.bad("flow_missed", fmt("an optical flow sample due at t=%.3f was not taken", t)); return false; }

				if (same) { uint64_t tt; f.flow.pop(f.delayed.t, cand, tt); r.cnt["flow_delivered"]++; }
			}

			pflow[0] = fx(0);
			pflow[1] = fx(1);
			haveFlow = true;
		}

		// the others: an innovation is evaluated when, and only when, a measurement is due
		Innov in;
		readInnov(e, in);
		const auto c = e.control_status().flags;
		filter_control_status_u pc;
		pc.value = pctl;

		for (int i = 0; i < 20; i++) { fnv(h, bitsOf(in.v[i])); }

		if (havePi && pc.flags.tilt_align == c.tilt_align) {
			struct G { int s, i0, i1; const char *n; bool act; };
			// without any horizontal aiding a synthetic position measurement reports through the GPS position innovation
			auto synth = [](const decltype(c) &x) { return !(x.gps || x.ev_pos || x.ev_vel || x.opt_flow || (x.fuse_aspd && x.fuse_beta)); };
			// on the ground a range measurement may be synthesised
			const bool rngSynth = !c.in_air || !pc.flags.in_air;
			const bool fakePos = synth(c) || synth(pc.flags);
			const G g[] = {
				{GPS, 0, 2, "GPS velocity", c.gps &&pc.flags.gps}, {GPS, fakePos ? 5 : 3, 5, "GPS position", c.gps &&pc.flags.gps}, {EV, 6, 11, "external vision", (c.ev_pos &&pc.flags.ev_pos && !(p.fusion_mode & MASK_USE_GPS)) || (c.ev_vel &&pc.flags.ev_vel)},
				{BARO, 12, 12, "barometer", c.baro_hgt &&pc.flags.baro_hgt &&!c.gnd_effect &&!pc.flags.gnd_effect &&p.range_aid == 0 &&(int64_t)(st.t - f.baro.newestT) < 350000}, {RNG, 13, rngSynth ? 12 : 13, "range finder", false}, {AUX, 14, 15, "auxiliary velocity", (c.gps &&pc.flags.gps) || (c.ev_vel &&pc.flags.ev_vel)},
				{ASP, 16, 16, "airspeed", false}, {MAG, 17, 19, "magnetometer", c.mag_3D &&pc.flags.mag_3D &&c.yaw_align && !c.mag_fault}
			};

			int gi = -1;

			for (const G &x : g) {
				gi++;
				const bool ch = changed(in, pi, x.i0, x.i1);

				if (ch && !f.ready[x.s]) {
					bool zeroed = true; // status reset when an aiding source stops

					for (int i = x.i0; i <= x.i1; i++) { zeroed &= in.v[i] == 0 || bitsOf(in.v[i]) == bitsOf(pi.v[i]); }

										// the height derived from the last external vision sample, and nothing else
					const bool evHgt = x.s == EV && c.ev_hgt && p.vdist_sensor_type == VDIST_SENSOR_EV && !changed(in, pi, 6, 10);

					if (!zeroed && evHgt) {
						if (!evReused) { r.bad("ev_height_reused", fmt("the height of an external vision sample was applied again at t=%.3f although no new sample was due at the fusion horizon", t)); }

						evReused = true;

					} else if (!zeroed) { r.bad("spurious", fmt("%s innovation evaluated at t=%.3f although no measurement was due at the fusion horizon", x.n, t)); return false; }
				}

				// the same value twice in a row can be a coincidence of rounding, three times is not
				if (f.ready[x.s]) { same[gi] = !ch && x.act ? same[gi] + 1 : 0; }

				if (same[gi] >= 2 && f.ready[x.s]) { r.bad("missed", fmt("%s measurement due at t=%.3f (taken %.1f ms ago, configured delay included) was not used", x.n, t, (double)(st.t - f.when[x.s]) * 1e-3)); return false; }

				if (f.ready[x.s]) { r.cnt[std::string(kSensorName[x.s]) + "_delivered"]++; }

				if (f.ready[x.s] && x.act) { r.cnt[std::string(kSensorName[x.s]) + "_required"]++; }
			}
		}

		pi = in;
		havePi = true;
		pctl = e.control_status().value;
		return true;
	}
};
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Align a(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["fusion_steps"] += a.steps;
	r.nontrivial = a.steps > 500;
}
Reg reg({"P06", gen, exec, "a run counts when more than 500 fusion steps were compared with the reference model of buffering and delivery"});

// ------------------------------------------------------------------ P07
Scn gen7(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x707);
	Scn s = richScn(seed, r.u(20, thorough ? 60 : 35), 0);
	timingSwarm(s, r);
	const uint32_t kinds = bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_TSJIT) | bit(F_IMUGAP) | bit(F_NOISE) | bit(F_CLIP) | bit(F_VIB) | bit(F_BIAS) | bit(F_VEL) | bit(F_SPIKE);
	swarmFaults(s, r, 2, s.g("dur", 30), 7, kinds, bit(IMU));

	if (r.p(0.5)) { s.s("imu_us", std::floor(r.logu(500, 12000))); }

	if (r.p(0.5)) { s.s("imu_jit", std::floor(r.u(0, 0.6) * 1000) / 1000); }

	if (r.p(0.4)) { s.s("P.is_moving_scaler", r.pick({0.3, 0.6, 1.0, 2.0, 5.0})); }

	return s;
}
struct Down : Hooks {
	Result &r;
	const World &w;
	uint64_t h{1469598103934665603ull}, groups{0}, restTrue{0}, restFalse{0};
	size_t cur{0};			// next raw sample to be accounted for
	bool anchored{false};
	uint64_t lastT{0};
	bool moving{false};
	std::vector<imuSample> raw;	// samples handed over since (re)start
	double vib[3] {};
	V3 pda, pdv;
	double dtAvg{0};
	uint64_t pt{0};
	uint64_t moveSure{0}, moveMaybe{0};
	double sumDt{0};
	Down(Result &r_, const World &w_) : r(r_), w(w_) {}
	void preImu(const imuSample &m, Ekf &e) override
	{
		raw.push_back(m);
		const double dt0 = std::min(0.02, std::max(1e-4, (double)(m.time_us - pt) * 1e-6));
		pt = m.time_us;
		dtAvg = 0.8 * dtAvg + 0.2 * dt0;
		const V3 da = d3(m.delta_ang), dv = d3(m.delta_vel);
		vib[0] = 0.99 * vib[0] + 0.01 * da.cross(pda).norm();
		vib[1] = 0.99 * vib[1] + 0.01 * (da - pda).norm();
		vib[2] = 0.99 * vib[2] + 0.01 * (dv - pdv).norm();
		pda = da;
		pdv = dv;
		const double sc = e.getParamHandle()->is_moving_scaler;
		const double a[3] = {vib[1] * 4e4 / sc, vib[2] * 2.1e2 / sc, da.norm() / dt0 / (0.05 * sc)};

		if (e.get_in_air_status()) { moveSure = moveMaybe = m.time_us; }

		else {
			for (double x : a) {
				if (x > 1.001) { moveSure = m.time_us; }

				if (x > 0.999) { moveMaybe = m.time_us; }
			}
		}

		inAirAtImu = e.get_in_air_status();
	}
	bool inAirAtImu{false};
	void onOp(const Op &o, Ekf &) override { if (o.kind == O_RESTART) { raw.clear(); cur = 0; anchored = moving = false; lastT = 0; } }
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		const double t = (double)(st.t - w.t0) * 1e-6;
		const auto vm = e.getImuVibrationMetrics();

		for (int i = 0; i < 3; i++) {
			if (!(std::fabs(vm(i) - vib[i]) <= 2e-4 * vib[i] + 1e-8)) { r.bad("vibration", fmt("vibration metric %d is %.8g, the inertial data give %.8g at t=%.3f", i, vm(i), vib[i], t)); return false; }
		}

		if (!(std::fabs(e.get_dt_imu_avg() - dtAvg) <= 1e-5 * dtAvg + 1e-8)) { r.bad("dt_avg", fmt("average inertial sample interval is %.8g, expected %.8g at t=%.3f", e.get_dt_imu_avg(), dtAvg, t)); return false; }

		// at rest: no movement for a second, on the ground
		const bool rest = e.isVehicleAtRest();

		if (rest != e.control_status().flags.vehicle_at_rest) { r.bad("at_rest", fmt("at-rest status inconsistent at t=%.3f", t)); return false; }

		if (inAirAtImu && rest) { r.bad("at_rest", fmt("vehicle declared at rest while flying at t=%.3f", t)); return false; }

		// inertial time stamps that run backwards are outside the contract of the elapsed time comparison
		if (!inAirAtImu && st.t >= moveMaybe) {
			if (rest && st.t - moveSure <= 1000000) { r.bad("at_rest", fmt("vehicle declared at rest at t=%.3f, %.3f s after the inertial data showed movement", t, (double)(st.t - moveSure) * 1e-6)); return false; }

			if (!rest && st.t - moveMaybe > 1000000) { r.bad("at_rest", fmt("vehicle not declared at rest at t=%.3f although it last moved %.3f s ago", t, (double)(st.t - moveMaybe) * 1e-6)); return false; }

			(rest ? restTrue : restFalse)++;
		}

		const imuSample &im = e.get_imu_sample_delayed();

		if (!st.updated) { return true; }

		// while the buffer fills its oldest element stays the same
		if (!moving && (!lastT || im.time_us == lastT)) { lastT = im.time_us; return true; }

		moving = true;

		if (!anchored) {
			// first visible group: skip everything before it
			size_t k = 0;

			while (k < raw.size() && raw[k].time_us != im.time_us) { k++; }

			if (k >= raw.size()) { r.bad("horizon", fmt("the inertial sample at the fusion horizon ends at a time no inertial sample had (t=%.3f)", t)); return false; }

			for (size_t j = k + 1; j < raw.size(); j++) { if (raw[j].time_us == im.time_us) { return true; } } // which one is undecidable: wait for the next

			cur = k + 1;
			anchored = true;
			return true;
		}

		std::vector<imuSample> g;
		size_t k = cur;

		double acc = 0;
		bool seen = false;

		for (; k < raw.size(); k++) {
			acc += raw[k].delta_ang_dt;

			if (raw[k].time_us == im.time_us) {
				seen = true;

				if (std::fabs(acc - im.delta_ang_dt) < 1e-6) { break; }
			}

			g.push_back(raw[k]);
		}

		if (seen && k >= raw.size()) { r.bad("time", fmt("the down-sampled sample at t=%.3f covers %.7f s, no group of raw samples since the previous one adds up to that", t, im.delta_ang_dt)); return false; }

		if (k >= raw.size()) { r.bad("horizon", fmt("the inertial sample at the fusion horizon at t=%.3f does not end at the time of any inertial sample after the previous one: data lost or repeated", t)); return false; }

		g.push_back(raw[k]);
		cur = k + 1;
		groups++;
		const RImu c = RefFront::compose(g);
		double before = c.dadt - g.back().delta_ang_dt;

		if (before > 0.0151 || (c.dadt < 0.0049)) { r.bad("interval", fmt("down-sampled interval of %.4f s from %zu samples at t=%.3f", c.dadt, g.size(), t)); return false; }

		sumDt += c.dadt;

		if (!(std::fabs(im.delta_ang_dt - c.dadt) <= 1e-6) || !(std::fabs(im.delta_vel_dt - c.dvdt) <= 1e-6)) { r.bad("time", fmt("down-sampled sample covers %.7f/%.7f s, its %zu raw samples %.7f/%.7f s at t=%.3f", im.delta_ang_dt, im.delta_vel_dt, g.size(), c.dadt, c.dvdt, t)); return false; }

		// rotation and velocity change: equal up to single precision, whatever the numbering of the steps
		const V3 ea = (Q::exp(d3(im.delta_ang)).inv() * Q::exp(c.da)).log(), ev = d3(im.delta_vel) - c.dv;

		if (!(ea.norm() <= 2e-6 + 2e-6 * c.da.norm())) { r.bad("rotation", fmt("down-sampled rotation differs from the rotation of its %zu raw samples by %.3g rad at t=%.3f", g.size(), ea.norm(), t)); return false; }

		double sv = 0;

		for (const imuSample &x : g) { sv += d3(x.delta_vel).norm(); }

		if (!(ev.norm() <= 3e-6 * sv + 1e-7)) { r.bad("velocity", fmt("down-sampled velocity change differs from that of its %zu raw samples by %.3g m/s at t=%.3f", g.size(), ev.norm(), t)); return false; }

		for (int i = 0; i < 3; i++) {
			if ((bool)im.delta_vel_clipping[i] != c.clip[i]) { r.bad("clipping", fmt("clipping of axis %d is reported %d, raw samples say %d at t=%.3f", i, (int)im.delta_vel_clipping[i], (int)c.clip[i], t)); return false; }

			if (c.clip[i]) { r.cnt["clipped_groups"]++; }
		}

		fnv(h, bitsOf(im.delta_ang(0)));
		fnv(h, bitsOf(im.delta_vel(2)));
		r.states.insert(hash3(g.size(), (uint64_t)(c.da.norm() * 20), c.clip[0] | c.clip[1] << 1 | c.clip[2] << 2));
		return true;
	}
};
void exec7(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Down d(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, d);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, d.h);
	r.cnt["groups"] += d.groups;
	r.cnt["at_rest_steps"] += d.restTrue;
	r.cnt["ground_not_at_rest_steps"] += d.restFalse;
	r.nontrivial = d.groups > 500;

	if (r.viol.empty() && d.groups > 800 && s.g("imu_us", 4000) < 9000) {
		const double m = d.sumDt / (double)d.groups;
		bool gaps = false;

		for (const Fault &f : s.faults) { gaps |= f.sensor == IMU && (f.kind == F_IMUGAP || f.kind == F_LOSS); }

		if (!gaps && !(m > 0.0092 && m < 0.0109)) { r.bad("mean_rate", fmt("fusion steps ran every %.5f s on average instead of every 10 ms", m)); }
	}
}
Reg reg7({"P07", gen7, exec7, "a run counts when more than 500 down-sampled inertial samples were compared with the raw samples they stand for"});
}
