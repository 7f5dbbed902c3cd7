// P16: the independent yaw estimate (bank of five velocity / yaw filters combined by a Gaussian sum) stepped against an
// executable reference, and the emergency yaw reset of the main filter that uses it
#include "../ref.h"
#include "../refekf.h"
using namespace sim;
namespace
{
constexpr int N = 5;
double sq(double v) { return v * v; }

struct Model {
	Mat3 R;
	V3 b;			// gyro bias
	double v[2] {};
	double yaw{0}, yawAlt{0};
	bool two{false};	// the yaw convention was undecidable: yawAlt is as good as yaw
	double P[3][3] {};
	double in[2] {};
	double S[2][2] {};	// innovation covariance
	double norm{0};		// squared normalised innovation
	bool big{false};	// the covariance was large before a correction: rounding of the single precision correction matters
};

struct Bank {
	Model m[N];
	double w[N] {};
	bool tilt{false}, started{false};
	V3 acc, vel;
	double sacc{0};
	bool fresh{false};
	bool undecided{false};
	bool justReset{false}, justStarted{false}, fused{false};
	int clipped{0};
	double loose{0};	// uncertainty of the velocity at the start (lever arm)
	double relW[N] {};

	void initialise()
	{
		started = false;

		for (int i = 0; i < N; i++) {
			w[i] = 1.0 / N;
			Model &k = m[i];
			memset(k.P, 0, sizeof(k.P));
			k.yaw = k.yawAlt = -M_PI + (i + 0.5) * 2 * M_PI / N;
			k.two = k.big = false;
			k.v[0] = vel.x;
			k.v[1] = vel.y;
			k.P[0][0] = k.P[1][1] = sq(sacc);
			k.P[2][2] = sq(M_PI / N);
			k.in[0] = k.in[1] = 0;
		}
	}
	static bool seq321(const Mat3 &R, bool &undec)
	{
		const double a = std::fabs(R.m[2][0]), b = std::fabs(R.m[2][1]);
		undec = std::fabs(a - b) < 3e-5;
		return a < b;
	}
	static double yaw321(const Mat3 &R) { return std::atan2(R.m[1][0], R.m[0][0]); }
	static double yaw312(const Mat3 &R) { return std::atan2(-R.m[0][1], R.m[1][1]); }

	// one step of inertial data at the fusion horizon
	void step(const imuSample &im, bool air, double tas, const V3 &bias, const float *pn, const float *pe, double slack, double startSlack)
	{
		justReset = justStarted = fused = undecided = false;
		clipped = 0;
		const V3 da = d3(im.delta_ang), dv = d3(im.delta_vel);
		const double adt = im.delta_ang_dt, vdt = im.delta_vel_dt;
		const V3 a = dv * (1.0 / std::max(vdt, 0.001));
		const double co = std::min(10 * vdt * 0.2, 1.0);
		acc = acc * (1 - co) + a * co;
		const double g = CONSTANTS_ONE_G;

		if (!tilt) {
			const double n = a.norm();
			undecided = std::fabs(n - 0.9 * g) < 1e-4 || std::fabs(n - 1.1 * g) < 1e-4;

			if (n > 0.9 * g && n < 1.1 * g) {
				initialise();
				const V3 d = -dv.unit();
				const V3 nn = (V3(1, 0, 0) - d * d.x).unit(), ee = d.cross(nn);
				Mat3 R;

				for (int j = 0; j < 3; j++) { R.m[0][j] = nn[j]; R.m[1][j] = ee[j]; R.m[2][j] = d[j]; }

				for (auto &k : m) { k.R = R; }

				tilt = true;
			}

			return;
		}

		const double an = acc.norm();
		const bool comp = tas > 1.2e-7;
		const double att = comp && an > g ? 1 : 2;
		const double gain = 0.2 * sq(1 - std::min(att * std::fabs(an - g) / g, 1.0));

		for (auto &k : m) {
			// attitude reference
			const V3 rate = da * (1.0 / std::max(adt, 0.001)) - k.b;
			V3 tc;

			if (gain > 0) {
				V3 x = acc;

				if (comp) { x = x - V3(0, tas * rate.z, -tas * rate.y); }

				const V3 down(k.R.m[2][0], k.R.m[2][1], k.R.m[2][2]);
				tc = down.cross(x) * (gain / an);
			}

			if (rate.norm() < 0.175) {
				k.b = k.b - tc * (0.04 * adt);

				for (int j = 0; j < 3; j++) { k.b[j] = std::max(-0.05, std::min(0.05, k.b[j])); }
			}

			const V3 d = da + (tc - k.b) * adt;

			for (int r = 0; r < 3; r++) {
				const V3 x(k.R.m[r][0], k.R.m[r][1], k.R.m[r][2]);
				V3 y = x + x.cross(d);
				y = y * (1.5 - 0.5 * y.dot(y));

				for (int j = 0; j < 3; j++) { k.R.m[r][j] = y[j]; }
			}

			if (!started) { continue; }

			bool u;
			const bool s321 = seq321(k.R, u);
			k.yaw = s321 ? yaw321(k.R) : yaw312(k.R);
			k.yawAlt = s321 ? yaw312(k.R) : yaw321(k.R);
			k.two = u;
			const V3 dn = k.R * dv;
			k.v[0] += dn.x;
			k.v[1] += dn.y;
			const double F[3][3] = {{1, 0, -dn.y}, {0, 1, dn.x}, {0, 0, 1}};
			double T[3][3] {}, O[3][3] {};

			for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { for (int l = 0; l < 3; l++) { T[i][j] += F[i][l] * k.P[l][j]; } } }

			for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { for (int l = 0; l < 3; l++) { O[i][j] += T[i][l] * F[j][l]; } } }

			O[0][0] += sq(2.0 * vdt);
			O[1][1] += sq(2.0 * vdt);
			O[2][2] += sq(0.1 * adt);

			for (int i = 0; i < 3; i++) { O[i][i] = std::max(O[i][i], 1e-6); }

			memcpy(k.P, O, sizeof(O));
		}

		if (air && fresh) {
			if (!started) {
				initialise();

				for (auto &k : m) {
					// align the heading of the attitude reference
					bool u;
					const bool s = seq321(k.R, u);
					undecided |= u && std::fabs(k.R.m[2][0]) > 0.01;
					// rebuilt from roll, pitch and the new yaw: orthogonal again
					const double sp = -k.R.m[2][0], sr = k.R.m[2][1];
					const Q qy(std::cos(k.yaw / 2), 0, 0, std::sin(k.yaw / 2));
					Q qn;

					if (s) {
						const double roll = std::atan2(sr, k.R.m[2][2]), pitch = std::asin(std::max(-1., std::min(1., sp)));
						qn = Q::euler(roll, pitch, k.yaw);

					} else {
						const double roll = std::asin(std::max(-1., std::min(1., sr))), pitch = std::atan2(sp, k.R.m[2][2]);
						qn = qy * Q(std::cos(roll / 2), std::sin(roll / 2), 0, 0) * Q(std::cos(pitch / 2), 0, std::sin(pitch / 2), 0);
					}

					const double a4[4] = {qn.w, qn.x, qn.y, qn.z};
					k.R = Mat3::of(a4);
					k.b = bias;
				}

				started = justStarted = true;
				loose = startSlack;

				if (loose > 0) { for (auto &k : m) { k.big = true; } }


			} else {
				fused = true;
				double tot = 0;

				if (slack > 0) {
					// the attitude used to remove the lever arm velocity is not known exactly: the part common to all
					// models is taken from the published innovations when it is small enough
					double d[2] {};

					for (int i = 0; i < N; i++) { d[0] += (pn[i] - (m[i].v[0] - vel.x)) / N; d[1] += (pe[i] - (m[i].v[1] - vel.y)) / N; }

					if (std::fabs(d[0]) <= slack && std::fabs(d[1]) <= slack) { vel.x -= d[0]; vel.y -= d[1]; }
				}

				for (auto &k : m) { update(k); }

				for (int i = 0; i < N; i++) {
					const Model &k = m[i];
					const double det = k.S[0][0] * k.S[1][1] - k.S[0][1] * k.S[1][0];
					w[i] *= std::exp(-0.5 * k.norm) / (2 * M_PI * std::sqrt(det));
					relW[i] = 5e-5 + 0.5 * k.norm * 2e-5 + std::sqrt(k.norm / std::min(k.S[0][0], k.S[1][1])) * ((k.big ? 1e-2 : 4e-4) + 2 * loose);

					if (std::fabs(w[i] / 1e-5 - 1) < 2 * relW[i]) { undecided = true; }

					if (w[i] < 1e-5) { w[i] = 1e-5; clipped++; relW[i] = 0; }

					tot += w[i];
				}

				if (clipped < N) {
					undecided = false;

					for (double &x : w) { x /= tot; }

				} else {
					initialise();
					justReset = true;
				}
			}

		} else if (started && !air) { started = false; }

		fresh = false;
	}
	static void turn(Model &k, double d)
	{
		const double c = std::cos(d), s = std::sin(d);

		for (int j = 0; j < 3; j++) {
			const double x = k.R.m[0][j], y = k.R.m[1][j];
			k.R.m[0][j] = x * c - y * s;
			k.R.m[1][j] = x * s + y * c;
		}
	}
	void update(Model &k)
	{
		const double ov = sq(std::max(sacc, 0.5));

		if (std::max(k.P[0][0], k.P[1][1]) > 10 * ov) { k.big = true; }

		k.in[0] = k.v[0] - vel.x;
		k.in[1] = k.v[1] - vel.y;

		for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { k.S[i][j] = k.P[i][j] + (i == j ? ov : 0); } }

		const double det = k.S[0][0] * k.S[1][1] - k.S[0][1] * k.S[1][0];
		const double I[2][2] = {{k.S[1][1] / det, -k.S[0][1] / det}, { -k.S[1][0] / det, k.S[0][0] / det}};
		double K[3][2] {};

		for (int i = 0; i < 3; i++) { for (int j = 0; j < 2; j++) { K[i][j] = k.P[i][0] * I[0][j] + k.P[i][1] * I[1][j]; } }

		k.norm = k.in[0] * (I[0][0] * k.in[0] + I[0][1] * k.in[1]) + k.in[1] * (I[1][0] * k.in[0] + I[1][1] * k.in[1]);
		double O[3][3];

		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { O[i][j] = k.P[i][j] - K[i][0] * k.P[0][j] - K[i][1] * k.P[1][j]; } }

		for (int i = 0; i < 3; i++) { O[i][i] = std::max(O[i][i], 1e-6); }

		memcpy(k.P, O, sizeof(O));
		const double sc = k.norm > 25 ? std::sqrt(25 / k.norm) : 1;
		double d[3];

		for (int i = 0; i < 3; i++) { d[i] = -(K[i][0] * k.in[0] + K[i][1] * k.in[1]) * sc; }

		k.v[0] += d[0];
		k.v[1] += d[1];
		k.yaw += d[2];
		k.yawAlt += d[2];
		turn(k, d[2]);
	}
};

struct Hook : Hooks {
	Result &r;
	const World &w;
	const Scn &s;
	RefFront f;
	Bank k;
	bool dead{false}, quiet{false};
	uint64_t h{1469598103934665603ull}, tNow{0}, steps{0};
	double tas{0};
	uint64_t tasT{0};
	bool prevUp{false}, pubOn{false};
	float pubYaw{0}, pubVar{0};
	double maxYaw{0}, maxW{0}, maxIn{0}, maxC{0}, maxV{0};
	uint64_t lost{0};
	double lever{0};
	// emergency reset
	uint64_t lastReset{0};
	unsigned count{0};
	uint8_t q0{0};
	Q qPre;
	bool gps0{false};
	uint64_t convSteps{0};


	Hook(Result &r_, const World &w_, const Scn &s_) : r(r_), w(w_), s(s_), quiet(s_.g("quiet", 0) > 0) {}
	void preImu(const imuSample &m, Ekf &e) override { f.imu(m, *e.getParamHandle()); tNow = m.time_us; }
	void onDeliver(const Ev &v, const World &wd, Ekf &e) override { f.deliver(v, wd, *e.getParamHandle()); }
	void onOp(const Op &o, Ekf &) override { if (o.kind == O_RESTART) { dead = true; } }
	void preUpdate(const StepInfo &, Ekf &e) override
	{
		q0 = e.state_reset_status().quat_counter;
		{ const auto x = e.getStateAtFusionHorizonAsVector(); qPre = Q(x(0), x(1), x(2), x(3)); }
		gps0 = e.control_status().flags.gps;
	}
	bool bad(const char *kind, const std::string &t) { r.bad(kind, t); return false; }
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		if (dead) { return false; }

		f.step(st.updated, e.covariances()(4, 4) > 0);

		if (f.lost) { r.cnt["lost"]++; return false; }

		if (!st.updated || !f.inited) { return true; }

		if (f.ready[ASP]) { tas = w.asp[f.idx[ASP]].true_airspeed; tasT = f.when[ASP]; }

		const parameters &p = *e.getParamHandle();
		const auto &cs = e.control_status().flags;
		const double t = (double)(st.t - w.t0) * 1e-6;
		steps++;
		const imuSample im = e.get_imu_sample_delayed();
		const bool oldAsp = tasT + 1000000 < tNow;
		const double useTas = oldAsp && cs.fixed_wing ? (double)p.EKFGSF_tas_default : tas;
		// what is published
		float yc = 0, yv = 0, y[N] = {}, vn[N] = {}, ve[N] = {}, wt[N] = {};
		const bool on = e.getDataEKFGSF(&yc, &yv, y, vn, ve, wt);
		k.step(im, cs.in_air, useTas, d3(e.getGyroBias()), vn, ve, on ? lever : 0, lever);

		if (k.justStarted && lever > 0.02) { r.cnt["start_during_attitude_reset"]++; return false; }


		if (k.undecided && on != k.started) {
			// follow the published decision
			r.cnt["undecided"]++;
			return false;
		}

		if (k.undecided) { r.cnt["undecided"]++; if (!k.tilt || k.justStarted) { return false; } }

		if (on != k.started) { return bad("gsf_active", fmt("t=%.3f s: yaw estimator reported %s (vehicle %s, velocity %s)", t, on ? "active" : "not active", cs.in_air ? "in air" : "on ground", k.justReset ? "rejected by all models" : "available")); }

		if (on) {
			double sx = 0, sy = 0, sumRel = 0;

			for (int i = 0; i < N; i++) { sumRel += k.w[i] * k.relW[i]; }

			for (int i = 0; i < N; i++) {
				Model &m = k.m[i];
				double d = std::fabs(wrapPi(m.yaw - y[i]));

				if (m.two) { const double d2 = std::fabs(wrapPi(m.yawAlt - y[i])); if (d2 < d) { d = d2; m.yaw = m.yawAlt; } }

				if (!m.big) { maxYaw = std::max(maxYaw, d); }

				if (!(d <= (m.big ? 1e-2 : 1e-3) + 5 * k.loose)) { return bad("gsf_yaw", fmt("t=%.3f s: yaw of model %d is %.7g instead of %.7g rad", t, i, y[i], m.yaw)); }

				if (k.fused) {
					const double e1 = std::max(std::fabs(vn[i] - m.in[0]), std::fabs(ve[i] - m.in[1]));
					if (!m.big) { maxIn = std::max(maxIn, e1); }

					if (!(e1 <= (m.big ? 5e-2 : 4e-3) + 3 * k.loose + (m.big ? 8e-3 : 2e-4) * std::hypot(m.in[0], m.in[1]))) { return bad("gsf_innov", fmt("t=%.3f s: velocity innovation of model %d is (%.6g, %.6g) instead of (%.6g, %.6g) m/s", t, i, vn[i], ve[i], m.in[0], m.in[1])); }
				}

				const double tw = k.fused ? 1e-5 + k.w[i] * 2 * (k.relW[i] + sumRel) : 1e-6;
				maxW = std::max(maxW, std::fabs(wt[i] - k.w[i]) / tw);

				if (!(std::fabs(wt[i] - k.w[i]) <= tw)) { return bad("gsf_weight", fmt("t=%.3f s: weight of model %d is %.7g instead of %.7g (tolerance %.2g, normalised innovation %.4g)", t, i, wt[i], k.w[i], tw, m.norm)); }

				k.w[i] = wt[i];
				sx += wt[i] * std::cos((double)y[i]);
				sy += wt[i] * std::sin((double)y[i]);
			}

			const double len = std::hypot(sx, sy), yref = std::atan2(sy, sx);

			if (len > 1e-3) {
				const double d = std::fabs(wrapPi(yref - yc));
				maxC = std::max(maxC, d * len);

				if (!(d <= 2e-6 / len)) { return bad("gsf_composite", fmt("t=%.3f s: composite yaw is %.7g instead of %.7g rad", t, yc, yref)); }
			}

			double var = 0, tv = 1e-6;

			for (int i = 0; i < N; i++) { const double d = wrapPi(y[i] - yc); var += wt[i] * (k.m[i].P[2][2] + d * d); if (std::fabs(d) > 3.14158) { tv += wt[i] * 1e-4; } }

			maxV = std::max(maxV, std::fabs(var - yv) / var);

			if (!(std::fabs(var - yv) <= tv + 2e-3 * var)) { return bad("gsf_variance", fmt("t=%.3f s: yaw variance is %.7g instead of %.7g rad^2", t, yv, var)); }

			r.cnt["steps_active"]++;

			if (k.fused) { r.cnt["velocity_updates"]++; r.cnt["weights_clipped"] += k.clipped; }

			if (k.justStarted) { r.cnt["starts"]++; }

			if (yv < sq(p.EKFGSF_yaw_err_max)) {
				convSteps++;
			}

			uint64_t sh = 3;
			int best = 0;

			for (int i = 0; i < N; i++) { if (wt[i] > wt[best]) { best = i; } }

			fnv(sh, (uint64_t)best | (uint64_t)k.fused << 3 | (uint64_t)k.clipped << 4 | (uint64_t)(yv < sq(p.EKFGSF_yaw_err_max)) << 8);
			fnv(sh, e.control_status().value & 0xffffff);
			r.states.insert(sh);

		} else if (k.justReset) { r.cnt["weights_collapsed"]++; }

		fnv(h, bitsOf(yc));
		fnv(h, bitsOf(yv));

		// ---- the emergency reset
		{
			const auto &we = e.warning_event_flags();
			const auto &ie = e.information_event_flags();
			const bool did = we.emergency_yaw_reset_mag_stopped || ie.yaw_aligned_to_imu_gps;

			const bool conv = pubOn && pubVar < sq(p.EKFGSF_yaw_err_max);
			const bool spaced = !lastReset || tNow - lastReset > 5000000;

			if (did) {
				r.cnt["emergency_reset"]++;
				const auto qq = e.getStateAtFusionHorizonAsVector();
				const Q q(qq(0), qq(1), qq(2), qq(3));

				if (!conv) { return bad("emergency_converged", fmt("t=%.3f s: emergency yaw reset although the yaw estimate was %s (variance %.4g)", t, pubOn ? "not converged" : "not available", pubVar)); }

				if (!spaced) { return bad("emergency_rate", fmt("t=%.3f s: emergency yaw reset %.2f s after the previous one", t, (double)(tNow - lastReset) * 1e-6)); }

				if (gps0 && count >= p.EKFGSF_reset_count_limit) { return bad("emergency_count", fmt("t=%.3f s: emergency yaw reset number %u exceeds the limit of %u", t, count + 1, p.EKFGSF_reset_count_limit)); }

				if (e.state_reset_status().quat_counter == q0) { return bad("emergency_announce", fmt("t=%.3f s: emergency yaw reset without announcing the attitude reset", t)); }

				const double a[4] = {q.w, q.x, q.y, q.z};
				const Mat3 R = Mat3::of(a);
				const double y1 = std::fabs(wrapPi(Bank::yaw321(R) - pubYaw)), y2 = std::fabs(wrapPi(Bank::yaw312(R) - pubYaw));
				const double d = std::min(y1, y2);
				r.cnt["reset_err_millirad"] = std::max<uint64_t>(r.cnt["reset_err_millirad"], (uint64_t)(d * 1000));

				if (!(d < 0.1) && !cs.ev_yaw && !cs.gps_yaw && !cs.fuse_beta && !cs.fuse_aspd) { return bad("emergency_yaw", fmt("t=%.3f s: emergency yaw reset left the yaw at %.4f rad, the yaw estimate was %.4f rad", t, Bank::yaw321(R), pubYaw)); }

				if (gps0) { count++; }

				lastReset = tNow;
			}

			if (we.emergency_yaw_reset_mag_stopped) { e.clear_warning_events(); }

			if (ie.yaw_aligned_to_imu_gps) { e.clear_information_events(); }
		}
		pubOn = on;
		pubYaw = yc;
		pubVar = yv;

		// velocity for the next step
		if (f.ready[GPS]) {
			const gps_message &g = w.gps[f.idx[GPS]];

			if (g.epv > 1.2e-7f) {
				V3 v = d3(g.vel_ned);
				lever = 0;

				if (cs.gps) {
					const auto x = e.getStateAtFusionHorizonAsVector();
					const double a[4] = {x(0), x(1), x(2), x(3)};
					const V3 off = d3(p.gps_pos_body) - d3(p.imu_pos_body);
					const V3 lv = Mat3::of(a) * (d3(im.delta_ang) * (1.0 / im.delta_ang_dt)).cross(off);
					v = v - lv;
					const bool jump = e.state_reset_status().quat_counter != q0;
					const double turn = (qPre.inv() * Q(x(0), x(1), x(2), x(3))).log().norm();
					lever = lv.norm() * (jump ? 2 : std::min(2., 0.02 + 1.5 * turn));
				}

				k.vel = v;
				k.sacc = g.epv;
				k.fresh = true;
			}
		}

		return true;
	}
};

Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1616);
	Scn s = richScn(seed * 7 + 3, r.u(35, thorough ? 120 : 60), R_FORCEGPS);
	auto q = [](double x) { return std::floor(x * 1e6) / 1e6; };
	const double dur = s.g("dur", 30);
	const bool quiet = r.p(0.3);

	if (r.p(0.6)) { for (const char *ax : {".x", ".y", ".z"}) { s.v.erase(std::string("P.gps_pos_body") + ax); s.v.erase(std::string("P.imu_pos_body") + ax); } }

	if (r.p(0.4)) { s.s("gps_epv", q(r.logu(0.05, 4.5))); }

	if (r.p(0.3)) { s.s("P.EKFGSF_yaw_err_max", q(r.logu(0.05, 1.0))); }

	if (r.p(0.2)) { s.s("P.EKFGSF_tas_default", q(r.u(0, 30))); }

	if (r.p(0.3)) { s.s("P.EKFGSF_reset_count_limit", r.i(0, 3)); }

	if (r.p(0.3)) { s.s("P.mag_fusion_type", 5); }

	if (quiet) { s.s("quiet", 1); return s; }

	if (r.p(0.3)) { s.ops.push_back({O_INAIR, std::floor(r.u(12, dur)), (double)r.i(0, 1), 0, 0}); }

	if (r.p(0.2)) { s.ops.push_back({O_FW, std::floor(r.u(12, dur)), (double)r.i(0, 1), 0, 0}); }

	// a heading reference that is wrong from the start of the flight on
	if (r.p(0.5)) { const double t0 = r.p(0.5) ? 0 : std::floor(r.u(5, 25)); s.faults.push_back(Fault{F_ROT, MAG, t0, dur, q(r.u(0.5, 5.7)), 0}); }

	if (r.p(0.3)) { const double t0 = std::floor(r.u(12, dur - 5)); s.faults.push_back(Fault{F_LOSS, GPS, t0, t0 + std::floor(r.u(1, 12)), 1, 0}); }

	if (r.p(0.3)) { const double t0 = std::floor(r.u(12, dur - 5)); s.faults.push_back(Fault{F_VEL, GPS, t0, t0 + std::floor(r.u(1, 12)), q(r.u(-15, 15)), q(r.u(-15, 15))}); }

	// an air data outage of a fixed wing vehicle
	if (s.g("hz.asp", 0) > 0 && r.p(0.4)) { const double t0 = std::floor(r.u(8, dur - 5)); s.faults.push_back(Fault{F_LOSS, ASP, t0, t0 + std::floor(r.u(1, 15)), 1, 0}); }

	// moved while starting up
	if (r.p(0.2)) { s.faults.push_back(Fault{F_BIAS, IMU, 0, q(r.u(0.3, 2)), 0, 0, q(r.u(-2.5, 2.5))}); }

	// velocity seen from a rotated frame: the yaw estimate follows, again and again
	if (r.p(0.25)) {
		for (double t0 = std::floor(r.u(12, 20)); t0 < dur - 8; t0 += std::floor(r.u(8, 16))) { s.faults.push_back(Fault{F_ROT, GPS, t0, t0 + std::floor(r.u(5, 12)), q(r.u(0.7, 5.5)), 0}); }
	}

	swarmFaults(s, r, 2, dur, 4, bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_IMUGAP) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_VIB) | bit(F_BIAS) | bit(F_SPIKE) | bit(F_STUCK) | bit(F_VEL) | bit(F_ROT), kAllSensors);
	return s;
}
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Hook a(r, w, s);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["fusion_steps"] += a.steps;
	r.nontrivial = r.cnt["velocity_updates"] > 20;
}
Reg reg({"P16", gen, exec, "a run counts when more than 20 velocity updates of the yaw estimator were compared"});
}
