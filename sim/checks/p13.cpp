// P13: the height above ground (terrain) estimator, stepped against an executable reference: range finder acceptance,
// range and optical flow corrections of the terrain height, its variance, validity and the reported sources
#include "../ref.h"
#include "../refekf.h"
using namespace sim;
namespace
{
double sq(double v) { return v * v; }

// decisions that are numerically undecidable are tried both ways
struct Choice {
	std::vector<bool> bits;
	size_t pos{0};
	bool pick(double margin, double tol)
	{
		if (std::fabs(margin) > tol) { return margin > 0; }

		if (pos == bits.size()) { bits.push_back(margin > 0); first.push_back(margin > 0); }

		return bits[pos++];
	}
	std::vector<bool> first;
	bool next() // next combination, false when all were tried
	{
		while (!bits.empty() && bits.back() != first.back()) { bits.pop_back(); first.pop_back(); }

		pos = 0;

		if (bits.empty()) { return false; }

		bits.back() = !bits.back();
		return true;
	}
};

struct Mem {
	// terrain filter
	double h{0}, var{1e4};
	bool init{false};
	uint64_t tHagl{0}, tFake{0}, tFlow{0};
	bool flowForTerrain{false};
	// range finder
	float rng{0};
	uint64_t rngT{0};
	bool rngValid{false}, rngRegular{false}, stuck{false};
	uint64_t tValid{0}, tBad{0};
	float stuckMin{0}, stuckMax{0}, dtLpf{0};
	// flow preparation
	bool flowReady{false};
	int flowIdx{-1};
	uint64_t flowT{0};
	float flowDt{0}, dtOf{0};
	V3 gyro, ang, bias;
	bool gyroOwn{true};	// the flow sensor supplied its own angular rate
	double comp[2] {};
	double angTol{0}, gyroTol{0}, compTol{0}, biasTol{0};
	bool reject{false};
};
struct Out {
	double hTol{1e-6}, varTol{1e-9};
	bool valid{false};
	int sensors{0};
	bool hagl{false}, flow{false};	// evaluated
	double hi{0}, hv{0}, hr{0}, hiTol{0}, hvTol{0};
	double fi[2] {}, fv[2] {}, fiTol[2] {}, fvTol[2] {};
	bool undecided{false};
	const char *what{""};
};

struct Hook : Hooks {
	Result &r;
	const World &w;
	RefFront f;
	Mem m;
	double lo{0}, hi{0}, flowMax{0};
	D24 x0{};
	bool havePre{false}, restarted{false};
	filter_control_status_u cs{};
	float pubI{0}, pubV{0}, pubR{0}, pubF[2] {}, pubFv[2] {};
	uint64_t tNow{0}, steps{0}, h{1469598103934665603ull};
	uint8_t q0{0};
	double b0[3] {};
	int lastRng{-1};

	Hook(Result &r_, const World &w_) : r(r_), w(w_) {}
	void preImu(const imuSample &s, Ekf &e) override { f.imu(s, *e.getParamHandle()); tNow = s.time_us; }
	void onDeliver(const Ev &v, const World &wd, Ekf &e) override { f.deliver(v, wd, *e.getParamHandle()); }
	void onOp(const Op &o, Ekf &) override
	{
		if (o.kind == O_RESTART) { restarted = true; }

		if (o.kind == O_RNGLIM) { lo = (float)o.a; hi = (float)o.b; }

		if (o.kind == O_FLOWLIM) { flowMax = (float)o.a; }
	}
	static D24 read(Ekf &e)
	{
		D24 x;
		const auto v = e.getStateAtFusionHorizonAsVector();

		for (int i = 0; i < 24; i++) { x[i] = v(i); }

		return x;
	}
	void preUpdate(const StepInfo &, Ekf &e) override
	{
		x0 = read(e);
		cs = e.control_status();

		for (int i = 0; i < 3; i++) { b0[i] = e.covariances()(10 + i, 10 + i); }

		e.getHaglInnov(pubI);
		e.getHaglInnovVar(pubV);
		e.getHaglInnovRatio(pubR);
		e.getFlowInnov(pubF);
		e.getFlowInnovVar(pubFv);
		q0 = e.state_reset_status().quat_counter;
	}
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		if (restarted) { return false; }

		const bool was = f.inited;
		f.step(st.updated, e.covariances()(4, 4) > 0);

		if (f.lost) { return false; }

		if (!f.inited || !st.updated) { return true; }

		if (e.get_imu_sample_delayed().time_us != f.delayed.t) { return false; }

		return step(st, e, !was);
	}
	struct In {
		const parameters *p;
		D24 x1;
		double P99;
		filter_control_status_u c0, c1;
		imuSample im;
		Mat3 R;
		double Rtol, att;
		bool yawReset, first;
		bool flowPop;
		int flowIdx;
		uint64_t flowT;
		double biasTol;
	};
	static bool timedOut(uint64_t last, uint64_t per, uint64_t now) { return last + per < now; }
	// the documented behaviour, one fusion step
	void model(const In &in, Mem &m, Out &o, Choice &ch, const RefFront &f) const
	{
		const parameters &p = *in.p;
		const uint64_t tf = f.delayed.t;
		const bool air = in.c1.flags.in_air;
		const double z = in.x1[9];

		if (in.first) {
			m = Mem();

			if (!air) { m.h = p.rng_gnd_clearance; m.var = sq(p.rng_gnd_clearance); m.init = true; m.tFake = tNow; }

			m.tHagl = m.tFlow = tNow;
		}

		// ---- range finder data at the fusion horizon
		const bool ready = f.ready[RNG];
		int quality = 0;

		if (ready) { m.rng = w.rng[f.idx[RNG]].rng; m.rngT = f.when[RNG]; quality = w.rng[f.idx[RNG]].quality; }

		const double cosT = in.R.m[2][0] * std::sin((double)p.rng_sens_pitch) + in.R.m[2][2] * std::cos((double)p.rng_sens_pitch);
		{
			const float al = 0.5f * 0.01f;
			m.dtLpf = std::min(m.dtLpf * (1.0f - al) + al * (float)(tf - m.rngT), 4e6f);
		}

		if (tf - m.rngT > 400000 || !ch.pick(2e6 - (double)m.dtLpf, 5)) {
			m.rngValid = m.rngRegular = false;

		} else {
			m.rngRegular = true;

			if (ready) {
				m.rngValid = false;

				if (quality == 0) { m.tBad = tf; }

				else if (tf - m.tBad > (uint64_t)(p.range_valid_quality_s * 1e6f) && ch.pick(cosT - (double)p.range_cos_max_tilt, 3e-6) && m.rng >= lo && m.rng <= hi) {
					if (m.rngT - m.tValid > 10000000) {
						if (m.stuckMax - m.stuckMin > 0.1f) { m.stuckMin = m.stuckMax = 0; m.stuck = false; }

						else {
							m.stuckMax = std::max(m.stuckMax, m.rng);

							if (m.stuckMin < 0.1f || m.rng < m.stuckMin) { m.stuckMin = m.rng; }

							m.stuck = true;
						}
					}

					if (!m.stuck) { m.rngValid = true; m.tValid = m.rngT; }
				}
			}
		}

		const bool rngOk = ready && m.rngValid;
		double range = m.rng, rTol = 2e-7 * std::fabs(range);

		if (rngOk) {
			const V3 off = d3(p.rng_pos_body) - d3(p.imu_pos_body), oe = in.R * off;
			range += oe.z / cosT;
			rTol += (off.norm() / cosT + off.norm() / sq(cosT)) * (in.Rtol + 3e-7) + 1e-7;
		}

		// ---- flow data at the fusion horizon
		if (in.flowPop) {
			m.flowReady = in.flowIdx >= 0;

			if (m.flowReady) {
				const flowSample &s = w.flow[in.flowIdx];
				m.flowIdx = in.flowIdx;
				m.flowT = in.flowT;
				m.flowDt = s.dt;
				m.gyro = d3(s.gyro_xyz);
				m.gyroOwn = std::isfinite(m.gyro.x) && std::isfinite(m.gyro.y) && std::isfinite(m.gyro.z);
				m.gyroTol = 0;
			}
		}

		if (!m.flowForTerrain && m.flowReady && air) { m.flowForTerrain = timedOut(m.tHagl, 5000000, tNow) && !in.c0.flags.opt_flow && in.c0.flags.gps; }

		m.ang += d3(in.im.delta_ang) - V3(in.x1[10], in.x1[11], in.x1[12]);
		m.angTol += V3(in.x1[10] - x0[10], in.x1[11] - x0[11], in.x1[12] - x0[12]).norm() + in.biasTol + 2e-8 + 2e-7 * m.ang.norm();
		m.dtOf += in.im.delta_ang_dt;

		if (m.flowReady) {
			const flowSample &s = w.flow[m.flowIdx];
			const bool good = s.quality >= p.flow_qual_min;
			const double mag = std::hypot((double)s.flow_xy_rad(0), (double)s.flow_xy_rad(1)), lim = (double)m.flowDt * flowMax;
			const bool magOk = ch.pick(lim - mag, 1e-6 * (lim + mag));
			const bool tiltOk = ch.pick(in.R.m[2][2] - (double)p.range_cos_max_tilt, 3e-6);
			const double dmin = std::max(0.8 * m.dtOf, 0.001), dmax = std::min(1.2 * m.dtOf, 0.2);
			const bool dtOk = ch.pick(m.flowDt - dmin, 1e-6 * dmin) && ch.pick(dmax - m.flowDt, 1e-6 * dmax);
			bool comp;

			if (m.dtOf > 1.0f) {
				comp = false;

			} else {
				comp = true;

				if (m.gyroOwn) {
					if (m.dtOf > 1.2e-7f && m.flowDt > 1.2e-7f && ch.pick(0.1 - std::fabs((double)m.dtOf - m.flowDt), 1e-6)) {
						for (int i = 0; i < 3; i++) { m.bias[i] = 0.99 * m.bias[i] + 0.01 * RefEkf::clampd(m.gyro[i] / m.flowDt - m.ang[i] / m.dtOf, -0.1, 0.1); }

						m.biasTol = 0.99 * m.biasTol + 0.01 * (m.angTol / m.dtOf + 1e-6 * (1 + m.gyro.norm() / m.flowDt));
					}

				} else {
					m.gyro = m.ang * -1;
					m.gyroTol = m.angTol;
					m.gyroOwn = true; // (the substituted value is finite from here on)
					m.bias = V3();
					m.biasTol = 0;
				}
			}

			m.ang = V3();
			m.angTol = 0;
			m.dtOf = 0;

			if (good && magOk && tiltOk && comp && dtOk) {
				for (int i = 0; i < 2; i++) { m.comp[i] = s.flow_xy_rad(i) - m.gyro[i]; }

				m.compTol = m.gyroTol + 2e-7 * (mag + m.gyro.norm());

			} else if (!air && comp) {
				if (!dtOk) { m.flowDt = (float)dmin; }

				m.comp[0] = m.comp[1] = m.compTol = 0;

			} else {
				m.flowReady = m.flowForTerrain = false;
			}
		}

		if (m.flowReady && in.c1.flags.opt_flow && tf > m.flowT - (uint32_t)(1e6f * m.flowDt) / 2) { m.flowReady = false; }

		// ---- terrain height
		const bool useR = p.terrain_fusion_mode & TerrainFusionMask::TerrainFuseRangeFinder, useF = p.terrain_fusion_mode & TerrainFusionMask::TerrainFuseOpticalFlow;
		const double dist = range * cosT, dTol = std::fabs(cosT) * rTol + std::fabs(range) * (in.Rtol + 3e-7) + 1e-7;
		o.hTol = 3e-7 * (std::fabs(m.h) + std::fabs(z)) + 1e-7;
		o.varTol = 1e-6 * m.var + 1e-9;

		if (!m.init || !air) {
			if (!air) {
				m.h = z + p.rng_gnd_clearance;
				m.var = sq(p.rng_gnd_clearance);
				m.tFake = tNow;
				m.init = true;
				o.what = "ground_clearance";

			} else if (useR && rngOk) {
				m.h = z + dist;
				m.var = sq(p.range_noise);
				o.hTol += dTol;
				m.init = true;
				o.what = "first_range";

			} else if (useF && m.flowForTerrain) {
				m.h = std::max(0.0, z);
				m.var = 100;
				m.init = true;
				o.what = "first_flow";
			}

			o.hTol = std::max(o.hTol, 3e-7 * (std::fabs(m.h) + std::fabs(z)) + 1e-7);
			o.varTol = 1e-6 * m.var + 1e-9;

			if (m.init) { m.tHagl = tNow; }

		} else {
			const double dt = in.im.delta_vel_dt;
			m.var += sq(dt * p.terrain_p_noise) + sq(dt * p.terrain_gradient) * (sq(in.x1[4]) + sq(in.x1[5]));
			m.var = RefEkf::clampd(m.var, 0, 1e4);
			o.varTol = 2e-6 * m.var + 1e-12;

			if (useR && rngOk) {
				o.hagl = true;
				o.what = "range";
				o.hi = m.h - z - dist;
				o.hiTol = o.hTol + dTol;
				const double R = std::max(in.P99 * p.vehicle_variance_scaler, 0.) + sq(p.range_noise) + sq(p.range_noise_scaler * range);
				o.hv = std::max(m.var + R, R);
				o.hvTol = 2e-6 * o.hv + o.varTol;
				const double gate = std::max(p.range_innov_gate, 1.f);
				o.hr = sq(o.hi) / (sq(gate) * o.hv);

				if (ch.pick(1 - o.hr, 1e-5 + 4 * std::sqrt(std::max(o.hr, 0.)) * o.hiTol / (gate * std::sqrt(o.hv)))) {
					const double k = m.var / o.hv;
					m.h -= k * o.hi;
					m.var = std::max(m.var * (1 - k), 0.);
					o.hTol += k * o.hiTol + 2e-6 * k * std::fabs(o.hi) + o.varTol / o.hv * std::fabs(o.hi);
					o.varTol = (1e-6 * k + 3e-7) * o.hv + o.varTol;
					m.tHagl = tNow;
					m.reject = false;

				} else if (timedOut(m.tHagl, 10000000, tNow)) {
					m.h = z + dist;
					m.var = R;
					o.hTol = 3e-7 * (std::fabs(m.h) + std::fabs(z)) + dTol + 1e-7;
					o.varTol = o.hvTol;
					o.what = "range_reset";

				} else { m.reject = true; }
			}

			if (useF && m.flowForTerrain) {
				o.flow = true;
				o.what = "flow";
				m.flowForTerrain = false;

				if (!(m.flowDt > 1e-6)) { o.undecided = true; return; }

				const flowSample &s = w.flow[m.flowIdx];
				const Mat3 Rq = Mat3::of(&in.x1[0]);
				const V3 off = d3(p.flow_pos_body) - d3(p.imu_pos_body);
				const V3 ve = in.R * ((m.gyro * (-1.0 / m.flowDt)).cross(off));
				const V3 v = Rq.t(V3(in.x1[4], in.x1[5], in.x1[6]) + ve);
				const double vTol = 4e-7 * (V3(in.x1[4], in.x1[5], in.x1[6]).norm() + ve.norm()) + (in.Rtol + (in.yawReset ? 2.0 : in.att)) * ve.norm() + m.gyroTol / m.flowDt * off.norm();
				const double c = Rq.m[2][2];
				const double obs[2] = {m.comp[0] / m.flowDt + m.bias.x, m.comp[1] / m.flowDt + m.bias.y};
				const double obsTol = m.compTol / m.flowDt + m.biasTol + 2e-7 * (std::fabs(obs[0]) + std::fabs(obs[1]));
				const double best = std::max((double)p.flow_noise, 0.05), worst = std::max((double)p.flow_noise_qual_min, 0.05), den = 255.0 - p.flow_qual_min;
				const double wgt = den >= 1 ? RefEkf::clampd((s.quality - (double)p.flow_qual_min) / den, 0, 1) : 0, R = sq(best * wgt + worst * (1 - wgt));
				const double gate = std::max(p.flow_innov_gate, 1.f);
				m.h = std::max(m.h, p.rng_gnd_clearance + z);
				const double hag = m.h - z, inv = 1 / hag, iRel = (o.hTol + 3e-7 * (std::fabs(m.h) + std::fabs(z))) / hag;
				m.var = std::max(m.var, 0.);

				for (int a = 0; a < 2; a++) {
					const double va = a ? -v.x : v.y;
					const double H = va * c * inv * inv, HTol = std::fabs(H) * (2 * iRel + 1e-6) + vTol * c * inv * inv;
					const double pred = va * c * inv, pTol = std::fabs(pred) * (iRel + 1e-6) + vTol * inv;
					o.fv[a] = H * H * m.var + R;
					o.fvTol[a] = 2 * std::fabs(H) * HTol * m.var + H * H * o.varTol + 2e-6 * o.fv[a];
					o.fi[a] = pred - obs[a];
					o.fiTol[a] = pTol + obsTol;
					const double ratio = sq(o.fi[a]) / (sq(gate) * o.fv[a]);

					if (ch.pick(1 - ratio, 1e-5 + 4 * std::sqrt(ratio) * o.fiTol[a] / (gate * std::sqrt(o.fv[a])) + ratio * o.fvTol[a] / o.fv[a])) {
						const double K = m.var * H / o.fv[a], KTol = m.var * HTol / o.fv[a] + std::fabs(K) * (1e-6 + o.fvTol[a] / o.fv[a]) + std::fabs(H) / o.fv[a] * o.varTol;
						m.h += K * o.fi[a];
						o.hTol += std::fabs(K) * o.fiTol[a] + KTol * std::fabs(o.fi[a]) + 3e-7 * std::fabs(m.h);
						o.varTol += 2 * KTol * std::fabs(H) * m.var + std::fabs(K) * HTol * m.var + 1e-6 * m.var;
						m.var = std::max(m.var - K * H * m.var, 0.);
						m.tFlow = tNow;
					}
				}
			}

			m.h = std::max(m.h, z + p.rng_gnd_clearance);
		}

		const bool recent = m.tHagl + 5000000 > tNow, recentFlow = m.tFlow + 5000000 > tNow;
		o.valid = m.init && (recent || recentFlow);
		o.sensors = (useR && recent && m.tFake != m.tHagl ? 1 : 0) | (useF && recentFlow ? 2 : 0);
	}
	bool step(const StepInfo &st, Ekf &e, bool first)
	{
		steps++;
		In in;
		in.p = e.getParamHandle();
		in.x1 = read(e);
		in.P99 = e.covariances()(9, 9);
		in.c0 = cs;
		in.c1 = e.control_status();
		in.im = e.get_imu_sample_delayed();
		in.first = first;
		in.yawReset = e.state_reset_status().quat_counter != q0 || first;
		{
			const D24 &xs = first ? in.x1 : x0;
			const Q q = first ? Q(xs[0], xs[1], xs[2], xs[3]) : Q(xs[0], xs[1], xs[2], xs[3]) * Q::exp(d3(in.im.delta_ang) - V3(xs[10], xs[11], xs[12]));
			const Q u = q.unit();
			const double a[4] = {u.w, u.x, u.y, u.z};
			in.R = Mat3::of(a);
			in.Rtol = first ? 0.05 : 5e-7 + 7.5e-5 * in.im.delta_ang_dt;
			const Q d = u.inv() * Q(in.x1[0], in.x1[1], in.x1[2], in.x1[3]);
			in.att = 2 * V3(d.x, d.y, d.z).norm();
		}
		// the bias may be corrected more than once within the step
		in.biasTol = 0;

		for (int i = 0; i < 3; i++) { in.biasTol += 5 * std::sqrt(std::max(0., b0[i] - (double)e.covariances()(10 + i, 10 + i))); }

		in.flowPop = first || !(m.flowReady && cs.flags.opt_flow);
		in.flowIdx = -1;
		in.flowT = 0;

		if (in.flowPop) { int i; uint64_t tt; if (f.flow.pop(f.delayed.t, i, tt)) { in.flowIdx = i; in.flowT = tt; } }

		const double t = (double)(st.t - w.t0) * 1e-6;
		const float T = e.getTerrainVertPos(), V = e.get_terrain_var();
		float hI, hV, hR, fI[2], fV[2];
		e.getHaglInnov(hI);
		e.getHaglInnovVar(hV);
		e.getHaglInnovRatio(hR);
		e.getFlowInnov(fI);
		e.getFlowInnovVar(fV);
		Choice ch;
		Mem best, bestTry;
		Out bo;
		std::string kind, text;
		bool found = false, any = false;

		do {
			Mem mm = m;
			Out o;
			model(in, mm, o, ch, f);

			if (o.undecided) { m = mm; m.h = T; m.var = V; r.cnt["undecided"]++; return true; }

			std::string k, x;
			auto bad = [&](const char *kk, const std::string &tt) { if (k.empty()) { k = kk; x = tt; } };
			const char *wh = *o.what ? o.what : "no measurement";
			const auto &fc = e.getFlowCompensated();
			const auto &fg = e.getFlowGyro();
			const auto &fu = e.getFlowUncompensated();

			if (in.flowPop && in.flowIdx >= 0) {
				const flowSample &s = w.flow[in.flowIdx];

				for (int a = 0; a < 2; a++) { if (fu(a) != s.flow_xy_rad(a)) { bad("flow_sample", fmt("t=%.3f s: the optical flow sample at the fusion horizon is %.7g rad about axis %d instead of %.7g", t, fu(a), a, s.flow_xy_rad(a))); } }
			}

			if (mm.flowIdx >= 0) {
				for (int a = 0; a < 3; a++) { if (mm.gyroOwn && !(std::fabs(fg(a) - mm.gyro[a]) <= mm.gyroTol + 1e-7 + 3e-7 * std::fabs(mm.gyro[a]))) { bad("flow_gyro", fmt("t=%.3f s: body rotation used with the flow sample about axis %d is %.7g instead of %.7g rad", t, a, fg(a), mm.gyro[a])); } }

				for (int a = 0; a < 2; a++) { if (!(std::fabs(fc(a) - mm.comp[a]) <= mm.compTol + 1e-7)) { bad("flow_comp", fmt("t=%.3f s: motion compensated flow about axis %d is %.7g instead of %.7g rad", t, a, fc(a), mm.comp[a])); } }
			}

			if (o.hagl) {
				if (!(std::fabs(hI - o.hi) <= o.hiTol)) { bad("range_innov", fmt("t=%.3f s: range innovation of the terrain estimator %.7g instead of %.7g m (tolerance %.2g)", t, hI, o.hi, o.hiTol)); }

				if (!(std::fabs(hV - o.hv) <= o.hvTol)) { bad("range_innov_var", fmt("t=%.3f s: range innovation variance of the terrain estimator %.7g instead of %.7g", t, hV, o.hv)); }

				if (!(std::fabs(hR - o.hr) <= 1e-5 + 1e-4 * o.hr + 4 * std::sqrt(o.hr) * o.hiTol / std::sqrt(o.hv))) { bad("range_ratio", fmt("t=%.3f s: range test ratio of the terrain estimator %.7g instead of %.7g", t, hR, o.hr)); }

			} else if (!first && (bitsOf(hI) != bitsOf(pubI) || bitsOf(hV) != bitsOf(pubV))) {
				bad("range_unexpected", fmt("t=%.3f s: the terrain estimator used a range measurement (innovation %.6g m, before %.6g) although none was acceptable (%s)", t, hI, pubI, f.ready[RNG] ? "sample present but not acceptable" : "no sample at the fusion horizon"));
			}

			if (o.flow) {
				for (int a = 0; a < 2; a++) {
					if (!(std::fabs(fI[a] - o.fi[a]) <= o.fiTol[a])) { bad("flow_innov", fmt("t=%.3f s: flow innovation of the terrain estimator about axis %d %.7g instead of %.7g rad/s (tolerance %.2g)", t, a, fI[a], o.fi[a], o.fiTol[a])); }

					if (!(std::fabs(fV[a] - o.fv[a]) <= o.fvTol[a])) { bad("flow_innov_var", fmt("t=%.3f s: flow innovation variance of the terrain estimator about axis %d %.7g instead of %.7g", t, a, fV[a], o.fv[a])); }
				}
			}

			if (!(std::fabs(T - mm.h) <= o.hTol)) { bad("terrain_height", fmt("t=%.3f s (%s): terrain height %.8g instead of %.8g m (tolerance %.2g, before %.8g, vehicle at %.6g)", t, wh, T, mm.h, o.hTol, m.h, in.x1[9])); }

			if (!(std::fabs(V - mm.var) <= o.varTol)) { bad("terrain_variance", fmt("t=%.3f s (%s): terrain height variance %.8g instead of %.8g m^2 (tolerance %.2g, before %.8g)", t, wh, V, mm.var, o.varTol, m.var)); }

			if (e.isTerrainEstimateValid() != o.valid) { bad("terrain_valid", fmt("t=%.3f s (%s): terrain estimate reported %s, %.2f s after the last range and %.2f s after the last flow update", t, wh, o.valid ? "invalid" : "valid", 1e-6 * (double)(tNow - mm.tHagl), 1e-6 * (double)(tNow - mm.tFlow))); }

			if (e.getTerrainEstimateSensorBitfield() != o.sensors) { bad("terrain_sources", fmt("t=%.3f s (%s): reported terrain sources %d instead of %d", t, wh, (int)e.getTerrainEstimateSensorBitfield(), o.sensors)); }

			if (o.hagl && e.innov_check_fail_status_flags().reject_hagl != mm.reject && strcmp(o.what, "range_reset")) { bad("terrain_reject", fmt("t=%.3f s: height above ground rejection reported %d instead of %d", t, (int)e.innov_check_fail_status_flags().reject_hagl, mm.reject)); }

			if (k.empty()) { found = true; best = mm; bo = o; break; }

			if (!any) { any = true; kind = k; text = x; bestTry = mm; bo = o; }
		} while (ch.next());

		if (!found) {
			if (first) { r.cnt["start_undecided"]++; best = bestTry; }

			else { r.bad(kind, text); return false; }
		}

		m = best;
		m.h = T;
		m.var = V;

		if (*bo.what) { r.cnt[std::string("terrain_") + bo.what]++; }

		if (bo.hagl) { r.cnt[m.reject ? "range_rejected" : "range_fused"]++; }

		if (m.stuck && f.ready[RNG]) { r.cnt["range_stuck"]++; }

		if (f.ready[RNG] && !m.rngValid) { r.cnt["range_not_acceptable"]++; }

		if (in.c1.flags.in_air && !bo.valid) { r.cnt["invalid_in_air"]++; }

		if (e.control_status().flags.in_air) { r.cnt["steps_in_air"]++; }

		uint64_t sh = 7;
		fnv(sh, (uint64_t)bo.sensors | (uint64_t)bo.valid << 2 | (uint64_t)m.stuck << 3 | (uint64_t)m.rngValid << 4 | (uint64_t)m.rngRegular << 5 | (uint64_t)m.reject << 6 | (uint64_t)bo.hagl << 7 | (uint64_t)bo.flow << 8 | (uint64_t)m.flowForTerrain << 9);
		fnv(sh, e.control_status().value & 0xffffff);
		r.states.insert(sh);
		fnv(h, bitsOf(T));
		fnv(h, bitsOf(V));
		return true;
	}
};

Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1313);
	Scn s = richScn(seed * 13 + 7, r.u(28, thorough ? 80 : 48), R_NOFW);
	auto q = [](double x) { return std::floor(x * 1e6) / 1e6; };
	const double dur = s.g("dur", 30);

	if (r.p(0.9)) { s.s("hz.rng", r.pick({5.0, 10.0, 20.0, 30.0, 50.0})); }

	if (r.p(0.7)) { s.s("hz.flow", r.pick({4.0, 10.0, 15.0, 30.0, 50.0})); if (r.p(0.3)) { s.s("flow_nogyro", 1); } }

	if (r.p(0.3)) { s.s("flow_gyro_bias", 1); }

	// ground that is not level
	if (r.p(0.6)) { s.s("gnd_n", q(r.u(-0.3, 0.3))); s.s("gnd_e", q(r.u(-0.3, 0.3))); }

	if (r.p(0.3)) { s.s("P.terrain_fusion_mode", r.i(0, 3)); }

	for (const auto &n : std::vector<std::tuple<const char *, double, double>> {{"terrain_p_noise", 0.1, 20}, {"terrain_gradient", 0.02, 2}, {"range_noise", 0.02, 1}, {"range_noise_scaler", 0.002, 0.2}, {"range_innov_gate", 0.5, 8}, {"vehicle_variance_scaler", 0.05, 2}, {"rng_gnd_clearance", 0.05, 0.6}, {"flow_noise", 0.05, 0.6}, {"flow_noise_qual_min", 0.1, 1}, {"flow_innov_gate", 0.5, 5}, {"range_valid_quality_s", 0.1, 3}}) {
		if (r.p(0.25)) { s.s(std::string("P.") + std::get<0>(n), std::max(q(r.logu(std::get<1>(n), std::get<2>(n))), std::get<1>(n))); }
	}

	if (r.p(0.3)) { s.s("P.rng_sens_pitch", q(r.u(-0.4, 0.4))); }

	if (r.p(0.3)) { s.s("P.range_cos_max_tilt", q(r.u(0.7, 0.995))); }

	if (r.p(0.3)) { s.s("P.flow_qual_min", r.i(0, 200)); }

	if (r.p(0.3)) { s.s("rng_max", q(r.u(2, 15))); s.ops.push_back({O_RNGLIM, 0, q(r.u(0.05, 0.5)), q(r.u(2, 15)), 0}); s.s("rng_oor_q0", r.i(0, 1)); }

	if (r.p(0.3)) { s.ops.push_back({O_FLOWLIM, 0, q(r.u(0.3, 3)), 0.05, 30}); }

	if (r.p(0.1)) { s.ops.push_back({O_INAIR, 0, 1, 0, 0}); }

	// range finder outages of many kinds
	for (int i = r.i(0, 3); i > 0; i--) {
		const double t = std::floor(r.u(8, dur - 3)), d = std::floor(r.u(2, 16));
		const int k = r.i(0, 5);

		if (k == 0) { s.faults.push_back(Fault{F_LOSS, RNG, t, t + d, 1, 0}); }

		if (k == 1) { s.faults.push_back(Fault{F_QUALITY, RNG, t, t + d, 0, 0}); }

		if (k == 2) { s.faults.push_back(Fault{F_BIAS, RNG, t, t + d, q(r.u(0.5, 20)), 0}); }

		if (k == 3) { s.faults.push_back(Fault{F_STUCK, RNG, t, t + d, 0, 0}); }

		if (k == 4) { s.faults.push_back(Fault{F_LOSS, RNG, t, t + d, q(r.u(0.7, 0.98)), 0}); }

		if (k == 5) { s.faults.push_back(Fault{F_BIAS, RNG, t, t + d, 100, 0}); s.faults.push_back(Fault{F_STUCK, RNG, t + d, t + d + 6, 0, 0}); }
	}

	if (r.p(0.4)) { const double t = std::floor(r.u(8, dur - 3)); s.faults.push_back(Fault{F_QUALITY, FLOW, t, t + std::floor(r.u(1, 8)), (double)r.i(0, 254), 0}); }

	if (r.p(0.2)) { const double t = std::floor(r.u(8, dur - 3)); s.faults.push_back(Fault{F_BIAS, FLOW, t, t + std::floor(r.u(1, 8)), q(r.u(-2, 2)), q(r.u(-2, 2))}); }

	if (r.p(0.15)) { s.ops.push_back({O_INAIR, std::floor(r.u(12, dur)), (double)r.i(0, 1), 0, 0}); }

	swarmFaults(s, r, 2, dur, 4, bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_IMUGAP) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_VIB) | bit(F_BIAS) | bit(F_SPIKE) | bit(F_TSFREEZE), kAllSensors & ~bit(IMU));
	return s;
}
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Hook a(r, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["fusion_steps"] += a.steps;
	r.nontrivial = r.cnt["steps_in_air"] > 300;
}
Reg reg({"P13", gen, exec, "a run counts when more than 300 fusion steps ran in the air"});
}
