// P17: the stand-alone wind estimator (airdata/WindEstimator) against a double precision reference in lock step, driven by
// a simulated caller (the air data module of an autopilot) with stalled cycles, lost, late, repeated and wrong measurements.
#include "core.h"
#include <airdata/WindEstimator.hpp>

using namespace sim;

namespace
{
struct M3 { double m[3][3] {}; };

struct Ref { // three states: wind north, wind east, airspeed scale
	bool init{false}, reset{false}, blind{false};
	double x[3] {}, P[3][3] {};
	double ti{0}, tv{0}, bi{0}, bv{0};
	uint64_t tAsp{0}, tBeta{0}, tUpd{0}, rejT{0}, rejB{0};
	double qw{0.1}, qk{1e-4}, rt{1.4}, rb{0.5};
	int gt{3}, gb{1};
	double enf{-1};
	double prior{0};	// largest variance before the latest correction
	double tolX{0}, tolI{0}, tolS{0};	// rounding of the latest operation
	bool unres{false};	// single precision does not resolve the innovation variance
	double relP{3e-4}, errH{0};
	int force{-1}, decision{0};	// decision of the gate
	uint64_t noise{0};	// shadow copies: every operation carries single precision rounding
	double u() { return noise ? 2 * u01(noise = mix64(noise)) - 1 : 0; }
	bool jac{false};	// initial covariance with the heading convention of the derivation script
};

bool initialise(Ref &r, const V3 &v, double vn, double ve, double tas)
{
	const double s2 = v.x * v.x + v.y * v.y, s = std::sqrt(s2);

	if (s < 3) { return false; }

	r.x[0] = v.x - tas * v.x / s;
	r.x[1] = v.y - tas * v.y / s;
	r.x[2] = 1;
	const double k = tas / (s2 * s);
	double L[2][2];

	if (r.jac) { // the script differentiates cos and sin of atan2(north, east)
		L[0][0] = 1 + k * v.x * v.y; L[0][1] = -k * v.x * v.x;
		L[1][0] = -k * v.y * v.y; L[1][1] = 1 + k * v.x * v.y;

	} else {
		L[0][0] = 1 - k * v.y * v.y; L[0][1] = k * v.x * v.y;
		L[1][0] = k * v.x * v.y; L[1][1] = 1 - k * v.x * v.x;
	}

	for (auto &row : r.P) { for (double &p : row) { p = 0; } }

	for (int i = 0; i < 2; i++) {
		for (int j = 0; j < 2; j++) { r.P[i][j] = L[i][0] * vn * L[j][0] + L[i][1] * ve * L[j][1]; }
	}

	if (r.noise) {
		const double top = std::max(vn, ve) * (1 + std::fabs(k) * s2) * (1 + std::fabs(k) * s2);

		for (auto &row : r.P) { for (double &p : row) { p += 2e-7 * top * r.u(); } }
	}

	r.P[2][2] = 1e-4;
	r.rejT = r.rejB = 0;
	r.reset = true;
	r.blind = false;
	r.tolX = 1e-5 * (1 + s + std::fabs(tas));
	r.errH = 0;
	r.relP = 1e-6;
	r.prior = (std::max(vn, ve)) * (1 + (tas / s) * (tas / s));
	return true;
}

void predict(Ref &r, uint64_t now)
{
	if (!r.init) { return; }

	r.reset = false;

	if (r.tUpd == 0) { r.tUpd = now; return; }

	if (now - r.tUpd < 1000000) { return; }

	const double dt = (double)(now - r.tUpd) * 1e-6;
	r.tUpd = now;
	// the derivation drives both wind components with one common noise
	const double q = dt * dt * r.qw;
	r.P[0][0] += q; r.P[1][1] += q; r.P[0][1] += q; r.P[1][0] += q;
	r.P[2][2] += dt * dt * r.qk;
}

double quad(const Ref &r, const double H[3])
{
	double s = 0;

	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { s += H[i] * r.P[i][j] * H[j]; } }

	return s;
}
enum Kind { K_NONE, K_HELD, K_FUSED, K_REJECT, K_RESET, K_LOST, K_INIT };

// one scalar correction; "accept" is the decision of the gate
Kind correct(Ref &r, uint64_t now, const V3 &v, double tasInit, const double H[3], double innov, double var, bool reject, uint64_t &rej, bool)
{
	if (reject) { if (rej == 0) { rej = now; } } else { rej = 0; }

	const bool again = (rej != 0 && now - rej > 5000000) || var < 0;

	if (again) {
		r.init = initialise(r, v, 0.1, 0.1, tasInit);
		return r.init ? K_RESET : K_LOST;
	}

	if (rej != 0) { r.tolX = 0; return K_REJECT; }

	double PH[3], K[3], HP[3];
	r.relP = 3e-4;
	r.prior = 0;

	for (int i = 0; i < 3; i++) {
		PH[i] = HP[i] = 0;

		for (int j = 0; j < 3; j++) { PH[i] += r.P[i][j] * H[j]; HP[i] += H[j] * r.P[j][i]; }

		K[i] = PH[i] / var;
		r.prior = std::max(r.prior, std::fabs(r.P[i][i]));
	}

	if (quad(r, H) > 1e4 * std::fabs(var - quad(r, H))) { r.blind = true; } // the information of the prior is below rounding

	for (int i = 0; i < 3; i++) {
		r.x[i] += K[i] * innov;

		for (int j = 0; j < 3; j++) { r.P[i][j] += 2e-7 * (std::fabs(r.P[i][j]) + std::fabs(K[i] * HP[j])) * r.u() - K[i] * HP[j] * (1 + 3e-7 * r.u()); }
	}

	for (int i = 0; i < 3; i++) {
		const double cap = i < 2 ? 25 : 0.1;

		if (r.P[i][i] < 0) { r.init = false; return K_LOST; }

		if (r.P[i][i] > cap) {
			const double s = std::sqrt(cap / r.P[i][i]);

			for (int j = 0; j < 3; j++) { r.P[i][j] *= s; r.P[j][i] *= s; }
		}
	}

	if (r.enf < 0) { r.x[2] = std::max(0.0, r.x[2]); } else { r.x[2] = r.enf; }

	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < i; j++) { r.P[i][j] = r.P[j][i] = 0.5 * (r.P[i][j] + r.P[j][i]); }
	}

	return K_FUSED;
}

struct Gate { bool reject, close; };
Gate gate(double innov, double var, int g, double tolI, double tolS)
{
	const double a = innov * innov, b = (double)g * g * var;
	return {a > b, std::fabs(a - b) <= 2 * std::fabs(innov) * tolI + (double)g *g * tolS + 1e-6 * b};
}
double quadAbs(const Ref &r, const double H[3])
{
	double s = 0;

	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { s += std::fabs(H[i] * r.P[i][j] * H[j]); } }

	return s;
}

Kind airspeed(Ref &r, uint64_t now, double tas, const V3 &v, double vn, double ve, bool alt, bool &close)
{
	close = false;

	r.unres = false;

	if (!r.init) {
		r.init = initialise(r, v, std::max(0.01, vn), std::max(0.01, ve), tas);
		return r.init ? K_INIT : K_NONE;
	}

	if (now - r.tAsp < 100000) { return K_HELD; }

	r.tAsp = now;
	const double rn = v.x - r.x[0], re = v.y - r.x[1], n = std::sqrt(rn * rn + re * re + v.z * v.z);

	if (n < 0.05) { r.blind = true; return K_NONE; }

	const double k = r.x[2];
	double H[3] = {-k * rn / n, -k * re / n, n};
	const double err = 3e-7 * (std::fabs(v.x) + std::fabs(v.y) + std::fabs(r.x[0]) + std::fabs(r.x[1]) + n) / n; // relative
	r.errH = err;

	if (r.noise) { for (int i = 0; i < 2; i++) { H[i] += err * (1 + k) * r.u(); } H[2] += err * n * r.u(); }

	r.ti = tas - k * n;
	r.tv = quad(r, H) + r.rt;
	r.tolI = 3 * err * (k * n) + 1e-6 * std::fabs(tas) + 1e-6;
	r.tolS = (r.relP + 6 * err) * quadAbs(r, H) + 1e-6 * r.rt;
	r.unres = r.tolS > 0.1 * std::fabs(r.tv);
	const Gate g = gate(r.ti, r.tv, r.gt, r.tolI, r.tolS);
	close = g.close;
	const double ti = r.ti, tv = r.tv;
	double gmax = 0;

	for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) { s += std::fabs(r.P[i][j] * H[j]); } gmax = std::max(gmax, s / tv); }

	r.tolX = gmax * r.tolI + (r.relP + 6 * err) * 2 * gmax * std::fabs(ti) * (1 + quadAbs(r, H) / tv) + 1e-6 * (1 + std::fabs(r.x[0]) + std::fabs(r.x[1]));
	r.decision = r.force >= 0 ? r.force : g.reject != alt;
	return correct(r, now, v, tas, H, ti, tv, r.decision, r.rejT, alt);
}

Kind sideslip(Ref &r, uint64_t now, const V3 &v, const Q &q, bool alt, bool &close)
{
	close = false;

	r.unres = false;

	if (!r.init) {
		r.init = initialise(r, v, 0.1, 0.1, v.norm());
		return r.init ? K_INIT : K_NONE;
	}

	if (now - r.tBeta < 100000) { return K_HELD; }

	r.tBeta = now;
	const V3 rel(v.x - r.x[0], v.y - r.x[1], v.z);
	const V3 b = q.irot(rel), n = q.irot(V3(1, 0, 0)), e = q.irot(V3(0, 1, 0));
	const double mag = std::fabs(v.x) + std::fabs(v.y) + std::fabs(v.z) + std::fabs(r.x[0]) + std::fabs(r.x[1]);

	if (std::fabs(std::fabs(b.x) - 0.1) < 1e-5 * (1 + mag)) { r.blind = true; return K_NONE; }

	if (std::fabs(b.x) < 0.1) { return K_HELD; }

	double H[3] = {(-n.y * b.x + b.y * n.x) / (b.x * b.x), (-e.y * b.x + b.y * e.x) / (b.x * b.x), 0};
	const double err = 6e-7 * (mag + 1) / std::fabs(b.x);
	r.errH = err;
	const double beta = b.y / b.x;

	if (r.noise) { for (int i = 0; i < 2; i++) { H[i] += err * (1 + std::fabs(beta)) * (1 + std::fabs(beta)) / std::fabs(b.x) * r.u(); } }

	r.bi = -beta;
	r.bv = quad(r, H) + r.rb;
	const double hs = (1 + std::fabs(beta)) / std::fabs(b.x); // scale of the terms of H
	double pmax = std::max(std::fabs(r.P[0][0]), std::fabs(r.P[1][1]));
	r.tolI = err * (1 + std::fabs(beta)) * 3 + 1e-6;
	r.tolS = (r.relP + 8 * err) * (quadAbs(r, H) + hs * hs * pmax) + 1e-6 * r.rb;
	r.unres = r.tolS > 0.1 * std::fabs(r.bv);
	const Gate g = gate(r.bi, r.bv, r.gb, r.tolI, r.tolS);
	close = g.close;
	const double bi = r.bi, bv = r.bv;
	const double gmax = 2 * pmax * hs / bv;
	r.tolX = gmax * r.tolI + (r.relP + 8 * err) * 2 * gmax * std::fabs(bi) * (1 + quadAbs(r, H) / bv) + 1e-6 * (1 + std::fabs(r.x[0]) + std::fabs(r.x[1]));
	r.decision = r.force >= 0 ? r.force : g.reject != alt;
	return correct(r, now, v, v.norm(), H, bi, bv, r.decision, r.rejB, alt);
}

struct Pub { bool valid, reset; double w[2], k, var[2], ti, tv, bi, bv; };
Pub read(WindEstimator &e)
{
	Pub p;
	float a[2], b[2];
	e.get_wind(a);
	e.get_wind_var(b);
	p.valid = e.is_estimate_valid();
	p.reset = e.get_wind_estimator_reset();
	p.w[0] = a[0]; p.w[1] = a[1]; p.var[0] = b[0]; p.var[1] = b[1];
	p.k = e.get_tas_scale();
	p.ti = e.get_tas_innov(); p.tv = e.get_tas_innov_var(); p.bi = e.get_beta_innov(); p.bv = e.get_beta_innov_var();
	return p;
}

Scn gen(uint64_t seed, bool thorough)
{
	Rng r(hash3(seed, 17, 1));
	Scn s;
	s.s("seed", (double)(seed & 0xffffffff));
	const double dur = r.u(60, thorough ? 600 : 240);
	s.s("dur", dur);
	s.s("start", r.p(0.4) ? r.u(1e5, 1e8) : r.p(0.5) ? 4294967296.0 - r.u(1, dur) * 1e6 : 1.6e15 + r.u(0, 1e12));
	s.s("period", r.pick({0.01, 0.02, 0.05, 0.1, 0.1, 0.2, 1.0}));
	s.s("jitter", r.p(0.5) ? r.u(0, 0.9) : 0);
	s.s("aspdt", r.pick({0.0, 0.0, 0.05, 0.1, 0.2, 1.0}));
	s.s("wn", r.u(-12, 12)); s.s("we", r.u(-12, 12));
	s.s("spd0", r.p(0.15) ? 0 : r.u(5, 20));
	s.s("scale", r.p(0.5) ? 1.0 : r.u(0.7, 1.4));
	s.s("nasp", r.p(0.2) ? 0 : r.u(0, 1.2));
	s.s("nvel", r.p(0.2) ? 0 : r.u(0, 0.5));
	s.s("natt", r.p(0.3) ? 0 : r.u(0, 0.05));
	s.s("velvar", r.p(0.1) ? 0 : r.logu(0.001, 4));
	s.s("aniso", r.p(0.5) ? 1 : r.logu(0.1, 10));
	s.s("beta", r.p(0.8)); s.s("asp", r.p(0.92));
	s.s("order", r.i(0, 2));
	s.s("takeoff", r.p(0.5) ? r.u(0, 20) : 0);
	const double tas = r.p(0.85) ? r.u(11, 30) : r.u(2, 60);
	double t = s.g("takeoff", 0);

	while (t < dur) {
		Leg l;
		l.t = t;
		l.vn = tas * r.u(0.8, 1.2);
		l.vd = r.p(0.5) ? 0 : r.u(-4, 4);
		l.yawrate = r.p(0.4) ? 0 : r.u(-0.5, 0.5);
		s.legs.push_back(l);
		t += r.u(3, 40);
	}

	if (r.p(0.6)) { // tuning
		if (r.p(0.5)) { s.s("sw", r.logu(0.01, 3)); }

		if (r.p(0.5)) { s.s("sk", r.logu(1e-4, 0.1)); }

		if (r.p(0.5)) { s.s("st", r.logu(0.3, 5)); }

		if (r.p(0.5)) { s.s("sb", r.logu(0.05, 1.5)); }

		if (r.p(0.5)) { s.s("gt", r.i(1, 8)); }

		if (r.p(0.5)) { s.s("gb", r.i(1, 8)); }
	}

	if (r.p(0.3)) { s.s("enforce", r.p(0.3) ? -1 : r.u(0.6, 1.5)); }

	s.s("honest", r.p(0.25));

	if (s.g("honest", 0) > 0) {
		for (const char *k : {"sw", "sk", "st", "sb", "gt", "gb", "enforce"}) { s.v.erase(k); }

		s.s("scale", 1); s.s("asp", 1); s.s("beta", 1);
		s.s("nasp", std::min(s.g("nasp", 0), 1.0)); s.s("nvel", std::min(0.3, s.g("nvel", 0)));
		s.s("velvar", 0.1);
		s.s("aniso", 1);
		s.s("period", std::min(0.1, s.g("period", 0)));
		s.s("aspdt", std::min(0.2, s.g("aspdt", 0)));

		for (Leg &l : s.legs) { l.vn = std::max(12.0, std::min(30.0, l.vn)); if (std::fabs(l.yawrate) < 0.1) { l.yawrate = l.yawrate < 0 ? -0.1 : 0.1; } }

		const double lim = 0.6 * tas < 7 ? 7 : 0.6 * tas, w = std::hypot(s.g("wn", 0), s.g("we", 0));

		if (w > lim) { s.s("wn", s.g("wn", 0) * lim / w); s.s("we", s.g("we", 0) * lim / w); }

		return s;
	}

	const int nf = r.i(0, 5);

	for (int i = 0; i < nf; i++) {
		Fault f;
		f.t0 = r.u(0, dur);
		f.t1 = f.t0 + r.logu(1, 60);

		switch (r.i(0, 15)) {
		case 0: f.kind = F_LOSS; f.sensor = ASP; f.a = r.p(0.5) ? 1 : r.u(0, 1); if (r.p(0.3)) { f.t1 = f.t0 + r.u(60, 400); } break;
		case 1: f.kind = F_STUCK; f.sensor = ASP; break;
		case 2: f.kind = F_BIAS; f.sensor = ASP; f.a = r.u(-20, 20); break;
		case 3: f.kind = F_NOISE; f.sensor = ASP; f.a = r.logu(0.5, 10); break;
		case 4: f.kind = F_SPIKE; f.sensor = ASP; f.a = r.u(0, 0.3); f.b = r.u(-40, 40); break;
		case 5: f.kind = F_DUP; f.sensor = ASP; f.a = r.u(0, 1); break;
		case 6: f.kind = F_DELAY; f.sensor = ASP; f.a = r.logu(1e4, 5e6); break;
		case 7: f.kind = F_VEL; f.sensor = GPS; f.a = r.u(-20, 20); f.b = r.u(-20, 20); f.c = r.u(-5, 5); break;
		case 8: f.kind = F_STUCK; f.sensor = GPS; break;
		case 9: f.kind = F_ROT; f.sensor = MAG; f.a = r.u(-3.1, 3.1); break;
		case 10: f.kind = F_IMUGAP; f.sensor = IMU; break;
		case 11: f.kind = F_LOSS; f.sensor = EV; f.a = r.p(0.5) ? 1 : r.u(0, 1); if (r.p(0.3)) { f.t1 = f.t0 + r.u(60, 400); } break;
		case 12: f.kind = F_QUALITY; f.sensor = GPS; f.c = r.logu(0.01, 100); break;
		case 13: f.kind = F_LOSS; f.sensor = BARO; f.a = r.p(0.5) ? 1 : r.u(0, 1); break;
		case 14: f.kind = F_VEL; f.sensor = ASP; f.a = r.u(-15, 15); f.b = r.u(-15, 15); break;
		default: f.kind = F_NOISE; f.sensor = GPS; f.a = r.logu(0.1, 5); break;
		}

		s.faults.push_back(f);

		if (f.kind == F_LOSS && f.sensor == ASP && r.p(0.5)) { f.sensor = EV; f.a = 1; s.faults.push_back(f); }
	}

	const int no = r.p(0.4) ? r.i(1, 4) : 0;

	for (int i = 0; i < no; i++) {
		Op o;
		o.kind = O_PARAM;
		o.t = r.u(0, dur);
		o.a = r.i(0, 6);
		static const double lo[] = {0.01, 1e-4, 0.3, 0.05, 1, 1, 0.6}, hi[] = {3, 0.1, 5, 1.5, 8, 8, 1.5};
		const int k = (int)o.a;
		o.b = k >= 4 && k < 6 ? r.i(1, 8) : k == 6 ? (r.p(0.4) ? -1 : r.u(lo[k], hi[k])) : r.logu(lo[k], hi[k]);
		s.ops.push_back(o);
	}

	return s;
}

struct Drv {
	WindEstimator e;
	Ref r, sh[3];
	Result &out;
	uint64_t t0{0};
	explicit Drv(Result &o) : out(o) {}

	static bool close(double a, double b, double tol) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol; }

	// "" when the published values are those of the reference
	template<class F> std::string diff(const Ref &m, const Pub &p, F model)
	{
		ill = false;
		double sx[3] {}, sp[2] {}, st = 0, ss = 0, sb = 0, sv = 0;

		if (m.init && !m.blind) {
			for (int n = 0; n < 3; n++) {
				Ref c = sh[n];
				c.jac = m.jac;
				c.qw = m.qw; c.qk = m.qk; c.rt = m.rt; c.rb = m.rb; c.gt = m.gt; c.gb = m.gb; c.enf = m.enf;
				c.force = m.decision;
				model(c);
				next[n] = c;

				if (!c.init) { ill = true; continue; }

				for (int i = 0; i < 3; i++) { sx[i] = std::max(sx[i], 10 * std::fabs(c.x[i] - m.x[i])); }

				for (int i = 0; i < 2; i++) { sp[i] = std::max(sp[i], 10 * std::fabs(c.P[i][i] - m.P[i][i])); }

				ill |= sp[0] > 0.1 * m.P[0][0] + 1e-5 || sp[1] > 0.1 * m.P[1][1] + 1e-5 || 10 * std::fabs(c.P[0][1] - m.P[0][1]) > 0.1 * (m.P[0][0] + m.P[1][1]);

				st = std::max(st, 10 * std::fabs(c.ti - m.ti)); ss = std::max(ss, 10 * std::fabs(c.tv - m.tv));
				sb = std::max(sb, 10 * std::fabs(c.bi - m.bi)); sv = std::max(sv, 10 * std::fabs(c.bv - m.bv));
			}

		} else { for (Ref &c : next) { c = m; } }

		if (p.valid != m.init) { return fmt("valid %d, reference %d", (int)p.valid, (int)m.init); }

		if (p.reset != m.reset) { return fmt("reset flag %d, reference %d", (int)p.reset, (int)m.reset); }

		if (!m.init || m.blind) { return ""; }

		for (int i = 0; i < 2; i++) {
			if (!close(p.w[i], m.x[i], m.tolX * 3 + sx[i] + 2e-6 * std::fabs(m.x[i]) + 1e-6)) { return fmt("wind %d is %.7g, reference %.7g (tolerance %.2g)", i, p.w[i], m.x[i], m.tolX * 3); }

			if (!close(p.var[i], m.P[i][i], 3 * m.relP * std::fabs(m.P[i][i]) + sp[i] + (5e-6 + 10 * m.errH) * m.prior + 1e-7)) { return fmt("wind variance %d is %.8g, reference %.8g", i, p.var[i], m.P[i][i]); }
		}

		if (!close(p.k, m.x[2], m.tolX * 3 + sx[2] + 1e-6)) { return fmt("airspeed scale %.7g, reference %.7g", p.k, m.x[2]); }

		if (!close(p.ti, m.ti, m.tolI * 3 + st + 2e-6 * std::fabs(m.ti))) { return fmt("airspeed innovation %.7g, reference %.7g", p.ti, m.ti); }

		if (!close(p.tv, m.tv, m.tolS * 3 + ss + 3e-6 * std::fabs(m.tv))) { return fmt("airspeed innovation variance %.7g, reference %.7g", p.tv, m.tv); }

		if (!close(p.bi, m.bi, m.tolI * 3 + sb + 2e-6 * std::fabs(m.bi))) { return fmt("sideslip innovation %.7g, reference %.7g", p.bi, m.bi); }

		if (!close(p.bv, m.bv, m.tolS * 3 + sv + 3e-6 * std::fabs(m.bv))) { return fmt("sideslip innovation variance %.7g, reference %.7g", p.bv, m.bv); }

		return "";
	}

	template<class F, class G> void call(const char *what, uint64_t now, F model, G reinit)
	{
		const Pub p = read(e);
		bool near = false, dummy = false;
		Ref a = r;
		const bool wasBlind = r.blind;
		was = r.init;
		Kind k = model(a, false, near);
		bool nd = false;
		auto plain = [&](Ref & c) { model(c, false, nd); };
		auto again = [&](Ref & c) { reinit(c); };
		std::string d = diff(a, p, plain);

		if (!d.empty() && near) {
			Ref b = r;
			const Kind kb = model(b, true, dummy);

			if (diff(b, p, plain).empty()) { a = b; k = kb; d.clear(); out.cnt["gate_undecided"]++; }
		}

		if (!d.empty() && (k == K_INIT || k == K_RESET) && a.init && p.valid) {
			Ref b = r;
			b.jac = true;
			model(b, false, dummy);
			const std::string db = diff(b, p, plain);

			if (!db.empty()) { d += "; with the other heading convention: " + db; }

			if (db.empty()) {
				if (!told) { out.bad("init_covariance_heading_convention", fmt("%s at t=%.3f s initialises the estimator: %s (documented propagation of the velocity variance through the code's own heading); the values are those of a heading measured from east",
						what, (double)(now - t0) * 1e-6, d.c_str())); }

				told = true;
				out.cnt["init_heading_convention"]++;
				a = b;
				a.jac = false;
				d.clear();
			}
		}

		if (p.valid && !(std::isfinite(p.w[0]) && std::isfinite(p.w[1]) && std::isfinite(p.k) && std::isfinite(p.var[0]) && std::isfinite(p.var[1]))) {
			out.bad("wind_not_finite", fmt("%s at t=%.3f s: the estimate is declared valid but is not finite", what, (double)(now - t0) * 1e-6));
		}

		if ((ill || a.unres) && !d.empty()) { d.clear(); a.blind = true; out.cnt["ill_conditioned"]++; }

		if (wasBlind || a.blind) { // the relative wind was too small to predict what follows: wait for an initialisation
			Ref c = r;
			c.tAsp = a.tAsp; c.tBeta = a.tBeta; c.tUpd = a.tUpd;
			c.init = p.valid;
			c.reset = p.reset;
			c.blind = p.valid;
			c.ti = p.ti; c.tv = p.tv; c.bi = p.bi; c.bv = p.bv;
			d.clear();
			k = K_NONE;
			out.cnt["blind"]++;

			if (p.valid && ((p.reset && !r.reset) || !r.init)) {
				c.jac = true;
				reinit(c);
				d = diff(c, p, again);

				if (!d.empty()) { c.jac = false; reinit(c); d = diff(c, p, again); }

				c.jac = false;
				out.cnt["blind_over"]++;
			}

			a = c;
		}

		if (!d.empty()) {
			out.bad("wind_" + std::string(what), fmt("%s at t=%.3f s: %s", what, (double)(now - t0) * 1e-6, d.c_str()));
			a.blind = true;
			a.init = p.valid;
			a.reset = p.reset;
		}

		static const char *const names[] = {"none", "held", "fused", "rejected", "reset", "lost", "init"};
		out.cnt[std::string(what) + "_" + names[k]]++;

		if (k == K_LOST && was && a.prior > 0 && p.valid == false) {
			// the only reason to give up a valid estimate is a long series of rejections
			if (!lowSpeed) {
				out.bad("wind_lost", fmt("%s at t=%.3f s: a consistent measurement was fused and the estimate is discarded (negative variance)", what, (double)(now - t0) * 1e-6));
			}
		}

		r = a;


		for (int n = 0; n < 3; n++) {
			if (!r.init || r.blind || !next[n].init || next[n].blind) { next[n] = r; }

			sh[n] = next[n];
			sh[n].force = -1;
			sh[n].jac = false;
			sh[n].noise = hash3(out.hash, n, 7) | 1;
			sh[n].rejT = r.rejT; sh[n].rejB = r.rejB; sh[n].reset = r.reset;
			sh[n].tAsp = r.tAsp; sh[n].tBeta = r.tBeta; sh[n].tUpd = r.tUpd;
		}

		if (p.valid && !r.blind) { for (Ref &c : sh) { c.x[0] = p.w[0]; c.x[1] = p.w[1]; c.x[2] = p.k; c.ti = p.ti; c.tv = p.tv; c.bi = p.bi; c.bv = p.bv; } r.x[0] = p.w[0]; r.x[1] = p.w[1]; r.x[2] = p.k; r.ti = p.ti; r.tv = p.tv; r.bi = p.bi; r.bv = p.bv; r.tolI = r.tolS = r.tolX = 0; }

		if (getenv("D17")) printf("%.3f %s k=%d v=%d w=%.5g %.5g var %.5g/%.5g %.5g/%.5g P01 %.5g sh %.5g k %.5g P22 %.5g\n", (double)(now-t0)*1e-6, what, (int)k, (int)p.valid, p.w[0], p.w[1], p.var[0], a.P[0][0], p.var[1], a.P[1][1], a.P[0][1], next[0].P[0][0], p.k, a.P[2][2]);
		fnv(out.hash, bitsOf((float)p.w[0])); fnv(out.hash, bitsOf((float)p.var[0])); fnv(out.hash, bitsOf((float)p.k));
		out.states.insert(hash3((uint64_t)k, (uint64_t)what[0], (uint64_t)(std::min(4.0, std::log10(1 + 100 * std::fabs(p.var[0])))) + 8 * p.valid + 16 * (r.rejT != 0) + 32 * (r.rejB != 0) + 64 * r.blind));
	}
	bool lowSpeed{false}, was{false};
	Ref next[3];
	bool told{false};
	bool ill{false};	// rounding decides the result
};

void exec(const Scn &s, Result &out)
{
	const uint64_t seed = s.seed();
	const double dur = s.g("dur", 60);
	Drv d(out);
	const uint64_t t0 = d.t0 = (uint64_t)s.g("start", 1e6);
	auto param = [&](int k, double v) {
		const float f = (float)v;

		switch (k) {
		case 0: d.e.set_wind_p_noise(f); d.r.qw = (double)f * f; break;
		case 1: d.e.set_tas_scale_p_noise(f); d.r.qk = (double)f * f; break;
		case 2: d.e.set_tas_noise(f); d.r.rt = (double)f * f; break;
		case 3: d.e.set_beta_noise(f); d.r.rb = (double)f * f; break;
		case 4: d.e.set_tas_gate((uint8_t)v); d.r.gt = (int)v; break;
		case 5: d.e.set_beta_gate((uint8_t)v); d.r.gb = (int)v; break;
		default: d.e.enforce_airspeed_scale(f); d.r.enf = f; break;
		}
	};
	d.r.qw = 0.1f; d.r.qk = 0.0001f; d.r.rt = 1.4f;
	static const char *const keys[] = {"sw", "sk", "st", "sb", "gt", "gb", "enforce"};

	for (int i = 0; i < 7; i++) { if (s.v.count(keys[i])) { param(i, s.g(keys[i], 0)); } }

	auto on = [&](int kind, int sensor, double t) -> const Fault * {
		for (const Fault &f : s.faults) { if (f.kind == kind && f.sensor == sensor && t >= f.t0 && t < f.t1) { out.faults[kind]++; return &f; } }

		return nullptr;
	};
	// motion integrated on a fixed grid so that removing faults does not change it
	const double h = 0.05;
	std::vector<double> yaw(1, 6.28 * unif(seed, 5, 0) - 3.14), spd(1, s.g("spd0", 0)), vd(1, 0), rate(1, 0);
	{
		double tas = s.g("spd0", 0), cl = 0;

		for (double t = h; t < dur + 1; t += h) {
			const Leg *l = nullptr;

			for (const Leg &x : s.legs) { if (x.t <= t) { l = &x; } }

			const double at = l ? l->vn : 0, ac = l ? l->vd : 0, yr = l ? l->yawrate : 0;
			tas += std::max(-4 * h, std::min(4 * h, at - tas));
			cl += std::max(-2 * h, std::min(2 * h, ac - cl));
			rate.push_back(rate.back() + std::max(-0.5 * h, std::min(0.5 * h, yr - rate.back())));
			yaw.push_back(yaw.back() + rate.back() * h);
			spd.push_back(tas);
			vd.push_back(std::fabs(cl) < 0.7 * tas ? cl : 0);
		}
	}
	auto at = [&](const std::vector<double> &v, double t) { const double f = std::max(0.0, std::min(t / h, (double)v.size() - 1.001)); const int i = (int)f; return v[i] + (f - i) * (v[i + 1] - v[i]); };
	struct Tr { V3 v; Q q; double tas; V3 w; };
	auto truth = [&](double t) {
		Tr r;
		r.w = V3(s.g("wn", 0), s.g("we", 0), 0);

		for (const Fault &f : s.faults) { if (f.kind == F_VEL && f.sensor == ASP && t >= f.t0 && t < f.t1) { r.w = r.w + V3(f.a, f.b, 0); } }

		const double sp = at(spd, t), c = at(vd, t), y = at(yaw, t);
		const double pitch = sp > 0.5 ? -std::asin(std::max(-0.9, std::min(0.9, c / sp))) : 0;
		const double roll = std::max(-0.9, std::min(0.9, std::atan(sp * at(rate, t) / 9.81)));
		r.q = Q::euler(roll, pitch, y);
		r.tas = sp;
		r.v = r.q.rot(V3(sp, 0, 0)) + r.w;

		if (t < s.g("takeoff", 0)) { r.v = V3(); }

		return r;
	};
	const double period = s.g("period", 0.1), jit = s.g("jitter", 0), adt = s.g("aspdt", 0);
	double t = 0.001, lastAsp = -10;
	size_t nop = 0;
	std::vector<Op> ops = s.ops;
	std::sort(ops.begin(), ops.end(), [](const Op & a, const Op & b) { return a.t < b.t; });

	for (uint64_t i = 0; t < dur; i++, t += period * (1 + jit * (2 * unif(seed, 1, i) - 1))) {
		while (nop < ops.size() && ops[nop].t <= t) { param((int)ops[nop].a, ops[nop].b); out.ops[O_PARAM]++; nop++; }

		if (on(F_IMUGAP, IMU, t)) { continue; }

		const uint64_t now = t0 + (uint64_t)(t * 1e6);
		Tr tr = truth(t);
		V3 v = tr.v;

		if (const Fault *f = on(F_STUCK, GPS, t)) { v = truth(f->t0).v; }

		if (const Fault *f = on(F_VEL, GPS, t)) { v = v + V3(f->a, f->b, f->c); }

		double nv = s.g("nvel", 0);

		if (const Fault *f = on(F_NOISE, GPS, t)) { nv += f->a; }

		v = v + V3(gauss(seed, 10, i), gauss(seed, 11, i), gauss(seed, 12, i)) * nv;
		double att = s.g("natt", 0) * gauss(seed, 13, i);

		if (const Fault *f = on(F_ROT, MAG, t)) { att += f->a; }

		const Q q0 = Q(std::cos(att / 2), 0, 0, std::sin(att / 2)) * tr.q;
		const matrix::Quatf qf((float)q0.w, (float)q0.x, (float)q0.y, (float)q0.z);
		const Q q(qf(0), qf(1), qf(2), qf(3));
		const matrix::Vector3f vf = f3(v);
		v = d3(vf);
		double var = s.g("velvar", 0.1);

		if (const Fault *f = on(F_QUALITY, GPS, t)) { var *= f->c; }

		const matrix::Vector2f vv((float)var, (float)(var * s.g("aniso", 1)));
		d.lowSpeed = std::hypot(v.x, v.y) < 3;
		const Fault *lu = on(F_LOSS, BARO, t), *lb = on(F_LOSS, EV, t), *la = on(F_LOSS, ASP, t);
		const bool doUpd = !(lu && unif(seed, 20, i) < lu->a);
		const bool doBeta = s.g("beta", 1) > 0 && !(lb && unif(seed, 21, i) < lb->a);
		const bool doAsp = s.g("asp", 1) > 0 && t - lastAsp >= adt && !(la && unif(seed, 22, i) < la->a);
		auto upd = [&]() {
			if (!doUpd) { return; }

			d.e.update(now);
			d.call("predict", now, [&](Ref & r, bool, bool &) { predict(r, now); return K_NONE; }, [](Ref &) {});
		};
		auto asp = [&]() {
			if (!doAsp) { return; }

			lastAsp = t;
			const Fault *dl = on(F_DELAY, ASP, t), *st = on(F_STUCK, ASP, t);
			double m = (st ? truth(st->t0) : dl ? truth(std::max(0.0, t - dl->a * 1e-6)) : tr).tas * s.g("scale", 1);
			double n = s.g("nasp", 0);

			if (const Fault *f = on(F_NOISE, ASP, t)) { n += f->a; }

			m += n * gauss(seed, 14, i);

			if (const Fault *f = on(F_BIAS, ASP, t)) { m += f->a; }

			if (const Fault *f = on(F_SPIKE, ASP, t)) { if (unif(seed, 23, i) < f->a) { m += f->b; } }

			const float mf = (float)std::max(0.0, m);
			const Fault *du = on(F_DUP, ASP, t);

			for (int rep = 0; rep < (du && unif(seed, 24, i) < du->a ? 2 : 1); rep++) {
				d.e.fuse_airspeed(now, mf, vf, vv);
				d.call("airspeed", now, [&](Ref & r, bool alt, bool & near) { return airspeed(r, now, mf, v, vv(0), vv(1), alt, near); },
				[&](Ref & r) { const bool first = !d.was; initialise(r, v, first ? std::max(0.01, (double)vv(0)) : 0.1, first ? std::max(0.01, (double)vv(1)) : 0.1, mf); });
			}
		};
		auto beta = [&]() {
			if (!doBeta) { return; }

			d.e.fuse_beta(now, vf, qf);
			d.call("sideslip", now, [&](Ref & r, bool alt, bool & near) { return sideslip(r, now, v, q, alt, near); }, [&](Ref & r) { initialise(r, v, 0.1, 0.1, v.norm()); });
		};

		switch ((int)s.g("order", 0)) {
		case 0: upd(); asp(); beta(); break;
		case 1: upd(); beta(); asp(); break;
		default: asp(); beta(); upd(); break;
		}

		if (out.viol.size() >= 19) { break; }
	}

	out.simSeconds += dur;
	out.nontrivial = out.cnt["airspeed_fused"] + out.cnt["sideslip_fused"] > 20;
}
Reg reg({"P17", gen, exec, "a run counts when at least 20 measurements were fused by the stand-alone wind estimator and every call was compared with the reference"});
}
