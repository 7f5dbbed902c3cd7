// Deterministic simulator for the ECL estimator: scenario, world model and harness.
#include "core.h"

#include <cstdarg>
#include <new>
#include <sstream>

namespace worldmag
{
#include "world_mag_tables.hpp"	// the simulated planet's magnetic field (WMM-2020 samples)
}

namespace sim
{

const char *const kSensorName[NSENS] = {"imu", "mag", "baro", "gps", "asp", "rng", "flow", "ev", "aux"};
const char *const kFaultName[NFAULT] = {"loss", "dup", "delay", "reorder", "bias", "stuck", "noise", "spike", "quality",
					"clip", "vib", "tsjit", "tsskew", "imugap", "rot", "vel", "tsfreeze"
				       };
const char *const kOpName[NOP] = {"inair", "fw", "beta", "gndeff", "origin", "origalt", "rstbias", "rstgyr", "rstacc",
				  "rstmag", "restart", "param", "read", "rnglim", "flowlim", "gpshealth", "airdens",
				  "allocfail", "clearev"
				 };

std::string fmt(const char *f, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

std::vector<Check> &checks()
{
	static std::vector<Check> c;
	return c;
}

// ------------------------------------------------------------------ quaternion from axes
Q Q::fromAxes(const V3 &bx, const V3 &by, const V3 &bz)
{
	const double m00 = bx.x, m10 = bx.y, m20 = bx.z, m01 = by.x, m11 = by.y, m21 = by.z, m02 = bz.x, m12 = bz.y, m22 = bz.z;
	const double tr = m00 + m11 + m22;
	Q q;

	if (tr > 0) {
		const double s = std::sqrt(tr + 1.0) * 2;
		q = {0.25 * s, (m21 - m12) / s, (m02 - m20) / s, (m10 - m01) / s};

	} else if (m00 > m11 && m00 > m22) {
		const double s = std::sqrt(1.0 + m00 - m11 - m22) * 2;
		q = {(m21 - m12) / s, 0.25 * s, (m01 + m10) / s, (m02 + m20) / s};

	} else if (m11 > m22) {
		const double s = std::sqrt(1.0 + m11 - m00 - m22) * 2;
		q = {(m02 - m20) / s, (m01 + m10) / s, 0.25 * s, (m12 + m21) / s};

	} else {
		const double s = std::sqrt(1.0 + m22 - m00 - m11) * 2;
		q = {(m10 - m01) / s, (m02 + m20) / s, (m12 + m21) / s, 0.25 * s};
	}

	return q.unit();
}

// ------------------------------------------------------------------ parameters
namespace
{
struct PEntry {
	const char *name;
	double (*get)(const parameters &);
	void (*set)(parameters &, double);
};
#define PE(n) {#n, [](const parameters &p) -> double { return (double)p.n; }, [](parameters &p, double v) { p.n = (decltype(p.n))v; }}
#define PV(n, i, ax) {#n "." ax, [](const parameters &p) -> double { return (double)p.n(i); }, [](parameters &p, double v) { p.n(i) = (float)v; }}
#define PV3(n) PV(n, 0, "x"), PV(n, 1, "y"), PV(n, 2, "z")
const PEntry kParams[] = {
	PE(fusion_mode), PE(vdist_sensor_type), PE(terrain_fusion_mode), PE(sensor_interval_min_ms),
	PE(mag_delay_ms), PE(baro_delay_ms), PE(gps_delay_ms), PE(airspeed_delay_ms), PE(flow_delay_ms), PE(range_delay_ms),
	PE(ev_delay_ms), PE(auxvel_delay_ms), PE(gyro_noise), PE(accel_noise), PE(gyro_bias_p_noise), PE(accel_bias_p_noise),
	PE(mage_p_noise), PE(magb_p_noise), PE(wind_vel_p_noise), PE(wind_vel_p_noise_scaler), PE(terrain_p_noise),
	PE(terrain_gradient), PE(switch_on_gyro_bias), PE(switch_on_accel_bias), PE(initial_tilt_err),
	PE(initial_wind_uncertainty), PE(gps_vel_noise), PE(gps_pos_noise), PE(pos_noaid_noise), PE(baro_noise),
	PE(baro_innov_gate), PE(gps_pos_innov_gate), PE(gps_vel_innov_gate), PE(gnd_effect_deadzone), PE(gnd_effect_max_hgt),
	PE(mag_heading_noise), PE(mag_noise), PE(mag_declination_deg), PE(heading_innov_gate), PE(mag_innov_gate),
	PE(mag_declination_source), PE(mag_fusion_type), PE(mag_acc_gate), PE(mag_yaw_rate_gate), PE(quat_max_variance),
	PE(tas_innov_gate), PE(eas_noise), PE(beta_innov_gate), PE(beta_noise), PE(beta_avg_ft_us), PE(range_noise),
	PE(range_innov_gate), PE(rng_gnd_clearance), PE(rng_sens_pitch), PE(range_noise_scaler), PE(vehicle_variance_scaler),
	PE(max_hagl_for_range_aid), PE(max_vel_for_range_aid), PE(range_aid), PE(range_aid_innov_gate),
	PE(range_valid_quality_s), PE(range_cos_max_tilt), PE(ev_vel_innov_gate), PE(ev_pos_innov_gate), PE(flow_noise),
	PE(flow_noise_qual_min), PE(flow_qual_min), PE(flow_innov_gate), PE(gps_check_mask), PE(req_hacc), PE(req_vacc),
	PE(req_sacc), PE(req_nsats), PE(req_pdop), PE(req_hdrift), PE(req_vdrift), PV3(imu_pos_body), PV3(gps_pos_body),
	PV3(rng_pos_body), PV3(flow_pos_body), PV3(ev_pos_body), PE(vel_Tau), PE(pos_Tau), PE(acc_bias_lim),
	PE(acc_bias_learn_acc_lim), PE(acc_bias_learn_gyr_lim), PE(acc_bias_learn_tc), PE(reset_timeout_max),
	PE(no_aid_timeout_max), PE(valid_timeout_max), PE(static_pressure_coef_xp), PE(static_pressure_coef_xn),
	PE(static_pressure_coef_yp), PE(static_pressure_coef_yn), PE(static_pressure_coef_z), PE(max_correction_airspeed),
	PE(drag_noise), PE(bcoef_x), PE(bcoef_y), PE(vert_innov_test_lim), PE(bad_acc_reset_delay_us), PE(auxvel_noise),
	PE(auxvel_gate), PE(is_moving_scaler), PE(synthesize_mag_z), PE(check_mag_strength), PE(EKFGSF_tas_default),
	PE(EKFGSF_reset_delay), PE(EKFGSF_yaw_err_max), PE(EKFGSF_reset_count_limit),
};
const PEntry *findParam(const std::string &n)
{
	for (const PEntry &e : kParams) { if (n == e.name) { return &e; } }

	return nullptr;
}
}
bool setParam(parameters &p, const std::string &name, double value)
{
	const PEntry *e = findParam(name);

	if (!e) { return false; }

	e->set(p, value);
	return true;
}
double getParam(const parameters &p, const std::string &name)
{
	const PEntry *e = findParam(name);
	return e ? e->get(p) : NAN;
}
const std::vector<std::string> &paramNames()
{
	static std::vector<std::string> v;

	if (v.empty()) { for (const PEntry &e : kParams) { v.push_back(e.name); } }

	return v;
}
void applyParams(parameters &p, const Scn &s)
{
	for (const auto &kv : s.v) {
		if (kv.first.compare(0, 2, "P.") == 0) { setParam(p, kv.first.substr(2), kv.second); }
	}
}

// ------------------------------------------------------------------ scenario text form
std::string Scn::dump() const
{
	std::string o = "scenario " + check + "\n";

	for (const auto &kv : v) { o += fmt("v %s %.17g\n", kv.first.c_str(), kv.second); }

	for (const Leg &l : legs) { o += fmt("leg %.17g %.17g %.17g %.17g %.17g\n", l.t, l.vn, l.ve, l.vd, l.yawrate); }

	for (const Op &p : ops) { o += fmt("op %s %.17g %.17g %.17g %.17g\n", kOpName[p.kind], p.t, p.a, p.b, p.c); }

	for (const Fault &f : faults) {
		o += fmt("fault %s %s %.17g %.17g %.17g %.17g %.17g\n", kFaultName[f.kind], kSensorName[f.sensor], f.t0, f.t1, f.a, f.b, f.c);
	}

	for (const auto &d : drop) { o += fmt("drop %s %d\n", kSensorName[d.first], d.second); }

	return o;
}
static int findName(const char *const *tab, int n, const std::string &s)
{
	for (int i = 0; i < n; i++) { if (s == tab[i]) { return i; } }

	return -1;
}
bool Scn::parse(const std::string &text)
{
	*this = Scn();
	std::istringstream in(text);
	std::string line;

	while (std::getline(in, line)) {
		std::istringstream l(line);
		std::string w;
		l >> w;

		auto num = [&]() { std::string x; l >> x; return std::strtod(x.c_str(), nullptr); };

		if (w == "scenario") { l >> check; }

		else if (w == "v") { std::string k; l >> k; v[k] = num(); }

		else if (w == "leg") { Leg g; g.t = num(); g.vn = num(); g.ve = num(); g.vd = num(); g.yawrate = num(); legs.push_back(g); }

		else if (w == "op") {
			std::string k;
			l >> k;
			Op o;
			o.kind = findName(kOpName, NOP, k);

			if (o.kind < 0) { return false; }

			o.t = num(); o.a = num(); o.b = num(); o.c = num();
			ops.push_back(o);

		} else if (w == "fault") {
			std::string k, s;
			l >> k >> s;
			Fault f;
			f.kind = findName(kFaultName, NFAULT, k);
			f.sensor = findName(kSensorName, NSENS, s);

			if (f.kind < 0 || f.sensor < 0) { return false; }

			f.t0 = num(); f.t1 = num(); f.a = num(); f.b = num(); f.c = num();
			faults.push_back(f);

		} else if (w == "drop") {
			std::string s;
			int i;
			l >> s >> i;
			drop.push_back({findName(kSensorName, NSENS, s), i});
		}
	}

	return !check.empty();
}

// ------------------------------------------------------------------ planet
static constexpr double kR = 6371000.0;
static constexpr double kG = 9.80665;
static constexpr double kOmega = 7.2921150e-5;

void projInv(double lat0, double lon0, double x, double y, double &lat, double &lon)
{
	const double xr = x / kR, yr = y / kR, c = std::sqrt(xr * xr + yr * yr);
	const double la0 = lat0 * M_PI / 180, lo0 = lon0 * M_PI / 180;

	if (c <= 0) { lat = lat0; lon = lon0; return; }

	lat = std::asin(std::cos(c) * std::sin(la0) + xr * std::sin(c) * std::cos(la0) / c) * 180 / M_PI;
	lon = (lo0 + std::atan2(yr * std::sin(c), c * std::cos(la0) * std::cos(c) - xr * std::sin(la0) * std::sin(c))) * 180 / M_PI;
}
void projFwd(double lat0, double lon0, double lat, double lon, double &x, double &y)
{
	const double a0 = lat0 * M_PI / 180, o0 = lon0 * M_PI / 180, a = lat * M_PI / 180, o = lon * M_PI / 180;
	const double d = o - o0;
	// stable great circle distance + bearing
	const double sa = std::sin((a - a0) / 2), so = std::sin(d / 2);
	const double h = sa * sa + std::cos(a0) * std::cos(a) * so * so;
	const double dist = 2 * kR * std::atan2(std::sqrt(h), std::sqrt(std::max(0.0, 1 - h)));
	const double brg = std::atan2(std::sin(d) * std::cos(a), std::cos(a0) * std::sin(a) - std::sin(a0) * std::cos(a) * std::cos(d));
	x = dist * std::cos(brg);
	y = dist * std::sin(brg);
}

static double magTable(const int16_t (*t)[37], double lat, double lon)
{
	lat = std::min(89.999, std::max(-89.999, lat));

	while (lon >= 180) { lon -= 360; }

	while (lon < -180) { lon += 360; }

	const double fi = (lat + 90) / 10, fj = (lon + 180) / 10;
	int i = std::min(17, (int)fi), j = std::min(35, (int)fj);
	const double u = fi - i, v = fj - j;
	return 1e-4 * ((1 - u) * ((1 - v) * t[i][j] + v * t[i][j + 1]) + u * ((1 - v) * t[i + 1][j] + v * t[i + 1][j + 1]));
}
double worldDecl(double lat, double lon) { return magTable(worldmag::declination_table, lat, lon); }
double worldIncl(double lat, double lon) { return magTable(worldmag::inclination_table, lat, lon); }
double worldStrength(double lat, double lon) { return magTable(worldmag::strength_table, lat, lon); }

TruthK World::at(double t) const
{
	if (truth.empty()) { return TruthK(); }

	size_t lo = 0, hi = truth.size() - 1;

	if (t <= (double)truth[0].t) { return truth[0]; }

	if (t >= (double)truth[hi].t) { return truth[hi]; }

	while (hi - lo > 1) {
		const size_t m = (lo + hi) / 2;

		if ((double)truth[m].t <= t) { lo = m; } else { hi = m; }
	}

	const TruthK &a = truth[lo], &b = truth[hi];
	const double T = ((double)b.t - (double)a.t) * 1e-6;
	const double f = (t - (double)a.t) * 1e-6 / T;
	TruthK r;
	r.t = (uint64_t)t;
	r.v = a.v + (b.v - a.v) * f;
	r.p = a.p + (a.v + r.v) * (0.5 * f * T);
	r.a = b.a;
	r.w = b.w;
	const V3 d = (a.q.inv() * b.q).log();
	r.q = (a.q * Q::exp(d * f)).unit();
	return r;
}

World makeWorld(const Scn &s)
{
	World w;
	const uint64_t seed = s.seed();
	parameters par;
	applyParams(par, s);
	w.t0 = (uint64_t)s.g("t0", 1000000);
	const double dur = s.g("dur", 30);
	w.t1 = w.t0 + (uint64_t)(dur * 1e6);
	w.lat0 = s.g("lat", 47.356);
	w.lon0 = s.g("lon", 8.519);
	w.alt0 = s.g("alt", 480);
	w.wind = V3(s.g("wind_n", 0), s.g("wind_e", 0), 0);
	w.gyroBias = V3(s.g("gb_x", 0), s.g("gb_y", 0), s.g("gb_z", 0));
	w.accBias = V3(s.g("ab_x", 0), s.g("ab_y", 0), s.g("ab_z", 0));
	w.gz0 = s.g("gnd", 0.2);
	w.gzn = s.g("gnd_n", 0);
	w.gze = s.g("gnd_e", 0);
	const double decl = worldDecl(w.lat0, w.lon0), incl = worldIncl(w.lat0, w.lon0), str = worldStrength(w.lat0, w.lon0);
	w.magNED = V3(std::cos(incl) * std::cos(decl), std::cos(incl) * std::sin(decl), std::sin(incl)) * str;
	w.qEv = Q::euler(0, 0, s.g("ev_yaw", 0));
	w.evOrig = V3(s.g("ev_on", 0), s.g("ev_oe", 0), s.g("ev_od", 0));
	const V3 omegaE = V3(std::cos(w.lat0 * M_PI / 180), 0, -std::sin(w.lat0 * M_PI / 180)) * (s.g("earth_rate", 1) * kOmega);
	const bool fw = s.g("fw", 0) > 0.5;
	const bool drag = s.g("drag", 0) > 0.5;
	const double rho = s.g("rho", 1.225);

	auto trel = [&](uint64_t t) { return (double)(t - w.t0) * 1e-6; };

	// ---- truth + imu ticks
	const double per = s.g("imu_us", 4000), jit = s.g("imu_jit", 0);
	TruthK k;
	k.t = w.t0;
	double yaw = s.g("yaw0", 0.3);
	k.q = Q::euler(s.g("tilt_r", 0), s.g("tilt_p", 0), yaw);
	w.truth.push_back(k);
	V3 acc(0, 0, 0);
	double chi = yaw;
	bool flying = false;
	const double attRate = s.g("att_rate", 3.0);

	while (k.t < w.t1) {
		const uint64_t idx = w.truth.size();
		uint64_t step = (uint64_t)std::llround(per * (1 + jit * (2 * unif(seed, 11, idx) - 1)));

		if (step < 200) { step = 200; }

		const double dt = step * 1e-6;
		TruthK n = k;
		n.t = k.t + step;
		const double t = trel(n.t);
		Leg leg;
		bool has = false;

		for (const Leg &l : s.legs) { if (l.t <= t) { leg = l; has = true; } }

		if (has && (leg.vn != 0 || leg.ve != 0 || leg.vd != 0 || leg.yawrate != 0)) { flying = true; }

		const double extraYaw = s.g("gnd_yawrate", 0);

		if (flying) {
			V3 cmd;

			if (fw) {
				chi = wrapPi(chi + leg.yawrate * dt);
				cmd = V3(leg.vn * std::cos(chi), leg.vn * std::sin(chi), leg.vd);

			} else {
				yaw = wrapPi(yaw + leg.yawrate * dt);
				cmd = V3(leg.vn, leg.ve, leg.vd);
			}

			V3 ac = (cmd - k.v) * (1 / s.g("tau_v", 0.8));

			if (fw) { ac += V3(-std::sin(chi), std::cos(chi), 0) * (leg.vn * leg.yawrate); }

			const double am = s.g("acc_max", 5);

			if (ac.norm() > am) { ac = ac * (am / ac.norm()); }

			const double al = dt / (0.3 + dt);
			acc = acc + (ac - acc) * al;
			n.v = k.v + acc * dt;
			n.p = k.p + (k.v + n.v) * (0.5 * dt);
			// attitude
			const V3 f = (n.v - k.v) * (1 / dt) - V3(0, 0, kG);
			Q qc;
			const V3 va = n.v - w.wind;

			if (fw && va.norm() > 6) {
				const V3 bx = va.unit();
				const V3 fo = f - bx * f.dot(bx);
				const V3 bz = -fo.unit();
				qc = Q::fromAxes(bx, bz.cross(bx), bz);
				yaw = qc.yaw();

			} else {
				V3 th = f;

				if (drag) {
					const V3 rel = k.q.irot(n.v - w.wind);
					const double sp = rel.norm();
					const V3 db(-0.5 * rho / par.bcoef_x * sp * rel.x, -0.5 * rho / par.bcoef_y * sp * rel.y, 0);
					th = f - k.q.rot(db);
				}

				const V3 bz = -th.unit();
				const V3 hx(std::cos(yaw), std::sin(yaw), 0);
				V3 by = bz.cross(hx).unit();
				qc = Q::fromAxes(by.cross(bz), by, bz);
			}

			V3 d = (k.q.inv() * qc).log();
			const double ang = d.norm();
			double stepAng = ang * (1 - std::exp(-dt / 0.15));

			if (stepAng > attRate * dt) { stepAng = attRate * dt; }

			if (ang > 1e-9) { d = d * (stepAng / ang); }

			// low pass the body rate so that angular acceleration stays realistic
			const V3 wdes = d * (1 / dt);
			V3 wn = k.w + (wdes - k.w) * (dt / (0.03 + dt));
			n.w = wn;
			n.q = (k.q * Q::exp(wn * dt)).unit();

		} else if (extraYaw != 0 && t > s.g("gnd_yaw_t", 5) && t < s.g("gnd_yaw_te", 8)) {
			n.q = (Q::euler(0, 0, extraYaw * dt) * k.q).unit();
			yaw = n.q.yaw();
			chi = yaw;
			n.w = k.q.irot(V3(0, 0, extraYaw));

		} else {
			n.w = V3();
		}

		n.a = (n.v - k.v) * (1 / dt);
		w.truth.push_back(n);
		k = n;
	}

	// ---- fault helpers
	auto active = [&](const Fault & f, int sensor, double t) { return f.sensor == sensor && t >= f.t0 && t < f.t1; };

	std::set<std::pair<int, int>> dropped(s.drop.begin(), s.drop.end());

	// ---- imu samples
	{
		const double ngyr = s.g("n.gyr", 0.0007), nacc = s.g("n.acc", 0.03);
		V3 gapAng, gapVel;
		double gapDt = 0;

		for (size_t i = 1; i < w.truth.size(); i++) {
			const TruthK &a = w.truth[i - 1], &b = w.truth[i];
			const double dt = (double)(b.t - a.t) * 1e-6;
			const double t = trel(b.t);
			V3 da = (a.q.inv() * b.q).log() + b.q.irot(omegaE) * dt;
			const Q qm = (a.q * Q::exp((a.q.inv() * b.q).log() * 0.5)).unit();
			V3 dv = qm.irot((b.v - a.v) - V3(0, 0, kG) * dt);
			V3 gn(gauss(seed, 21, i), gauss(seed, 22, i), gauss(seed, 23, i));
			V3 an(gauss(seed, 24, i), gauss(seed, 25, i), gauss(seed, 26, i));
			double gs = ngyr, as = nacc;
			V3 gb = w.gyroBias, ab = w.accBias;
			uint64_t ts = b.t;
			bool lost = false, gap = false, gapCarry = false, dup = false, stuck = false;
			double clipLim = 0;
			int clipAx = 0;

			for (const Fault &f : s.faults) {
				if (!active(f, IMU, t)) { continue; }

				switch (f.kind) {
				case F_LOSS: if (unif(seed, 31, i) < f.a) { lost = true; w.faultCount[F_LOSS]++; } break;

				case F_DUP: if (unif(seed, 32, i) < f.a) { dup = true; w.faultCount[F_DUP]++; } break;

				case F_BIAS: ab += V3(f.a, f.b, f.c); w.faultCount[F_BIAS]++; break;

				case F_VEL: gb += V3(f.a, f.b, f.c); w.faultCount[F_VEL]++; break;

				case F_NOISE: gs += f.a; as += f.b; w.faultCount[F_NOISE]++; break;

				case F_VIB: gs += f.a; as += f.b; w.faultCount[F_VIB]++; break;

				case F_SPIKE: if (unif(seed, 33, i) < f.a) { ab += V3(0, 0, f.b); w.faultCount[F_SPIKE]++; } break;

				case F_CLIP: clipLim = f.b; clipAx |= (int)f.a; break;

				case F_TSJIT: ts = (uint64_t)((int64_t)ts + (int64_t)(f.a * (2 * unif(seed, 34, i) - 1))); w.faultCount[F_TSJIT]++; break;

				case F_TSSKEW: ts = (uint64_t)((int64_t)ts + (int64_t)f.a); w.faultCount[F_TSSKEW]++; break;

				case F_TSFREEZE: ts = w.t0 + (uint64_t)(f.t0 * 1e6); w.faultCount[F_TSFREEZE]++; break;

				case F_IMUGAP: gap = true; gapCarry = f.a > 0.5; w.faultCount[F_IMUGAP]++; break;

				case F_STUCK: stuck = true; w.faultCount[F_STUCK]++; break;

				default: break;
				}
			}

			da += (gb + gn * gs) * dt;
			dv += (ab + an * as) * dt;
			imuSample m;
			m.time_us = ts;

			if (clipAx) {
				for (int c = 0; c < 3; c++) {
					if ((clipAx >> c) & 1) {
						double x = dv[c] / dt;

						if (std::fabs(x) > clipLim) {
							dv[c] = (x > 0 ? clipLim : -clipLim) * dt;
							m.delta_vel_clipping[c] = true;
							w.faultCount[F_CLIP]++;
						}
					}
				}
			}

			if (gap || lost || dropped.count({IMU, (int)i})) {
				if (gapCarry) { gapAng += da; gapVel += dv; gapDt += dt; }

				continue;
			}

			m.delta_ang = f3(da + gapAng);
			m.delta_vel = f3(dv + gapVel);
			m.delta_ang_dt = (float)(dt + gapDt);
			m.delta_vel_dt = (float)(dt + gapDt);
			gapAng = V3();
			gapVel = V3();
			gapDt = 0;

			if (stuck && !w.imu.empty()) {
				m.delta_ang = w.imu.back().delta_ang;
				m.delta_vel = w.imu.back().delta_vel;
			}

			w.imu.push_back(m);

			if (dup) { w.imu.push_back(m); }
		}
	}

	// ---- aiding sensors
	const V3 gpsOff = d3(par.gps_pos_body) - d3(par.imu_pos_body);
	const V3 evOff = d3(par.ev_pos_body) - d3(par.imu_pos_body);
	const V3 rngOff = d3(par.rng_pos_body) - d3(par.imu_pos_body);
	const V3 flowOff = d3(par.flow_pos_body) - d3(par.imu_pos_body);
	const double delayMs[NSENS] = {0, par.mag_delay_ms, par.baro_delay_ms, par.gps_delay_ms, par.airspeed_delay_ms,
				       par.range_delay_ms, par.flow_delay_ms, par.ev_delay_ms, par.auxvel_delay_ms
				      };
	uint32_t ord = 0;

	for (int sen = MAG; sen < NSENS; sen++) {
		const std::string nm = kSensorName[sen];
		const double hz = s.g("hz." + nm, 0);

		if (hz <= 0) { continue; }

		const double period = 1e6 / hz;
		const double phase = s.g("ph." + nm, std::floor(unif(seed, 40, sen) * period));
		const double on = s.g("on." + nm, 0) * 1e6, off = s.g("off." + nm, 1e9) * 1e6;
		const double latency = s.g("lat." + nm, 0), latj = s.g("lj." + nm, 0);
		const uint64_t S = 100 + 20 * (uint64_t)sen;

		for (int i = 0;; i++) {
			const double rel = phase + period * i;

			if (rel >= dur * 1e6) { break; }

			if (rel < on || rel >= off) { continue; }

			const uint64_t tmU = w.t0 + (uint64_t)rel;
			double tm = (double)tmU;
			const double t = rel * 1e-6;
			uint64_t ni = i;
			double noiseAdd = 0, bias[3] = {0, 0, 0}, rot = 0, velb[3] = {0, 0, 0};
			bool spike = false;
			double spikeMag = 0;
			const Fault *qual = nullptr;
			bool lost = false, dup = false, quantStuck = false;
			double dupLag = 0, extra = 0;
			int64_t tsOff = 0;
			double freeze = -1;

			for (const Fault &f : s.faults) {
				if (!active(f, sen, t)) { continue; }

				switch (f.kind) {
				case F_LOSS: if (unif(seed, S + 1, i) < f.a) { lost = true; w.faultCount[F_LOSS]++; } break;

				case F_DUP: if (unif(seed, S + 2, i) < f.a) { dup = true; dupLag = f.b; w.faultCount[F_DUP]++; } break;

				case F_DELAY: extra += f.a + f.b * unif(seed, S + 3, i); w.faultCount[F_DELAY]++; break;

				case F_REORDER: if (unif(seed, S + 4, i) < f.a) { extra += f.b; w.faultCount[F_REORDER]++; } break;

				case F_BIAS: bias[0] += f.a; bias[1] += f.b; bias[2] += f.c; w.faultCount[F_BIAS]++; break;

				case F_VEL: velb[0] += f.a; velb[1] += f.b; velb[2] += f.c; w.faultCount[F_VEL]++; break;

				case F_ROT: rot += f.a; w.faultCount[F_ROT]++; break;

				case F_STUCK: quantStuck = true; tm = (double)w.t0 + f.t0 * 1e6; ni = (uint64_t)(f.t0 * 1e3) + 777777; w.faultCount[F_STUCK]++; break;

				case F_NOISE: noiseAdd += f.a; w.faultCount[F_NOISE]++; break;

				case F_SPIKE: if (unif(seed, S + 5, i) < f.a) { spike = true; spikeMag = f.b; w.faultCount[F_SPIKE]++; } break;

				case F_QUALITY: qual = &f; w.faultCount[F_QUALITY]++; break;

				case F_TSJIT: tsOff += (int64_t)(f.a * (2 * unif(seed, S + 6, i) - 1)); w.faultCount[F_TSJIT]++; break;

				case F_TSSKEW: tsOff += (int64_t)f.a; w.faultCount[F_TSSKEW]++; break;

				case F_TSFREEZE: freeze = f.t0 * 1e6; w.faultCount[F_TSFREEZE]++; break;

				default: break;
				}
			}

			if (lost || dropped.count({sen, i})) { continue; }

			(void)quantStuck;
			const TruthK k2 = w.at(tm);
			const double n0 = gauss(seed, S + 7, ni), n1 = gauss(seed, S + 8, ni), n2 = gauss(seed, S + 9, ni);
			const double n3 = gauss(seed, S + 10, ni), n4 = gauss(seed, S + 11, ni), n5 = gauss(seed, S + 12, ni);
			const uint64_t ts = (uint64_t)((int64_t)((freeze >= 0 ? w.t0 + (uint64_t)freeze : tmU) + (uint64_t)std::llround(delayMs[sen] * 1000)) + tsOff);
			int idx = 0;
			// reported accuracies that wander slowly
			const float accF = s.g("acc_var", 0) > 0 ? (float)std::exp(s.g("acc_var", 0) * gauss(seed, S + 16, ni / 16)) : 1.f;

			switch (sen) {
			case MAG: {
					const double nn = s.g("n.mag", 0.005) + noiseAdd;
					V3 m = k2.q.irot(Q::euler(0, 0, rot).rot(w.magNED));
					m += V3(s.g("mb_x", 0) + bias[0] + n0 * nn, s.g("mb_y", 0) + bias[1] + n1 * nn, s.g("mb_z", 0) + bias[2] + n2 * nn);

					if (spike) { m.x += spikeMag; }

					magSample x;
					x.time_us = ts;
					x.mag = f3(m);
					idx = (int)w.mag.size();
					w.mag.push_back(x);
					break;
				}

			case BARO: {
					baroSample x;
					x.time_us = ts;
					x.hgt = (float)(w.alt0 + s.g("baro_off", 0) + s.g("baro_drift", 0) * t - k2.p.z + n0 * (s.g("n.baro", 0.1) + noiseAdd) + bias[0] + (spike ? spikeMag : 0));
					idx = (int)w.baro.size();
					w.baro.push_back(x);
					break;
				}

			case GPS: {
					gps_message x{};
					x.time_usec = ts;
					const double nnp = s.g("n.gpsp", 0.15) + noiseAdd, nnv = s.g("n.gpsv", 0.05) + noiseAdd * 0.3;
					V3 p = k2.p + k2.q.rot(gpsOff) + V3(n0 * nnp + bias[0], n1 * nnp + bias[1], n2 * nnp * 1.5 + bias[2]);
					V3 v = k2.v + k2.q.rot(k2.w.cross(gpsOff)) + V3(n3 * nnv, n4 * nnv, n5 * nnv) + V3(velb[0], velb[1], velb[2]);

					if (rot != 0) { v = Q::euler(0, 0, rot).rot(v); }

					if (spike) { p.x += spikeMag; v.x += s.g("spike_v", 0) * spikeMag; }

					double la = NAN, lo = NAN;
					projInv(w.lat0, w.lon0, p.x, p.y, la, lo);
					x.lat = (int32_t)std::llround(la * 1e7);
					x.lon = (int32_t)std::llround(lo * 1e7);
					x.alt = (int32_t)std::llround((w.alt0 - p.z) * 1e3);
					// heading of the line between the antennas, less the angle gps_yaw_off at which it is mounted (as the driver reports it)
					const V3 ant = k2.q.rot(V3(std::cos(s.g("gps_yaw_off", 0)), std::sin(s.g("gps_yaw_off", 0)), 0));
					x.yaw = s.g("gps_yaw", 0) > 0.5 ? (float)wrapPi(std::atan2(ant.y, ant.x) - s.g("gps_yaw_off", 0) + gauss(seed, S + 13, ni) * s.g("n.gpsyaw", 0.02)) : NAN;
					x.yaw_offset = s.g("gps_yaw", 0) > 0.5 ? (float)s.g("gps_yaw_off", 0) : NAN;
					x.fix_type = (uint8_t)s.g("gps_fix", 3);
					x.eph = (float)s.g("gps_eph", 0.8) * accF;
					x.epv = (float)s.g("gps_epv", 1.2) * accF;
					x.sacc = (float)s.g("gps_sacc", 0.2) * accF;
					x.nsats = (uint8_t)s.g("gps_nsats", 16);
					x.pdop = (float)s.g("gps_pdop", 1.0);
					x.vel_ned = f3(v);
					x.vel_m_s = (float)std::sqrt(v.x * v.x + v.y * v.y);
					x.vel_ned_valid = s.g("gps_velvalid", 1) > 0.5;

					if (qual) {
						if (qual->a >= 0) { x.fix_type = (uint8_t)qual->a; }

						if (qual->b >= 0) { x.nsats = (uint8_t)qual->b; }

						if (qual->c > 0) { x.eph *= (float)qual->c; x.epv *= (float)qual->c; x.sacc *= (float)qual->c; }

						if (qual->c < 0) { x.pdop = 99.f; }
					}

					idx = (int)w.gps.size();
					w.gps.push_back(x);
					break;
				}

			case ASP: {
					airspeedSample x;
					x.time_us = ts;
					x.eas2tas = (float)s.g("eas2tas", 1);
					x.true_airspeed = (float)((k2.v - w.wind).norm() + n0 * (s.g("n.asp", 0.2) + noiseAdd) + bias[0] + (spike ? spikeMag : 0));
					idx = (int)w.asp.size();
					w.asp.push_back(x);
					break;
				}

			case RNG: {
					rangeSample x;
					x.time_us = ts;
					const V3 sp = k2.p + k2.q.rot(rngOff);
					const double pt = par.rng_sens_pitch;
					const V3 beam = k2.q.rot(V3(std::sin(pt), 0, std::cos(pt)));
					// intersection with plane z = gz0 + gzn*n + gze*e
					const double den = beam.z - w.gzn * beam.x - w.gze * beam.y;
					const double num = w.ground(sp.x, sp.y) - sp.z;
					double r = den > 0.05 ? num / den : 1e3;

					if (r < 0) { r = 0; }

					double rr = r + n0 * (s.g("n.rng", 0.02) + noiseAdd) + bias[0] + (spike ? spikeMag : 0);

					if (rr < 0.01) { rr = 0.01; }

					x.rng = (float)rr;
					x.quality = qual ? (int8_t)qual->a : (int8_t)s.g("rng_q", 100);

					if (r > s.g("rng_max", 200) && s.g("rng_oor_q0", 1) > 0.5) { x.quality = 0; }

					idx = (int)w.rng.size();
					w.rng.push_back(x);
					break;
				}

			case FLOW: {
					flowSample x{};
					x.time_us = ts;
					x.dt = (float)(period * 1e-6);

					if (s.g("flow_dt", 0) > 0) { x.dt = (float)s.g("flow_dt", 0); }

					const V3 fp = k2.p + k2.q.rot(flowOff);
					const V3 bz = k2.q.rot(V3(0, 0, 1));
					double range = (w.ground(fp.x, fp.y) - fp.z) / std::max(0.1, bz.z - w.gzn * bz.x - w.gze * bz.y);

					if (range < 0.05) { range = 0.05; }

					const V3 vb = k2.q.irot(k2.v) + k2.w.cross(flowOff);
					const double nn = s.g("n.flow", 0.02) + noiseAdd;
					double lx = vb.y / range + n0 * nn + bias[0] + (spike ? spikeMag : 0), ly = -vb.x / range + n1 * nn + bias[1];
					const V3 g = -(k2.w + w.gyroBias * s.g("flow_gyro_bias", 0)) * x.dt;
					x.gyro_xyz = f3(g);
					x.flow_xy_rad(0) = (float)(lx * x.dt + g.x);
					x.flow_xy_rad(1) = (float)(ly * x.dt + g.y);

					if (s.g("flow_nogyro", 0) > 0.5) { x.gyro_xyz = matrix::Vector3f(NAN, NAN, NAN); }

					x.quality = qual ? (uint8_t)qual->a : (uint8_t)s.g("flow_q", 255);
					idx = (int)w.flow.size();
					w.flow.push_back(x);
					break;
				}

			case EV: {
					extVisionSample x;
					x.time_us = ts;
					const double np = s.g("n.evp", 0.02) + noiseAdd, nv = s.g("n.evv", 0.03) + noiseAdd, nq = s.g("n.evq", 0.01);
					const V3 p = w.qEv.irot(k2.p + k2.q.rot(evOff) - w.evOrig);
					V3 v = k2.v + k2.q.rot(k2.w.cross(evOff));
					const bool bodyFrame = s.g("ev_body", 0) > 0.5;
					v = bodyFrame ? k2.q.irot(v) : w.qEv.irot(v);
					x.pos = f3(p + V3(n0 * np + bias[0] + (spike ? spikeMag : 0), n1 * np + bias[1], n2 * np + bias[2]));
					x.vel = f3(v + V3(n3 * nv + velb[0], n4 * nv + velb[1], n5 * nv + velb[2]));
					Q q = (w.qEv.inv() * Q::euler(0, 0, rot) * k2.q).unit();
					q = (Q::euler(0, 0, gauss(seed, S + 14, ni) * nq) * q).unit();
					x.quat = matrix::Quatf((float)q.w, (float)q.x, (float)q.y, (float)q.z);
					const float pv = (float)s.g("ev_pvar", 0.0025) * accF, vv = (float)s.g("ev_vvar", 0.01) * accF, an = (float)s.g("ev_an", 1), co = (float)s.g("ev_corr", 0);
					x.posVar = matrix::Vector3f(pv * an, pv, pv / an);
					x.velCov.setZero();
					const float vd[3] = {vv * an, vv / an, vv};

					for (int c = 0; c < 3; c++) { for (int c2 = 0; c2 < 3; c2++) { x.velCov(c, c2) = c == c2 ? vd[c] : co * std::sqrt(vd[c] * vd[c2]); } }

					x.angVar = (float)s.g("ev_avar", 0.0025) * accF;
					x.vel_frame = bodyFrame ? velocity_frame_t::BODY_FRAME_FRD : velocity_frame_t::LOCAL_FRAME_FRD;
					idx = (int)w.ev.size();
					w.ev.push_back(x);
					break;
				}

			case AUX: {
					auxVelSample x;
					x.time_us = ts;
					const double nn = s.g("n.aux", 0.05) + noiseAdd;
					x.vel = f3(k2.v + V3(n0 * nn + bias[0] + (spike ? spikeMag : 0), n1 * nn + bias[1], 0));
					const float vv = (float)s.g("aux_var", 0.04) * accF, an = (float)s.g("ev_an", 1);
					x.velVar = matrix::Vector3f(vv * an, vv / an, vv);
					idx = (int)w.aux.size();
					w.aux.push_back(x);
					break;
				}

			default: break;
			}

			Ev e;
			e.ts = ts;
			e.arr = (uint64_t)((int64_t)(tmU + (uint64_t)std::llround(delayMs[sen] * 1000)) + (int64_t)(latency + latj * unif(seed, S + 15, i) + extra));
			e.ord = ord++;
			e.type = sen;
			e.idx = idx;
			w.events.push_back(e);

			if (dup) {
				e.arr += (uint64_t)dupLag;
				e.ord = ord++;
				w.events.push_back(e);
			}
		}
	}

	std::sort(w.events.begin(), w.events.end(), [](const Ev & a, const Ev & b) { return a.arr != b.arr ? a.arr < b.arr : a.ord < b.ord; });
	return w;
}

// ------------------------------------------------------------------ allocation faults
int g_failAllocAt = 0;
int g_allocCount = 0;

} // namespace sim

// The estimator allocates only through new T[] (ring buffers). Once armed, the n-th array allocation fails.
// -fcheck-new makes the null return visible to the caller, as on the embedded targets.
static void *simArrayNew(std::size_t n) noexcept
{
	if (sim::g_failAllocAt > 0) {
		sim::g_allocCount++;

		if (sim::g_allocCount >= sim::g_failAllocAt) { return nullptr; }
	}

	return std::malloc(n ? n : 1);
}
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wall"
void *operator new[](std::size_t n) { return simArrayNew(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return simArrayNew(n); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
#pragma GCC diagnostic pop

namespace sim
{

// ------------------------------------------------------------------ vehicle
Vehicle::Vehicle(uint8_t fill)
{
	mem = std::malloc(sizeof(Ekf) + 64);
	recreate(fill);
}
Vehicle::~Vehicle()
{
	if (ekf) { ekf->~Ekf(); }

	std::free(mem);
}
void Vehicle::recreate(uint8_t fill)
{
	if (ekf) { ekf->~Ekf(); }

	std::memset(mem, fill, sizeof(Ekf) + 64);
	void *p = (void *)(((uintptr_t)mem + 63) & ~(uintptr_t)63);
	const int armed = g_failAllocAt;	// construction itself has no way to report a failure: allocation faults act afterwards
	g_failAllocAt = 0;
	ekf = new (p) Ekf;
	g_failAllocAt = armed;
}

void deliver(Ekf &ekf, const World &w, const Ev &ev)
{
	switch (ev.type) {
	case MAG: ekf.setMagData(w.mag[ev.idx]); break;

	case BARO: ekf.setBaroData(w.baro[ev.idx]); break;

	case GPS: ekf.setGpsData(w.gps[ev.idx]); break;

	case ASP: ekf.setAirspeedData(w.asp[ev.idx]); break;

	case RNG: ekf.setRangeData(w.rng[ev.idx]); break;

	case FLOW: ekf.setOpticalFlowData(w.flow[ev.idx]); break;

	case EV: ekf.setExtVisionData(w.ev[ev.idx]); break;

	case AUX: ekf.setAuxVelData(w.aux[ev.idx]); break;

	default: break;
	}
}

void applyOp(Ekf &ekf, const Op &op)
{
	switch (op.kind) {
	case O_INAIR: ekf.set_in_air_status(op.a > 0.5); break;

	case O_FW: ekf.set_is_fixed_wing(op.a > 0.5); break;

	case O_BETA: ekf.set_fuse_beta_flag(op.a > 0.5); break;

	case O_GNDEFF: ekf.set_gnd_effect_flag(op.a > 0.5); break;

	case O_ORIGIN: ekf.setEkfGlobalOrigin(op.a, op.b, (float)op.c); break;

	case O_ORIGALT: break; // declared by the estimator but not implemented at this commit

	case O_RSTBIAS: ekf.resetImuBias(); break;

	case O_RSTGYR: ekf.resetGyroBias(); break;

	case O_RSTACC: ekf.resetAccelBias(); break;

	case O_RSTMAG: ekf.resetMagBias(); break;

	case O_PARAM: {
			const auto &n = paramNames();
			const size_t i = (size_t)op.a;

			if (i < n.size()) { setParam(*ekf.getParamHandle(), n[i], op.b); }

			break;
		}

	case O_READ: (void)digest(ekf); break;

	case O_RNGLIM: ekf.set_rangefinder_limits((float)op.a, (float)op.b); break;

	case O_FLOWLIM: ekf.set_optical_flow_limits((float)op.a, (float)op.b, (float)op.c); break;

	case O_GPSHEALTH: ekf.set_min_required_gps_health_time((uint32_t)op.a); break;

	case O_AIRDENS: ekf.set_air_density((float)op.a); break;

	case O_ALLOCFAIL: g_failAllocAt = (int)op.a; g_allocCount = 0; break;

	case O_CLEAREV: ekf.clear_warning_events(); ekf.clear_information_events(); break;

	default: break;
	}
}

void run(const Scn &s, const World &w, Vehicle &veh, Hooks &h)
{
	applyParams(*veh.e().getParamHandle(), s);
	const int order = (int)s.g("order", 0);
	const double statusPeriod = s.g("status_period", 0.5) * 1e6;
	std::vector<Op> ops = s.ops;
	std::stable_sort(ops.begin(), ops.end(), [](const Op & a, const Op & b) { return a.t < b.t; });
	size_t io = 0, ie = 0;
	std::map<int, Op> sticky; // last value of each "configuration" call, re-applied after a restart
	std::map<int, Op> stickyParam;
	double nextStatus = (double)w.t0;
	const uint8_t fill = (uint8_t)s.g("fill", 0);

	for (size_t k = 0; k < w.imu.size(); k++) {
		const imuSample &m = w.imu[k];
		const uint64_t now = m.time_us;
		const double trel = (double)(now - w.t0) * 1e-6;

		auto feed = [&]() {
			while (ie < w.events.size() && w.events[ie].arr <= now) {
				h.onDeliver(w.events[ie], w, veh.e());
				deliver(veh.e(), w, w.events[ie]);
				ie++;
			}
		};

		// a restart happens between two cycles
		for (size_t j = io; j < ops.size() && ops[j].t <= trel; j++) {
			if (ops[j].kind == O_RESTART) {
				h.onOpBefore(ops[j], veh.e());

				if (ops[j].a > 0.5) {
					veh.e().init(now);

				} else {
					veh.recreate(fill);
					applyParams(*veh.e().getParamHandle(), s);

					for (auto &kv : stickyParam) { applyOp(veh.e(), kv.second); }
				}

				nextStatus = 0;

				for (auto &kv : sticky) {
					if (kv.first == O_RNGLIM || kv.first == O_FLOWLIM || kv.first == O_GPSHEALTH || kv.first == O_AIRDENS) { applyOp(veh.e(), kv.second); }
				}

				h.onOp(ops[j], veh.e());
			}
		}

		if (order == 1) { feed(); }

		h.preImu(m, veh.e());
		veh.e().setIMUData(m);

		while (io < ops.size() && ops[io].t <= trel) {
			const Op &o = ops[io++];

			if (o.kind == O_RESTART) { continue; }

			if (o.kind == O_PARAM) { stickyParam[(int)o.a] = o; }

			if (o.kind == O_INAIR || o.kind == O_FW || o.kind == O_BETA || o.kind == O_RNGLIM || o.kind == O_FLOWLIM
			    || o.kind == O_GPSHEALTH || o.kind == O_AIRDENS) { sticky[o.kind] = o; }

			h.onOpBefore(o, veh.e());
			applyOp(veh.e(), o);
			h.onOp(o, veh.e());
		}

		if (statusPeriod > 0 && (double)now >= nextStatus) {
			for (int kd : {O_INAIR, O_FW, O_BETA}) {
				auto it = sticky.find(kd);

				if (it != sticky.end()) { applyOp(veh.e(), it->second); }
			}

			nextStatus = (double)now + statusPeriod;
		}

		if (order == 0) { feed(); }

		StepInfo st;
		st.t = now;
		st.k = (int)k;
		st.updated = false;
		h.preUpdate(st, veh.e());
		st.updated = veh.e().update();

		if (!h.onStep(st, veh.e())) { break; }
	}

	g_failAllocAt = 0;
}

// ------------------------------------------------------------------ everything the estimator publishes
void visitAll(Ekf &e, const FieldFn &f)
{
	auto vec = [&](const char *n, const auto & v, int len) { for (int i = 0; i < len; i++) { f(n, i, (float)v(i)); } };

	const auto x = e.getStateAtFusionHorizonAsVector();
	vec("state", x, 24);
	const auto &P = e.covariances();

	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { f("P", i * 24 + j, P(i, j)); } }

	const auto q = e.getQuaternion();
	vec("quat", q, 4);
	vec("vel", e.getVelocity(), 3);
	vec("pos", e.getPosition(), 3);
	vec("vel_deriv", e.getVelocityDerivative(), 3);
	f("vert_deriv", 0, e.getVerticalPositionDerivative());
	const auto cq = e.calculate_quaternion();
	vec("calc_quat", cq, 4);
	vec("track_err", e.getOutputTrackingError(), 3);
	vec("vibe", e.getImuVibrationMetrics(), 3);
	f("dt_imu_avg", 0, e.get_dt_imu_avg());
	auto u32 = [&](const char *n, uint32_t v) { f(n, 0, (float)(v & 0xffff)); f(n, 1, (float)(v >> 16)); };
	u32("control", e.control_status().value);
	u32("control_prev", e.control_status_prev().value);
	u32("fault", e.fault_status().value);
	u32("innov_fail", e.innov_check_fail_status().value);
	u32("warn", e.warning_event_status().value);
	u32("info", e.information_event_status().value);
	float hv[2] = {NAN, NAN}, hp[2] = {NAN, NAN}, a = NAN, b = NAN, c = NAN, d = NAN;
	auto vp = [&](const char *n) { f(n, 0, hv[0]); f(n, 1, hv[1]); f(n, 2, a); f(n, 3, hp[0]); f(n, 4, hp[1]); f(n, 5, b); };
	e.getGpsVelPosInnov(hv, a, hp, b); vp("gps_innov");
	e.getGpsVelPosInnovVar(hv, a, hp, b); vp("gps_innov_var");
	e.getGpsVelPosInnovRatio(a, b, c, d); f("gps_ratio", 0, a); f("gps_ratio", 1, b); f("gps_ratio", 2, c); f("gps_ratio", 3, d);
	e.getEvVelPosInnov(hv, a, hp, b); vp("ev_innov");
	e.getEvVelPosInnovVar(hv, a, hp, b); vp("ev_innov_var");
	e.getEvVelPosInnovRatio(a, b, c, d); f("ev_ratio", 0, a); f("ev_ratio", 1, b); f("ev_ratio", 2, c); f("ev_ratio", 3, d);
	e.getBaroHgtInnov(a); f("baro_innov", 0, a);
	e.getBaroHgtInnovVar(a); f("baro_innov_var", 0, a);
	e.getBaroHgtInnovRatio(a); f("baro_ratio", 0, a);
	e.getRngHgtInnov(a); f("rng_innov", 0, a);
	e.getRngHgtInnovVar(a); f("rng_innov_var", 0, a);
	e.getRngHgtInnovRatio(a); f("rng_ratio", 0, a);
	e.getAuxVelInnov(hv); f("aux_innov", 0, hv[0]); f("aux_innov", 1, hv[1]);
	e.getAuxVelInnovVar(hv); f("aux_innov_var", 0, hv[0]); f("aux_innov_var", 1, hv[1]);
	e.getAuxVelInnovRatio(a); f("aux_ratio", 0, a);
	e.getFlowInnov(hv); f("flow_innov", 0, hv[0]); f("flow_innov", 1, hv[1]);
	e.getFlowInnovVar(hv); f("flow_innov_var", 0, hv[0]); f("flow_innov_var", 1, hv[1]);
	e.getFlowInnovRatio(a); f("flow_ratio", 0, a);
	vec("flow_vel_body", e.getFlowVelBody(), 2);
	vec("flow_vel_ne", e.getFlowVelNE(), 2);
	vec("flow_comp", e.getFlowCompensated(), 2);
	vec("flow_uncomp", e.getFlowUncompensated(), 2);
	vec("flow_gyro", e.getFlowGyro(), 3);
	e.getHeadingInnov(a); f("hdg_innov", 0, a);
	e.getHeadingInnovVar(a); f("hdg_innov_var", 0, a);
	e.getHeadingInnovRatio(a); f("hdg_ratio", 0, a);
	float m3[3] = {NAN, NAN, NAN};
	e.getMagInnov(m3); for (int i = 0; i < 3; i++) { f("mag_innov", i, m3[i]); }

	e.getMagInnovVar(m3); for (int i = 0; i < 3; i++) { f("mag_innov_var", i, m3[i]); }

	e.getMagInnovRatio(a); f("mag_ratio", 0, a);
	e.getDragInnov(hv); f("drag_innov", 0, hv[0]); f("drag_innov", 1, hv[1]);
	e.getDragInnovVar(hv); f("drag_innov_var", 0, hv[0]); f("drag_innov_var", 1, hv[1]);
	e.getDragInnovRatio(hv); f("drag_ratio", 0, hv[0]); f("drag_ratio", 1, hv[1]);
	e.getAirspeedInnov(a); f("asp_innov", 0, a);
	e.getAirspeedInnovVar(a); f("asp_innov_var", 0, a);
	e.getAirspeedInnovRatio(a); f("asp_ratio", 0, a);
	e.getBetaInnov(a); f("beta_innov", 0, a);
	e.getBetaInnovVar(a); f("beta_innov_var", 0, a);
	e.getBetaInnovRatio(a); f("beta_ratio", 0, a);
	e.getHaglInnov(a); f("hagl_innov", 0, a);
	e.getHaglInnovVar(a); f("hagl_innov_var", 0, a);
	e.getHaglInnovRatio(a); f("hagl_ratio", 0, a);
	e.get_true_airspeed(&a); f("tas", 0, a);
	uint64_t ot = 0;
	double la = NAN, lo = NAN;
	const bool ov = e.getEkfGlobalOrigin(ot, la, lo, a);
	f("origin_valid", 0, ov);

	if (ov) { f("origin", 0, (float)la); f("origin", 1, (float)lo); f("origin", 2, a); }

	e.get_ekf_gpos_accuracy(&a, &b); f("gpos_acc", 0, a); f("gpos_acc", 1, b);
	e.get_ekf_lpos_accuracy(&a, &b); f("lpos_acc", 0, a); f("lpos_acc", 1, b);
	e.get_ekf_vel_accuracy(&a, &b); f("vel_acc", 0, a); f("vel_acc", 1, b);
	e.get_ekf_ctrl_limits(&a, &b, &c, &d); f("ctrl_lim", 0, a); f("ctrl_lim", 1, b); f("ctrl_lim", 2, c); f("ctrl_lim", 3, d);
	f("gpos_valid", 0, e.global_position_is_valid());
	f("lpos_valid", 0, e.local_position_is_valid());
	f("att_valid", 0, e.attitude_valid());
	f("dead_reck", 0, e.inertial_dead_reckoning());
	f("wind_status", 0, e.get_wind_status());
	f("in_air", 0, e.get_in_air_status());
	f("at_rest", 0, e.isVehicleAtRest());
	f("hor_aid", 0, (float)e.getNumberOfActiveHorizontalAidingSources());
	f("terr_valid", 0, e.isTerrainEstimateValid());
	f("terr_bits", 0, e.getTerrainEstimateSensorBitfield());
	f("terr_pos", 0, e.getTerrainVertPos());
	f("terr_var", 0, e.get_terrain_var());
	vec("gyro_bias", e.getGyroBias(), 3);
	vec("acc_bias", e.getAccelBias(), 3);
	uint16_t g16 = 0;
	e.get_gps_check_status(&g16); f("gps_check", 0, g16);
	float dr[3] = {NAN, NAN, NAN};
	bool blk = false;
	(void)e.get_gps_drift_metrics(dr, &blk); f("gps_drift", 0, dr[0]); f("gps_drift", 1, dr[1]); f("gps_drift", 2, dr[2]); f("gps_drift", 3, blk);
	const auto &rs = e.state_reset_status();
	f("rst_cnt", 0, rs.velNE_counter); f("rst_cnt", 1, rs.velD_counter); f("rst_cnt", 2, rs.posNE_counter);
	f("rst_cnt", 3, rs.posD_counter); f("rst_cnt", 4, rs.quat_counter);
	f("rst_chg", 0, rs.velNE_change(0)); f("rst_chg", 1, rs.velNE_change(1)); f("rst_chg", 2, rs.velD_change);
	f("rst_chg", 3, rs.posNE_change(0)); f("rst_chg", 4, rs.posNE_change(1)); f("rst_chg", 5, rs.posD_change);
	vec("rst_quat", rs.quat_change, 4);
	uint16_t st = 0;
	float m = NAN, v = NAN, p = NAN, hg = NAN, ta = NAN, hgl = NAN, be = NAN;
	e.get_innovation_test_status(st, m, v, p, hg, ta, hgl, be);
	f("test_status", 0, st); f("test_status", 1, m); f("test_status", 2, v); f("test_status", 3, p); f("test_status", 4, hg);
	f("test_status", 5, ta); f("test_status", 6, hgl); f("test_status", 7, be);
	e.get_ekf_soln_status(&st); f("soln", 0, st);
	const auto qe = e.getVisionAlignmentQuaternion();
	vec("ev_align", qe, 4);
	float yc = 0, yv = 0, y[N_MODELS_EKFGSF] = {}, vn[N_MODELS_EKFGSF] = {}, ve[N_MODELS_EKFGSF] = {}, wt[N_MODELS_EKFGSF] = {};
	const bool gsf = e.getDataEKFGSF(&yc, &yv, y, vn, ve, wt);
	f("gsf_ok", 0, gsf);

	if (gsf) {
		f("gsf", 0, yc);
		f("gsf", 1, yv);

		for (int i = 0; i < (int)N_MODELS_EKFGSF; i++) { f("gsf_yaw", i, y[i]); f("gsf_vn", i, vn[i]); f("gsf_ve", i, ve[i]); f("gsf_w", i, wt[i]); }
	}

	const imuSample &im = e.get_imu_sample_delayed();
	vec("imu_da", im.delta_ang, 3);
	vec("imu_dv", im.delta_vel, 3);
	f("imu_dt", 0, im.delta_ang_dt);
	f("imu_dt", 1, im.delta_vel_dt);
	f("baro_delayed", 0, e.get_baro_sample_delayed().hgt);
	float md = 0;
	const bool mdv = e.get_mag_decl_deg(&md);
	f("mag_decl", 0, mdv ? md : 0);
}

uint64_t digest(Ekf &e)
{
	uint64_t h = 1469598103934665603ull;
	visitAll(e, [&](const char *, int, float x) { fnv(h, bitsOf(x)); });
	return h;
}

uint64_t digestCore(Ekf &e)
{
	uint64_t h = 1469598103934665603ull;
	const auto x = e.getStateAtFusionHorizonAsVector();

	for (int i = 0; i < 24; i++) { fnv(h, bitsOf(x(i))); }

	const auto &P = e.covariances();

	for (int i = 0; i < 24; i++) { for (int j = i; j < 24; j++) { fnv(h, bitsOf(P(i, j))); } }

	const auto q = e.getQuaternion();

	for (int i = 0; i < 4; i++) { fnv(h, bitsOf(q(i))); }

	const auto v = e.getVelocity(), p = e.getPosition();

	for (int i = 0; i < 3; i++) { fnv(h, bitsOf(v(i))); fnv(h, bitsOf(p(i))); }

	fnv(h, e.control_status().value);
	fnv(h, e.innov_check_fail_status().value);
	return h;
}

uint64_t ctrlState(Ekf &e)
{
	uint64_t h = e.control_status().value;
	h = h * 64 + (e.local_position_is_valid() ? 1 : 0) + (e.isTerrainEstimateValid() ? 2 : 0) + (e.inertial_dead_reckoning() ? 4 : 0)
	    + (e.global_origin_valid() ? 8 : 0);
	return h * 8192 + (e.innov_check_fail_status().value & 0x1fff);
}

void Result::addWorld(const Scn &s, const World &w)
{
	for (int i = 0; i < NFAULT; i++) { faults[i] += w.faultCount[i]; }

	for (const Op &o : s.ops) { ops[o.kind]++; }

	cnt["imu_samples"] += w.imu.size();
	cnt["sensor_samples"] += w.events.size();
}

// ------------------------------------------------------------------ scenario helpers
Scn baseScn(uint64_t seed, double dur)
{
	Scn s;
	s.s("seed", (double)(seed & 0xffffffffffffull));
	s.s("dur", dur);
	s.s("hz.mag", 50);
	s.s("hz.baro", 50);
	s.s("hz.gps", 5);
	Rng r(seed ^ 0xBA5E);
	s.s("yaw0", std::floor(r.u(-3.1, 3.1) * 1000) / 1000);
	s.s("gb_x", std::floor(r.u(-20, 20)) / 1000);
	s.s("gb_y", std::floor(r.u(-20, 20)) / 1000);
	s.s("gb_z", std::floor(r.u(-20, 20)) / 1000);
	s.s("ab_x", std::floor(r.u(-100, 100)) / 1000);
	s.s("ab_y", std::floor(r.u(-100, 100)) / 1000);
	s.s("ab_z", std::floor(r.u(-100, 100)) / 1000);
	s.s("P.req_nsats", 6);
	s.s("gpshealth", 1);
	s.ops.push_back({O_GPSHEALTH, 0, 1000000, 0, 0});
	return s;
}

void addFlight(Scn &s, Rng &r, double takeoff, double end, bool fw)
{
	auto q = [](double x) { return std::floor(x * 100) / 100; };
	s.ops.push_back({O_INAIR, q(takeoff), 1, 0, 0});

	if (fw) {
		s.s("fw", 1);
		s.ops.push_back({O_FW, 0.5, 1, 0, 0});
		const double sp = q(r.u(14, 24));
		s.legs.push_back({q(takeoff), sp, 0, -q(r.u(0.5, 2)), 0});
		double t = takeoff + r.u(6, 9);

		while (t < end) {
			s.legs.push_back({q(t), sp + q(r.u(-2, 2)), 0, q(r.u(-1, 0.8)), r.p(0.6) ? q(r.u(-0.3, 0.3)) : 0.0});
			t += r.u(4, 10);
		}

	} else {
		s.legs.push_back({q(takeoff), 0, 0, -q(r.u(0.8, 2.5)), 0});
		double t = takeoff + r.u(2, 4);

		while (t < end) {
			const double sp = r.p(0.25) ? 0.0 : r.u(0.5, 8);
			const double a = r.u(-M_PI, M_PI);
			s.legs.push_back({q(t), q(sp * std::cos(a)), q(sp * std::sin(a)), q(r.u(-1, 0.5)), r.p(0.5) ? q(r.u(-0.8, 0.8)) : 0.0});
			t += r.u(2, 6);
		}

		s.legs.push_back({q(end), 0, 0, 0, 0});
	}
}

void swarmFaults(Scn &s, Rng &r, double t0, double t1, int maxFaults, uint32_t kinds, uint32_t sensors)
{
	std::vector<int> ks, ss;

	for (int i = 0; i < NFAULT; i++) { if ((kinds >> i) & 1) { if (r.p(0.6)) { ks.push_back(i); } } }

	for (int i = 0; i < NSENS; i++) {
		if (((sensors >> i) & 1) && (i == IMU || s.g(std::string("hz.") + kSensorName[i], 0) > 0)) { ss.push_back(i); }
	}

	if (ks.empty() || ss.empty()) { return; }

	auto q = [](double x) { return std::floor(x * 1000) / 1000; };
	const int n = r.i(1, maxFaults);

	for (int i = 0; i < n; i++) {
		Fault f;
		f.kind = ks[r.next() % ks.size()];
		f.sensor = ss[r.next() % ss.size()];
		f.t0 = q(r.u(t0, t1));
		f.t1 = q(std::min(t1, f.t0 + r.logu(0.05, 15)));
		static const double scaleB[NSENS] = {1.5, 0.2, 10, 15, 8, 3, 1, 2, 2};

		switch (f.kind) {
		case F_LOSS: f.a = r.p(0.5) ? 1.0 : q(r.u(0.05, 0.9)); break;

		case F_DUP: f.a = q(r.u(0.1, 1)); f.b = std::floor(r.u(0, 60000)); break;

		case F_DELAY: f.a = std::floor(r.u(0, 150000)); f.b = std::floor(r.u(0, 100000)); break;

		case F_REORDER: f.a = q(r.u(0.1, 0.7)); f.b = std::floor(r.logu(1000, 300000)); break;

		case F_BIAS: f.a = q(r.u(-1, 1) * scaleB[f.sensor]); f.b = q(r.u(-1, 1) * scaleB[f.sensor]); f.c = q(r.u(-1, 1) * scaleB[f.sensor]); break;

		case F_STUCK: break;

		case F_NOISE: f.a = q(r.u(0, 0.5) * scaleB[f.sensor]); f.b = q(r.u(0, 2)); if (f.sensor == IMU) { f.a = q(r.u(0, 0.1)); } break;

		case F_SPIKE: f.a = q(r.logu(0.005, 0.5)); f.b = q(r.u(-10, 10) * scaleB[f.sensor]); break;

		case F_QUALITY:
			if (f.sensor == GPS) { f.a = r.p(0.4) ? (double)r.i(0, 3) : -1; f.b = r.p(0.4) ? (double)r.i(0, 12) : -1; f.c = r.p(0.6) ? q(r.logu(0.2, 50)) : (r.p(0.5) ? -1 : 1); }

			else { f.a = r.pick({0.0, 0.0, 1.0, 50.0, -1.0}); if (f.sensor == FLOW && f.a < 0) { f.a = 0; } }

			break;

		case F_CLIP: f.a = r.i(1, 7); f.b = q(r.u(3, 20)); break;

		case F_VIB: f.a = q(r.u(0, 0.5)); f.b = q(r.u(0, 20)); break;

		case F_TSJIT: f.a = std::floor(r.logu(10, 30000)); if (f.sensor == IMU) { f.a = std::floor(r.logu(10, 1500)); } break;

		case F_TSSKEW: f.a = std::floor(r.u(-200000, 50000)); if (f.sensor == IMU) { f.a = std::floor(r.u(-1000, 1000)); } break;

		case F_IMUGAP: f.a = r.i(0, 1); f.sensor = IMU; f.t1 = q(f.t0 + r.logu(0.005, 1.5)); break;

		case F_ROT: f.a = q(r.u(-M_PI, M_PI)); break;

		case F_TSFREEZE: if (f.sensor == IMU) { f.t1 = q(f.t0 + r.logu(0.004, 0.3)); } break;

		case F_VEL: f.a = q(r.u(-5, 5)); f.b = q(r.u(-5, 5)); f.c = q(r.u(-3, 3)); if (f.sensor == IMU) { f.a *= 0.02; f.b *= 0.02; f.c *= 0.02; } break;
		}

		s.faults.push_back(f);
	}
}

} // namespace sim
