// P15: after disturbances have ended and with healthy sensors, every estimate returns to the truth of the simulated flight
#include "../core.h"
using namespace sim;
namespace
{
struct Bound {
	double tilt{3.5}, yaw{10}, vh{2}, vz{1.3}, ph{4}, pz{8};
};
const char *const kName[6] = {"tilt", "yaw", "horizontal_velocity", "vertical_velocity", "horizontal_position", "altitude"};

struct Hook : Hooks {
	Result &r;
	const Scn &s;
	const World &w;
	double judge;
	Bound b;
	double m[6] {};
	uint64_t n{0}, h{1469598103934665603ull};
	int bad{0};
	Hook(Result &r_, const Scn &s_, const World &w_) : r(r_), s(s_), w(w_), judge(s_.g("judge", 1e9))
	{
		const int mode = (int)s.g("P.fusion_mode", 1);

		if (mode & (MASK_USE_EVPOS | MASK_USE_EVVEL | MASK_ROTATE_EV)) { b.yaw = 14; b.ph = 12; b.vh = 2; }

		if (!(mode & MASK_USE_GPS)) { b.yaw = 6; b.vh = 1.5; b.vz = 1.0; b.ph = mode & MASK_USE_EVPOS ? 4 : 80; }

		if (s.g("fw", 0) > 0) { b.pz = 8; b.vz = 3; b.tilt = 10; b.yaw = 30; b.vh = 3; }

		for (const Fault &f : s.faults) {
			// the height source may have been changed and re-aligned to what another sensor said at that moment
			if (f.sensor == BARO || f.sensor == GPS || f.sensor == RNG || f.sensor == EV || f.sensor == IMU) { b.pz = std::max(b.pz, 16 + 1.3 * (f.kind == F_BIAS ? std::fabs(f.c) : f.kind == F_SPIKE ? std::fabs(f.b) : f.kind == F_NOISE ? 4 * f.a : 0)); }

			if (f.sensor == GPS || f.sensor == EV || f.sensor == MAG || f.sensor == IMU) { b.yaw = std::max(b.yaw, 16.); }
		}
	}
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		const double t = (double)(st.t - w.t0) * 1e-6;

		if (!st.updated) { return true; }

		r.states.insert(ctrlState(e));

		if (t < judge) { return true; }

		n++;
		const TruthK k = w.at((double)st.t);
		const auto q = e.getQuaternion();
		const auto v = e.getVelocity(), p = e.getPosition();
		const Q qe(q(0), q(1), q(2), q(3));
		const V3 off = d3(e.getParamHandle()->imu_pos_body);
		const V3 tv = k.v - k.q.rot(k.w.cross(off)), tp = k.p - k.q.rot(off);
		uint64_t ot;
		double la, lo, x = tp.x, y = tp.y;
		float al;
		const bool o = e.getEkfGlobalOrigin(ot, la, lo, al);

		if (o) {
			double a, c;
			projInv(w.lat0, w.lon0, tp.x, tp.y, a, c);
			projFwd(la, lo, a, c, x, y);
		}

		const double err[6] = {57.29578 * std::acos(std::max(-1., std::min(1., qe.irot(V3(0, 0, 1)).dot(k.q.irot(V3(0, 0, 1)))))),
				       57.29578 * std::fabs((qe * k.q.inv()).yaw()),
				       std::hypot(v(0) - tv.x, v(1) - tv.y), std::fabs(v(2) - tv.z),
				       std::hypot(p(0) - x, p(1) - y), o ? std::fabs((al - p(2)) - (w.alt0 - tp.z)) : 0
				      };
		const double lim[6] = {b.tilt, b.yaw, b.vh, b.vz, b.ph, b.pz};

		for (int i = 0; i < 6; i++) {
			if (!(err[i] <= m[i])) { m[i] = err[i]; }

			if (!(err[i] <= lim[i]) && !(bad >> i & 1)) {
				bad |= 1 << i;
				r.bad(std::string("off_") + kName[i], fmt("t=%.3f s: %s is off by %.3g (limit %.3g) although all disturbances ended at %.1f s", t, kName[i], err[i], lim[i], s.g("quiet", 0)));
			}
		}

		auto flag = [&](int i, bool ok, const char *kind, const char *text) {
			if (!ok && !(bad >> i & 1)) { bad |= 1 << i; r.bad(kind, fmt("t=%.3f s: %s although all disturbances ended at %.1f s", t, text, s.g("quiet", 0))); }
		};
		flag(8, e.local_position_is_valid(), "local_invalid", "the local position is reported invalid");
		flag(9, e.attitude_valid(), "attitude_invalid", "the attitude is reported invalid");
		flag(10, !e.inertial_dead_reckoning(), "dead_reckoning", "the filter reports dead reckoning");

		if (o && (int)s.g("P.fusion_mode", 1) & MASK_USE_GPS) { flag(11, e.global_position_is_valid(), "global_invalid", "the global position is reported invalid"); }

		else if ((int)s.g("P.fusion_mode", 1) & MASK_USE_GPS) { flag(12, false, "no_origin", "there is no global origin"); }

		fnv(h, bitsOf(v(0)));
		fnv(h, bitsOf(p(2)));
		return true;
	}
};

Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1515);
	const bool ev = r.p(0.25);
	const double quiet = thorough ? r.pick({35., 50., 65.}) : 35, dur = quiet + 40;
	Scn s = richScn(seed * 19 + 3, dur, (ev ? R_NOFW : R_FORCEGPS) | R_LONGGROUND);
	int m = (int)s.g("P.fusion_mode", 1) & ~(MASK_INHIBIT_ACC_BIAS | MASK_USE_DRAG);

	if (ev) {
		// vision as the only source of position and heading
		m &= ~(MASK_USE_GPS | MASK_USE_GPSYAW | MASK_USE_DRAG | MASK_USE_OF | MASK_USE_EVPOS | MASK_USE_EVVEL | MASK_ROTATE_EV);
		m |= MASK_USE_EVYAW | (r.p(0.5) ? MASK_USE_EVPOS : MASK_USE_EVVEL);
		s.s("gps_yaw", 0); s.s("ev_yaw", 0); s.s("hz.gps", 0); s.s("hz.ev", 30);

		if ((int)s.g("P.vdist_sensor_type", 0) == VDIST_SENSOR_GPS) { s.s("P.vdist_sensor_type", VDIST_SENSOR_BARO); }
	}

	if (m & MASK_USE_GPSYAW) { m &= ~(MASK_USE_EVPOS | MASK_USE_EVVEL | MASK_USE_EVYAW | MASK_ROTATE_EV); }

	for (const char *n : {"ev_an", "ev_corr", "ev_pvar", "ev_vvar", "ev_avar", "acc_var"}) { s.v.erase(n); }

	if (m & MASK_ROTATE_EV) { m &= ~MASK_ROTATE_EV; s.s("ev_yaw", 0); }

	s.s("P.fusion_mode", m);
	s.s("quiet", quiet);
	s.s("gs", (double)seed);
	s.s("judge", dur - 10);
	s.s("P.mag_fusion_type", r.pick({0., 0., 1.}));

	// a receiver that reports good quality
	for (const char *n : {"gps_eph", "gps_epv", "gps_sacc"}) { if (s.v.count(n)) { s.s(n, std::min(s.g(n, 0), 0.4 * (n[4] == 'e' ? 4 : 1))); } }

	// a calibrated magnetometer
	for (const char *n : {"mb_x", "mb_y", "mb_z"}) { s.s(n, std::floor(s.g(n, 0) * 150) / 1000); }

	const uint32_t kinds = bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_BIAS) | bit(F_SPIKE) | bit(F_VEL) | bit(F_STUCK) | bit(F_TSFREEZE) | bit(F_TSSKEW);
	const uint32_t sens = kAllSensors & ~bit(IMU);

	for (int i = r.i(0, thorough ? 4 : 3); i > 0; i--) {
		Scn x = s;
		x.faults.clear();
		swarmFaults(x, r, 20, quiet, 1, kinds, sens);

		for (auto &f : x.faults) {
			if (f.sensor == GPS && f.kind == F_BIAS && r.p(0.5)) { f.a = r.u(-200, 200); f.b = r.u(-200, 200); }

			if ((f.sensor == GPS || f.sensor == EV) && (f.kind == F_STUCK || f.kind == F_VEL || f.kind == F_ROT || f.kind == F_TSFREEZE || f.kind == F_TSSKEW)) { continue; } // a consistent lie is not detectable

			if (f.sensor == FLOW && (f.kind == F_BIAS || f.kind == F_VEL || f.kind == F_STUCK)) { continue; }

			if (f.sensor == MAG && (f.kind == F_STUCK || f.kind == F_BIAS || f.kind == F_ROT)) { continue; }

			s.faults.push_back(f);
		}
	}

	// outages and offsets long enough to need a time-out, a reset or a change of source
	auto add = [&](int kind, int sensor, double len, double a, double b, double c) {
		Fault f;
		f.kind = kind; f.sensor = sensor;
		f.t0 = std::floor(r.u(20, quiet - len) * 1000) / 1000;
		f.t1 = f.t0 + std::floor(len * 1000) / 1000;
		f.a = std::floor(a * 10) / 10; f.b = std::floor(b * 10) / 10; f.c = std::floor(c * 10) / 10;
		s.faults.push_back(f);
	};
	const int pos = ev ? EV : GPS;
	const bool fw = s.g("fw", 0) > 0;

	// vision heading takes over while GPS is away and hands back to whatever the magnetometer says at that moment
	if (!ev && (m & MASK_USE_EVYAW)) { return s; }

	if (fw) {
		// the heading of a fixed wing comes from GPS and magnetometer together: one outage at a time
		if (r.p(0.5)) { return s; }

		std::vector<Fault> keep;

		for (const Fault &f : s.faults) { if (f.sensor != GPS && f.sensor != MAG) { keep.push_back(f); } }

		s.faults = keep;
	}

	if (r.p(0.3)) {
		const double ang = r.u(-3.14, 3.14), size = r.logu(15, 300);
		add(F_BIAS, pos, r.u(7.5, 13), size * std::cos(ang), size * std::sin(ang), 0);

		if (fw) { return s; }
	}

	if (r.p(0.1)) { add(F_LOSS, pos, r.u(4, 13), 1, 0, 0); if (fw) { return s; } }

	if (r.p(0.08) && !fw) { add(F_LOSS, MAG, r.u(4, 14), 1, 0, 0); }

	if (r.p(0.1)) { add(F_LOSS, BARO, r.u(4, 14), 1, 0, 0); }

	if (r.p(0.08) && !ev) { add(F_QUALITY, GPS, r.u(5, 13), r.pick({2., -1.}), r.pick({3., -1.}), r.pick({-1., 8., 1.})); }

	return s;
}
void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Hook a(r, s, w);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["judged_steps"] += a.n;
	r.nontrivial = a.n > 100;

	if (getenv("P15W")) {
		std::string f;

		for (auto &x : s.faults) { f += fmt(" %s/%s(%.3g,%.3g,%.3g)", kFaultName[x.kind], kSensorName[x.sensor], x.a, x.b, x.c); }

		fprintf(stderr, "@@ACC seed=%.0f n=%d tilt=%.2f yaw=%.2f vh=%.2f vz=%.2f ph=%.2f pz=%.2f lv=1 gv=1 dr=0 fw=%d vd=%d mode=%d magt=%d |%s\n", s.g("gs", 0), (int)a.n, a.m[0], a.m[1], a.m[2], a.m[3], a.m[4], a.m[5], (int)s.g("fw", 0), (int)s.g("P.vdist_sensor_type", 0), (int)s.g("P.fusion_mode", 1), (int)s.g("P.mag_fusion_type", 0), f.c_str());
	}
}
Reg reg({"P15", gen, exec, "a run counts when more than 100 fusion steps were compared with the truth"});
}
