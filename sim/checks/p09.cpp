// One step refinement of the 24 state filter against the executable reference in refekf.h
// P09: prediction  P10: velocity, position and height corrections  P11: yaw and magnetic field corrections
// P12: air data, sideslip, drag and optical flow corrections
#include "../ref.h"
#include "../refekf.h"
using namespace sim;
namespace
{
enum Src { GHV, GVV, GHP, GVP, EHV, EVV, EHP, EVP, BARO_, RNG_, AUX_, HDG, MAG_, DRG0, DRG1, TAS, BETA, FLW, NSRC };
const char *const kKey[NSRC] = {"gps_vel", "gps_velz", "gps_pos", "gps_hgt", "ev_vel", "ev_velz", "ev_pos", "ev_hgt", "baro", "range", "aux", "heading", "mag", "drag_x", "drag_y", "airspeed", "sideslip", "flow"};
const char *const kSrc[NSRC] = {"GPS horizontal velocity", "GPS vertical velocity", "GPS or synthetic horizontal position", "GPS height", "vision horizontal velocity", "vision vertical velocity", "vision horizontal position", "vision height", "barometric height", "range finder height", "auxiliary velocity", "heading", "magnetometer", "drag X", "drag Y", "airspeed", "sideslip", "optical flow"};
const int kDim[NSRC] = {2, 1, 2, 1, 2, 1, 2, 1, 1, 1, 2, 1, 3, 1, 1, 1, 1, 2};
const int kGroup[NSRC] = {10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 11, 11, 12, 12, 12, 12, 12};
struct One { float i[3] {}, v[3] {}, r{0}; };
struct Pub {
	One s[NSRC];
	void read(Ekf &e)
	{
		e.getGpsVelPosInnov(s[GHV].i, s[GVV].i[0], s[GHP].i, s[GVP].i[0]);
		e.getGpsVelPosInnovVar(s[GHV].v, s[GVV].v[0], s[GHP].v, s[GVP].v[0]);
		e.getGpsVelPosInnovRatio(s[GHV].r, s[GVV].r, s[GHP].r, s[GVP].r);
		e.getEvVelPosInnov(s[EHV].i, s[EVV].i[0], s[EHP].i, s[EVP].i[0]);
		e.getEvVelPosInnovVar(s[EHV].v, s[EVV].v[0], s[EHP].v, s[EVP].v[0]);
		e.getEvVelPosInnovRatio(s[EHV].r, s[EVV].r, s[EHP].r, s[EVP].r);
		e.getBaroHgtInnov(s[BARO_].i[0]);
		e.getBaroHgtInnovVar(s[BARO_].v[0]);
		e.getBaroHgtInnovRatio(s[BARO_].r);
		e.getRngHgtInnov(s[RNG_].i[0]);
		e.getRngHgtInnovVar(s[RNG_].v[0]);
		e.getRngHgtInnovRatio(s[RNG_].r);
		e.getAuxVelInnov(s[AUX_].i);
		e.getAuxVelInnovVar(s[AUX_].v);
		e.getAuxVelInnovRatio(s[AUX_].r);
		e.getHeadingInnov(s[HDG].i[0]);
		e.getHeadingInnovVar(s[HDG].v[0]);
		e.getHeadingInnovRatio(s[HDG].r);
		e.getMagInnov(s[MAG_].i);
		e.getMagInnovVar(s[MAG_].v);
		e.getMagInnovRatio(s[MAG_].r);
		float a[2], b[2], c[2];
		e.getDragInnov(a);
		e.getDragInnovVar(b);
		e.getDragInnovRatio(c);

		for (int k = 0; k < 2; k++) { s[DRG0 + k].i[0] = a[k]; s[DRG0 + k].v[0] = b[k]; s[DRG0 + k].r = c[k]; }

		e.getAirspeedInnov(s[TAS].i[0]);
		e.getAirspeedInnovVar(s[TAS].v[0]);
		e.getAirspeedInnovRatio(s[TAS].r);
		e.getBetaInnov(s[BETA].i[0]);
		e.getBetaInnovVar(s[BETA].v[0]);
		e.getBetaInnovRatio(s[BETA].r);
		e.getFlowInnov(s[FLW].i);
		e.getFlowInnovVar(s[FLW].v);
		e.getFlowInnovRatio(s[FLW].r);
	}
	// innovation or its variance was evaluated again
	bool changed(const Pub &o, int k) const
	{
		for (int j = 0; j < kDim[k]; j++) { if (bitsOf(s[k].i[j]) != bitsOf(o.s[k].i[j]) || bitsOf(s[k].v[j]) != bitsOf(o.s[k].v[j])) { return true; } }

		return false;
	}
};
struct Rot33 { double m[3]; };
double sq(double v) { return v * v; }
V3 pv(const matrix::Vector3f &v) { return d3(v); }

struct Step : Hooks {
	Result &r;
	const World &w;
	const int grp;
	RefFront f;
	bool havePre{false};
	D24 x0{};
	M24 P0{};
	double T0{0};				// terrain height before the step
	uint32_t ctl{0}, fault{0}, ip{0};
	filter_control_status_u cs{};
	fault_status_u fs{};
	Pub pub;
	uint8_t cnt0[5] {};
	bool dirty{false};			// a call changed the filter since the last step
	// shadow of what is not published
	double dtAvg{0.01};
	bool dtKnown{true};
	double gyrFilt{0}, accFilt{0};
	bool inh[3] {};
	double saved[3] {};
	bool savedKnown[3] {};
	double hgtLpf{0};
	bool lpfKnown{false};
	V3 rateRaw;
	uint64_t lastYawReset{0}, lastOrigin{0}, steps{0}, compared{0};
	double olat{0}, olon{0};
	V3 earthRate;
	bool gpsSeen{false};
	double resid[3][6] {};
	double limDt{0.01}, accLim{0.4}, qSlack{0}, dvMag{0}, dvdtNow{0};
	Mat3 lastR;
	bool haveR{false};
	int earthOn{-1};			// -1: not decided yet (a coarse fix may already have provided the latitude)
	double lastStaticYaw{0};
	bool staticKnown{false};
	double baroOff{0}, hgtOff[4] {};	// inferred height offsets: baro, gps, range, vision
	bool hgtOffKnown[4] {};
	uint64_t baroOffT{0};
	double declPrev{0};
	bool declKnown{false};
	// odometry mode
	bool odomKnown{false};
	V3 odomMeas;
	double odomPred[2] {};
	int flowIdx{-1};
	bool flowFresh{false};
	int flowCand{-1};
	V3 flowBias;
	bool flowBiasKnown{false};
	V3 lastKnownNE;
	bool lastKnown{false};
	uint64_t tLast{0};
	uint64_t lastAid{0}, firstImuT{0};
	uint64_t h{1469598103934665603ull};
	double worst[8] {};
	// accumulated residuals (systematic differences too small to be seen in one step)
	double accV[3] {}, accA[3] {}, accPos[3] {};
	uint64_t nAcc{0};
	bool restarted{false};

	Step(Result &r_, const World &w_, int g) : r(r_), w(w_), grp(g) {}
	void preImu(const imuSample &m, Ekf &e) override
	{
		const parameters &p = *e.getParamHandle();
		f.imu(m, p);
		tLast = m.time_us;

		if (f.emit && (p.fusion_mode & MASK_USE_DRAG)) {
			dragN++;
			dragX += m.delta_vel(0);
			dragY += m.delta_vel(1);
			dragT += m.time_us;
			dragDt += m.delta_vel_dt;
			drag.cap = (size_t)std::max(f.obsLen, 1);

			if (dragN >= std::max(5, (f.imuLen + f.obsLen - 1) / std::max(f.obsLen, 1))) {
				drag.push(dragT / dragN, V3(dragX / dragDt, dragY / dragDt, 0));
				dragN = 0;
				dragX = dragY = dragDt = 0;
				dragT = 0;
			}
		}
	}
	void onDeliver(const Ev &v, const World &wd, Ekf &e) override
	{

		if (v.type == BARO) {
			// static pressure position error along the body axes, from the airspeed the estimator publishes at that moment
			const parameters &p = *e.getParamHandle();
			const auto o = e.getQuaternion();
			const auto wn = e.getWindVelocity();
			const V3 air = Q(o(0), o(1), o(2), o(3)).irot(d3(e.getVelocity()) - V3(wn(0), wn(1), 0));
			const double kk[3] = {air.x >= 0 ? p.static_pressure_coef_xp : p.static_pressure_coef_xn, air.y >= 0 ? p.static_pressure_coef_yp : p.static_pressure_coef_yn, p.static_pressure_coef_z};
			f.baroAdd = 0;

			for (int i = 0; i < 3; i++) { f.baroAdd += 0.5 / CONSTANTS_ONE_G * kk[i] * std::min(sq(air[i]), sq((double)p.max_correction_airspeed)); }

			if (f.baroAdd != 0) { r.cnt["pressure_error_corrections"]++; }
		}

		const uint64_t lastFix = f.last[GPS];
		f.deliver(v, wd, *e.getParamHandle());

		// a fix that was taken tells where on earth we are
		if (v.type == GPS && f.last[GPS] != lastFix) {
			const gps_message &m = wd.gps[v.idx];
			yawOff = std::isfinite(m.yaw_offset) ? m.yaw_offset : 0;

			if (m.eph < 1000) { gpsSeen = true; }
		}
	}
	void onOp(const Op &o, Ekf &) override
	{
		if (o.kind == O_AIRDENS) { rho = (float)o.a; }

		if (o.kind == O_RESTART) { restarted = true; }

		dirty = true;

		if (o.kind == O_RSTBIAS || o.kind == O_RSTACC) { for (bool &b : savedKnown) { b = false; } }
	}
	void counters(Ekf &e, uint8_t *c)
	{
		const auto &s = e.state_reset_status();
		c[0] = s.velNE_counter; c[1] = s.velD_counter; c[2] = s.posNE_counter; c[3] = s.posD_counter; c[4] = s.quat_counter;
	}
	uint32_t faults(Ekf &e) const
	{
		const auto &x = e.fault_status().flags;
		return x.bad_mag_x | x.bad_mag_y << 1 | x.bad_mag_z << 2 | x.bad_hdg << 3 | x.bad_mag_decl << 4 | x.bad_airspeed << 5 | x.bad_sideslip << 6 | x.bad_optflow_X << 7 | x.bad_optflow_Y << 8 | x.bad_vel_N << 9 | x.bad_vel_E << 10 | x.bad_vel_D << 11 | x.bad_pos_N << 12 | x.bad_pos_E << 13 | x.bad_pos_D << 14 | x.bad_acc_bias << 15;
	}
	void readState(Ekf &e, D24 &x, M24 &P)
	{
		const auto v = e.getStateAtFusionHorizonAsVector();

		for (int i = 0; i < 24; i++) { x[i] = v(i); }

		const auto &c = e.covariances();

		for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P[i][j] = c(i, j); } }
	}
	void preUpdate(const StepInfo &, Ekf &e) override
	{
		if (!f.inited || !f.emit) { havePre = false; return; }

		readState(e, x0, P0);
		T0 = e.getTerrainVertPos();
		cs = e.control_status();
		fs = e.fault_status();
		fault = faults(e);
		pub.read(e);
		counters(e, cnt0);
		havePre = true;
	}
	// several alternatives are possible: the messages are kept until none of them fits
	bool quiet{false};
	std::string lastKind, lastText;
	bool viol(int g, const char *kind, const std::string &t)
	{
		if (g != grp) { return false; }

		if (quiet) { lastKind = kind; lastText = t; } else { r.bad(kind, t); }

		return false;
	}
	void forget()
	{
		havePre = false;
		for (bool &b : hgtOffKnown) { b = false; }

		odomKnown = staticKnown = declKnown = flowBiasKnown = lastKnown = false;
	}
	bool onStep(const StepInfo &st, Ekf &e) override
	{
		if (restarted) {
			restarted = false;
			f = RefFront();
			forget();
			return false; // one life per execution
		}

		const bool was = f.inited;
		f.step(st.updated, e.covariances()(4, 4) > 0);

		if (f.lost) { return false; }

		if (!f.inited || !st.updated) { return true; }

		if (e.get_imu_sample_delayed().time_us != f.delayed.t) { return was && !f.everAmbiguous ? viol(0, "", "") : false; }

		// flow sample bookkeeping (see P06)
		{
			const auto &fx = e.getFlowUncompensated();
			int cand = -1;
			flowFresh = false;

			if (f.flow.peek(f.delayed.t, cand)) {
				const flowSample &s = w.flow[cand];

				if (fx(0) == s.flow_xy_rad(0) && fx(1) == s.flow_xy_rad(1)) { uint64_t tt; f.flow.pop(f.delayed.t, cand, tt); flowIdx = cand; flowFresh = true; }
			}
		}

		const bool ok = step(st, e, !was);
		dirty = false;
		return ok;
	}
	bool step(const StepInfo &st, Ekf &e, bool first)
	{
		if (havePre) { for (int i = 0; i < 6; i++) { resid[steps % 3][i] = P0[10 + i][10 + i]; } }

		steps++;
		const parameters &p = *e.getParamHandle();
		const double t = (double)(st.t - w.t0) * 1e-6;
		const RImu &im = f.delayed;
		const imuSample &ims = e.get_imu_sample_delayed();
		const V3 da = d3(ims.delta_ang), dv = d3(ims.delta_vel);
		const double dadt = ims.delta_ang_dt, dvdt = ims.delta_vel_dt;

		if (first) { firstImuT = im.t; }

		// shadow of the prediction's hidden inputs
		const double dtOld = dtAvg;
		dtAvg = 0.99 * dtAvg + 0.01 * RefEkf::clampd(0.5 * (dvdt + dadt), 0.005, 0.02);
		{
			const double al = RefEkf::clampd(0.01 / (double)p.acc_bias_learn_tc, 0, 1), be = 1 - al;
			gyrFilt = std::max(da.norm() / 0.01, be * gyrFilt);
			accFilt = std::max(dv.norm() / 0.01, be * accFilt);
		}

		if (dadt > 0.0025) { rateRaw = da * (1.0 / dadt); }

		uint64_t ot;
		double la, lo;
		float oa;
		const bool haveOrigin = e.getEkfGlobalOrigin(ot, la, lo, oa);

		if (la != olat || lo != olon) { lastOrigin = st.t; olat = la; olon = lo; }

		uint8_t cnt[5];
		counters(e, cnt);
		const bool reset = memcmp(cnt, cnt0, 5) != 0;

		// (the field states may be aligned again with any reset of the navigation states)
		if (reset || first) { lastYawReset = im.t; }

		if (reset || first) { for (bool &b : hgtOffKnown) { b = false; } odomKnown = staticKnown = lastKnown = false; }

		const filter_control_status_u c = e.control_status();
		const uint32_t flt = faults(e);

		// the heading held while at rest is taken again after any motion
		if (!c.flags.vehicle_at_rest) { staticKnown = false; }

		Pub np;
		np.read(e);
		D24 x1;
		M24 P1;
		readState(e, x1, P1);
		bool evaluated[NSRC];

		for (int k = 0; k < NSRC; k++) { evaluated[k] = havePre && np.changed(pub, k); }

		if (c.flags.in_air) { lastInAir = st.t; }

		horBefore = aidFlag ? lastHorAid : 0;
		aidFlag = c.flags.gps || c.flags.ev_pos || c.flags.ev_vel || c.flags.opt_flow;

		if (aidFlag) { noAidSince = st.t; }

		for (int k : {GHV, GHP, EHV, EHP, FLW}) { if (evaluated[k] && np.s[k].r <= 1 && (k != GHP || c.flags.gps)) { lastHorAid = st.t; } }

		betaBefore = lastBeta;
		tasBefore = lastTas;

		if (evaluated[TAS] && np.s[TAS].r <= 1) { lastTas = st.t; }

		if (evaluated[BETA] && np.s[BETA].r <= 1) { lastBeta = st.t; }

		{
			const auto &a = c.flags, &b = cs.flags;

			if (a.yaw_align != b.yaw_align || a.mag_3D != b.mag_3D || a.mag_aligned_in_flight != b.mag_aligned_in_flight || a.gps_yaw != b.gps_yaw || a.ev_yaw != b.ev_yaw || a.mag_fault != b.mag_fault || a.in_air != b.in_air) { lastYawReset = im.t; }
		}

		// which accelerometer bias axes are frozen in this step
		const double R22 = sq(x0[0]) - sq(x0[1]) - sq(x0[2]) + sq(x0[3]);
		const double *q0 = &x0[0];
		bool undecided = false;
		bool nowInh[3];
		{
			// row 2 of the rotation matrix before this step's prediction has advanced it: use the reference's prediction below
			(void)R22;
			(void)q0;
		}
		RefEkf k;
		k.x = x0;
		k.P = P0;
		k.dtAvg = dtOld;
		k.mag3D = c.flags.mag_3D;
		k.wind = c.flags.wind;
		RefEkf::PredIn in;
		in.da = da;
		in.dv = dv;
		in.dadt = dadt;
		in.dvdt = dvdt;
		// the rotation rate of the earth is compensated from the moment the latitude is known
		const double lat = w.lat0 * M_PI / 180;
		const V3 wE = V3(std::cos(lat), 0, -std::sin(lat)) * 7.2921e-5;

		earthOn = gpsSeen;

		if (earthOn < 0) {
			// choose the alternative that explains the attitude better while a coarse fix may or may not have been used
			double dd[2] {};

			for (int o = 0; o < 2; o++) {
				in.earthRate = o ? wE : V3();
				RefEkf z;
				z.x = x0;
				in.Rprev = Mat3::of(&x0[0]);
				in.accBiasLim = p.acc_bias_lim;
				z.predictState(in);

				for (int i = 0; i < 4; i++) { dd[o] += sq(z.x[i] - x1[i]); }
			}

			in.earthRate = dd[1] < dd[0] ? wE : V3();

		} else { in.earthRate = earthOn ? wE : V3(); }


		for (int i = 0; i < 3; i++) { in.clip[i] = ims.delta_vel_clipping[i]; }

		in.Rprev = Mat3::of(&x0[0]);
		in.accBiasLim = p.acc_bias_lim;
		limDt = dtOld;
		accLim = p.acc_bias_lim;
		dvMag = dv.norm();
		dvdtNow = dvdt;
		k.predictState(in);
		// the compensation may use the attitude before or after the previous step's corrections
		qSlack = haveR ? 0.5 * dadt * (in.Rprev.t(wE) - lastR.t(wE)).norm() : 1e-6;
		lastR = k.R;
		haveR = havePre;
		k.dtAvg = dtAvg;
		const double alim = (double)p.acc_bias_learn_acc_lim, glim = (double)p.acc_bias_learn_gyr_lim;
		auto near = [](double a, double b) { return std::fabs(a - b) < 1e-4 * (std::fabs(b) + 1e-3); };

		for (int i = 0; i < 3; i++) {
			const bool tiltKnown = !near(std::fabs(k.R.m[2][i]), 0.8);
			const bool obs = std::fabs(k.R.m[2][i]) > 0.8 || cs.flags.in_air;

			if (!tiltKnown && !cs.flags.in_air) { undecided = true; }

			if (near(gyrFilt, glim) || near(accFilt, alim)) { undecided = true; }

			nowInh[i] = (p.fusion_mode & MASK_INHIBIT_ACC_BIAS) || gyrFilt > glim || accFilt > alim || fs.flags.bad_acc_vertical || !obs || in.clip[i];
		}

		// the plausibility test of the bias estimate is suspended while learning is inhibited on every axis
		if (inh[0] && inh[1] && inh[2] && !(nowInh[0] && nowInh[1] && nowInh[2])) { undecided = true; }

		for (int i = 0; i < 3; i++) {
			if (nowInh[i] && !inh[i]) { saved[i] = havePre ? P0[13 + i][13 + i] : 0; savedKnown[i] = havePre; }

			// the variance is reinstated when learning resumes
			if (!nowInh[i] && inh[i]) { if (savedKnown[i] && havePre) { k.P[13 + i][13 + i] = saved[i]; } else { undecided = true; } }

			inh[i] = nowInh[i];
			k.inhibit[i] = nowInh[i];
			k.varSaved[i] = saved[i];
		}

		// height rate low pass filter scales the wind process noise
		hgtLpf = 0.999 * hgtLpf + 0.001 * (havePre ? k.x[6] : x1[6]);

		const bool usable = havePre && !dirty && !reset && c.value == cs.value && !(flt & 0xffff) && !(fault & 0xffff) && !first && !undecided;

		if (getenv("P09D") && std::fabs(t - atof(getenv("P09D"))) < 0.03) { fprintf(stderr, "filt %.9g %.9g lim %g %g P15 %.9g -> model %.9g got %.9g inh %d noise %g\n", gyrFilt, accFilt, glim, alim, P0[15][15], k.P[15][15], P1[15][15], inh[2], in.accBiasNoise); fprintf(stderr, "step %.4f usable %d dirty %d reset %d ctl %llx->%llx flt %x cnt %d %d ev %d%d%d%d %d%d%d%d %d%d%d%d%d\n", t, usable, dirty, reset, (unsigned long long)cs.value, (unsigned long long)c.value, flt, cnt[4], cnt0[4], evaluated[0], evaluated[1], evaluated[2], evaluated[3], evaluated[4], evaluated[5], evaluated[6], evaluated[7], evaluated[8], evaluated[9], evaluated[10], evaluated[11], evaluated[12]); for (int q = 0; q < NSRC; q++) { fprintf(stderr, "   %s: %g %g var %g %g r %g\n", kSrc[q], np.s[q].i[0], np.s[q].i[1], np.s[q].v[0], np.s[q].v[1], np.s[q].r); } }

		if (!usable) {
			if (c.value != cs.value || reset || dirty) { odomKnown = false; for (bool &b : hgtOffKnown) { b = false; } if (c.value != cs.value) { staticKnown = lastKnown = false; } }

			r.cnt["skipped"]++;
			trackOnly(c, evaluated, im, e);
			declMaybe = true;
			staticKnown = staticKnown && c.flags.vehicle_at_rest && c.value == cs.value && !reset;
			return true;
		}

		in.gyroNoise = RefEkf::clampd(p.gyro_noise, 0, 1);
		in.accNoise = RefEkf::clampd(p.accel_noise, 0, 1);

		if (fs.flags.bad_acc_vertical) { in.accNoise = 4.9; }

		in.gyroBiasNoise = RefEkf::clampd(p.gyro_bias_p_noise, 0, 1);
		in.accBiasNoise = RefEkf::clampd(p.accel_bias_p_noise, 0, 1);
		const double me = P0[16][16] + P0[17][17] + P0[18][18], mb = P0[19][19] + P0[20][20] + P0[21][21];
		in.magENoise = c.flags.mag_3D && me < 0.1 ? 0.01 * RefEkf::clampd(p.mage_p_noise, 0, 1) : 0;
		in.magBNoise = c.flags.mag_3D && mb < 0.1 ? 0.01 * RefEkf::clampd(p.magb_p_noise, 0, 1) : 0;
		const double wv = P0[22][22] + P0[23][23];
		in.windNoise = c.flags.wind && wv < sq(p.initial_wind_uncertainty) ? 0.01 * RefEkf::clampd(p.wind_vel_p_noise, 0, 1) * (1 + (double)p.wind_vel_p_noise_scaler * std::fabs(hgtLpf)) : 0;
		k.predictCov(in);
		const D24 xPred = k.x;
		const bool nearLim = near(me, 0.1) || near(mb, 0.1) || near(wv, sq(p.initial_wind_uncertainty));

		for (int i = 0; i < 3; i++) { if (inh[i] && !savedKnown[i]) { skipAxis[i] = true; } else { skipAxis[i] = inh[i]; } }

		bool any = false, group[13] {};

		for (int s = 0; s < NSRC; s++) { if (evaluated[s]) { any = true; group[kGroup[s]] = true; } }

		r.cnt[any ? "steps_with_corrections" : "steps_prediction_only"]++;
		{
			uint64_t em = 0;

			for (int s = 0; s < NSRC; s++) { em |= evaluated[s] ? 1ull << s : 0; }

			r.states.insert(hash3(ctrlState(e), em, 0));
		}

		// (mixed steps are judged with the later group)
		const int attrib = !any ? 9 : group[12] ? 12 : group[11] ? 11 : 10;

		bool hidden = false;
		// a held or saturated heading innovation depends on its variance only: fusing it may leave the published values as they were
		const One &hd = np.s[HDG];

		if (!evaluated[HDG] && hd.v[0] != 0 && (std::fabs(hd.i[0]) < (c.flags.vehicle_at_rest ? 2e-3f : 1e-4f) || std::fabs(std::fabs(hd.i[0]) - std::max(p.heading_innov_gate, 1.f) * std::sqrt(hd.v[0])) < 1e-5f * std::fabs(hd.i[0]))) { hidden = true; r.cnt["undecided_heading"]++; }

		// the same for the dead zone of the barometer in ground effect
		if (!evaluated[BARO_] && np.s[BARO_].v[0] != 0 && np.s[BARO_].i[0] == 0) { hidden = true; r.cnt["undecided_deadzone"]++; }

		// a height far from zero is coarsely quantised: two innovations in a row may coincide
		if (!evaluated[BARO_] && f.ready[BARO] && hgtOffKnown[0] && np.s[BARO_].v[0] != 0 && std::fabs(k.x[9] + f.baroAvg.v.x - hgtOff[0] - np.s[BARO_].i[0]) < 2e-4 + 4e-6 * std::fabs(f.baroAvg.v.x)) { hidden = true; r.cnt["undecided_repeated_height"]++; }

		if (!evaluated[GVP] && f.ready[GPS] && c.flags.gps_hgt && np.s[GVP].v[0] != 0) { hidden = true; r.cnt["undecided_repeated_height"]++; }

		// known finding: the last vision height may be applied again (see P06)
		if (c.flags.ev_hgt && !f.ready[EV]) { hidden = true; r.cnt["undecided_vision_height"]++; }

		// wind estimation may time out and start again within one step
		if (c.flags.wind && f.ready[ASP] && evaluated[TAS] && st.t - tasBefore > 9500000 && st.t - betaBefore > 9500000) { hidden = true; r.cnt["undecided_wind_restart"]++; }

		if (c.flags.wind && (f.ready[ASP] || c.flags.fuse_beta) && !evaluated[TAS] && !evaluated[BETA] && (bitsOf((float)x1[22]) != bitsOf((float)x0[22]) || bitsOf((float)x1[23]) != bitsOf((float)x0[23])) && (!any || (st.t - tasBefore > 9500000 && st.t - betaBefore > 9500000))) { hidden = true; r.cnt["undecided_wind_restart"]++; }

		if (!any) {
			if (grp == 9 && getenv("P09D") && std::fabs(t - atof(getenv("P09D"))) < 0.03) {
				for (int i = 0; i < 16; i++) { fprintf(stderr, "x%d %.9g -> %.9g model %.9g d %.3g\n", i, x0[i], x1[i], k.x[i], x1[i] - k.x[i]); } fprintf(stderr, "earth %d used %g dt %g %g da %g %g %g ", earthOn, in.earthRate.x, dadt, dvdt, da.x, da.y, da.z); fprintf(stderr, "t %.4f dq %g %g %g %g dv %g %g %g dp %g %g %g dP00 %g rest %d ctl %x yawAl %d hdg %g %g\n", t, x1[0] - k.x[0], x1[1] - k.x[1], x1[2] - k.x[2], x1[3] - k.x[3], x1[4] - k.x[4], x1[5] - k.x[5], x1[6] - k.x[6], x1[7] - k.x[7], x1[8] - k.x[8], x1[9] - k.x[9], P1[0][0] - k.P[0][0], (int)c.flags.vehicle_at_rest, (unsigned)c.value, (int)c.flags.yaw_align, np.s[HDG].i[0], np.s[HDG].v[0]);
			}

			if (hidden) { return true; }

			if (grp == 9 && !nearLim && !compare(k, xPred, x1, P1, t, 9, "prediction", fs.flags.bad_acc_vertical)) { return false; }

			if (grp == 9) { accumulate(k, x1, t); }

			return true;
		}

		const bool odomWas = odomKnown;

		if (f.ready[EV]) { odomKnown = false; }

		if (!any || nearLim || hidden || earthOn < 0) { return true; }

		odomKnown = odomWas;

				faultNow = e.fault_status().flags.bad_acc_vertical;
		const Ctx ctx{np, evaluated, c, p, e, t, haveOrigin, st.t, im.t};
		bool good = false;

		if (attrib == grp) {
			const int cs0 = candidates(ctx);
			const RefEkf k0 = k;
			lastText.clear();
			quiet = cs0 & (cs0 - 1);
			bool undecidedStep = false;

			double off0[4];
			bool offKnown0[4];
			const double static0 = lastStaticYaw;
			const float ref0 = hgtRef;
			const V3 bias0 = flowBias;
			const bool biasKnown0 = flowBiasKnown;
			const int prev0 = flowPrev;
			const bool last0 = lastKnown;
			const V3 lastNE0 = lastKnownNE;
			std::copy(hgtOff, hgtOff + 4, off0);
			std::copy(hgtOffKnown, hgtOffKnown + 4, offKnown0);

			for (int b = 0; b < 8 && !good; b++) {
				if (!(cs0 >> b & 1)) { continue; }

				k = k0;
				// (what an alternative that does not fit has inferred is forgotten)
				std::copy(off0, off0 + 4, hgtOff);
				std::copy(offKnown0, offKnown0 + 4, hgtOffKnown);
				lastStaticYaw = static0;
				hgtRef = ref0;
				flowBias = bias0;
				flowBiasKnown = biasKnown0;
				flowPrev = prev0;
				lastKnown = last0;
				lastKnownNE = lastNE0;
				const std::string before = lastText;
				lastText.clear();
				const bool a = corrections(k, ctx, b);
				good = a && compare(k, xPred, x1, P1, t, grp, what.c_str(), fs.flags.bad_acc_vertical);

				if (getenv("P09D") && std::fabs(t - atof(getenv("P09D"))) < 0.003) { fprintf(stderr, "alt %d good %d: %s\n diff", b, good, lastText.c_str()); for (int i = 0; i < 24; i++) { fprintf(stderr, " %.3g(%.2g)", x1[i] - k.x[i], k.move[i]); } fprintf(stderr, "\n"); }

				if (!good && lastText.empty()) { undecidedStep = true; lastText = before; }
			}

			if (quiet && !good && !undecidedStep) { quiet = false; viol(grp, lastKind.c_str(), lastText); }

			quiet = false;
		}

		afterStep(ctx, good, x1);

		if (c.flags.ev_pos && (f.ready[EV] || !odomKnown)) { odomKnown = odomNextSet && good; odomMeas = odomMeasNext; odomPred[0] = odomPredNext[0]; odomPred[1] = odomPredNext[1]; odomTol = 3e-6 * (1 + std::fabs(k.x[7]) + std::fabs(k.x[8])); }

		if (!good) { return r.viol.empty(); }


		if (attrib == grp) { r.cnt["steps_compared"]++; compared++; }

		return true;
	}
	bool skipAxis[3] {};
	std::string what;
	void trackOnly(const filter_control_status_u &, const bool *ev, const RImu &im, Ekf &)
	{
		if (ev[GHV] || ev[GHP] || ev[EHV] || ev[EHP] || ev[FLW]) { lastAid = im.t; }

		odomKnown = false;
	}
	void accumulate(const RefEkf &k, const D24 &x1, double)
	{
		(void)k;
		(void)x1;
	}
	bool compare(const RefEkf &k, const D24 &xPred, const D24 &x1, const M24 &P1, double t, int g, const char *label, bool)
	{
		double s[24];

		for (int i = 0; i < 24; i++) { s[i] = std::sqrt(std::max(0.0, k.P[i][i])); }

		for (int i = 0; i < 24; i++) {
			const double tol = slack[i] + 3e-6 * k.noise[i] + (g == 9 ? 1 : 2) * ((i < 10 || i > 15 ? 3e-7 : std::fabs(std::fabs(xPred[i]) - (i < 13 ? 0.349066 : accLim) * limDt) < 1e-4 * std::fabs(xPred[i]) ? 3e-5 : 1e-6) * std::fabs(k.x[i]) + 1e-5 * k.move[i] + (i < 4 ? 3e-7 + qSlack : i < 10 ? 1e-6 + 1.5e-6 * (dvMag + 9.8 * dvdtNow) : i < 16 ? 1e-9 : 1e-7));
			const double d = std::fabs(x1[i] - k.x[i]);
			if (d / tol > worst[0]) { worst[0] = d / tol; worst[3] = i; worst[4] = t; }

			if (!(d <= tol)) { return viol(g, "state", fmt("%s at t=%.3f: state %d became %.9g, the model gives %.9g (before: %.9g, correction %.3g, tolerance %.3g)", label, t, i, x1[i], k.x[i], x0[i], k.move[i], tol)); }
		}

		for (int i = 0; i < 24; i++) {
			for (int j = 0; j <= i; j++) {
				if ((i >= 13 && i < 16 && skipAxis[i - 13]) || (j >= 13 && j < 16 && skipAxis[j - 13])) { continue; }

				// (the bias process noise is added by compensated summation: a rounding residue of the previous steps may appear now)
				const double tol = (g >= 11 ? 3e-6 : 2e-6) * std::max(k.scale[i][j], k.scale[j][i]) + 1e-6 * s[i] * s[j] + 1e-14 + (i == j && i >= 10 && i < 16 ? 2e-7 * std::max({resid[0][i - 10], resid[1][i - 10], resid[2][i - 10]}) : 0) + covSlack * (std::max(k.scale[i][j], k.scale[j][i]) + std::fabs(k.P[i][j]));

				for (int o = 0; o < 2; o++) {
					const double d = std::fabs((o ? P1[j][i] : P1[i][j]) - k.P[i][j]);
					worst[1] = std::max(worst[1], d / tol);

					if (!(d <= tol)) { return viol(g, "covariance", fmt("%s at t=%.3f: covariance (%d,%d) became %.9g, the model gives %.9g (before: %.9g, tolerance %.3g)", label, t, o ? j : i, o ? i : j, o ? P1[j][i] : P1[i][j], k.P[i][j], P0[i][j], tol)); }
				}
			}
		}

		fnv(h, (uint64_t)bitsOf((float)x1[6]));
		return true;
	}
	// ------------------------------------------------------------ corrections
	struct Ctx {
		const Pub &np;
		const bool *ev;
		const filter_control_status_u &c;
		const parameters &p;
		Ekf &e;
		double t;
		bool haveOrigin;
		uint64_t now, tf; // newest inertial sample, fusion horizon
	};
	bool check(const Ctx &x, const char *kind, int src, int ax, double got, double want, double tol)
	{
		r.cnt[std::string("checked_") + kind]++;

		if (std::fabs(got - want) <= tol) { worst[2] = std::max(worst[2], std::fabs(got - want) / tol); return true; }

		viol(grp, kind, fmt("%s (axis %d) %s at t=%.3f: published %.9g, the model gives %.9g (tolerance %.3g)", kSrc[src], ax, kind, x.t, got, want, tol));
		return false;
	}
	// what earlier corrections of this step left of the covariance is mostly their rounding
	bool cancelled(double inherited, double S)
	{
		if (inherited <= 1e-4 * S) { return false; }

		r.cnt["undecided_cancellation"]++;
		return true;
	}
	// innovation variances, consistency ratio and fusion of observations of single states
	bool direct(RefEkf &k, const Ctx &x, int src, int state, const double *obsVar, double gate, bool odd = false)
	{
		const One &o = x.np.s[src];
		double ratio = 0;

		for (int a = 0; a < kDim[src]; a++) {
			const int i = state + a;
			const double S = k.P[i][i] + obsVar[a];

			const double inh = covSlack * (k.scale[i][i] + std::fabs(k.P[i][i]));

			if (cancelled(inh, S)) { return false; }

			if (!check(x, "variance", src, a, o.v[a], S, 3e-5 * S + 8e-6 * k.scale[i][i] + inh)) { return false; }

			ratio = std::max(ratio, sq(o.i[a]) / (sq(gate) * S));
		}

		if (!check(x, "ratio", src, 0, o.r, ratio, 1e-4 * ratio + 1e-9)) { return false; }

		const bool clampIt = kDim[src] == 1 && faultNow;
		const bool fuseIt = odd ? o.r <= (float)sq(100 / gate) : o.r <= 1 || clampIt;
		r.cnt[std::string(fuseIt ? "fused_" : "rejected_") + kKey[src]]++;

		if (!odd && o.r > 1 && clampIt) { r.cnt["bad_acceleration_clamped"]++; }

		if (odd && fuseIt != (o.r <= 1)) { r.cnt["synthetic_outside_gate"]++; }

		if (!fuseIt) { return true; }

		for (int a = 0; a < kDim[src]; a++) {
			D24 H{};
			H[state + a] = 1;
			double in = o.i[a];

			if (clampIt && o.r > 1) { const double l = gate * std::sqrt((double)o.v[a]); in = RefEkf::clampd(in, -l, l); }

			if (!k.fuse(H, o.v[a], in)) { return false; }
		}

		return true;
	}
	bool faultNow{false};
	static V3 vec(const matrix::Vector3f &v) { return d3(v); }
	static double ftol(double a, double b) { return 1e-6 * (std::fabs(a) + std::fabs(b)) + 2e-5; }
	// (plus what rounding in the earlier corrections of the same step may have left in the state)
	double left(const RefEkf &k, int i) const { return slack[i] + 1e-5 * k.noise[i]; }
	double ftolS(const RefEkf &k, int i, double b) const { return ftol(k.x[i], b) + left(k, i); }
	double leftQ(const RefEkf &k) const { return qSlack + left(k, 0) + left(k, 1) + left(k, 2) + left(k, 3); }
	double leftV(const RefEkf &k) const { return left(k, 4) + left(k, 5) + left(k, 6); }
	bool corrGps(RefEkf &k, const Ctx &x, uint64_t now)
	{
		const Pub &np = x.np;
		const parameters &p = x.p;
		const V3 imu = vec(p.imu_pos_body);
		const bool g = x.c.flags.gps;

		// GPS velocity and position
		if (x.ev[GHV] || x.ev[GVV] || (x.ev[GHP] && g)) {
			if (!f.ready[GPS]) { return false; }

			const gps_message &m = w.gps[f.idx[GPS]];
			const V3 off = vec(p.gps_pos_body) - imu;
			const V3 vel = d3(m.vel_ned) - k.R * rateRaw.cross(off);
			const V3 d = k.R * off;
			const double lt = 1e-5 * (rateRaw.norm() + 1) * off.norm();

			for (int a = 0; a < 3; a++) {
				if (!check(x, "innovation", a < 2 ? GHV : GVV, a % 2, a < 2 ? np.s[GHV].i[a] : np.s[GVV].i[0], k.x[4 + a] - vel[a], ftolS(k, 4 + a, vel[a]) + lt)) { return false; }
			}

			double gx, gy;
			projFwd(olat, olon, m.lat * 1e-7, m.lon * 1e-7, gx, gy);

			if (now - lastOrigin > 3000000 && x.haveOrigin) {
				// (the flat projection loses precision close to its origin)
				const double dist = std::sqrt(gx * gx + gy * gy), tol = 2e-3 + std::min(0.25, 0.03 / std::max(dist, 0.1)) + 1e-6 * dist;
				const double me[2] = {gx - d.x, gy - d.y};

				for (int a = 0; a < 2; a++) { if (!check(x, "innovation", GHP, a, np.s[GHP].i[a], k.x[7 + a] - me[a], tol + ftolS(k, 7 + a, me[a]) + lt)) { return false; } }
			}

			const double sv = sq(std::max((double)m.sacc, (double)p.gps_vel_noise)), vv[2] = {sv, sv}, v3[1] = {sv * 2.25};
			const double lo = std::max((double)p.gps_pos_noise, 0.01), hi = std::max((double)p.pos_noaid_noise, lo);
			const int others = x.c.flags.opt_flow + x.c.flags.ev_pos + x.c.flags.ev_vel + (x.c.flags.fuse_aspd && x.c.flags.fuse_beta);
			const double hv = sq(others ? std::max((double)m.eph, lo) : RefEkf::clampd(m.eph, lo, hi)), hh[2] = {hv, hv};
			const double vg = std::max(p.gps_vel_innov_gate, 1.f), pg = std::max(p.gps_pos_innov_gate, 1.f);

			if (!direct(k, x, GHV, 4, vv, vg) || !direct(k, x, GVV, 6, v3, vg) || !direct(k, x, GHP, 7, hh, pg)) { return false; }
		}

		return true;
	}
	bool corrHeight(RefEkf &k, const Ctx &x)
	{
		const Pub &np = x.np;
		const parameters &p = x.p;
		const V3 imu = vec(p.imu_pos_body);
		const bool g = x.c.flags.gps;

		if (x.ev[BARO_]) {
			if (!f.ready[BARO]) { return false; }

			const double h = f.baroAvg.v.x, in = np.s[BARO_].i[0], dz = p.gnd_effect_deadzone;

			if (!x.c.flags.gnd_effect || !hgtOffKnown[0]) {
				if (!offset(x, 0, BARO_, k.x[9] + h - in, ftolS(k, 9, h) + 1e-7 * std::fabs(h), x.c.flags.gnd_effect)) { return false; }

			} else {
				const double raw = k.x[9] + h - hgtOff[0];
				const double want = raw < 0 ? raw <= -dz ? raw + dz : 0 : raw;

				if (!check(x, "innovation", BARO_, 0, in, want, ftolS(k, 9, h) + 4e-7 * std::fabs(h))) { return false; }

				r.cnt["ground_effect"]++;
			}

			const double v[1] = {sq(std::max((double)p.baro_noise, 0.01))};

			if (!direct(k, x, BARO_, 9, v, std::max(p.baro_innov_gate, 1.f))) { return false; }
		}

		if (x.ev[GVP]) {
			if (!f.ready[GPS]) { return false; }

			const gps_message &m = w.gps[f.idx[GPS]];
			const double h = m.alt * 1e-3 + (g ? (k.R * (vec(p.gps_pos_body) - imu)).z : 0);
			float oa;
			uint64_t ot;
			double la, lo;
			x.e.getEkfGlobalOrigin(ot, la, lo, oa);

			if (oa != hgtRef) { hgtRef = oa; hgtOffKnown[1] = false; }

			if (!offset(x, 1, GVP, k.x[9] + h - oa - np.s[GVP].i[0], ftolS(k, 9, h) + 4e-7 * std::fabs(h), false)) { return false; }

			const double l = std::max(1.5 * p.gps_pos_noise, 0.01), v[1] = {sq(RefEkf::clampd(m.epv, l, std::max(1.5 * p.pos_noaid_noise, l)))};

			if (!direct(k, x, GVP, 9, v, std::max(p.baro_innov_gate, 1.f))) { return false; }
		}

		if (x.ev[RNG_]) {
			const V3 off = vec(p.rng_pos_body) - imu;
			// the tilt is measured where the sensor data is checked, before any correction of this step
			const double ct = k.R.m[2][0] * std::sin((double)p.rng_sens_pitch) + k.R.m[2][2] * std::cos((double)p.rng_sens_pitch);
			const double syn = p.rng_gnd_clearance * ct, clr = p.rng_gnd_clearance;
			const double dist = f.ready[RNG] ? w.rng[f.idx[RNG]].rng * ct + (k.R * off).z : 0;
			const One &o = np.s[RNG_];
			auto var = [&](double d) { return std::max(sq(p.range_noise) + sq(p.range_noise_scaler * d), 0.01); };
			auto fits = [&](double d) { return std::fabs(o.v[0] - (k.P[9][9] + var(d))) <= 1e-5 * o.v[0] + 4e-6 * k.scale[9][9]; };
			auto offs = [&](double d) { return k.x[9] + std::max(d, clr) - o.i[0]; };
			auto tolOf = [&](double d) { return ftolS(k, 9, d) + 1e-5 * d; };
			const bool real = f.ready[RNG] && fits(dist), made = !x.c.flags.in_air && fits(syn);

			if (!real && !made) { check(x, "variance", RNG_, 0, o.v[0], k.P[9][9] + var(f.ready[RNG] ? dist : syn), 0); return false; }

			// on the ground a measurement that failed its checks is replaced by the expected clearance
			bool useMade = !real;

			if (real && made) {
				if (!hgtOffKnown[2]) { if (std::fabs(offs(dist) - offs(syn)) > 1e-6) { return false; } }

				else { useMade = std::fabs(offs(syn) - hgtOff[2]) < std::fabs(offs(dist) - hgtOff[2]); }
			}

			const double d = useMade ? syn : dist, v[1] = {var(d)};
			r.cnt[useMade ? "range_synthesised" : "range_measured"]++;

			if (!offset(x, 2, RNG_, offs(d), tolOf(d), false)) { return false; }

			if (!direct(k, x, RNG_, 9, v, std::max(p.range_innov_gate, 1.f))) { return false; }
		}

		const bool evOk = f.ready[EV];

		if (x.ev[EVP]) {
			if (!evOk) { return false; }

			const extVisionSample &m = w.ev[f.idx[EV]];

			if (!check(x, "innovation", EVP, 0, np.s[EVP].i[0], k.x[9] - m.pos(2), ftolS(k, 9, m.pos(2)))) { return false; }

			const double v[1] = {std::max((double)m.posVar(2), 1e-4)};

			if (!direct(k, x, EVP, 9, v, std::max(p.ev_pos_innov_gate, 1.f))) { return false; }
		}

		return true;
	}
	bool corrVision(RefEkf &k, const Ctx &x)
	{
		const Pub &np = x.np;
		const parameters &p = x.p;
		const V3 imu = vec(p.imu_pos_body);
		const bool evOk = f.ready[EV];
		const auto qe = x.e.getVisionAlignmentQuaternion();
		const double qd[4] = {qe(0), qe(1), qe(2), qe(3)};
		const Mat3 E = Mat3::of(qd);

		if (evOk && x.c.flags.ev_pos) {
			const extVisionSample &m = w.ev[f.idx[EV]];
			const V3 meas = d3(m.pos) - k.R * (vec(p.ev_pos_body) - imu);
			double v[2];
			auto rotVar = [&](int a) { double s = 0; for (int j = 0; j < 3; j++) { s += sq(E.m[a][j]) * m.posVar(j); } return s; };

			if (p.fusion_mode & MASK_USE_GPS) {
				const bool known = odomKnown && odomIdx >= 0;

				for (int a = 0; a < 2; a++) { v[a] = std::max(rotVar(a), 0.25); }

				const V3 dm = E * (meas - odomMeas);
				bool fuse = x.ev[EHP];

				if (fuse && known) {
					for (int a = 0; a < 2; a++) { if (!check(x, "innovation", EHP, a, np.s[EHP].i[a], k.x[7 + a] - odomPred[a] - dm[a], ftolS(k, 7 + a, odomPred[a]) + 1e-6 * (meas.norm() + odomMeas.norm()) + 1e-5 + odomTol)) { return false; } }

					r.cnt["odometry_innovations"]++;
				}

				odomPredNext[0] = k.x[7];
				odomPredNext[1] = k.x[8];
				odomMeasNext = meas;
				odomIdx = f.idx[EV];
				odomNextSet = true;

				if (fuse && !direct(k, x, EHP, 7, v, std::max(p.ev_pos_innov_gate, 1.f))) { return false; }

			} else if (x.ev[EHP]) {
				const bool rot = p.fusion_mode & MASK_ROTATE_EV;
				r.cnt[rot ? "ev_absolute_rotated" : "ev_absolute"]++;
				const V3 me = rot ? E * meas : meas;

				for (int a = 0; a < 2; a++) {
					v[a] = std::max(rot ? rotVar(a) : (double)m.posVar(a), 1e-4);

					if (!check(x, "innovation", EHP, a, np.s[EHP].i[a], k.x[7 + a] - me[a], ftolS(k, 7 + a, me[a]) + 2e-6 * meas.norm())) { return false; }
				}

				if (!direct(k, x, EHP, 7, v, std::max(p.ev_pos_innov_gate, 1.f))) { return false; }
			}

		} else if (x.ev[EHP]) { return false; }

		if (x.ev[EHV] || x.ev[EVV]) {
			if (!evOk) { return false; }

			const extVisionSample &m = w.ev[f.idx[EV]];
			const V3 lever = rateRaw.cross(vec(p.ev_pos_body) - imu);
			const bool body = m.vel_frame == velocity_frame_t::BODY_FRAME_FRD, rot = !body && (p.fusion_mode & MASK_ROTATE_EV);
			const V3 vel = body ? k.R * (d3(m.vel) - lever) : (rot ? E * d3(m.vel) : d3(m.vel)) - k.R * lever;
			const Mat3 &T = body ? k.R : E;
			double v[3];

			for (int a = 0; a < 3; a++) {
				double s = 0;

				if (body || rot) { for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { s += T.m[a][i] * T.m[a][j] * m.velCov(i, j); } } } else { s = m.velCov(a, a); }

				v[a] = std::max(s, 0.0025);
				const double got = a < 2 ? np.s[EHV].i[a] : np.s[EVV].i[0];

				if (!check(x, "innovation", a < 2 ? EHV : EVV, a % 2, got, k.x[4 + a] - vel[a], ftolS(k, 4 + a, vel.norm()) + 1e-5 * lever.norm())) { return false; }
			}

			const double gate = std::max(p.ev_vel_innov_gate, 1.f);

			if (!direct(k, x, EHV, 4, v, gate) || !direct(k, x, EVV, 6, v + 2, gate)) { return false; }
		}

		return true;
	}
	bool corrOther(RefEkf &k, const Ctx &x)
	{
		const Pub &np = x.np;
		const parameters &p = x.p;
		const bool g = x.c.flags.gps;

		if (x.ev[AUX_]) {
			if (!f.ready[AUX]) { return false; }

			const auxVelSample &m = w.aux[f.idx[AUX]];
			const double v[2] = {m.velVar(0), m.velVar(1)};

			for (int a = 0; a < 2; a++) { if (!check(x, "innovation", AUX_, a, np.s[AUX_].i[a], k.x[4 + a] - m.vel(a), ftolS(k, 4 + a, m.vel(a)))) { return false; } }

			if (!direct(k, x, AUX_, 4, v, p.auxvel_gate)) { return false; }
		}

		// synthetic position when nothing else limits the drift
		if (x.ev[GHP] && !g) {
			const One &o = np.s[GHP];
			const V3 at(k.x[7] - o.i[0], k.x[8] - o.i[1], 0);

			if (lastKnown && (at - lastKnownNE).norm() > 2e-5 + 1e-6 * at.norm() + 3e-7 * (std::fabs(k.x[7]) + std::fabs(k.x[8]))) { check(x, "innovation", GHP, 0, o.i[0], k.x[7] - lastKnownNE.x, 1e-5); check(x, "innovation", GHP, 1, o.i[1], k.x[8] - lastKnownNE.y, 1e-5); return false; }

			lastKnown = true;
			lastKnownNE = at;
			const double sd = x.c.flags.in_air && x.c.flags.tilt_align ? std::max(p.pos_noaid_noise, p.gps_pos_noise) : x.c.flags.vehicle_at_rest ? 0.1 : 0.5;
			const double v[2] = {sd * sd, sd * sd};

			if (!direct(k, x, GHP, 7, v, 3, true)) { return false; }
		}

		return true;
	}
	float hgtRef{0};
	V3 odomMeasNext;
	double odomPredNext[2] {}, odomTol{0};
	bool odomNextSet{false};
	int odomIdx{-1};
	// the offset of a height source is constant while it is the height reference
	bool offset(const Ctx &x, int n, int src, double off, double tol, bool skip)
	{
		if (skip) { return true; }

		if (hgtOffKnown[n]) { if (!check(x, "innovation", src, 0, x.np.s[src].i[0], x.np.s[src].i[0] + off - hgtOff[n], 3 * tol)) { return false; } }

		else { hgtOffKnown[n] = true; hgtOff[n] = off; }

		return true;
	}
	// ------------------------------------------------------------ yaw and magnetic field
	D24 slack{};
	bool declMaybe{true};		// a declination correction may precede the next magnetometer correction
	double yawOff{0}, rho{1.225};
	bool aidFlag{false};
	uint64_t lastInAir{0}, lastHorAid{0}, lastTas{0}, lastBeta{0}, tasBefore{0}, betaBefore{0}, horBefore{0}, noAidSince{0};
	int dragN{0};
	double dragX{0}, dragY{0}, dragDt{0};
	uint64_t dragT{0};
	RBuf<V3> drag;
	V3 dragPopped;
	uint64_t dragPopT{0};
	bool is321(const Mat3 &R) const { return std::fabs(R.m[2][0]) < std::fabs(R.m[2][1]); }
	static double yawOf(const Mat3 &R, bool s321) { return s321 ? std::atan2(R.m[1][0], R.m[0][0]) : std::atan2(-R.m[0][1], R.m[1][1]); }
	// reference declination; 0: unknown
	bool declination(const Ctx &x, const RefEkf &k, double &d, double &tol, bool reference) const
	{
		tol = 1e-6;

		if (x.c.flags.mag_aligned_in_flight && !reference) { d = std::atan2(k.x[17], k.x[16]); tol = 1e-6; return true; }

		if (x.p.mag_declination_source & MASK_USE_GEO_DECL) {
			if (x.haveOrigin) { d = worldDecl(olat, olon); tol = 2e-4; return true; }

			if (gpsSeen) { return false; }
		}

		d = x.p.mag_declination_deg * 0.017453292519943295;
		return true;
	}
	bool corrDecl(RefEkf &k, const Ctx &x, double sigma)
	{
		if (std::fabs(k.x[16]) < 1.5e-6) { return false; }

		const double n = k.x[16], e = k.x[17], h2 = n * n + e * e;
		D24 H{};
		H[16] = -e / h2;
		H[17] = n / h2;
		const double R = sigma * sigma, q = k.quad(H);

		if (q < 1e-5 * (R + k.quadScale(H))) { return false; }

		double innov = 0, tol = 0;

		if (!x.c.flags.mag_aligned_in_flight) {
			double d;

			if (!declination(x, k, d, tol, false)) { return false; }

			// (the difference is not wrapped)
			innov = std::atan2(e, n) - d;
			tol += 1e-6;
			innov = RefEkf::clampd(innov, -0.5, 0.5);
		}

		double g[24];

		for (int i = 0; i < 24; i++) { double s = 0; for (int j = 16; j < 18; j++) { s += k.P[i][j] * H[j]; } g[i] = s / (q + R); }

		covSlack += 1e-6 * std::min(20.0, k.quadScale(H) / (q + R));

		if (!k.fuse(H, q + R, innov)) { return false; }

		for (int i = 0; i < 24; i++) { slack[i] += std::fabs(g[i]) * tol * 1.1; }

		r.cnt["fused_declination"]++;
		return limitDecl(k, x);
	}
	// the field estimate is kept close to the expected field: steps where the limit acts are not judged
	bool limitDecl(const RefEkf &k, const Ctx &x)
	{
		double d, tol;

		if (!declination(x, k, d, tol, true)) { return false; }

		const double est = std::atan2(k.x[17], k.x[16]), h = std::hypot(k.x[16], k.x[17]);
		double hmin = 0.001;

		if ((x.p.mag_declination_source & MASK_USE_GEO_DECL) && x.haveOrigin) { hmin = std::max(hmin, 0.5 * worldStrength(olat, olon) * std::cos(worldIncl(olat, olon))); }

		if (std::fabs(est - d) > 0.5 - 2e-3 || h < hmin * 1.02) { r.cnt["field_limited"]++; return false; }

		return true;
	}
	bool corr3D(RefEkf &k, const Ctx &x, bool all)
	{
		if (!f.ready[MAG] || declMaybe) { return false; }

		const One &o = x.np.s[MAG_];
		const double R = sq(std::max((double)x.p.mag_noise, 0.0)), gate = std::max(x.p.mag_innov_gate, 1.f);
		const V3 m = f.magAvg.v;
		const bool syn = x.c.flags.synthetic_mag_z;
		auto pred = [](const D24 &s, int a) { const Mat3 M = Mat3::of(&s[0]); return M.t(V3(s[16], s[17], s[18]))[a] + s[19 + a]; };
		auto jac = [&](const RefEkf &z, int a) {
			D24 H{};
			const V3 mi(z.x[16], z.x[17], z.x[18]);
			const Mat3 M = Mat3::of(&z.x[0]);

			for (int q = 0; q < 4; q++) { H[q] = Mat3::dRtv(&z.x[0], q, mi)[a]; }

			for (int j = 0; j < 3; j++) { H[16 + j] = M.m[j][a]; }

			H[19 + a] = 1;
			return H;
		};
		double ratio = 0, S[3], in[3];

		for (int a = 0; a < 3; a++) {
			const double want = pred(k.x, a) - m[a];
			in[a] = o.i[a];

			if (syn && a == 2) { if (!check(x, "innovation", MAG_, a, o.i[a], 0, 0)) { return false; } }

			// (a replaced Z component is not published)
			else if (!check(x, "innovation", MAG_, a, o.i[a], want, 2e-6 + 2e-6 * m.norm() + 2 * leftQ(k))) { return false; }

			const D24 H = jac(k, a);
			const double q = k.quad(H);

			if (q < 1e-6 * (R + k.quadScale(H))) { return false; }

			S[a] = q + R;
			ratio = std::max(ratio, sq(o.i[a]) / (sq(gate) * S[a]));
		}

		if (!check(x, "ratio", MAG_, 0, o.r, ratio, 3e-4 * ratio + 1e-8)) { return false; }

		// a consistent 3-axis sample is reported with no heading test
		if (!check(x, "ratio", HDG, 0, x.np.s[HDG].r, 0, 0)) { return false; }

		// (what is left after the previous axes carries the rounding errors of what was there before)
		double pre[3];

		for (int a = 0; a < 3; a++) { pre[a] = 6e-7 * k.quadScale(jac(k, a)); }

		auto var = [&](const RefEkf &z, int a, double s) { const D24 H = jac(z, a); return check(x, "variance", MAG_, a, o.v[a], s, 1e-5 * s + 8e-6 * z.quadScale(H) + pre[a]); };

		if (o.r > 1) {
			r.cnt["rejected_mag"]++;

			for (int a = 0; a < 3; a++) { if (!var(k, a, S[a])) { return false; } }

		} else {
			for (int a = 0; a < 3; a++) {
				if (syn && a == 2) { if (!var(k, a, S[a])) { /* computed before the other axes were used */ return false; } continue; }

				const D24 H = jac(k, a);
				const double s = k.quad(H) + R;

				if (!var(k, a, s)) { return false; }

				covSlack += 1e-6 * std::min(300.0, k.quadScale(H) / s + (a ? 2 * pre[a] / 6e-7 / s : 0));

				if (!k.fuse(H, o.v[a], in[a], [all](int i) { return all || (i >= 16 && i < 22); })) { return false; }

				if (!limitDecl(k, x)) { return false; }
			}

			r.cnt[all ? "fused_mag" : "fused_mag_field_only"]++;

			if (syn) { r.cnt["synthetic_z"]++; }
		}

		return true;
	}
	bool corrMag(RefEkf &k, const Ctx &x, bool all)
	{
		if (!corr3D(k, x, all)) { return false; }

		return x.c.flags.mag_dec ? corrDecl(k, x, 0.5) : true;
	}
	bool inhibitedYaw(const Ctx &x) const
	{
		if (x.p.mag_fusion_type == MAG_FUSE_TYPE_NONE) { return true; }

		return (x.p.mag_fusion_type == MAG_FUSE_TYPE_INDOOR && !x.c.flags.gps && !x.c.flags.ev_pos && !x.c.flags.ev_vel) || x.c.flags.mag_field_disturbed;
	}
	// gates and applies a yaw innovation; raw: what the innovation should be
	bool applyYaw(RefEkf &k, const Ctx &x, const D24 &H, double R, double raw, double tol, bool gps, bool wrap)
	{
		const One &o = x.np.s[HDG];
		const double S = k.quad(H) + R, gate = std::max(x.p.heading_innov_gate, 1.f);

		if (S - R < 1e-6 * k.quadScale(H)) { return false; }

		if (getenv("P09D") && std::fabs(x.t - atof(getenv("P09D"))) < 0.003) { fprintf(stderr, "yaw t %.4f S %g R %g H %g %g %g %g\n", x.t, S, R, H[0], H[1], H[2], H[3]); for (int i = 0; i < 4; i++) { fprintf(stderr, "  P %g %g %g %g q %g\n", k.P[i][0], k.P[i][1], k.P[i][2], k.P[i][3], k.x[i]); } }

		if (cancelled(covSlack * k.quadScale(H), S)) { return false; }

		if (!check(x, "variance", HDG, 0, o.v[0], S, 3e-5 * S + (1.5e-5 + covSlack) * k.quadScale(H))) { return false; }

		// (at half a turn the sign is a matter of rounding)
		if (wrap && std::fabs(std::fabs(raw) - M_PI) < 2 * tol + 1e-5) { return false; }

		const double ratio = sq(raw) / (sq(gate) * S);

		if (!check(x, "ratio", HDG, 0, o.r, ratio, 3e-5 * ratio + (2 * std::fabs(raw) * tol + tol * tol) / (sq(gate) * S) + 1e-9)) { return false; }

		if (!check(x, "ratio", MAG_, 0, x.np.s[MAG_].r, 0, 0)) { return false; }

		const uint64_t since = x.now - lastInAir;
		bool forced = false;

		if (o.r > 1) {
			const bool airborne = x.c.flags.in_air;

			if (!gps && !airborne && since > 4700000 && since < 5300000) { return false; }

			forced = !airborne && (gps || since > 5000000);

			if (!forced) {
				r.cnt["rejected_heading"]++;

				if (gps && !check(x, "innovation", HDG, 0, o.i[0], raw, tol)) { return false; }

				return true;
			}

			r.cnt["heading_clamped"]++;
		}

		const double l = gate * std::sqrt(S), want = forced ? RefEkf::clampd(raw, -l, l) : raw;

		if (!check(x, "innovation", HDG, 0, o.i[0], want, tol + (forced ? 2e-5 * l : 0))) { return false; }

		r.cnt["fused_heading"]++;
		const bool wind = x.c.flags.wind;
		return k.fuse(H, o.v[0], o.i[0], [wind, gps](int i) { return gps || i < 16 || (i >= 22 && wind); });
	}
	// vision: true when the vision attitude is the measurement
	bool corrHeading(RefEkf &k, const Ctx &x, bool vision)
	{
		const Mat3 R = Mat3::of(&k.x[0]);

		if (std::fabs(std::fabs(R.m[2][0]) - std::fabs(R.m[2][1])) < 1e-5) { return false; }

		const bool s = is321(R);
		const double py = yawOf(R, s);
		double var, raw = 0, tol = 1e-5 + 4 * qSlack;

		const D24 H = k.jac([s](const D24 &z) {
			const double a = z[0], b = z[1], c = z[2], d = z[3];
			return s ? std::atan2(2 * (a * d + b * c), a * a + b * b - c * c - d * d) : std::atan2(2 * (a * d - b * c), a * a - b * b + c * c - d * d);
		}, {0, 1, 2, 3}, true);
		const double hh = s ? std::hypot(R.m[1][0], R.m[0][0]) : std::hypot(R.m[0][1], R.m[1][1]);

		if (hh < 0.05) { return false; }

		tol += 2e-6 / hh;

		if (vision) {
			if (!f.ready[EV]) { return false; }

			const extVisionSample &m = w.ev[f.idx[EV]];
			const double q[4] = {m.quat(0), m.quat(1), m.quat(2), m.quat(3)};
			const Mat3 M = Mat3::of(q);
			const double mh = s ? std::hypot(M.m[1][0], M.m[0][0]) : std::hypot(M.m[0][1], M.m[1][1]);

			if (mh < 0.05) { return false; }

			tol += 2e-6 / mh;
			raw = wrapPi(py - yawOf(M, s));
			var = m.angVar;
			r.cnt["vision_heading"]++;

		} else {
			const bool mag = x.c.flags.mag_hdg;
			var = mag ? sq(x.p.mag_heading_noise) : 0.01;

			if (mag && !f.ready[MAG]) { return false; }

			if (inhibitedYaw(x)) {
				if (!x.c.flags.vehicle_at_rest) {
					// no measurement: the attitude uncertainty is limited with a zero innovation
					double sum = 0;

					for (int i = 0; i < 4; i++) { sum += k.P[i][i]; }

					if (std::fabs(sum - x.p.quat_max_variance) < 1e-4 * sum) { return false; }

					if (sum < x.p.quat_max_variance) { viol(11, "inhibited_yaw", fmt("a heading measurement was used at t=%.3f although yaw measurements are inhibited and the attitude uncertainty (%.3g) is within its limit: innovation %.6g variance %.6g", x.t, sum, x.np.s[HDG].i[0], x.np.s[HDG].v[0])); return false; }

					var = 0.25;
					raw = 0;
					tol = 0;
					r.cnt["zero_innovation"]++;

				} else {
					const double inn = x.np.s[HDG].i[0];
					const double want = wrapPi(py - lastStaticYaw);

					if (!staticKnown) {
						if (x.np.s[HDG].r > 1) { return false; }

						lastStaticYaw = py - inn;
						raw = inn;

					} else { raw = want; tol *= 2; }

					staticNext = true;
					r.cnt[staticKnown ? "static_heading" : "static_heading_first"]++;
				}

			} else if (mag) {
				double decl, dt;

				if (!declination(x, k, decl, dt, false)) { return false; }

				V3 mm = f.magAvg.v;

				if (x.c.flags.synthetic_mag_z) {
					if (!x.haveOrigin) { return false; }

					// the vertical component is taken from the expected field strength
					const double d = worldDecl(olat, olon), i = worldIncl(olat, olon), F = worldStrength(olat, olon);
					const V3 E = V3(std::cos(i) * std::cos(d), std::cos(i) * std::sin(d), std::sin(i)) * F;
					const double z2 = F * F - mm.x * mm.x - mm.y * mm.y, zb = E.x * k.R.m[0][2] + E.y * k.R.m[1][2] + E.z * k.R.m[2][2];

					if (z2 < 0.003 || std::fabs(zb) < 1e-3) { return false; }

					mm.z = zb < 0 ? -std::sqrt(z2) : std::sqrt(z2);
					tol += 1e-4;
					r.cnt["synthetic_z"]++;
				}

				const V3 me = R * (mm - V3(k.x[19], k.x[20], k.x[21]));
				const double mh = std::hypot(me.x, me.y);

				if (mh < 0.02) { return false; }

				raw = wrapPi(std::atan2(me.y, me.x) - decl);
				tol += dt + 3e-6 * me.norm() / mh;

			} else { return false; }
		}

		return applyYaw(k, x, H, std::max(var, 1e-4), raw, tol, false, tol > 0);
	}
	bool staticNext{false};
	bool corrGpsYaw(RefEkf &k, const Ctx &x)
	{
		if (!f.ready[GPS]) { return false; }

		const gps_message &m = w.gps[f.idx[GPS]];

		if (!std::isfinite(m.yaw)) { check(x, "innovation", HDG, 0, x.np.s[HDG].i[0], NAN, 0); return false; }

		const V3 ant(std::cos(yawOff), std::sin(yawOff), 0);
		const V3 ae = k.R * ant;
		const double hh = std::hypot(ae.x, ae.y);

		if (std::fabs(std::fabs(ae.z) - std::cos(30 * M_PI / 180)) < 1e-4 || hh < 0.05) { return false; }

		const double raw = wrapPi(std::atan2(ae.y, ae.x) - (m.yaw + yawOff));
		const D24 H = k.jac([ant](const D24 &z) { const V3 a = Mat3::of(&z[0]) * ant; return std::atan2(a.y, a.x); }, {0, 1, 2, 3}, true);
		r.cnt["gps_heading"]++;
		// (the published form of the sensitivity loses precision when the antenna axis points east or west)
		const double c = std::fabs(ae.x) / hh;

		if (c < 0.02) { return false; }

		return applyYaw(k, x, H, sq(std::max((double)x.p.mag_heading_noise, 0.01)), raw, 1e-5 + 4 * qSlack + 2e-6 / hh, true, true);
	}
	// ------------------------------------------------------------ air data and optical flow
	bool one(RefEkf &k, const Ctx &x, int src, const D24 &H, double R, double gate, double innov, double tol, bool windOnly)
	{
		const One &o = x.np.s[src];
		const double S = k.quad(H) + R;

		if (S - R < 1e-6 * k.quadScale(H)) { return false; }

		const double inh = covSlack * k.quadScale(H);

		if (cancelled(inh, S)) { return false; }

		if (!check(x, "variance", src, 0, o.v[0], S, 3e-5 * S + 1.5e-5 * k.quadScale(H) + inh)) { return false; }

		if (!check(x, "innovation", src, 0, o.i[0], innov, tol)) { return false; }

		const double ratio = sq(o.i[0]) / (sq(gate) * o.v[0]);

		if (!check(x, "ratio", src, 0, o.r, ratio, 1e-5 * ratio + 1e-9)) { return false; }

		r.cnt[std::string(o.r <= 1 ? "fused_" : "rejected_") + kKey[src]]++;

		if (o.r > 1) { return true; }

		return k.fuse(H, o.v[0], o.i[0], [windOnly](int i) { return !windOnly || i >= 22; });
	}
	bool corrAir(RefEkf &k, const Ctx &x, bool windOnly)
	{
		auto rel = [](const D24 &z) { return V3(z[4] - z[22], z[5] - z[23], z[6]); };
		auto relB = [rel](const D24 &z) { return Mat3::of(&z[0]).t(rel(z)); };

		if (x.ev[TAS]) {
			if (!f.ready[ASP]) { return false; }

			const airspeedSample &m = w.asp[f.idx[ASP]];
			const V3 v = rel(k.x);
			const double n = v.norm();

			if (n < 1.0001) { if (n < 0.999) { check(x, "innovation", TAS, 0, x.np.s[TAS].i[0], NAN, 0); } return false; }

			D24 H{};
			H[4] = v.x / n;
			H[5] = v.y / n;
			H[6] = v.z / n;
			H[22] = -H[4];
			H[23] = -H[5];
			const double R = sq(RefEkf::clampd(x.p.eas_noise, 0.5, 5) * RefEkf::clampd(m.eas2tas, 0.9, 10));

			if (!one(k, x, TAS, H, R, std::max(x.p.tas_innov_gate, 1.f), n - m.true_airspeed, 2e-5 + leftV(k) + left(k, 22) + left(k, 23) + 1e-6 * (n + std::fabs(m.true_airspeed)), windOnly)) { return false; }
		}

		if (x.ev[BETA]) {
			const V3 v = relB(k.x);

			if (v.norm() < 7.0001) { if (v.norm() < 6.999) { check(x, "innovation", BETA, 0, x.np.s[BETA].i[0], NAN, 0); } return false; }

			// (small angle model: meaningless when the relative wind comes from the side)
			if (std::fabs(v.x) < 0.3 * v.norm()) { return false; }

			const D24 H = k.jac([relB](const D24 &z) { const V3 a = relB(z); return a.y / a.x; }, {0, 1, 2, 3, 4, 5, 6, 22, 23});
			const double t = v.norm() / std::fabs(v.x);

			if (!one(k, x, BETA, H, sq(x.p.beta_noise), std::max(x.p.beta_innov_gate, 1.f), v.y / v.x, (1e-5 + 4 * leftQ(k) + (leftV(k) + left(k, 22) + left(k, 23)) / v.norm()) * t * t, windOnly)) { return false; }
		}

		if (x.ev[DRG0] || x.ev[DRG1]) {
			V3 acc;
			uint64_t tt;

			if (x.tf == dragPopT) { acc = dragPopped; } // (another alternative of the same step)

			else if (!drag.pop(x.tf, acc, tt)) { check(x, "innovation", DRG0, 0, x.np.s[DRG0].i[0], NAN, 0); return false; }

			dragPopT = x.tf;
			dragPopped = acc;
			const V3 rb = relB(k.x);
			const double rh = std::max(rho, 0.1), bc[2] = {1.0 / x.p.bcoef_x, 1.0 / x.p.bcoef_y};

			for (int a = 0; a < 2; a++) {
				const double mea = acc[a] - k.x[13 + a] / dtAvg, sp = std::sqrt(2 * std::fabs(mea) / (bc[a] * rh)), K = std::max(0.1, rh * bc[a] * sp);
				const double kt = rh * bc[a] * sp > 0.1 ? 3e-5 * (1 + 2 / std::max(std::fabs(mea), 1e-3)) : 0; // small drag: the scale is uncertain

				if (kt > 5e-3 || std::fabs(rh * bc[a] * sp - 0.1) < 3e-3) { return false; }

				D24 H{};
				const Mat3 M = Mat3::of(&k.x[0]);
				const V3 v = rel(k.x);

				for (int q = 0; q < 4; q++) { H[q] = -K * Mat3::dRtv(&k.x[0], q, v)[a]; }

				for (int j = 0; j < 3; j++) { H[4 + j] = -K * M.m[j][a]; }

				H[22] = -H[4];
				H[23] = -H[5];
				const One &o = x.np.s[DRG0 + a];
				const double R = std::max(x.p.drag_noise, 0.5f), q = k.quad(H), S = q + R;

				if (q < 1e-6 * k.quadScale(H)) { return false; }

				if (kt == 0 && cancelled(covSlack * k.quadScale(H), S)) { return false; }

				if (!check(x, "variance", DRG0 + a, 0, o.v[0], S, 1e-5 * S + (8e-6 + 2 * kt + covSlack) * k.quadScale(H))) { return false; }

				const double pred = -0.5 * bc[a] * rh * sq(rb[a]) * (rb[a] >= 0 ? 1 : -1);

				if (!check(x, "innovation", DRG0 + a, 0, o.i[0], pred - mea, 3e-5 + 3e-6 * (std::fabs(pred) + std::fabs(mea)) + bc[a] * rh * std::fabs(rb[a]) * (rb.norm() * (2e-6 + 2 * leftQ(k)) + leftV(k)) + left(k, 13 + a) / dtAvg)) { return false; }

				const double ratio = sq(o.i[0]) / (25 * o.v[0]);

				if (!check(x, "ratio", DRG0 + a, 0, o.r, ratio, 1e-5 * ratio + 1e-9)) { return false; }

				r.cnt[std::string(o.r <= 1 ? "fused_" : "rejected_") + kKey[DRG0 + a]]++;

				if (o.r <= 1) {
					for (int i = 22; i < 24; i++) { double s = 0; for (int j = 0; j < 24; j++) { s += std::fabs(k.P[i][j] * H[j]); } slack[i] += kt * 2 * s / S * std::fabs(o.i[0]); }

					if (!k.fuse(H, o.v[0], o.i[0], [](int i) { return i >= 22; })) { return false; }

					covSlack = std::max(covSlack, 4 * kt);
				}
			}
		}

		return true;
	}
	double covSlack{0};
	bool corrFlow(RefEkf &k, const Ctx &x)
	{
		if (flowIdx < 0 || !flowFresh) { return false; }

		const flowSample &m = w.flow[flowIdx];
		const One &o = x.np.s[FLW];
		const V3 off = vec(x.p.flow_pos_body) - vec(x.p.imu_pos_body);
		const Mat3 M = Mat3::of(&k.x[0]);
		const auto &fc = x.e.getFlowCompensated();
		const auto &fg = x.e.getFlowGyro();
		const auto &fv = x.e.getFlowVelBody();
		const V3 gyro = d3(fg);
		const bool own = std::isfinite(m.gyro_xyz(0)) && std::isfinite(m.gyro_xyz(1)) && std::isfinite(m.gyro_xyz(2));

		// on the ground poor data is replaced by zero motion over an adjusted interval
		if (fc(0) == 0 && fc(1) == 0) { if (!x.c.flags.in_air) { return false; } }

		if (own && !(fg(0) == m.gyro_xyz(0) && fg(1) == m.gyro_xyz(1) && fg(2) == m.gyro_xyz(2))) { check(x, "innovation", FLW, 0, o.i[0], NAN, 0); return false; }

		const double dt = m.dt;

		for (int a = 0; a < 2; a++) { if (!check(x, "innovation", FLW, a, fc(a), m.flow_xy_rad(a) - fg(a), 1e-6 * (std::fabs(m.flow_xy_rad(a)) + std::fabs(fg(a))) + 1e-9)) { return false; } }

		const double clr = std::max((double)x.p.rng_gnd_clearance, 0.1);
		const double hagl = std::max(T0 - k.x[9] - (k.R * off).z, clr);
		const double range = hagl / M.m[2][2];
		const V3 vb = M.t(k.vec(4)) + M.t(k.R * (gyro * (-1 / dt)).cross(off));
		const double rate[2] = {fv(1) / range, -fv(0) / range};
		// (the estimate of the flow sensor's gyro bias is not published)
		double bias[2];

		for (int a = 0; a < 2; a++) {
			bias[a] = rate[a] - fc(a) / dt;
			const double bt = 2e-5 + 4e-6 * (std::fabs(rate[a]) + std::fabs(fc(a) / dt)) + std::fabs(rate[a]) * 1e-4 / range;

			if (own ? std::fabs(bias[a]) > 0.1 + bt : std::fabs(bias[a]) > bt) { check(x, "innovation", FLW, a, o.i[a], a ? -vb.x / range - fc(a) / dt : vb.y / range - fc(a) / dt, bt); return false; }

			if (own && flowBiasKnown && flowPrev == flowIdx - 1 && std::fabs(bias[a] - flowBias[a]) > 0.0065 + bt) { check(x, "innovation", FLW, a, o.i[a], a ? -vb.x / range - fc(a) / dt - flowBias.y : vb.y / range - fc(a) / dt - flowBias.x, 0.0065 + bt); return false; }
		}

		flowBias = V3(bias[0], bias[1], 0);
		flowBiasKnown = true;
		flowPrev = flowIdx;
		const double best = std::max((double)x.p.flow_noise, 0.05), worst = std::max((double)x.p.flow_noise_qual_min, 0.05), den = 255.0 - x.p.flow_qual_min;
		const double wgt = den >= 1 ? RefEkf::clampd((m.quality - (double)x.p.flow_qual_min) / den, 0, 1) : 0, R = sq(best * wgt + worst * (1 - wgt));
		const double gate = std::max(x.p.flow_innov_gate, 1.f);
		// the offset velocity is part of the velocity that is differentiated? no: the sensitivity neglects the lever arm
		auto h = [range](const D24 &z, int a) { const V3 b = Mat3::of(&z[0]).t(V3(z[4], z[5], z[6])); return a ? -b.x / range : b.y / range; };
		const D24 z0 = k.x;
		double ratio = 0;
		D24 H[2];
		const double rt = (3e-6 * (std::fabs(T0) + std::fabs(k.x[9])) + 3e-6) / hagl;

		for (int a = 0; a < 2; a++) {
			const double pr = a ? -vb.x / range : vb.y / range;

			if (!check(x, "innovation", FLW, a, o.i[a], pr - rate[a], 3e-6 * (std::fabs(pr) + std::fabs(rate[a]) + vb.norm() / range) + ((rt + 2 * leftQ(k)) * vb.norm() + leftV(k)) / range + std::fabs(rate[a]) * rt + 1e-6)) { return false; }

			RefEkf t0;
			t0.x = z0;
			H[a] = t0.jac([&h, a](const D24 &z) { return h(z, a); }, {0, 1, 2, 3, 4, 5, 6});
			const double q = k.quad(H[a]), S = q + R;

			if (q < 1e-6 * k.quadScale(H[a])) { return false; }

			preS[a] = S;
			ratio = std::max(ratio, sq(o.i[a]) / (sq(gate) * S));
		}

		if (!check(x, "ratio", FLW, 0, o.r, ratio, 1e-4 * ratio + 2 * rt * ratio + 1e-9)) { return false; }

		r.cnt[o.r <= 1 ? "fused_flow" : "rejected_flow"]++;

		for (int a = 0; a < 2; a++) {
			const double S = o.r <= 1 ? k.quad(H[a]) + R : preS[a];

			if (cancelled(covSlack * k.quadScale(H[a]), S)) { return false; }

			if (!check(x, "variance", FLW, a, o.v[a], S, 2e-5 * S + (8e-6 + 2 * rt + covSlack) * k.quadScale(H[a]))) { return false; }

			if (o.r <= 1 && !k.fuse(H[a], o.v[a], o.i[a])) { return false; }

			for (int i = 0; o.r <= 1 && i < 24; i++) { slack[i] += 2 * rt * std::fabs(k.move[i]); }
		}

		if (o.r <= 1) { covSlack = std::max(covSlack, 2 * rt); }

		return true;
	}
	double preS[2] {};
	int flowPrev{-2};
	// ------------------------------------------------------------ a whole step
	// bit 0: all states, bit 1: magnetic field states only, bit 2: wind states only (bit number = alternative)
	enum { ALT_ALL, ALT_FIELD, ALT_WIND, ALT_FIELD_WIND };
	int candidates(const Ctx &x)
	{
		const bool mag = x.ev[MAG_], air = x.ev[TAS] || x.ev[BETA];
		int field = 1, windOnly = 1; // bit 0: no, bit 1: yes

		// the attitude is not corrected right after the heading was aligned
		if (mag) { const uint64_t s = x.tf - lastYawReset; field = s < 5600000 ? 3 : 1; }

		if (air) {
			const double lim = x.p.no_aid_timeout_max;
			const bool flags = x.c.flags.gps || x.c.flags.ev_pos || x.c.flags.ev_vel || x.c.flags.opt_flow;
			windOnly = 3;

			if (flags && horBefore && x.now - horBefore < 0.9 * lim) { windOnly = 2; }

			else if (!flags && x.now - noAidSince > 500000 && tasBefore && betaBefore && x.now - tasBefore < 0.9 * lim && x.now - betaBefore < 0.9 * lim) { windOnly = 1; }
		}

		int m = 0;

		for (int a = 0; a < 2; a++) { for (int b = 0; b < 2; b++) { if ((field >> a & 1) && (windOnly >> b & 1)) { m |= 1 << (a + 2 * b); } } }

		return m;
	}
	void afterStep(const Ctx &x, bool good, const D24 &)
	{
		if (x.ev[MAG_]) { declMaybe = false; }

		if (!x.c.flags.vehicle_at_rest || !inhibitedYaw(x) || x.c.flags.ev_yaw || x.c.flags.gps_yaw) { staticKnown = false; }

		else if (x.ev[HDG]) { staticKnown = good && (staticNext || staticKnown); }

		staticNext = false;
	}
	bool corrections(RefEkf &k, const Ctx &x, int alt)
	{
		odomNextSet = false;
		slack.fill(0);
		covSlack = 0;
		what.clear();

		for (int s = 0; s < NSRC; s++) { if (x.ev[s]) { what += (what.empty() ? "" : " + ") + std::string(kSrc[s]); } }

		const bool both = x.c.flags.gps_yaw && x.c.flags.ev_yaw;

		// two heading sources at once: only one of the two innovations is published
		if (both && f.ready[GPS] && f.ready[EV]) { return false; }

		const bool gy = x.c.flags.gps_yaw && !(both && !f.ready[GPS]), vy = x.c.flags.ev_yaw;

		if (x.ev[MAG_] && x.ev[HDG]) { return false; }

		const bool dbg = getenv("P09D") && std::fabs(x.t - atof(getenv("P09D"))) < 0.003;

		if (dbg) { fprintf(stderr, "since yaw reset %.3f\n", 1e-6 * (double)(x.tf - lastYawReset)); fprintf(stderr, "alt %d before:", alt); for (int i = 0; i < 24; i++) { fprintf(stderr, " %.8g", k.x[i]); } fprintf(stderr, "\n"); }

		if (x.ev[MAG_] && !corrMag(k, x, !(alt & 1))) { return false; }

		if (dbg) { fprintf(stderr, "alt %d after mag:", alt); for (int i = 0; i < 24; i++) { fprintf(stderr, " %.8g", k.x[i]); } fprintf(stderr, "\n"); const matrix::Vector<float, 24> sx = x.e.getStateAtFusionHorizonAsVector(); fprintf(stderr, "alt %d after step:", alt); for (int i = 0; i < 24; i++) { fprintf(stderr, " %.8g", (double)sx(i)); } fprintf(stderr, "\n"); }

		if (x.ev[HDG] && !gy && !vy && !corrHeading(k, x, false)) { return false; }

		// (without flow aiding the innovation belongs to the terrain estimator)
		if (x.ev[FLW] && (!x.c.flags.opt_flow || !corrFlow(k, x))) { return false; }

		if (x.ev[HDG] && gy && !corrGpsYaw(k, x)) { return false; }

		return corrGps(k, x, x.now) && corrAir(k, x, alt & 2) && corrHeight(k, x) && corrVision(k, x) && (!x.ev[HDG] || gy || !vy || corrHeading(k, x, true)) && corrOther(k, x);
	}
};
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x909);
	Scn s = richScn(seed, r.u(20, thorough ? 60 : 35), 0);
	const uint32_t kinds = bit(F_LOSS) | bit(F_DUP) | bit(F_DELAY) | bit(F_REORDER) | bit(F_TSJIT) | bit(F_IMUGAP) | bit(F_QUALITY) | bit(F_NOISE) | bit(F_CLIP) | bit(F_VIB) | bit(F_BIAS) | bit(F_SPIKE);
	swarmFaults(s, r, 2, s.g("dur", 30), 5, kinds, kAllSensors);
	auto q = [](double x) { return std::floor(x * 1e6) / 1e6; };

	// noise levels over orders of magnitude make every term of the error model visible
	if (r.p(0.5)) {
		const struct { const char *n; double lo, hi; } nz[] = {{"gyro_noise", 0.003, 0.1}, {"accel_noise", 0.05, 1.2}, {"gyro_bias_p_noise", 1e-3, 1.2}, {"accel_bias_p_noise", 1e-3, 1.2}, {"mage_p_noise", 1e-4, 0.1}, {"magb_p_noise", 1e-5, 0.1}, {"wind_vel_p_noise", 0.01, 1.2}, {"wind_vel_p_noise_scaler", 0.1, 2}, {"initial_wind_uncertainty", 0.5, 6}, {"acc_bias_lim", 0.05, 0.8}};

		for (const auto &n : nz) { if (r.p(0.5)) { s.s(std::string("P.") + n.n, std::max(q(r.logu(n.lo, n.hi)), n.lo)); } }
	}

	// every other tuning value that enters the fusion of a measurement
	Rng m(seed ^ 0x90901);

	if (m.p(0.5)) {
		const struct { const char *n; double lo, hi; } nz[] = {{"gps_vel_noise", 0.05, 2}, {"gps_pos_noise", 0.1, 3}, {"pos_noaid_noise", 0.3, 30}, {"baro_noise", 0.3, 6}, {"baro_innov_gate", 0.5, 8}, {"gps_pos_innov_gate", 0.5, 8}, {"gps_vel_innov_gate", 0.5, 8}, {"gnd_effect_deadzone", 0.1, 8}, {"gnd_effect_max_hgt", 0.2, 3}, {"mag_acc_gate", 0.1, 2}, {"mag_yaw_rate_gate", 0.05, 1}, {"tas_innov_gate", 0.5, 8}, {"eas_noise", 0.3, 6}, {"beta_innov_gate", 0.5, 8}, {"beta_noise", 0.05, 1}, {"beta_avg_ft_us", 5e4, 4e5}, {"range_noise", 0.02, 1}, {"range_innov_gate", 0.5, 8}, {"rng_gnd_clearance", 0.05, 0.5}, {"rng_sens_pitch", 0.01, 0.3}, {"range_noise_scaler", 0.002, 0.1}, {"max_hagl_for_range_aid", 1, 20}, {"max_vel_for_range_aid", 0.3, 10}, {"range_aid_innov_gate", 0.3, 3}, {"range_valid_quality_s", 0.1, 3}, {"ev_vel_innov_gate", 0.5, 8}, {"ev_pos_innov_gate", 0.5, 8}, {"flow_noise", 0.05, 0.6}, {"flow_noise_qual_min", 0.1, 1}, {"flow_innov_gate", 0.5, 5}, {"req_hdrift", 0.1, 1}, {"req_vdrift", 0.1, 1}, {"acc_bias_learn_acc_lim", 10, 40}, {"acc_bias_learn_gyr_lim", 0.2, 5}, {"acc_bias_learn_tc", 0.1, 3}, {"reset_timeout_max", 3e6, 12e6}, {"no_aid_timeout_max", 4e5, 3e6}, {"static_pressure_coef_xp", 0.02, 0.5}, {"static_pressure_coef_xn", 0.02, 0.5}, {"static_pressure_coef_yp", 0.02, 0.5}, {"static_pressure_coef_yn", 0.02, 0.5}, {"static_pressure_coef_z", 0.02, 0.5}, {"max_correction_airspeed", 2, 40}, {"drag_noise", 0.2, 5}, {"bcoef_x", 5, 100}, {"bcoef_y", 5, 100}, {"vert_innov_test_lim", 1, 5}, {"auxvel_noise", 0.05, 2}, {"auxvel_gate", 0.5, 8}, {"is_moving_scaler", 0.3, 5}, {"initial_tilt_err", 0.02, 0.3}, {"switch_on_gyro_bias", 0.01, 0.3}, {"switch_on_accel_bias", 0.05, 0.6}};

		for (const auto &n : nz) {
			if (m.p(0.2)) {
				double v = std::max(q(m.logu(n.lo, n.hi)), n.lo);

				if (n.hi > 1e4) { v = std::floor(v); }

				if ((n.n[0] == 's' && n.n[1] == 't') || !strcmp(n.n, "rng_sens_pitch")) { v = m.p(0.5) ? v : -v; }

				s.s(std::string("P.") + n.n, v);
			}
		}
	}

	if (m.p(0.35)) { // accelerometer axes that saturate in flight
		const double t = std::floor(m.u(8, s.g("dur", 30) - 4));
		s.faults.push_back(Fault{F_CLIP, IMU, t, t + m.i(1, 6), (double)m.i(1, 3), q(m.logu(0.05, 2)), 0});
	}

	return s;
}
void execG(const Scn &s, Result &r, int g)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	Step a(r, w, g);
	Vehicle v((uint8_t)s.g("fill", 0));
	run(s, w, v, a);
	r.simSeconds += s.g("dur", 0);
	fnv(r.hash, a.h);
	r.cnt["fusion_steps"] += a.steps;
	r.nontrivial = a.steps > 500;
	if (getenv("P09W")) { fprintf(stderr, "worst %g %g state %g t %g\n", a.worst[0], a.worst[1], a.worst[3], a.worst[4]); }
}
Scn gen10(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1010);
	Scn s = gen(seed * 5 + 1, thorough);
	s.s("hz.mag", r.pick({8.0, 10.0, 10.0, 13.0, 25.0}));
	s.s("hz.baro", r.pick({10.0, 17.0, 20.0, 33.0}));

	if (r.p(0.35)) {
		// inertial data that makes the vertical channel drift away
		const double t = std::floor(r.u(12, s.g("dur", 30) - 5));
		s.faults.push_back(Fault{F_CLIP, IMU, t, t + 4, (double)r.i(1, 7), r.u(8.5, 11)});
	}

	if (r.p(0.3)) { s.ops.push_back({O_GNDEFF, std::floor(r.u(8, 14)), 1, 0, 0}); }

	return s;
}
// yaw sources of every kind, also unhealthy ones
Scn gen11(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1111);
	Scn s = gen(seed * 7 + 3, thorough);
	s.s("hz.mag", r.pick({10.0, 20.0, 25.0, 50.0}));
	auto q = [](double x) { return std::floor(x * 1e6) / 1e6; };

	if (r.p(0.3)) { s.s("P.mag_fusion_type", r.pick({2, 2, 1, 3, 5, 0})); }

	if (r.p(0.3)) { s.s("P.heading_innov_gate", q(r.logu(1, 4))); }

	if (r.p(0.3)) { s.s("P.mag_innov_gate", q(r.logu(1, 4))); }

	if (r.p(0.3)) { s.s("P.mag_noise", q(r.logu(0.01, 0.2))); }

	if (r.p(0.3)) { s.s("P.mag_heading_noise", q(r.logu(0.02, 0.6))); }

	if (r.p(0.2)) { s.s("P.quat_max_variance", q(r.logu(1e-4, 0.01))); }

	if (r.p(0.15)) { s.s("P.synthesize_mag_z", 1); s.s("P.mag_declination_source", 7); }

	if (r.p(0.2)) { const double t = std::floor(r.u(5, s.g("dur", 30) - 4)); s.faults.push_back(Fault{F_BIAS, MAG, t, t + std::floor(r.u(2, 8)), q(r.u(0.02, 0.5)), 0}); }

	return s;
}
// air data, drag and flow aiding
Scn gen12(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x1212);
	return gen(seed * 11 + 5, thorough);
}
Reg r11({"P11", gen11, [](const Scn &s, Result &r) { execG(s, r, 11); }, "a run counts when more than 500 fusion steps ran"});
Reg r12({"P12", gen12, [](const Scn &s, Result &r) { execG(s, r, 12); }, "a run counts when more than 500 fusion steps ran"});
Reg r10({"P10", gen10, [](const Scn &s, Result &r) { execG(s, r, 10); }, "a run counts when more than 500 fusion steps ran"});
Reg r9({"P09", gen, [](const Scn &s, Result &r) { execG(s, r, 9); }, "a run counts when more than 500 fusion steps ran"});
}
