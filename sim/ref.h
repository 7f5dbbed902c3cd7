// Executable reference models, written from the documented behaviour in double precision:
//   RefFront  - IMU down-sampling, per sensor buffers and delivery at the delayed fusion horizon
//   RefOut    - output predictor (full rate states at the current time)
#pragma once
#include "core.h"
#include <deque>

namespace sim
{
struct RImu {
	uint64_t t{0};
	V3 da, dv;
	double dadt{0}, dvdt{0};
	bool clip[3] {};
	int n{0}; // raw samples
};

// bounded queue: newest N survive; asking for the newest element not after t removes it and everything older
template <class T> struct RBuf {
	size_t cap{1};
	std::deque<std::pair<uint64_t, T>> d;
	uint64_t newestT{0};
	void push(uint64_t t, const T &x)
	{
		d.push_back({t, x});
		newestT = t;

		if (d.size() > cap) { d.pop_front(); }
	}
	bool pop(uint64_t t, T &out, uint64_t &when)
	{
		for (size_t i = d.size(); i-- > 0;) {
			if (t >= d[i].first && t < d[i].first + 100000) {
				out = d[i].second;
				when = d[i].first;
				d.erase(d.begin(), d.begin() + i + 1);
				return true;
			}
		}

		return false;
	}
	bool peek(uint64_t t, T &out) const
	{
		for (size_t i = d.size(); i-- > 0;) { if (t >= d[i].first && t < d[i].first + 100000) { out = d[i].second; return true; } }

		return false;
	}
};

struct RefFront {
	static constexpr float kPeriod = 10 * 0.001f;
	bool started{false}, inited{false};	// inertial data seen; filter initialised
	bool justInited{false};
	bool lost{false};			// emission of a down-sampled sample was numerically undecidable
	int imuLen{0}, obsLen{0};
	uint64_t minObs{0};
	uint64_t lastImuT{0};
	float dtImuAvg{0};
	// down-sampler
	std::vector<imuSample> raw;
	float accDt{0}, adj{0};
	bool emit{false}, ambiguous{false}, everAmbiguous{false};
	uint64_t nEmit{0};
	std::deque<RImu> hist;			// what the IMU buffer holds
	RImu delayed;
	uint64_t tNow{0};
	double maxDelayMs{0};
	// sensors
	struct Avg { V3 v; int first, last, n; };
	struct GpsItem { int idx; bool originKnown; float px, py; };
	RBuf<Avg> mag, baro;
	RBuf<int> gps, asp, rng, flow, ev, aux;
	uint64_t last[NSENS] {};
	V3 sumM;
	double sumB{0}, baroAdd{0};	// baroAdd: pressure error correction that applies to a height stored now
	uint64_t cntM{0}, cntB{0}, tsM{0}, tsB{0};
	int firstM{0}, firstB{0};
	bool bufSet[NSENS] {};
	// what the last update() had at the fusion horizon
	bool ready[NSENS] {};
	int idx[NSENS];
	uint64_t when[NSENS] {};
	Avg magAvg, baroAvg;
	uint64_t drops{0};			// samples superseded before use or refused by the rate limit
	const World *w{nullptr};

	static RImu compose(const std::vector<imuSample> &v)
	{
		RImu o;
		Q q;

		for (const imuSample &s : v) {
			const V3 da = d3(s.delta_ang), dv = d3(s.delta_vel);
			const Q dq = Q::exp(da);
			q = (q * dq).unit();
			o.dv = dq.irot(o.dv) + (dv + dq.irot(dv)) * 0.5;
			o.dadt += s.delta_ang_dt;
			o.dvdt += s.delta_vel_dt;
			o.t = s.time_us;

			for (int i = 0; i < 3; i++) { o.clip[i] |= s.delta_vel_clipping[i]; }

			o.n++;
		}

		o.da = q.log();
		return o;
	}
	void start(const parameters &p)
	{
		double m = std::max({(double)p.baro_delay_ms, (double)p.auxvel_delay_ms, (double)p.airspeed_delay_ms});

		if (p.mag_fusion_type != MAG_FUSE_TYPE_NONE) { m = std::max(m, (double)p.mag_delay_ms); }

		if (p.range_aid || p.vdist_sensor_type == VDIST_SENSOR_RANGE) { m = std::max(m, (double)p.range_delay_ms); }

		if (p.fusion_mode & MASK_USE_GPS) { m = std::max(m, (double)p.gps_delay_ms); }

		if (p.fusion_mode & MASK_USE_OF) { m = std::max(m, (double)p.flow_delay_ms); }

		if (p.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) { m = std::max(m, (double)p.ev_delay_ms); }

		maxDelayMs = m;
		imuLen = (int)std::ceil(m / 10 - 1e-6) + 1;
		obsLen = (int)std::ceil(m * 1.5 / p.sensor_interval_min_ms - 1e-6);
		obsLen = std::min(obsLen, imuLen);
		mag.cap = baro.cap = gps.cap = asp.cap = rng.cap = ev.cap = aux.cap = (size_t)std::max(obsLen, 1);
		flow.cap = (size_t)std::max(imuLen, 1);
		started = true;
	}
	void imu(const imuSample &m, const parameters &p)
	{
		if (!started) { start(p); }

		float dt = (m.time_us - lastImuT) / 1e6f;
		dt = std::min(0.02f, std::max(1.0e-4f, dt));
		lastImuT = m.time_us;
		tNow = m.time_us;

		if (lastImuT > 0) { dtImuAvg = 0.8f * dtImuAvg + 0.2f * dt; }

		if (emit) { raw.clear(); accDt = 0; }

		raw.push_back(m);
		accDt += m.delta_ang_dt;
		const float thr = kPeriod - adj;
		emit = accDt >= thr;
		ambiguous = std::fabs(accDt - thr) < 1e-6f;
		everAmbiguous |= ambiguous;

		if (emit) { doEmit(m); }
	}
	void doEmit(const imuSample &m)
	{
		adj += 0.01f * (accDt - kPeriod);
		adj = std::min(0.5f * kPeriod, std::max(-0.5f * kPeriod, adj));
		nEmit++;
		hist.push_back(compose(raw));

		if ((int)hist.size() > imuLen) { hist.pop_front(); }

		delayed = hist.front();
		minObs = (uint64_t)((m.time_us - delayed.t) / (uint64_t)std::max(obsLen - 1, 1));
	}
	bool accept(int s, uint64_t ts)
	{
		if (ts - last[s] > minObs) { last[s] = ts; return true; }

		return false;
	}
	static uint64_t back(uint64_t t, float ms) { return t - (uint64_t)(ms * 1000) - 5000; }
	void deliver(const Ev &e, const World &wd, const parameters &p)
	{
		if (!started) { return; }

		w = &wd;

		switch (e.type) {
		case MAG: {
				const magSample &s = wd.mag[e.idx];

				if (!cntM) { firstM = e.idx; }

				cntM++;
				sumM += d3(s.mag);
				tsM += s.time_us / 1000;

				if (accept(MAG, s.time_us)) {
					mag.push(back(1000 * (tsM / cntM), p.mag_delay_ms), Avg{sumM * (1.0 / (double)cntM), firstM, e.idx, (int)cntM});
					cntM = 0;
					tsM = 0;
					sumM = V3();
				}

				break;
			}

		case BARO: {
				const baroSample &s = wd.baro[e.idx];

				if (!cntB) { firstB = e.idx; }

				cntB++;
				sumB += s.hgt;
				tsB += s.time_us / 1000;

				if (accept(BARO, s.time_us)) {
					baro.push(back(1000 * (tsB / cntB), p.baro_delay_ms), Avg{V3(sumB / (double)cntB + baroAdd, 0, 0), firstB, e.idx, (int)cntB});
					cntB = 0;
					tsB = 0;
					sumB = 0;
				}

				break;
			}

		case GPS: {
				const gps_message &s = wd.gps[e.idx];

				if (((p.fusion_mode & MASK_USE_GPS) || p.vdist_sensor_type == VDIST_SENSOR_GPS) && s.fix_type > 2 && s.time_usec - last[GPS] > minObs) {
					last[GPS] = s.time_usec;
					gps.push(back(s.time_usec, p.gps_delay_ms), e.idx);
				}

				break;
			}

		case ASP: if (accept(ASP, wd.asp[e.idx].time_us)) { asp.push(back(wd.asp[e.idx].time_us, p.airspeed_delay_ms), e.idx); } break;

		case RNG: if (accept(RNG, wd.rng[e.idx].time_us)) { rng.push(back(wd.rng[e.idx].time_us, p.range_delay_ms), e.idx); } break;

		case FLOW: if (accept(FLOW, wd.flow[e.idx].time_us)) { flow.push(back(wd.flow[e.idx].time_us, p.flow_delay_ms), e.idx); } break;

		case EV: if (accept(EV, wd.ev[e.idx].time_us)) { ev.push(back(wd.ev[e.idx].time_us, p.ev_delay_ms), e.idx); } break;

		case AUX: if (accept(AUX, wd.aux[e.idx].time_us)) { aux.push(back(wd.aux[e.idx].time_us, p.auxvel_delay_ms), e.idx); } break;

		default: break;
		}
	}
	// call after Ekf::update(); filterUp: the covariance has been initialised
	void step(bool updated, bool filterUp)
	{
		for (bool &b : ready) { b = false; }

		justInited = false;

		if (!inited && nEmit > 0) {
			Avg a;
			uint64_t t;

			if (mag.pop(delayed.t, a, t)) { magAvg = a; when[MAG] = t; }

			if (baro.pop(delayed.t, a, t)) { baroAvg = a; when[BARO] = t; }

			if (filterUp) { inited = justInited = true; }
		}

		if (inited) {
			if (updated != emit && everAmbiguous) { lost = true; }

			if (updated) { pops(); }
		}
	}
	void pops()
	{
		const uint64_t t = delayed.t;
		ready[GPS] = gps.pop(t, idx[GPS], when[GPS]);
		ready[MAG] = mag.pop(t, magAvg, when[MAG]);
		ready[BARO] = baro.pop(t, baroAvg, when[BARO]);
		ready[RNG] = rng.pop(t, idx[RNG], when[RNG]);
		ready[EV] = ev.pop(t, idx[EV], when[EV]);
		ready[ASP] = asp.pop(t, idx[ASP], when[ASP]);
		ready[AUX] = aux.pop(t, idx[AUX], when[AUX]);
	}
};

// ---------------------------------------------------------------- output predictor
struct RefOut {
	struct S { Q q; V3 v, p; double vv{0}, vi{0}, dt{0}; };
	bool on{false};
	S now;
	std::deque<S> buf;
	V3 corr, velInt, posInt;
	V3 relVel, velDeriv;
	V3 track;
	double g1v{0}, g1p{0};	// direct gains of the last correction
	V3 oldV, oldP, velInt0, posInt0; // before the last correction
	double dtEkf{0.01};
	void start() { on = true; now = S(); buf.clear(); corr = velInt = posInt = relVel = V3(); }
	void addV(const V3 &d) { for (S &b : buf) { b.v += d; b.vv += d.z; } now.v += d; now.vv += d.z; }
	void addP(const V3 &d) { for (S &b : buf) { b.p += d; b.vi += d.z; } now.p += d; now.vi += d.z; }
	void addQ(const Q &d) { for (S &b : buf) { b.q = d * b.q; } now.q = d * now.q; }
	void prop(const imuSample &m, const V3 &bg, const V3 &ba, double dtImuAvg, const V3 &imuPos, bool rotate)
	{
		const double sc = dtImuAvg / dtEkf;

		if (rotate) { now.q = (now.q * Q::exp(d3(m.delta_ang) - bg * sc + corr)).unit(); }

		V3 dv = now.q.rot(d3(m.delta_vel) - ba * sc);
		dv.z += (double)CONSTANTS_ONE_G * m.delta_vel_dt;

		if (m.delta_vel_dt > 1e-4f) { velDeriv = dv * (1.0 / m.delta_vel_dt); }

		const V3 v0 = now.v;
		now.v += dv;
		now.vv += dv.z;
		const V3 dp = (now.v + v0) * (m.delta_vel_dt * 0.5);
		now.p += dp;
		now.vi += dp.z;
		now.dt += m.delta_vel_dt;

		if (m.delta_ang_dt > 1e-4f) { relVel = now.q.rot((d3(m.delta_ang) * (1.0 / m.delta_ang_dt)).cross(imuPos)); }
	}
	void correct(const Q &sq, const V3 &sv, const V3 &sp, int len, double tDelay, double dtImuAvg, double velTau, double posTau)
	{
		buf.push_back(now);

		if ((int)buf.size() > len) { buf.pop_front(); }

		const S old = buf.front();
		const Q e = (sq.inv() * old.q).unit();
		const double s = e.w >= 0 ? -2 : 2;
		const V3 ae(s * e.x, s * e.y, s * e.z);
		const double td = std::max(tDelay, dtImuAvg);
		corr = ae * (0.5 * dtImuAvg / td);
		auto con = [](double x, double a, double b) { return std::min(b, std::max(a, x)); };
		const double gv = dtEkf / con(velTau, dtEkf, 10), gp = dtEkf / con(posTau, dtEkf, 10);
		const double vc = (sp.z - old.vi) * gp + (sv.z - old.vv) * gv * 1.1;

		if (len > 1) {
			for (size_t i = 0; i < buf.size(); i++) {
				buf[i].vv += vc;

				if (i > 0) { buf[i].vi = buf[i - 1].vi + (buf[i - 1].vv + buf[i].vv) * 0.5 * buf[i].dt; }
			}
		}

		const V3 ve = sv - old.v, pe = sp - old.p;
		oldV = old.v;
		oldP = old.p;
		velInt0 = velInt;
		posInt0 = posInt;
		g1v = gv + gv * gv * 0.1;
		g1p = gp + gp * gp * 0.1;
		track = V3(ae.norm(), ve.norm(), pe.norm());
		velInt += ve;
		posInt += pe;
		const V3 cv = ve * gv + velInt * (gv * gv * 0.1), cp = pe * gp + posInt * (gp * gp * 0.1);

		for (S &b : buf) { b.v += cv; b.p += cp; }

		now = buf.back();
		now.dt = 0;
	}
};
} // namespace sim
