// Executable reference of the GPS quality gate: what the estimator must conclude from every GPS message
#pragma once
#include "ref.h"

namespace sim
{
struct GpsGate {
	enum { FIX = 0, NSATS, PDOP, HACC, VACC, SACC, HDRIFT, VDRIFT, HSPEED, VSPEED };
	uint64_t prevT{0};			// previous fix
	double prevLat{0}, prevLon{0};
	float prevAlt{0};
	double vN{0}, vE{0}, pN{0}, pE{0}, pD{0}, vD{0};	// filtered quantities
	double pTol{0}, vTol{0}, dTol{0};			// their uncertainty
	double drift[3] {}, driftTol[3] {};	// horizontal drift, vertical drift, speed
	bool driftNew{false};			// metrics not read yet
	uint64_t lastFail{0}, lastPass{0};
	uint64_t minHealth{10000000};
	uint16_t bits{0}, unsure{0};		// fail status, bits that are numerically undecidable
	bool passed{false}, anyCall{false};
	double errNorm{1};
	uint64_t calls{0};

	static double clampd(double x, double a, double b) { return x < a ? a : x > b ? b : x; }
	void set(int b, bool v) { bits = (uint16_t)((bits & ~(1u << b)) | (v ? 1u << b : 0)); }
	void judge(int b, double value, double limit, double tol)
	{
		set(b, value > limit);
		unsure = (uint16_t)((unsure & ~(1u << b)) | (std::fabs(value - limit) <= tol ? 1u << b : 0));
	}
	// one message that passed the rate limit
	void message(const gps_message &g, const parameters &p, uint64_t now, bool inAir, bool atRest, float stateVd)
	{
		calls++;
		anyCall = true;
		set(FIX, g.fix_type < 3);
		set(NSATS, g.nsats < p.req_nsats);
		set(PDOP, g.pdop > p.req_pdop);
		set(HACC, g.eph > p.req_hacc);
		set(VACC, g.epv > p.req_vacc);
		set(SACC, g.sacc > p.req_sacc);
		errNorm = std::max({(double)g.eph / p.req_hacc, (double)g.epv / p.req_vacc, (double)g.sacc / p.req_sacc});
		const float dtf = std::min(std::max((float)((int64_t)now - (int64_t)prevT) * 1e-6f, 0.001f), 10.f);
		const double dt = dtf, a = dt / 10, lat = g.lat * 1.0e-7, lon = g.lon * 1.0e-7;

		if (!inAir && atRest) {
			double dn = 0, de = 0;

			if (prevT > 0) { projFwd(prevLat, prevLon, lat, lon, dn, de); }

			else { prevAlt = 1e-3f * (float)g.alt; }

			const double lh = 10.0 * p.req_hdrift, lv = 10.0 * p.req_vdrift, dd = (double)prevAlt - 1e-3f * (float)g.alt;
			pN = clampd(dn / dt, -lh, lh) * a + pN * (1 - a);
			pE = clampd(de / dt, -lh, lh) * a + pE * (1 - a);
			pD = clampd(dd / dt, -lv, lv) * a + pD * (1 - a);
			pTol = pTol * (1 - a) + 3e-7 * (lh + lv) + a * (2e-7 * std::hypot(dn, de) + 1e-8) / dt;
			drift[0] = std::hypot(pN, pE);
			drift[1] = std::fabs(pD);
			vN = clampd(g.vel_ned(0), -lh, lh) * a + vN * (1 - a);
			vE = clampd(g.vel_ned(1), -lh, lh) * a + vE * (1 - a);
			vTol = vTol * (1 - a) + 3e-7 * lh;
			drift[2] = std::hypot(vN, vE);
			judge(HDRIFT, drift[0], p.req_hdrift, pTol);
			judge(VDRIFT, drift[1], p.req_vdrift, pTol);
			judge(HSPEED, drift[2], p.req_hdrift, vTol);
			driftTol[0] = driftTol[1] = pTol;
			driftTol[2] = vTol;
			driftNew = true;

		} else {
			if (inAir) {
				set(HDRIFT, false);
				set(VDRIFT, false);
				set(HSPEED, false);
				unsure &= (uint16_t)~(1u << HDRIFT | 1u << VDRIFT | 1u << HSPEED);
				driftNew = false;

			} else { driftNew = true; }

			pN = pE = pD = vN = vE = pTol = vTol = 0;
		}

		prevT = now;
		prevLat = lat;
		prevLon = lon;
		prevAlt = 1e-3f * (float)g.alt;
		const double lv = 10.0 * p.req_vdrift;
		vD = clampd((double)g.vel_ned(2) - stateVd, -lv, lv) * a + vD * (1 - a);
		dTol = dTol * (1 - a) + 3e-7 * (lv + std::fabs(stateVd));
		judge(VSPEED, std::fabs(vD), p.req_vdrift, dTol);
	}
	// what the gate concludes once the undecidable bits are known
	void conclude(const parameters &p, uint64_t now)
	{
		if (lastFail == 0) { lastFail = now; }

		const unsigned selected = 1u | ((unsigned)p.gps_check_mask & 0x1ffu) << 1;

		if (bits & selected) { lastFail = now; }

		else { lastPass = now; }

		passed = lastFail + minHealth < now;
	}
};
} // namespace sim
