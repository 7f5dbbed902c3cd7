// P04: only time differences matter: moving the clock origin changes nothing
#include "../core.h"
using namespace sim;
namespace
{
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x404);
	Scn s = richScn(seed, r.u(25, thorough ? 70 : 45), 0);
	swarmFaults(s, r, 3, s.g("dur", 30), 5, kAllFaults, kAllSensors);
	// base clock: long enough after zero that no timer still remembers "never"
	const double dur = s.g("dur", 30);
	s.s("t0", 1000.0 * std::floor(r.u(60000, 120000)));

	double t0b;

	switch (r.i(0, 6)) {
	case 0: t0b = 2147483648.0 - dur * 1e6 * r.u(0.1, 0.9); break;	// crosses 2^31 us

	case 1: t0b = 4294967296.0 - dur * 1e6 * r.u(0.1, 0.9); break;	// crosses 2^32 us (71 min)

	case 2: t0b = 4294967296.0 * 1000 - dur * 1e6 * r.u(0.1, 0.9); break; // crosses 2^32 ms (49 days)

	case 3: t0b = r.logu(1e9, 1e11); break;

	case 4: t0b = 2147483648.0 * 1000 - dur * 1e6 * r.u(0.1, 0.9); break; // crosses 2^31 ms

	case 5: t0b = r.logu(1e11, 1e13); break;

	default: t0b = 1.7e15 + r.u(0, 1e12); break;	// wall clock time since 1970
	}

	s.s("t0b", s.g("t0", 0) + 1000.0 * std::floor((t0b - s.g("t0", 0)) / 1000));
	return s;
}
void exec(const Scn &s, Result &r)
{
	const World wa = makeWorld(s);
	Scn b = s;
	b.s("t0", s.g("t0b", 1e9));
	const World wb = makeWorld(b);
	r.addWorld(s, wa);

	if (wa.imu.size() != wb.imu.size() || wa.events.size() != wb.events.size()) { return; }

	const Filter all = [](const char *) { return true; };
	const Trace ta = record(s, wa, 0, all, nullptr, r), tb = record(b, wb, 0, all, nullptr, r);
	r.nontrivial = ta.h.size() > 2000;
	r.cnt[s.g("t0b", 0) > 4.3e9 ? "clock_beyond_2^32us" : "clock_below_2^32us"]++;

	for (size_t k = 0; k < ta.h.size(); k++) {
		if (ta.h[k] != tb.h[k]) {
			r.bad("clock", fmt("the same history started at clock %.0f us and at %.0f us diverges at imu step %zu (t=%.3f s):%s", s.g("t0", 0), b.g("t0", 0), k,
					   (double)(wa.imu[k].time_us - wa.t0) * 1e-6, explain(s, wa, b, wb, k, all).c_str()));
			break;
		}
	}
}
Reg reg({"P04", gen, exec, "a run counts when a seeded history of more than 2000 IMU steps was executed at two clock origins and every published value compared bit for bit after every step"});
}
