// P05: between two cycles the order in which different sensors deliver does not matter, and a repeated delivery of a
// sample is ignored
#include "../core.h"
using namespace sim;
namespace
{
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x505);
	Scn s = richScn(seed, r.u(25, thorough ? 70 : 45), 0);
	uint32_t kinds = kAllFaults & ~bit(F_DUP);
	swarmFaults(s, r, 3, s.g("dur", 30), 5, kinds, kAllSensors);

	if (r.p(0.3)) { s.s("imu_us", 10000); }

	s.s("perm", (double)(r.next() % 1000000));
	s.s("dupmode", r.i(0, 1));
	s.s("dupp", r.u(0.05, 0.6));
	return s;
}
void exec(const Scn &s, Result &r)
{
	const World wa = makeWorld(s);
	World wb = wa;
	r.addWorld(s, wa);
	const uint64_t ps = (uint64_t)s.g("perm", 1);
	const bool dupmode = s.g("dupmode", 0) > 0.5;

	// arrival is quantised to the cycle in which the sample is handed over
	std::vector<size_t> cyc(wb.events.size());
	size_t c = 0;

	for (size_t i = 0; i < wb.events.size(); i++) {
		while (c < wb.imu.size() && wb.imu[c].time_us < wb.events[i].arr) { c++; }

		cyc[i] = c;
	}

	uint64_t swaps = 0, dups = 0;

	if (!dupmode) {
		std::vector<size_t> ix(wb.events.size());

		for (size_t i = 0; i < ix.size(); i++) { ix[i] = i; }

		std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) {
			if (cyc[a] != cyc[b]) { return cyc[a] < cyc[b]; }

			// within a cycle: sensors in a pseudo random order, samples of one sensor in their own order
			const uint64_t ka = hash3(ps, cyc[a], wa.events[a].type), kb = hash3(ps, cyc[b], wa.events[b].type);

			if (ka != kb) { return ka < kb; }

			return a < b;
		});
		std::vector<Ev> e;

		for (size_t i = 0; i < ix.size(); i++) {
			if (ix[i] != i) { swaps++; }

			Ev x = wa.events[ix[i]];

			if (cyc[ix[i]] < wb.imu.size()) { x.arr = wb.imu[cyc[ix[i]]].time_us; }

			e.push_back(x);
		}

		wb.events = e;

	} else {
		std::vector<Ev> e;
		// a sample is delivered again straight away, or later but before the next sample of that sensor
		std::vector<std::vector<Ev>> pending(NSENS);

		for (size_t i = 0; i < wa.events.size(); i++) {
			const Ev &x = wa.events[i];
			e.push_back(x);

			if ((x.type == GPS || x.type == ASP || x.type == RNG || x.type == FLOW || x.type == EV || x.type == AUX) && unif(ps, 1, i) < s.g("dupp", 0.2)) {
				const int n = 1 + (int)(unif(ps, 2, i) * 2.2);

				for (int k = 0; k < n; k++) { e.push_back(x); dups++; }
			}
		}

		wb.events = e;
	}

	r.cnt["reordered_deliveries"] += swaps;
	r.cnt["duplicated_deliveries"] += dups;
	r.nontrivial = swaps + dups > 50;
	const Filter all = [](const char *) { return true; };
	const Trace ta = record(s, wa, 0, all, nullptr, r), tb = record(s, wb, 0, all, nullptr, r);

	for (size_t k = 0; k < ta.h.size(); k++) {
		if (ta.h[k] != tb.h[k]) {
			r.bad(dupmode ? "dup" : "order", fmt("%s changes the result at imu step %zu (t=%.3f s):%s", dupmode ? "delivering samples repeatedly" : "another delivery order of the sensors within a cycle", k,
							     (double)(wa.imu[k].time_us - wa.t0) * 1e-6, explain(s, wa, s, wb, k, all).c_str()));
			break;
		}
	}
}
Reg reg({"P05", gen, exec, "a run counts when more than 50 deliveries were permuted within their cycle (or repeated) and every published value was compared bit for bit with the unpermuted run after every step"});
}
