// P03: an execution is a function of its inputs only (no hidden state, no cross-instance influence, reads are pure)
#include "../core.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
namespace
{
Scn gen(uint64_t seed, bool thorough)
{
	Rng r(seed ^ 0x303);
	Scn s = richScn(seed, r.u(25, thorough ? 70 : 45), R_PARAMSWARM);
	swarmFaults(s, r, 3, s.g("dur", 30), 6, kAllFaults, kAllSensors);

	if (r.p(0.3)) { s.ops.push_back({O_RESTART, std::floor(r.u(6, s.g("dur", 30) - 5)), (double)r.i(0, 1), 0, 0}); }

	s.s("variant", r.i(0, 2));
	s.s("fillA", r.pick({0.0, 255.0, 127.0}));
	s.s("fillB", r.pick({170.0, 85.0, 63.0}));
	return s;
}

// runs f in a child process forked before any estimator existed in this one, so that process wide state (function local
// statics, globals) starts afresh for every execution
std::string inChild(const std::function<std::string()> &f)
{
	int fd[2];

	if (pipe(fd)) { return "!"; }

	fflush(stdout);
	const pid_t pid = fork();

	if (pid == 0) {
		close(fd[0]);
		if (!freopen("/dev/null", "w", stdout)) {}
		const std::string o = f();

		for (size_t i = 0; i < o.size();) { const ssize_t n = write(fd[1], o.data() + i, o.size() - i); if (n <= 0) { break; } i += (size_t)n; }

		_exit(0);
	}

	close(fd[1]);
	std::string o;
	static char b[65536];
	ssize_t n;

	while ((n = read(fd[0], b, sizeof b)) > 0) { o.append(b, (size_t)n); }

	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);

	if (!WIFEXITED(st) || WEXITSTATUS(st)) { return "!"; }

	return o;
}

// keeps a second, differently configured estimator busy in the same process
struct Neighbour : Hooks {
	Scn s;
	World w;
	Vehicle v;
	size_t k{0}, ie{0};
	Neighbour(const Scn &s_) : s(s_), v(0x33)
	{
		s.s("seed", s.g("seed", 1) + 12345);
		s.s("lat", -22.5); s.s("lon", -43.1); s.s("yaw0", 2.2);
		s.s("P.gps_delay_ms", 60);
		w = makeWorld(s);
		applyParams(*v.e().getParamHandle(), s);
		parameters &p = *v.e().getParamHandle();
		// every tuning value differs
		const parameters d = p;

		for (const std::string &n : paramNames()) {
			if (n.find("noise") != std::string::npos || n.find("gate") != std::string::npos || n.find("_Tau") != std::string::npos || n.find("_lim") != std::string::npos
			    || n.find("uncertainty") != std::string::npos || n.find("bcoef") != std::string::npos || n.find("pos_body") != std::string::npos || n.find("switch_on") != std::string::npos
			    || n.find("req_") != std::string::npos) {
				setParam(p, n, getParam(d, n) * (1.1 + unif(s.seed(), 5, hash3(n.size(), n[0], n[n.size() / 2])) * 0.4));
			}
		}

		// a head start: it is the first user of anything shared
		for (size_t i = 0; i < w.imu.size() * 2 / 3; i++) { step(); }
	}
	void step()
	{
		if (k >= w.imu.size()) { return; }

		v.e().setIMUData(w.imu[k]);

		if (k == 10) { v.e().set_min_required_gps_health_time(500000); }

		if (k == w.imu.size() / 3) { v.e().set_in_air_status(true); }

		while (ie < w.events.size() && w.events[ie].arr <= w.imu[k].time_us) { deliver(v.e(), w, w.events[ie]); ie++; }

		v.e().update();
		k++;
	}
	bool onStep(const StepInfo &, Ekf &) override
	{
		for (int n = 0; n < 1 + (int)(k % 3 == 0); n++) { step(); }

		return true;
	}
};
struct Reader : Hooks {
	int n{0};
	bool onStep(const StepInfo &, Ekf &e) override
	{
		for (int i = 0; i < n++ % 3; i++) { (void)digest(e); }

		return true;
	}
};

void exec(const Scn &s, Result &r)
{
	const World w = makeWorld(s);
	r.addWorld(s, w);
	const Filter all = [](const char *) { return true; };
	Scn a = s, b = s;
	a.s("fill", s.g("fillA", 0));
	b.s("fill", s.g("fillB", 170));
	const int var = (int)s.g("variant", 0);
	static const char *const what[] = {"memory", "neighbour", "reads"};
	auto other = [&]() {
		std::unique_ptr<Hooks> x;

		if (var == 1) { x.reset(new Neighbour(s)); }

		if (var == 2) { x.reset(new Reader()); }

		return x;
	};
	auto once = [&](bool second) {
		return inChild([&]() {
			Result q;
			std::unique_ptr<Hooks> x;

			if (second) { x = other(); }

			const Trace t = record(second ? b : a, w, (uint8_t)(second ? b : a).g("fill", 0), all, x.get(), q);
			std::string o((const char *)t.h.data(), t.h.size() * 8);

			for (uint64_t st : q.states) { o.append((const char *)&st, 8); }

			return o;
		});
	};
	const std::string sa = once(false), sb = once(true);
	r.simSeconds += 2 * s.g("dur", 0);
	const size_t n = w.imu.size();

	if (sa.size() < n * 8 || sb.size() < n * 8) { r.bad("crash", "the estimator did not survive the history"); return; }

	r.cnt[std::string("variant_") + what[var]]++;
	r.nontrivial = n > 2000;
	auto at = [](const std::string & o, size_t i) { uint64_t v; memcpy(&v, o.data() + i * 8, 8); return v; };

	for (size_t i = n; i * 8 < sa.size(); i++) { r.states.insert(at(sa, i)); }

	for (size_t k = 0; k < n; k++) { fnv(r.hash, at(sa, k)); fnv(r.hash, at(sb, k)); }

	for (size_t k = 0; k < n; k++) {
		if (at(sa, k) != at(sb, k)) {
			const std::string why = inChild([&]() { std::unique_ptr<Hooks> y = other(); return explain(a, w, b, w, k, all, nullptr, y.get()); });
			r.bad(what[var], fmt("two executions of one history differ at imu step %zu (t=%.3f s), second one with %s:%s", k,
					     (double)(w.imu[k].time_us - w.t0) * 1e-6, var == 0 ? "different initial memory contents" : var == 1 ? "another estimator instance running" : "extra read-only queries", why.c_str()));
			break;
		}
	}
}
Reg reg({"P03", gen, exec, "a run counts when it executed more than 2000 IMU steps of a seeded configuration twice and compared every published value after every fusion step bit for bit"});
}
