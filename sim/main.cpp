// Driver: seeded runs, replay of a scenario file, minimisation.
//   simcheck list
//   simcheck run CHECK BASE START COUNT THOROUGH BUDGET_S [ONLYSEED]
//   simcheck gen CHECK SEED THOROUGH           (prints the scenario)
//   simcheck replay FILE
//   simcheck min FILE OUT KIND BUDGET_S
#include "core.h"
#include <cinttypes>
#include <ctime>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

static const Check *find(const std::string &id)
{
	for (const Check &c : checks()) { if (id == c.id) { return &c; } }

	return nullptr;
}
static std::string slurp(const char *f)
{
	std::ifstream i(f);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}
static double wall()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static void finish(Result &r)
{
	for (const Violation &v : r.viol) { for (char c : v.kind) { fnv(r.hash, (unsigned char)c); } for (char c : v.text) { fnv(r.hash, (unsigned char)c); } }
}
static std::string oneLine(std::string s)
{
	for (char &c : s) { if (c == '\n') { c = ' '; } }

	return s;
}

// runs the scenario in a child process; returns the violation kinds seen
static std::set<std::string> probe(const Check &c, const Scn &s, int limitS)
{
	int fd[2];

	if (pipe(fd)) { return {}; }

	fflush(stdout);
	const pid_t pid = fork();

	if (pid == 0) {
		close(fd[0]);
		if (!freopen("/dev/null", "w", stdout)) {}
		if (!freopen("/dev/null", "w", stderr)) {}
		alarm(limitS);
		Result r;
		c.exec(s, r);
		std::string o;

		for (const Violation &v : r.viol) { o += v.kind + "\n"; }

		o += "END\n";

		if (write(fd[1], o.data(), o.size()) < 0) {}

		_exit(0);
	}

	close(fd[1]);
	std::string o;
	char b[4096];
	ssize_t n;

	while ((n = read(fd[0], b, sizeof b)) > 0) { o.append(b, n); }

	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	std::set<std::string> k;
	std::istringstream in(o);
	std::string l;
	bool end = false;

	while (std::getline(in, l)) { if (l == "END") { end = true; } else { k.insert(l); } }

	if (!end) { k.insert(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash"); }

	return k;
}

int main(int argc, char **argv)
{
	if (argc < 2) { return 2; }

	const std::string mode = argv[1];

	if (mode == "list") {
		for (const Check &c : checks()) { printf("%s\n", c.id); }

		return 0;
	}

	if (mode == "rule" && argc == 3) {
		const Check *c = find(argv[2]);

		if (!c) { return 2; }

		printf("%s\n", c->rule);
		return 0;
	}

	if (mode == "run" && argc >= 8) {
		const Check *c = find(argv[2]);

		if (!c) { return 2; }

		const uint64_t base = strtoull(argv[3], nullptr, 10), start = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10);
		const bool thorough = atoi(argv[6]);
		const double budget = atof(argv[7]), tstart = wall();
		Result agg;
		uint64_t done = 0, nontriv = 0;
		double simS = 0;

		for (uint64_t i = start; i < start + count; i++) {
			if (wall() - tstart > budget) { break; }

			const uint64_t seed = argc > 8 ? strtoull(argv[8], nullptr, 10) : (hash3(base, 77, i) & 0xffffffffffffull);
			printf("@@RUN %" PRIu64 "\n", seed);
			fflush(stdout);
			Scn s = c->gen(seed, thorough);
			s.check = c->id;
			alarm(300);
			Result r;
			c->exec(s, r);
			finish(r);

			if (i % 16 == 0 || !r.viol.empty()) { // determinism gate: same seed again in this process
				Result r2;
				c->exec(s, r2);
				finish(r2);

				if (r2.hash != r.hash) { printf("@@NONDET %" PRIu64 " %016" PRIx64 " %016" PRIx64 "\n", seed, r.hash, r2.hash); }
			}

			alarm(0);

			for (const Violation &v : r.viol) { printf("@@VIOL %" PRIu64 " %s | %s\n", seed, v.kind.c_str(), oneLine(v.text).c_str()); }

			printf("@@DONE %" PRIu64 " %016" PRIx64 "\n", seed, r.hash);
			done++;
			nontriv += r.nontrivial;
			simS += r.simSeconds;

			for (int k = 0; k < NFAULT; k++) { agg.faults[k] += r.faults[k]; }

			for (int k = 0; k < NOP; k++) { agg.ops[k] += r.ops[k]; }

			for (auto &kv : r.cnt) { agg.cnt[kv.first] += kv.second; }

			agg.states.insert(r.states.begin(), r.states.end());
		}

		printf("@@SUM runs %" PRIu64 " nontrivial %" PRIu64 " simseconds %.3f wall %.3f\n", done, nontriv, simS, wall() - tstart);

		for (int k = 0; k < NFAULT; k++) { if (agg.faults[k]) { printf("@@FAULT %s %" PRIu64 "\n", kFaultName[k], agg.faults[k]); } }

		for (int k = 0; k < NOP; k++) { if (agg.ops[k]) { printf("@@OP %s %" PRIu64 "\n", kOpName[k], agg.ops[k]); } }

		for (auto &kv : agg.cnt) { printf("@@CNT %s %" PRIu64 "\n", kv.first.c_str(), kv.second); }

		uint64_t n = 0;

		for (uint64_t x : agg.states) { if (n++ < 20000) { printf("@@ST %016" PRIx64 "\n", x); } }

		printf("@@END\n");
		return 0;
	}

	if (mode == "gen" && argc >= 5) {
		const Check *c = find(argv[2]);

		if (!c) { return 2; }

		Scn s = c->gen(strtoull(argv[3], nullptr, 10), atoi(argv[4]));
		s.check = c->id;
		fputs(s.dump().c_str(), stdout);
		return 0;
	}

	if (mode == "replay" && argc >= 3) {
		Scn s;

		if (!s.parse(slurp(argv[2]))) { return 2; }

		const Check *c = find(s.check);

		if (!c) { return 2; }

		alarm(300);
		Result r;
		c->exec(s, r);
		finish(r);

		for (const Violation &v : r.viol) { printf("@@VIOL %.0f %s | %s\n", s.g("seed", 0), v.kind.c_str(), oneLine(v.text).c_str()); }

		if (argc > 3) { for (auto &kv : r.cnt) { printf("@@CNT %s %" PRIu64 "\n", kv.first.c_str(), kv.second); } }

		printf("@@DONE %.0f %016" PRIx64 "\n@@END\n", s.g("seed", 0), r.hash);
		return 0;
	}

	if (mode == "min" && argc >= 6) {
		Scn s;

		if (!s.parse(slurp(argv[2]))) { return 2; }

		const Check *c = find(s.check);

		if (!c) { return 2; }

		const std::string kind = argv[4];
		const double budget = atof(argv[5]), t0 = wall();
		int tries = 0;

		auto ok = [&](const Scn & x) {
			if (wall() - t0 > budget) { return false; }

			tries++;
			return probe(*c, x, 120).count(kind) > 0;
		};

		if (!ok(s)) { printf("@@NOREPRO\n"); return 3; }

		bool changed = true;

		while (changed && wall() - t0 < budget) {
			changed = false;

			for (double f : {0.25, 0.5, 0.75, 0.9}) { // shorter run
				Scn x = s;
				x.s("dur", std::floor(s.g("dur", 30) * f * 100) / 100);

				if (x.g("dur", 0) < s.g("dur", 30) && ok(x)) { s = x; changed = true; break; }
			}

			for (size_t i = s.faults.size(); i-- > 0;) {
				Scn x = s;
				x.faults.erase(x.faults.begin() + i);

				if (ok(x)) { s = x; changed = true; }
			}

			for (size_t i = s.ops.size(); i-- > 0;) {
				Scn x = s;
				x.ops.erase(x.ops.begin() + i);

				if (ok(x)) { s = x; changed = true; }
			}

			for (size_t i = s.legs.size(); i-- > 0;) {
				Scn x = s;
				x.legs.erase(x.legs.begin() + i);

				if (ok(x)) { s = x; changed = true; }
			}

			for (size_t i = 0; i < s.faults.size(); i++) { // shorter fault windows
				for (int side = 0; side < 2; side++) {
					Scn x = s;
					Fault &f = x.faults[i];
					const double m = std::floor((f.t0 + f.t1) / 2 * 1000) / 1000;

					if (f.t1 - f.t0 < 0.02) { continue; }

					if (side) { f.t0 = m; } else { f.t1 = m; }

					if (ok(x)) { s = x; changed = true; }
				}
			}

			for (const char *k : {"ev", "flow", "rng", "asp", "aux", "mag", "gps"}) { // fewer sensors
				Scn x = s;

				if (x.g(std::string("hz.") + k, 0) > 0) {
					x.v.erase(std::string("hz.") + k);

					if (ok(x)) { s = x; changed = true; }
				}
			}
		}

		std::ofstream o(argv[3]);
		o << s.dump();
		printf("@@MIN tries %d faults %zu ops %zu legs %zu dur %.2f\n@@END\n", tries, s.faults.size(), s.ops.size(), s.legs.size(), s.g("dur", 0));
		return 0;
	}

	return 2;
}
