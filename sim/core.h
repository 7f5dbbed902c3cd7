// Deterministic simulator for the ECL estimator: scenario, world, schedule and harness.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <EKF/ekf.h>

namespace sim
{

// ---------------------------------------------------------------- randomness
inline uint64_t mix64(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { return mix64(mix64(mix64(a) ^ b) ^ c); }
inline double u01(uint64_t h) { return (h >> 11) * (1.0 / 9007199254740992.0); }

// stateful generator: used only to *generate* scenarios
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(mix64(seed ^ 0xD57ull)) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
	double u() { return u01(next()); }
	double u(double a, double b) { return a + (b - a) * u(); }
	int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
	bool p(double prob) { return u() < prob; }
	double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + (next() % l.size())); }
};

// counter based noise: value depends only on (seed, stream, index), so removing a
// sample or a fault from a scenario never shifts any other sample
inline double unif(uint64_t seed, uint64_t stream, uint64_t idx) { return u01(hash3(seed, stream, idx)); }
inline double gauss(uint64_t seed, uint64_t stream, uint64_t idx)
{
	const double u1 = unif(seed, stream * 2 + 1, idx) + 1e-18;
	const double u2 = unif(seed, stream * 2 + 2, idx ^ 0x5555);
	double g = std::sqrt(-2.0 * std::log(u1)) * std::cos(6.283185307179586 * u2);
	if (g > 4.5) { g = 4.5; }
	if (g < -4.5) { g = -4.5; }
	return g;
}

// ---------------------------------------------------------------- small double maths
struct V3 {
	double x{0}, y{0}, z{0};
	V3() = default;
	V3(double a, double b, double c) : x(a), y(b), z(c) {}
	double &operator[](int i) { return (&x)[i]; }
	double operator[](int i) const { return (&x)[i]; }
	V3 operator+(const V3 &o) const { return {x + o.x, y + o.y, z + o.z}; }
	V3 operator-(const V3 &o) const { return {x - o.x, y - o.y, z - o.z}; }
	V3 operator*(double s) const { return {x * s, y * s, z * s}; }
	V3 operator-() const { return {-x, -y, -z}; }
	V3 &operator+=(const V3 &o) { x += o.x; y += o.y; z += o.z; return *this; }
	double dot(const V3 &o) const { return x * o.x + y * o.y + z * o.z; }
	V3 cross(const V3 &o) const { return {y *o.z - z * o.y, z *o.x - x * o.z, x *o.y - y * o.x}; }
	double norm() const { return std::sqrt(dot(*this)); }
	V3 unit() const { const double n = norm(); return n > 0 ? *this * (1 / n) : V3(1, 0, 0); }
};
struct Q {
	double w{1}, x{0}, y{0}, z{0};
	Q() = default;
	Q(double a, double b, double c, double d) : w(a), x(b), y(c), z(d) {}
	Q operator*(const Q &o) const
	{
		return {w *o.w - x * o.x - y * o.y - z * o.z, w *o.x + x * o.w + y * o.z - z * o.y,
			w *o.y - x * o.z + y * o.w + z * o.x, w *o.z + x * o.y - y * o.x + z * o.w};
	}
	Q inv() const { return {w, -x, -y, -z}; }
	Q unit() const { const double n = std::sqrt(w * w + x * x + y * y + z * z); return {w / n, x / n, y / n, z / n}; }
	V3 rot(const V3 &v) const // body -> earth
	{
		const V3 u(x, y, z);
		const V3 t = u.cross(v) * 2;
		return v + t * w + u.cross(t);
	}
	V3 irot(const V3 &v) const { return inv().rot(v); }
	static Q exp(const V3 &r)
	{
		const double a = r.norm();
		if (a < 1e-12) { return Q(1, r.x / 2, r.y / 2, r.z / 2).unit(); }
		const double s = std::sin(a / 2) / a;
		return {std::cos(a / 2), r.x * s, r.y * s, r.z * s};
	}
	V3 log() const
	{
		Q q = *this;
		if (q.w < 0) { q = {-w, -x, -y, -z}; }
		const V3 v(q.x, q.y, q.z);
		const double s = v.norm();
		if (s < 1e-12) { return v * 2; }
		return v * (2 * std::atan2(s, q.w) / s);
	}
	static Q euler(double r, double p, double y)
	{
		return (Q(std::cos(y / 2), 0, 0, std::sin(y / 2)) * Q(std::cos(p / 2), 0, std::sin(p / 2), 0) *
			Q(std::cos(r / 2), std::sin(r / 2), 0, 0)).unit();
	}
	static Q fromAxes(const V3 &bx, const V3 &by, const V3 &bz); // columns of R
	double yaw() const { return std::atan2(2 * (w * z + x * y), 1 - 2 * (y * y + z * z)); }
};
inline double wrapPi(double a) { while (a > M_PI) { a -= 2 * M_PI; } while (a < -M_PI) { a += 2 * M_PI; } return a; }
inline matrix::Vector3f f3(const V3 &v) { return matrix::Vector3f((float)v.x, (float)v.y, (float)v.z); }
inline V3 d3(const matrix::Vector3f &v) { return V3(v(0), v(1), v(2)); }

// ---------------------------------------------------------------- scenario
enum Sensor { IMU = 0, MAG, BARO, GPS, ASP, RNG, FLOW, EV, AUX, NSENS };
extern const char *const kSensorName[NSENS];

enum FaultKind {
	F_LOSS = 0,	// a = probability a sample never arrives
	F_DUP,		// a = probability a sample is delivered a second time (b us later)
	F_DELAY,	// a = extra latency us, b = random extra latency us
	F_REORDER,	// a = probability a sample is held back b us (so that newer ones overtake it)
	F_BIAS,		// a,b,c added to the measurement vector (sensor specific)
	F_STUCK,	// the sensor repeats the value it had at t0
	F_NOISE,	// a = extra 1-sigma noise (sensor units)
	F_SPIKE,	// a = probability, b = magnitude of isolated outliers
	F_QUALITY,	// gps: a=fix b=nsats c=accuracy scale ; range/flow: a=quality
	F_CLIP,		// imu: a = axis bits, b = clip limit m/s^2
	F_VIB,		// imu: a = gyro amplitude rad/s, b = accel amplitude m/s^2
	F_TSJIT,	// a = timestamp jitter us
	F_TSSKEW,	// a = timestamp offset us (skewed sensor clock)
	F_IMUGAP,	// imu samples lost; next one carries a longer interval (a=1: dt carries, 0: dt nominal)
	F_ROT,		// mag: field rotated by a rad about the vertical; gps: velocity rotated by a
	F_VEL,		// gps: a,b,c velocity bias
	F_TSFREEZE,	// the reported time stamp stays at its value at t0
	NFAULT
};
extern const char *const kFaultName[NFAULT];

struct Fault {
	int kind{0}, sensor{0};
	double t0{0}, t1{0};	// seconds of simulated time
	double a{0}, b{0}, c{0};
};

enum OpKind {
	O_INAIR = 0, O_FW, O_BETA, O_GNDEFF, O_ORIGIN, O_ORIGALT, O_RSTBIAS, O_RSTGYR, O_RSTACC, O_RSTMAG, O_RESTART,
	O_PARAM, O_READ, O_RNGLIM, O_FLOWLIM, O_GPSHEALTH, O_AIRDENS, O_ALLOCFAIL, O_CLEAREV, NOP
};
extern const char *const kOpName[NOP];
struct Op {
	int kind{0};
	double t{0};
	double a{0}, b{0}, c{0};
};
struct Leg { // commanded motion from time t
	double t{0};
	double vn{0}, ve{0}, vd{0}, yawrate{0};
};

struct Scn {
	std::string check;
	std::map<std::string, double> v;
	std::vector<Fault> faults;
	std::vector<Op> ops;
	std::vector<Leg> legs;
	std::vector<std::pair<int, int>> drop; // explicit (sensor, index) samples removed by the minimiser

	double g(const std::string &k, double def) const
	{
		auto it = v.find(k);
		return it == v.end() ? def : it->second;
	}
	void s(const std::string &k, double val) { v[k] = val; }
	uint64_t seed() const { return (uint64_t)g("seed", 1); }
	std::string dump() const;
	bool parse(const std::string &text);
};

bool setParam(parameters &p, const std::string &name, double value); // by parameter name
double getParam(const parameters &p, const std::string &name);
const std::vector<std::string> &paramNames();
void applyParams(parameters &p, const Scn &s); // every "P.<name>" key

// ---------------------------------------------------------------- world
struct TruthK {
	uint64_t t; // us
	V3 p, v, a, w;
	Q q;
};

struct Ev {
	uint64_t arr;	// arrival time (us, simulator clock)
	uint64_t ts;	// sample timestamp as reported (us)
	uint32_t ord;	// tie break
	int type;
	int idx;	// index in the per type sample array
};

struct World {
	uint64_t t0{0}, t1{0};
	std::vector<TruthK> truth;		// at imu ticks
	std::vector<imuSample> imu;		// one per tick delivered
	std::vector<magSample> mag;
	std::vector<baroSample> baro;
	std::vector<gps_message> gps;
	std::vector<airspeedSample> asp;
	std::vector<rangeSample> rng;
	std::vector<flowSample> flow;
	std::vector<extVisionSample> ev;
	std::vector<auxVelSample> aux;
	std::vector<Ev> events;			// sorted by (arr, ord)
	double lat0{0}, lon0{0}, alt0{0};
	V3 magNED;
	V3 wind;
	V3 gyroBias, accBias;
	Q qEv;					// EV frame -> NED
	V3 evOrig;
	uint64_t faultCount[NFAULT] {};
	TruthK at(double t_us) const;		// interpolated truth
	double ground(double n, double e) const { return gz0 + gzn * n + gze * e; } // NED z of the terrain
	double gz0{0}, gzn{0}, gze{0};
};

void projInv(double lat0, double lon0, double x, double y, double &lat, double &lon); // degrees
void projFwd(double lat0, double lon0, double lat, double lon, double &x, double &y);
World makeWorld(const Scn &s);
double worldDecl(double lat, double lon);	// rad
double worldIncl(double lat, double lon);	// rad
double worldStrength(double lat, double lon);	// gauss

// ---------------------------------------------------------------- harness
// visitor over everything the estimator publishes
using FieldFn = std::function<void(const char *, int, float)>;

struct Vehicle { // one estimator instance over storage with a chosen fill pattern
	explicit Vehicle(uint8_t fill = 0);
	~Vehicle();
	Vehicle(const Vehicle &) = delete;
	Ekf &e() { return *ekf; }
	void recreate(uint8_t fill);
private:
	void *mem{nullptr};
	Ekf *ekf{nullptr};
};

struct StepInfo {
	uint64_t t;	// newest imu time
	int k;		// imu index
	bool updated;	// the filter ran a fusion step
};

struct Hooks {
	virtual ~Hooks() = default;
	virtual void onDeliver(const Ev &, const World &, Ekf &) {}	// just before a sample is handed over
	virtual void onOp(const Op &, Ekf &) {}				// just after the call
	virtual void onOpBefore(const Op &, Ekf &) {}
	virtual bool onStep(const StepInfo &, Ekf &) { return true; }	// after update(); false stops the run
	virtual void preImu(const imuSample &, Ekf &) {}
	virtual void preUpdate(const StepInfo &, Ekf &) {}
};

void deliver(Ekf &ekf, const World &w, const Ev &ev);
void applyOp(Ekf &ekf, const Op &op);
// order: 0 = sensors handed over between setIMUData() and update(), 1 = before setIMUData()
void run(const Scn &s, const World &w, Vehicle &veh, Hooks &h);

// alloc fault injection (operator new[]): fails the n-th array allocation (1 based) while armed
extern int g_failAllocAt;
extern int g_allocCount;

// ---------------------------------------------------------------- published outputs
void visitAll(Ekf &e, const FieldFn &f);	// all published values except time stamps
uint64_t digest(Ekf &e);			// bit exact hash of visitAll
uint64_t digestCore(Ekf &e);			// state, covariance, outputs, flags only
inline void fnv(uint64_t &h, uint64_t v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }
inline uint32_t bitsOf(float x) { if (std::isnan(x)) { return 0x7fc00000u; } uint32_t u; memcpy(&u, &x, 4); return u; }

// ---------------------------------------------------------------- check results
struct Violation {
	std::string kind;	// stable short identifier (used by the minimiser and known findings)
	std::string text;
};
struct Result {
	std::vector<Violation> viol;
	uint64_t hash{1469598103934665603ull};	// trace hash: determinism gate
	double simSeconds{0};
	uint64_t faults[NFAULT] {};
	uint64_t ops[NOP] {};
	std::map<std::string, uint64_t> cnt;	// reach counters (vacuity control)
	std::set<uint64_t> states;		// distinct abstract states
	bool nontrivial{false};
	void bad(const std::string &k, const std::string &t) { if (viol.size() < 20) { viol.push_back({k, t}); } }
	void addWorld(const Scn &s, const World &w);
};
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Check {
	const char *id;
	std::function<Scn(uint64_t seed, bool thorough)> gen;
	std::function<void(const Scn &, Result &)> exec;
	const char *rule;
};
std::vector<Check> &checks();
struct Reg { Reg(const Check &c) { checks().push_back(c); } };

// ---------------------------------------------------------------- scenario helpers
Scn baseScn(uint64_t seed, double dur); // nominal multicopter on the ground with imu/mag/baro/gps
void addFlight(Scn &s, Rng &r, double takeoff, double end, bool fw = false);
void swarmFaults(Scn &s, Rng &r, double t0, double t1, int maxFaults, uint32_t kinds, uint32_t sensors);
uint64_t ctrlState(Ekf &e);	// abstract control state used as coverage measure

} // namespace sim

// ---------------------------------------------------------------- shared by the checks
namespace sim
{
enum { R_NOFW = 1, R_FORCEGPS = 2, R_NOFAULTCFG = 4, R_FORCEFW = 8, R_NOEV = 16, R_NOFLOW = 32, R_LONGGROUND = 64, R_PARAMSWARM = 128 };
// a varied, realistic configuration: vehicle type, sensor suite, aiding mode, height source, yaw source, rates,
// latencies, lever arms, flight profile
Scn richScn(uint64_t seed, double dur, unsigned flags = 0);
extern const uint32_t kAllFaults, kAllSensors;
inline uint32_t bit(int i) { return 1u << i; }

using Filter = std::function<bool(const char *)>; // false: field ignored
struct Trace {
	std::vector<uint64_t> h;	// one hash per imu step
	double seconds{0};
};
Trace record(const Scn &s, const World &w, uint8_t fill, const Filter &f, Hooks *extra, Result &r);
// first field that differs at step k between two executions
std::string explain(const Scn &a, const World &wa, const Scn &b, const World &wb, size_t k, const Filter &f, Hooks *ea = nullptr, Hooks *eb = nullptr);
int paramIndex(const char *name);
} // namespace sim
