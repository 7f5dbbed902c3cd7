// Executable reference of the 24 state Kalman filter in double precision, written from the documented error model:
// strapdown prediction, covariance prediction, and sequential scalar corrections. One fusion step at a time: it starts from
// the published state and covariance and must reproduce the next published ones.
#pragma once
#include "core.h"

namespace sim
{
using D24 = std::array<double, 24>;
using M24 = std::array<std::array<double, 24>, 24>;

struct Mat3 {
	double m[3][3] {};
	V3 operator*(const V3 &v) const { return {m[0][0] *v.x + m[0][1] *v.y + m[0][2] *v.z, m[1][0] *v.x + m[1][1] *v.y + m[1][2] *v.z, m[2][0] *v.x + m[2][1] *v.y + m[2][2] *v.z}; }
	V3 t(const V3 &v) const { return {m[0][0] *v.x + m[1][0] *v.y + m[2][0] *v.z, m[0][1] *v.x + m[1][1] *v.y + m[2][1] *v.z, m[0][2] *v.x + m[1][2] *v.y + m[2][2] *v.z}; }
	static Mat3 of(const double *q)
	{
		const double a = q[0], b = q[1], c = q[2], d = q[3];
		Mat3 r;
		r.m[0][0] = a * a + b * b - c * c - d * d; r.m[0][1] = 2 * (b * c - a * d); r.m[0][2] = 2 * (b * d + a * c);
		r.m[1][0] = 2 * (b * c + a * d); r.m[1][1] = a * a - b * b + c * c - d * d; r.m[1][2] = 2 * (c * d - a * b);
		r.m[2][0] = 2 * (b * d - a * c); r.m[2][1] = 2 * (c * d + a * b); r.m[2][2] = a * a - b * b - c * c + d * d;
		return r;
	}
	// derivative of R(q) v with respect to q[k]
	static V3 dRv(const double *q, int k, const V3 &v)
	{
		const double a = q[0], b = q[1], c = q[2], d = q[3];

		switch (k) {
		case 0: return V3(a * v.x - d * v.y + c * v.z, d * v.x + a * v.y - b * v.z, -c * v.x + b * v.y + a * v.z) * 2;

		case 1: return V3(b * v.x + c * v.y + d * v.z, c * v.x - b * v.y - a * v.z, d * v.x + a * v.y - b * v.z) * 2;

		case 2: return V3(-c * v.x + b * v.y + a * v.z, b * v.x + c * v.y + d * v.z, -a * v.x + d * v.y - c * v.z) * 2;

		default: return V3(-d * v.x - a * v.y + b * v.z, a * v.x - d * v.y + c * v.z, b * v.x + c * v.y + d * v.z) * 2;
		}
	}
	// derivative of R(q)^T v with respect to q[k]
	static V3 dRtv(const double *q, int k, const V3 &v)
	{
		const double qi[4] = {q[0], -q[1], -q[2], -q[3]};
		return dRv(qi, k, v) * (k ? -1 : 1);
	}
};

struct RefEkf {
	D24 x;
	M24 P;
	M24 scale;	// magnitude of the terms that were combined: sets the rounding tolerance
	double innovScale{0};
	Mat3 R;		// rotation matrix the fusions use for lever arms (refreshed by the prediction and the heading fusion)
	bool unhealthy{false};

	// configuration of the step
	double dtAvg{0.01};
	bool mag3D{false}, wind{false};
	bool inhibit[3] {};
	double varSaved[3] {};

	static double clampd(double v, double a, double b) { return v < a ? a : v > b ? b : v; }
	V3 vec(int i) const { return {x[i], x[i + 1], x[i + 2]}; }

	struct PredIn {
		V3 da, dv;
		double dadt, dvdt;
		V3 earthRate;
		bool clip[3];
		double gyroNoise, accNoise, gyroBiasNoise, accBiasNoise, magENoise, magBNoise, windNoise;
		Mat3 Rprev;
		double accBiasLim;
	};
	void predictState(const PredIn &in)
	{
		const V3 bg = vec(10), ba = vec(13);
		const V3 da = in.da - bg - in.Rprev.t(in.earthRate) * in.dadt;
		Q q(x[0], x[1], x[2], x[3]);
		q = (q * Q::exp(da)).unit();
		x[0] = q.w; x[1] = q.x; x[2] = q.y; x[3] = q.z;
		R = Mat3::of(&x[0]);
		const V3 a = R * (in.dv - ba);
		const V3 v0 = vec(4);
		V3 v1 = v0 + a;
		v1.z += 9.80665 * in.dvdt;
		const V3 p1 = vec(7) + (v0 + v1) * (0.5 * in.dvdt);

		for (int i = 0; i < 3; i++) {
			x[4 + i] = clampd(v1[i], -1000, 1000);
			x[7 + i] = clampd(p1[i], -1e6, 1e6);
		}

		const double gl = 20 * 0.017453292519943295 * dtAvg, al = in.accBiasLim * dtAvg;

		for (int i = 0; i < 3; i++) {
			x[10 + i] = clampd(x[10 + i], -gl, gl);
			x[13 + i] = clampd(x[13 + i], -al, al);
			x[16 + i] = clampd(x[16 + i], -1, 1);
			x[19 + i] = clampd(x[19 + i], -0.5, 0.5);
		}

		for (int i = 22; i < 24; i++) { x[i] = clampd(x[i], -100, 100); }
	}
	void predictCov(const PredIn &in)
	{
		const double dt = kDt;
		const V3 d = in.da - vec(10), v = in.dv - vec(13);
		const double *q = &x[0];
		double F[10][24] {};
		// quaternion rows
		const double h[3] = {d.x / 2, d.y / 2, d.z / 2};
		const double Fq[4][4] = {{1, -h[0], -h[1], -h[2]}, {h[0], 1, h[2], -h[1]}, {h[1], -h[2], 1, h[0]}, {h[2], h[1], -h[0], 1}};
		const double X[4][3] = {{-q[1], -q[2], -q[3]}, {q[0], -q[3], q[2]}, {q[3], q[0], -q[1]}, {-q[2], q[1], q[0]}};

		for (int i = 0; i < 4; i++) {
			for (int j = 0; j < 4; j++) { F[i][j] = Fq[i][j]; }

			for (int j = 0; j < 3; j++) { F[i][10 + j] = -0.5 * X[i][j]; }
		}

		const Mat3 Rq = Mat3::of(q);

		for (int i = 0; i < 3; i++) {
			for (int k = 0; k < 4; k++) { F[4 + i][k] = Mat3::dRv(q, k, v)[i]; }

			F[4 + i][4 + i] = 1;

			for (int j = 0; j < 3; j++) { F[4 + i][13 + j] = -Rq.m[i][j]; }

			F[7 + i][7 + i] = 1;
			F[7 + i][4 + i] = dt;
		}

		M24 A = P, As; // A = F P

		for (auto &r : As) { r.fill(0); }

		for (int i = 0; i < 10; i++) {
			for (int j = 0; j < 24; j++) {
				double s = 0, b = 0;

				for (int k = 0; k < 16; k++) { if (F[i][k] != 0) { s += F[i][k] * P[k][j]; b = std::max(b, std::fabs(F[i][k] * P[k][j])); } }

				A[i][j] = s;
				As[i][j] = b;
			}
		}

		for (int i = 10; i < 24; i++) { for (int j = 0; j < 24; j++) { As[i][j] = std::fabs(A[i][j]); } }

		M24 N = A;

		for (int i = 0; i < 24; i++) {
			for (int j = 0; j < 24; j++) { scale[i][j] = As[i][j]; }

			for (int j = 0; j < 10; j++) {
				double s = 0, b = 0;

				for (int k = 0; k < 16; k++) { if (F[j][k] != 0) { s += A[i][k] * F[j][k]; b = std::max(b, std::fabs(F[j][k]) * As[i][k]); } }

				N[i][j] = s;
				scale[i][j] = b;
			}
		}

		const double gv = sq(dt * in.gyroNoise);

		for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { double s = 0; for (int k = 0; k < 3; k++) { s += X[i][k] * X[j][k]; } N[i][j] += 0.25 * gv * s; } }

		double av[3];

		for (int k = 0; k < 3; k++) { av[k] = sq(dt * (in.clip[k] ? 4.9 : in.accNoise)); }

		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) { s += Rq.m[i][k] * Rq.m[j][k] * av[k]; } N[4 + i][4 + j] += s; } }

		for (int i = 10; i < 13; i++) { N[i][i] += sq(dt * dt * in.gyroBiasNoise); }

		for (int i = 13; i < 16; i++) {
			if (inhibit[i - 13]) {
				for (int j = 0; j < 24; j++) { N[i][j] = N[j][i] = 0; }

				N[i][i] = varSaved[i - 13];

			} else { N[i][i] += sq(dt * dt * in.accBiasNoise); }
		}

		for (int i = 16; i < 19; i++) { N[i][i] += sq(in.magENoise); }

		for (int i = 19; i < 22; i++) { N[i][i] += sq(in.magBNoise); }

		for (int i = 22; i < 24; i++) { N[i][i] += sq(in.windNoise); }

		if (P[7][7] + P[8][8] > 1e4) { for (int i = 7; i <= 8; i++) { for (int j = 0; j < 24; j++) { N[i][j] = N[j][i] = P[i][j]; } } }

		P = N;
		fix();
	}
	void uncor(int i, double var)
	{
		for (int j = 0; j < 24; j++) { P[i][j] = P[j][i] = 0; }

		P[i][i] = var;
	}
	void fix()
	{
		for (int i = 0; i < 4; i++) { P[i][i] = clampd(P[i][i], 0, 1); }

		for (int i = 4; i < 10; i++) { P[i][i] = clampd(P[i][i], 1e-6, 1e6); }

		for (int i = 10; i < 13; i++) { P[i][i] = clampd(P[i][i], 0, 1); }

		double mx = 1e-9;
		bool reset = false, any = false;

		for (int i = 13; i < 16; i++) {
			if (inhibit[i - 13]) { continue; }

			any = true;

			if (P[i][i] > mx) { mx = P[i][i]; } else if (P[i][i] < 1e-9) { reset = true; }
		}

		if (any) {
			const double lo = std::max(0.01 * mx, 5e-8), hi = sq(0.1 * 9.80665 * dtAvg);

			for (int i = 13; i < 16; i++) { if (!inhibit[i - 13]) { P[i][i] = clampd(P[i][i], lo, hi); } }

			if (reset) {
				double keep[3];

				for (int i = 0; i < 3; i++) { keep[i] = P[13 + i][13 + i]; }

				for (int i = 0; i < 3; i++) { uncor(13 + i, keep[i]); }
			}
		}

		if (!mag3D) { for (int i = 16; i < 22; i++) { uncor(i, 0); } }

		else { for (int i = 16; i < 22; i++) { P[i][i] = clampd(P[i][i], 0, 1); } }

		if (!wind) { uncor(22, 0); uncor(23, 0); }

		else { for (int i = 22; i < 24; i++) { P[i][i] = clampd(P[i][i], 0, 1e6); } }
	}
	static double sq(double v) { return v * v; }
	static constexpr double kDt = 0.01;

	double quad(const D24 &H) const
	{
		double s = 0;

		for (int i = 0; i < 24; i++) { if (H[i] != 0) { for (int j = 0; j < 24; j++) { if (H[j] != 0) { s += H[i] * H[j] * P[i][j]; } } } }

		return s;
	}
	double quadScale(const D24 &H) const
	{
		double s = 0;

		for (int i = 0; i < 24; i++) { if (H[i] != 0) { for (int j = 0; j < 24; j++) { if (H[j] != 0) { s = std::max(s, std::fabs(H[i] * H[j] * P[i][j])); } } } }

		return s;
	}
	// one scalar correction with innovation variance S; keep(i): the state is corrected
	template <class K> bool fuse(const D24 &H, double S, double innov, K keep)
	{
		D24 PH, PHs, PHe, g;

		for (int i = 0; i < 24; i++) {
			double s = 0, b = 0;

			for (int j = 0; j < 24; j++) { if (H[j] != 0) { s += P[i][j] * H[j]; b = std::max(b, std::fabs(P[i][j] * H[j])); } }

			PH[i] = s;
			PHs[i] = b;
			PHe[i] = b;

			// (rounding left in the covariances by the earlier corrections)
			for (int j = 0; j < 24; j++) { if (H[j] != 0) { PHe[i] = std::max(PHe[i], scale[i][j] * std::fabs(H[j])); } }

			g[i] = keep(i) ? s / S : 0;
		}

		for (int i = 0; i < 3; i++) { if (inhibit[i]) { g[13 + i] = 0; } }

		for (int i = 0; i < 24; i++) {
			if (P[i][i] < g[i] * PH[i] || (g[i] != 0 && P[i][i] - g[i] * PH[i] < 3e-7 * (P[i][i] + PHs[i] * PHs[i] / S))) { unhealthy = true; return false; }
		}

		M24 N;

		for (int i = 0; i < 24; i++) {
			for (int j = 0; j < 24; j++) { scale[i][j] = std::max({scale[i][j], std::fabs(P[i][j]), (g[i] != 0 || g[j] != 0) ? PHs[i] * PHs[j] / S : 0}); }

			for (int j = 0; j < 24; j++) { N[i][j] = P[i][j] - 0.5 * (g[i] * PH[j] + g[j] * PH[i]); }
		}

		P = N;

		for (int i = 13; i < 16; i++) { if (!inhibit[i - 13] && P[i][i] < 1.1e-9) { unhealthy = true; } }

		fix();
		innovScale = std::max(innovScale, std::fabs(innov));

		for (int i = 0; i < 24; i++) { x[i] -= g[i] * innov; move[i] += std::fabs(g[i] * innov); if (g[i] != 0) { noise[i] += PHe[i] / S * std::fabs(innov); } }

		const double n = std::sqrt(sq(x[0]) + sq(x[1]) + sq(x[2]) + sq(x[3]));

		for (int i = 0; i < 4; i++) { x[i] /= n; }

		return true;
	}
	bool fuse(const D24 &H, double S, double innov) { return fuse(H, S, innov, [](int) { return true; }); }
	D24 noise{};	// magnitude of the cancelling terms in the corrections
	// derivative of a scalar function of the state
	template <class Fn> D24 jac(Fn h, std::initializer_list<int> idx, bool angle = false) const
	{
		D24 H{};

		for (int i : idx) {
			const double d = 1e-5 * (1 + std::fabs(x[i]));
			D24 a = x, b = x;
			a[i] += d;
			b[i] -= d;
			const double dh = h(a) - h(b);
			H[i] = (angle ? std::remainder(dh, 2 * M_PI) : dh) / (2 * d);
		}

		return H;
	}
	D24 move{};	// total correction applied to each state in this step
};
} // namespace sim
