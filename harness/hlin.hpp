// Small dense linear algebra, Newton's method and path derivatives of model expressions, at 120 digits.
#pragma once
#include "model.hpp"

namespace vf {
using HMat = std::vector<std::vector<HC>>;
inline HR hfro(HMat const& A) { HR s(0); for (auto& r : A) for (auto& z : r) { HR a = habs(z); s += a * a; } return sqrt(s); }
inline bool hinv(HMat A, HMat& B) {
	size_t n = A.size();
	B.assign(n, std::vector<HC>(n, HC(0)));
	for (size_t i = 0; i < n; ++i) B[i][i] = HC(1);
	for (size_t k = 0; k < n; ++k) {
		size_t p = k;
		for (size_t i = k + 1; i < n; ++i) if (habs(A[i][k]) > habs(A[p][k])) p = i;
		if (habs(A[p][k]) < hr(1e-60)) return false;
		std::swap(A[p], A[k]); std::swap(B[p], B[k]);
		HC d = HC(1) / A[k][k];
		for (size_t j = 0; j < n; ++j) { A[k][j] *= d; B[k][j] *= d; }
		for (size_t i = 0; i < n; ++i) if (i != k) {
			HC f = A[i][k];
			for (size_t j = 0; j < n; ++j) { A[i][j] -= f * A[k][j]; B[i][j] -= f * B[k][j]; }
		}
	}
	return true;
}
inline std::vector<HC> hmul(HMat const& A, std::vector<HC> const& v) {
	std::vector<HC> o(A.size(), HC(0));
	for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < v.size(); ++j) o[i] += A[i][j] * v[j];
	return o;
}
inline std::vector<HC> hval(std::vector<X> const& f, Point const& p) { std::vector<HC> o; Oracle q(p); for (auto& g : f) o.push_back(q(g).v.v); return o; }
inline HMat hjac(std::vector<X> const& f, Point const& p) {
	HMat J(f.size(), std::vector<HC>(p.x.size()));
	for (size_t j = 0; j < p.x.size(); ++j) { Oracle q(p, j); for (size_t i = 0; i < f.size(); ++i) J[i][j] = q(f[i]).d.v; }
	return J;
}
// x'(t) along the path f(x(t),t)=0
inline std::vector<HC> hvel(std::vector<X> const& f, Point const& p) {
	HMat inv;
	if (!hinv(hjac(f, p), inv)) throw Inconclusive{};
	std::vector<HC> ft; Oracle q(p, -1);
	for (auto& g : f) ft.push_back(-q(g).d.v);
	return hmul(inv, ft);
}
inline bool hnewton(std::vector<X> const& f, Point& p, int max = 40) {
	for (int k = 0; k < max; ++k) {
		HMat inv;
		if (!hinv(hjac(f, p), inv)) return false;
		auto d = hmul(inv, hval(f, p));
		HR m(0), s(1);
		for (size_t i = 0; i < d.size(); ++i) { p.x[i] -= d[i]; if (habs(d[i]) > m) m = habs(d[i]); s += habs(p.x[i]); }
		if (!(s < hr(1e6))) return false;
		if (m < hr(1e-112) * s) return true;
	}
	return false;
}
inline std::vector<HC> hc_round(std::vector<HC> const& x, unsigned digits) { std::vector<HC> o; for (auto& z : x) o.push_back(hc(to_mp(z, digits))); return o; }

} // namespace vf
