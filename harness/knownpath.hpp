// Homotopies whose solution paths are known in closed form.
#pragma once
#include "hlin.hpp"
#include "sysmodel.hpp"

namespace vf {
// z = A x + c, y_k = z_k + q_k(z_0..z_{k-1}), H_k = prod_j (y_k - r_kj(t)):
// a path is a choice of one j for each k, and is followed exactly by inverting the triangular change of variables.
struct KnownPaths {
	int n = 0;
	HMat A, Ainv;
	std::vector<HC> c;
	struct Quad { int i, j; HC co; X xco; };
	std::vector<std::vector<Quad>> q;                 // terms of q_k
	std::vector<std::vector<std::vector<HC>>> r;      // r[k][j] coefficients in powers of t
	std::vector<X> f;
	std::vector<Var> vars;
	Var t;
	HC root(int k, int j, HC const& tt) const { HC v(0); for (size_t i = r[k][j].size(); i-- > 0;) v = v * tt + r[k][j][i]; return v; }
	HC droot(int k, int j, HC const& tt) const { HC v(0); for (size_t i = r[k][j].size(); i-- > 1;) v = v * tt + r[k][j][i] * HC(static_cast<long>(i)); return v; }
	HC qv(int k, std::vector<HC> const& z) const { HC v(0); for (auto& m : q[k]) v += m.co * z[m.i] * (m.j >= 0 ? z[m.j] : HC(1)); return v; }
	std::vector<HC> at(std::vector<int> const& idx, HC const& tt) const {
		std::vector<HC> z(n);
		for (int k = 0; k < n; ++k) z[k] = root(k, idx[k], tt) - qv(k, z);
		for (int k = 0; k < n; ++k) z[k] -= c[k];
		return hmul(Ainv, z);
	}
	int npaths() const { int m = 1; for (auto& k : r) m *= k.size(); return m; }
	std::vector<int> index(int p) const { std::vector<int> o; for (auto& k : r) { o.push_back(p % k.size()); p /= k.size(); } return o; }
	std::string str() const { std::string s; for (auto& g : f) s += g->str() + "; "; return s; }
	// the smallest distance of two roots of a factor along the segment, and the fastest root
	void geometry(HC const& a, HC const& b, double& sep, double& speed) const {
		sep = 1e9; speed = 0;
		for (int s = 0; s <= 200; ++s) {
			HC tt = a + (b - a) * HC(HR(s) / 200);
			for (int k = 0; k < n; ++k)
				for (size_t i = 0; i < r[k].size(); ++i) {
					speed = std::max(speed, static_cast<double>(habs(droot(k, i, tt))));
					for (size_t j = 0; j < i; ++j) sep = std::min(sep, static_cast<double>(habs(root(k, i, tt) - root(k, j, tt))));
				}
		}
	}
};

inline HC rat(long n, long d, long m, long e) { return HC(HR(n) / d, HR(m) / e); }

// f as a product (factored) or multiplied out over y as a polynomial: both forms are offered
inline KnownPaths gen_known(Rng& r, HC const& t0, HC const& t1, int maxn = 3, int maxroots = 3, double minsep = 0.5, double maxspeed = 1.6) {
	for (;;) {
		KnownPaths h;
		h.n = r.in(1, maxn);
		int n = h.n;
		std::vector<X> z;
		h.A.assign(n, std::vector<HC>(n));
		std::vector<std::vector<X>> xa(n, std::vector<X>(n));
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
			long a = i == j ? r.in(2, 3) : (r.chance(0.6) ? r.in(-2, 2) : 0), b = r.chance(0.3) ? r.in(-2, 2) : 0;
			h.A[i][j] = rat(a, 2, b, 4);
			xa[i][j] = xrat(a, 2, b, 4);
		}
		if (!hinv(h.A, h.Ainv) || hfro(h.A) * hfro(h.Ainv) > 30) continue;
		for (int i = 0; i < n; ++i) {
			long a = r.in(-3, 3), b = r.in(-3, 3);
			h.c.push_back(rat(a, 4, b, 4));
			std::vector<X> s;
			for (int j = 0; j < n; ++j) if (h.A[i][j] != HC(0)) s.push_back(xmul({xa[i][j], xvar(j)}));
			s.push_back(xrat(a, 4, b, 4));
			z.push_back(xsum(s));
		}
		h.q.resize(n); h.r.resize(n);
		std::vector<X> y;
		for (int k = 0; k < n; ++k) {
			std::vector<X> s{z[k]};
			if (k) for (int m = r.in(0, 2); m-- > 0;) {
				int i = r.in(0, k - 1), j = r.chance(0.6) ? r.in(0, k - 1) : -1;
				long a = r.in(-2, 2), b = r.in(-2, 2);
				X co = xrat(a, 4, b, 4);
				h.q[k].push_back({i, j, rat(a, 4, b, 4), co});
				s.push_back(j < 0 ? xmul({co, z[i]}) : xmul({co, z[i], z[j]}));
			}
			y.push_back(s.size() > 1 ? xsum(s) : s[0]);
			int d = r.in(1, maxroots);
			std::vector<X> fac;
			for (int j = 0; j < d; ++j) {
				std::vector<HC> co; std::vector<X> terms{y[k]}; std::vector<bool> sg{true};
				int deg = r.in(0, 3);
				for (int i = 0; i <= deg; ++i) {
					long a = r.in(-8, 8), b = r.in(-8, 8); int den = i ? 10 : 5;
					co.push_back(rat(a, den, b, den));
					X cx = xrat(a, den, b, den);
					terms.push_back(i == 0 ? cx : i == 1 ? xmul({cx, xvar(-1)}) : xmul({cx, xpowi(xvar(-1), i)}));
					sg.push_back(false);
				}
				h.r[k].push_back(co);
				fac.push_back(xsum(terms, sg));
			}
			h.f.push_back(fac.size() == 1 ? fac[0] : xmul(fac));
		}
		double sep, speed;
		h.geometry(t0, t1, sep, speed);
		if (sep < minsep || speed > maxspeed) continue;
		for (int i = 0; i < n; ++i) h.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
		h.t = bn::Variable::Make("t");
		return h;
	}
}
inline bertini::System build(KnownPaths const& h, Rng& r) {
	bertini::System s;
	ToNode tn; tn.vars = h.vars; tn.t = h.t; tn.r = &r;
	s.AddVariableGroup(bertini::VariableGroup(h.vars.begin(), h.vars.end()));
	s.AddPathVariable(h.t);
	for (auto& g : h.f) s.AddFunction(tn(g));
	return s;
}
inline HR hdist(std::vector<HC> const& a, std::vector<HC> const& b) {
	if (a.size() != b.size()) return HR(1e30);
	HR m(0);
	for (size_t i = 0; i < a.size(); ++i) { if (!finite(a[i])) return HR(1e30); HR d = habs(a[i] - b[i]); if (d > m) m = d; }
	return m;
}
template <typename T> std::vector<HC> from_vec(Vec<T> const& v) { std::vector<HC> o; for (long i = 0; i < v.size(); ++i) o.push_back(hc(v(i))); return o; }
} // namespace vf
