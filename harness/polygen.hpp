// Random polynomial systems with a prescribed shape, used by several harnesses.
#pragma once
#include "sysmodel.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

namespace vf {
// an independent structural degree, for polynomial expressions only
inline int pdeg(X const& x, std::set<long> const& vs) {
	switch (x->op) {
		case Op::Var: return vs.count(x->n) ? 1 : 0;
		case Op::Fun: case Op::Neg: return pdeg(x->ch[0], vs);
		case Op::Sum: { int d = 0; for (auto& c : x->ch) d = std::max(d, pdeg(c, vs)); return d; }
		case Op::Mul: { int d = 0; for (size_t i = 0; i < x->ch.size(); ++i) if (x->flag[i]) d += pdeg(x->ch[i], vs); return d; }
		case Op::PowI: return pdeg(x->ch[0], vs) * static_cast<int>(x->n);
		case Op::Pow: return pdeg(x->ch[0], vs) * static_cast<int>(x->ch[1]->n);
		default: return 0;
	}
}
inline X coef(Rng& r) {
	switch (r.in(0, 3)) {
		case 0: return xint(r.in(1, 7) * (r.chance(0.5) ? 1 : -1));
		case 1: return xrat(r.in(1, 9), r.in(1, 7), r.in(-5, 5), r.in(1, 3));
		case 2: { auto x = mk(Op::Flt); x->n = r.in(1, 64); x->n2 = 16; x->m = r.in(-16, 16); x->m2 = 8; return x; }
		default: return xrat(r.in(-9, -1), r.in(1, 5), r.in(1, 4), 3);
	}
}
// a monomial of the given degrees in the given groups
inline X monomial(Rng& r, std::vector<std::vector<long>> const& groups, std::vector<int> const& d) {
	std::vector<X> f{coef(r)};
	for (size_t g = 0; g < groups.size(); ++g) {
		int left = d[g];
		while (left > 0) {
			int e = r.in(1, left);
			X v = xvar(r.pick(groups[g]));
			f.push_back(e == 1 ? v : xpowi(v, e));
			left -= e;
		}
	}
	return f.size() == 1 ? f[0] : xmul(f);
}
// a polynomial whose degrees in the groups are exactly d (homogeneous in the groups marked so)
inline X poly_of(Rng& r, std::vector<std::vector<long>> const& groups, std::vector<int> const& kind, std::vector<int> const& d) {
	std::vector<X> terms{monomial(r, groups, d)};
	int n = r.in(1, 3);
	for (int i = 0; i < n; ++i) {
		std::vector<int> e = d;
		for (size_t g = 0; g < e.size(); ++g) if (kind[g] != 1) e[g] = r.in(0, e[g]);
		terms.push_back(monomial(r, groups, e));
	}
	bool affine = true;
	for (int k : kind) if (k == 1) affine = false;
	if (affine) terms.push_back(coef(r));
	std::vector<bool> s;
	for (size_t i = 0; i < terms.size(); ++i) s.push_back(i == 0 || r.chance(0.7));
	return xsum(terms, s);
}
template <typename T> T reload(T const& x, bool text) {
	std::stringstream ss;
	T y;
	if (text) { { boost::archive::text_oarchive oa(ss); oa << x; } boost::archive::text_iarchive ia(ss); ia >> y; }
	else { { boost::archive::binary_oarchive oa(ss); oa << x; } boost::archive::binary_iarchive ia(ss); ia >> y; }
	return y;
}
} // namespace vf
