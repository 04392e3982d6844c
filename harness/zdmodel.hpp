// polynomial systems with known roots, and the judgement of a zero-dimensional solve of one.
#pragma once
#include "knownpath.hpp"
#include "bertini2/tracking.hpp"
#include "bertini2/endgames.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"
#include "bertini2/nag_algorithms/output.hpp"

using namespace vf;
using namespace bertini;
using namespace bertini::tracking;
using bertini::endgame::EndgameSelector;
namespace alg = bertini::algorithm;

namespace {
std::string code_name(SuccessCode c) { return std::to_string(static_cast<int>(c)); }

struct Root { std::vector<HC> x; int mult = 1; };
struct Known {
	int n = 0;
	std::vector<X> f;
	std::vector<std::vector<int>> groups;   // one group for total degree
	std::vector<Root> roots;
	unsigned long long paths = 0;           // of the start system
	int kind = 0;
	std::vector<Var> vars;
	int finite() const { int s = 0; for (auto& q : roots) s += q.mult; return s; }
	std::string str() const { std::string o; for (auto& g : f) o += g->str() + "; "; o += "groups"; for (auto& g : groups) { o += " {"; for (int v : g) o += " x" + std::to_string(v); o += " }"; } return o + " roots " + std::to_string(roots.size()) + "/" + std::to_string(finite()) + " paths " + std::to_string(paths); }
};
struct Lin { std::vector<HC> a; HC b; X x; };
Lin gen_lin(Rng& r, std::vector<int> const& vars, int n, Lin const* parallel = nullptr) {
	Lin l;
	l.a.assign(n, HC(0));
	std::vector<X> s;
	bool cpx = r.chance(0.5);
	for (int v : vars) {
		long p, q;
		do { p = r.in(-4, 4); q = cpx ? r.in(-4, 4) : 0; } while (!p && !q);
		l.a[v] = rat(p, 3, q, 3);
		s.push_back(xmul({xrat(p, 3, q, 3), xvar(v)}));
	}
	long p = r.in(-5, 5), q = cpx ? r.in(-5, 5) : 0;
	if (parallel) { l.a = parallel->a; s = {parallel->x}; l.b = parallel->b; p = r.in(1, 5); }
	l.b += rat(p, 4, q, 4);
	s.push_back(xrat(p, 4, q, 4));
	l.x = xsum(s);
	return l;
}
// the common zero of n linear forms, and how well conditioned
bool meet(std::vector<Lin const*> const& l, std::vector<HC>& x, double& cond) {
	HMat A, inv;
	std::vector<HC> b;
	for (auto p : l) { A.push_back(p->a); b.push_back(-p->b); }
	if (!hinv(A, inv)) return false;
	cond = static_cast<double>(hfro(A) * hfro(inv));
	x = hmul(inv, b);
	return true;
}
// kinds: 0 products of linear forms, 1 with repeated factors, 2 with parallel factors (roots at infinity), 3 several variable groups, 4 behind a triangular change of variables
bool gen_once(Rng& r, Known& k) {
	int u = r.in(0, 9);
	k.kind = u <= 3 ? 0 : u <= 5 ? 1 : u == 6 ? 2 : u <= 8 ? 3 : 4;
	k.n = k.kind == 0 ? r.in(1, 3) : k.kind == 1 ? r.in(1, 2) : k.kind == 3 ? r.in(2, 3) : 2;
	int n = k.n;
	if (k.kind == 3) { k.groups = n == 2 ? std::vector<std::vector<int>>{{0}, {1}} : r.chance(0.5) ? std::vector<std::vector<int>>{{0}, {1, 2}} : r.chance(0.5) ? std::vector<std::vector<int>>{{0, 1}, {2}} : std::vector<std::vector<int>>{{0}, {1}, {2}}; }
	else { k.groups.push_back({}); for (int i = 0; i < n; ++i) k.groups[0].push_back(i); }
	std::vector<std::vector<Lin>> fac(n);
	std::vector<std::vector<int>> rep(n);
	std::vector<std::vector<int>> grp(n);
	for (int i = 0; i < n; ++i) {
		int m = r.in(1, n == 1 ? 5 : n == 2 ? 3 : 2);
		if (k.kind == 4) m = 2;
		for (int j = 0; j < m; ++j) {
			int g = r.in(0, int(k.groups.size()) - 1);
			fac[i].push_back(gen_lin(r, k.groups[g], n));
			grp[i].push_back(g);
			rep[i].push_back(1);
		}
	}
	if (k.kind == 1) { int i = r.in(0, n - 1), j = r.in(0, int(fac[i].size()) - 1); rep[i][j] = n == 1 ? r.in(2, 3) : 2; if (r.chance(0.3)) { int i2 = r.in(0, n - 1); rep[i2][0] = 2; } }
	if (k.kind == 2) {
		// a factor of one function parallel to one of the other
		fac[1].push_back(gen_lin(r, k.groups[0], n, &fac[0][0]));
		rep[1].push_back(1); grp[1].push_back(0);
	}
	for (int i = 0; i < n; ++i) { int d = 0; for (int m : rep[i]) d += m; if (d > 5) return false; }
	// all combinations of one factor for each function
	k.paths = 0;
	std::vector<size_t> at(n, 0);
	std::vector<int> gdim;
	for (auto& g : k.groups) gdim.push_back(g.size());
	for (;;) {
		std::vector<int> cnt(k.groups.size(), 0);
		std::vector<Lin const*> l;
		int mult = 1;
		for (int i = 0; i < n; ++i) { l.push_back(&fac[i][at[i]]); cnt[grp[i][at[i]]]++; mult *= rep[i][at[i]]; }
		if (cnt == gdim) {
			k.paths += mult;
			Root q; double cond = 0;
			bool par = k.kind == 2 && at[0] == 0 && at[1] + 1 == fac[1].size();
			if (!par) {
				if (!meet(l, q.x, cond) || cond > 30) return false;
				q.mult = mult;
				k.roots.push_back(q);
			}
		}
		int i = 0;
		while (i < n && ++at[i] == fac[i].size()) at[i++] = 0;
		if (i == n) break;
	}
	if (k.paths == 0 || k.paths > 14 || k.roots.empty()) return false;
	if (k.kind == 3 && k.groups.size() < 2) return false;
	for (int i = 0; i < n; ++i) {
		std::vector<X> p;
		for (size_t j = 0; j < fac[i].size(); ++j) p.push_back(rep[i][j] == 1 ? fac[i][j].x : xpowi(fac[i][j].x, rep[i][j]));
		k.f.push_back(p.size() == 1 ? p[0] : xmul(p));
	}
	if (k.kind == 4) {
		// x1 -> x1 + c x0^2 : finite roots keep their number, the degrees double
		long a = r.in(1, 3), b = r.in(-2, 2);
		HC co = rat(a, 3, b, 3);
		X sub = xsum({xvar(1), xmul({xrat(a, 3, b, 3), xpowi(xvar(0), 2)})});
		std::function<X(X const&)> subst = [&](X const& e) -> X { if (e->op == Op::Var && e->n == 1) return sub; auto y = std::make_shared<Ex>(*e); y->ch.clear(); for (auto& z : e->ch) y->ch.push_back(subst(z)); return y; };
		for (auto& g : k.f) g = subst(g);
		for (auto& q : k.roots) q.x[1] -= co * q.x[0] * q.x[0];
		k.paths *= 4;
		if (k.paths > 16) return false;
	}
	// well separated and of moderate size, with a margin to multiplicities
	for (size_t i = 0; i < k.roots.size(); ++i) {
		for (auto& z : k.roots[i].x) if (habs(z) > 8) return false;
		for (size_t j = 0; j < i; ++j) if (hdist(k.roots[i].x, k.roots[j].x) < vf::hr(0.25)) return false;
	}
	// conditioning of the simple roots
	for (auto& q : k.roots) if (q.mult == 1) {
		Point p; p.x = q.x;
		HMat inv;
		if (!hinv(hjac(k.f, p), inv) || hfro(inv) > 40) return false;
	}
	return true;
}
Known gen_known_sys(Rng& r) {
	for (;;) {
		Known k;
		if (!gen_once(r, k)) continue;
		for (int i = 0; i < k.n; ++i) k.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
		return k;
	}
}
System build(Known const& k, Rng& r) {
	System s;
	ToNode tn; tn.vars = k.vars; tn.r = &r;
	for (auto& g : k.groups) { bertini::VariableGroup v; for (int i : g) v.push_back(k.vars[i]); s.AddVariableGroup(v); }
	for (auto& g : k.f) s.AddFunction(tn(g));
	return s;
}

template <typename ZD> struct Settings {
	double before = 1e-7, during = 1e-8, final = 1e-11;
	unsigned samples = 3;
	SteppingConfig st;
};

template <typename C> std::vector<HC> dehom(System const& sys, Vec<C> const& v) { return from_vec(sys.DehomogenizePoint(v)); }

template <typename ZD> void judge(Case& c, Known const& k, ZD& zd, std::string const& what, bool strict, double final_tol, unsigned ambient) {
	constexpr bool cauchy = std::is_same<typename ZD::EndgameT, typename EndgameSelector<typename ZD::TrackerT>::Cauchy>::value;
	constexpr bool adaptive = std::is_same<typename ZD::TrackerT, AMPTracker>::value;
	using C = typename ZD::BaseComplexType;
	auto const& sol = zd.FinalSolutions();
	auto const& md = zd.FinalSolutionMetadata();
	c.check(sol.size() == k.paths && md.size() == k.paths, "path-count", what + "there are " + std::to_string(sol.size()) + " results for " + std::to_string(k.paths) + " paths");
	if (sol.size() != k.paths || md.size() != k.paths) return;
	std::vector<int> hit(k.roots.size(), 0), where(sol.size(), -1);
	int unfinished = 0;
	for (size_t i = 0; i < sol.size(); ++i) {
		c.eval();
		if (md[i].path_index != i) c.violation("path-index", what + "result " + std::to_string(i) + " is marked as path " + std::to_string(md[i].path_index));
		c.obs("paths");
		if (md[i].pre_endgame_success != SuccessCode::Success) {
			c.obs("verdict before the endgame " + code_name(md[i].pre_endgame_success));
			c.check(md[i].endgame_success == SuccessCode::NeverStarted, "verdict", what + "path " + std::to_string(i) + " failed before the endgame, and has the verdict " + code_name(md[i].endgame_success));
			++unfinished; continue;
		}
		c.check(md[i].endgame_success != SuccessCode::NeverStarted, "verdict", what + "path " + std::to_string(i) + " has no verdict");
		if (md[i].endgame_success != SuccessCode::Success) { ++unfinished; c.obs("verdict of the endgame " + code_name(md[i].endgame_success)); continue; }
		bertini::DefaultPrecision(std::is_same<C, dbl>::value ? 16 : Precision(sol[i]));
		auto x = dehom<C>(zd.TargetSystem(), sol[i]);
		HR m(0);
		bool fin = true;
		for (auto& z : x) { if (!vf::finite(z)) { fin = false; continue; } if (habs(z) > m) m = habs(z); }
		int best = -1; HR bd(1e30);
		if (fin) for (size_t j = 0; j < k.roots.size(); ++j) { HR d = hdist(x, k.roots[j].x); if (d < bd) { bd = d; best = j; } }
		HR lim = vf::hr(1e-6);
		if (best >= 0 && bd < lim) {
			bool one = k.roots[best].mult == 1;
			if (one) c.check(bd < HR(final_tol) * 1000 + (std::is_same<C, dbl>::value ? vf::hr(1e-11) : vf::hr(0)), "accuracy", what + "path " + std::to_string(i) + " is " + show(bd) + " away from its simple root, final tolerance " + std::to_string(-std::log10(final_tol)) + " digits");
			c.check(md[i].accuracy_estimate <= final_tol, "metadata", what + "success with an accuracy estimate of " + std::to_string(md[i].accuracy_estimate));
			c.check(md[i].function_residual >= 0 && md[i].function_residual < 1e-5, "metadata", what + "a solution has the residual " + std::to_string(md[i].function_residual));
			c.check(md[i].cycle_num >= 1 && (!cauchy || !one || md[i].cycle_num == 1) && (!cauchy || md[i].cycle_num <= unsigned(k.roots[best].mult)), "metadata", what + "cycle number " + std::to_string(md[i].cycle_num) + " at a root of multiplicity " + std::to_string(k.roots[best].mult));
			c.check(habs(vf::hc(md[i].final_time_used)) <= 0.1, "metadata", what + "the final time is " + show(vf::hc(md[i].final_time_used)));
			if (adaptive) {
				c.check(md[i].max_precision_used >= Precision(sol[i]), "metadata", what + "a solution has more digits than the largest precision used, " + std::to_string(md[i].max_precision_used));
				c.check(md[i].precision_changed || md[i].max_precision_used <= ambient, "metadata", what + "precision " + (md[i].precision_changed ? "increased" : "never increased") + ", and the largest is " + std::to_string(md[i].max_precision_used) + " of " + std::to_string(ambient) + " at first");
				if (md[i].precision_changed) c.obs("paths with an increase of precision");
			}
			++hit[best]; where[i] = best; c.obs("paths to roots"); c.obs("multiplicity " + std::to_string(k.roots[best].mult)); }
		else if (!fin || m > vf::hr(1e3)) { c.obs("paths to infinity"); continue; }
		else { c.violation("wrong-root", what + "path " + std::to_string(i) + " ends in success at " + show(x[0], 8) + "..., " + show(bd) + " away from the nearest root"); continue; }
	}
	// each root is reached by as many paths as its multiplicity
	for (size_t j = 0; j < k.roots.size(); ++j) {
		c.eval();
		if (hit[j] > k.roots[j].mult) c.violation("too-many-paths", what + "a root of multiplicity " + std::to_string(k.roots[j].mult) + " is reached by " + std::to_string(hit[j]) + " paths");
		else if (hit[j] < k.roots[j].mult && strict) c.violation("lost-root", what + "a root of multiplicity " + std::to_string(k.roots[j].mult) + " is reached by " + std::to_string(hit[j]) + " paths; " + std::to_string(unfinished) + " paths without success");
	}
	// the multiplicity of a result is the number of results within the tolerance for the same point
	HR same(zd.template Get<typename ZD::PostProcessing>().same_point_tolerance);
	std::vector<std::vector<HC>> raw;
	for (size_t i = 0; i < sol.size(); ++i) raw.push_back(md[i].endgame_success == SuccessCode::Success ? from_vec(sol[i]) : std::vector<HC>());
	size_t simple = 0;
	for (size_t i = 0; i < sol.size(); ++i) if (where[i] >= 0) {
		int m = 0; bool close = false;
		for (size_t l = 0; l < sol.size(); ++l) {
			if (raw[l].size() != raw[i].size()) continue;
			HR d2(0);
			for (size_t q = 0; q < raw[i].size(); ++q) { HR d = habs(raw[i][q] - raw[l][q]); d2 += d * d; }
			HR d = sqrt(d2);
			if (d > same * vf::hr(0.99) && d < same * vf::hr(1.01)) close = true;
			m += d < same;
		}
		simple += md[i].multiplicity == 1;
		if (close) { c.obs("results too close to the tolerance to call"); continue; }
		c.check(md[i].multiplicity == m, "multiplicity", what + "path " + std::to_string(i) + " shares its end point with " + std::to_string(m - 1) + " others, and is given the multiplicity " + std::to_string(md[i].multiplicity));
		c.obs(m == hit[where[i]] ? "results with the multiplicity of the root" : "results not all within the tolerance");
	}
	// the extracted simple solutions
	auto ns = alg::output::NonsingularSolutions::Extract(zd);
	size_t got = 0;
	for (auto& v : ns) { auto x = from_vec(v); bool fin = true; for (auto& z : x) if (!vf::finite(z) || habs(z) > 1e3) fin = false; if (fin) { ++got; bool ok = false; for (size_t j = 0; j < k.roots.size(); ++j) if (hdist(x, k.roots[j].x) < vf::hr(1e-6)) ok = true; c.check(ok, "extract", what + "an extracted simple solution is no simple root"); } }
	c.check(got == simple, "extract", what + std::to_string(got) + " simple solutions extracted of " + std::to_string(simple));
	auto as = alg::output::AllSolutions::Extract(zd);
	size_t ended = 0;
	for (auto& m : md) ended += m.endgame_success != SuccessCode::NeverStarted;
	c.check(as.size() == ended, "extract", what + std::to_string(as.size()) + " end points extracted of " + std::to_string(ended));
	std::ostringstream o;
	alg::output::Classic<ZD>::All(o, zd);
	c.check(o.str().size() > 10, "output", "no output");
}

} // namespace
