// Start systems: total degree, m-homogeneous, user; products of linears.
#include "polygen.hpp"
#include "bertini2/system/start_systems.hpp"
using namespace vf;
using bertini::System;
using bertini::EvalMethod;
using bertini::DerivMethod;
using bertini::VariableGroup;
using bertini::start_system::TotalDegree;
using bertini::start_system::MHomogeneous;
using bertini::start_system::User;

namespace {
const std::vector<unsigned> kPrec{16, 20, 30, 50, 77, 100};

HR norm(std::vector<HC> const& v) { HR m(0); for (auto& z : v) m = std::max(m, habs(z)); return m; }
template <typename T> std::vector<HC> hv(Vec<T> const& v) { std::vector<HC> r; for (long i = 0; i < v.size(); ++i) r.push_back(hc(v(i))); return r; }

// is the point a zero of the system: the residual, in units of what evaluation at the point can lose
template <typename T> void judge_zero(Case& c, System const& s, Vec<T> const& x, unsigned prec, std::string const& key, std::string const& what, std::vector<int> const& degrees, T const* time = nullptr, HR scale = HR(1)) {
	Vec<T> f = time ? s.Eval(x, *time) : s.Eval(x);
	HR m = std::max(HR(1), norm(hv(x)));
	HR eps = eps_of(std::is_same<T, dbl>::value ? 0 : prec);
	for (long i = 0; i < f.size(); ++i) {
		HR sc = pow(m, i < static_cast<long>(degrees.size()) ? degrees[i] + 1 : 2) * scale;
		if (sc * eps > hr(1e-6)) { c.obs("inconclusive: badly scaled"); continue; }
		c.check(habs(hc(f(i))) <= sc * eps * hr(1e6), key, what + ": equation " + std::to_string(i) + " has residual " + show(hc(f(i)), 8) + " where rounding allows " + show(HR(sc * eps * hr(1e6))));
	}
}

template <typename T> void judge_points(Case& c, bertini::start_system::StartSystem const& s, std::vector<int> const& degrees, unsigned prec, unsigned long long num, std::string const& ctx, double cpx = 1) {
	std::vector<std::vector<HC>> seen;
	std::vector<unsigned long long> which;
	Rng& r = c.rng;
	if (num <= 40) for (unsigned long long i = 0; i < num; ++i) which.push_back(i);
	else { which = {0, 1, num - 1, num - 2, num / 2}; for (int i = 0; i < 25; ++i) which.push_back(r.in(0, num - 1)); std::sort(which.begin(), which.end()); which.erase(std::unique(which.begin(), which.end()), which.end()); }
	HR eps = eps_of(std::is_same<T, dbl>::value ? 0 : prec);
	for (auto i : which) {
		Vec<T> x = s.template StartPoint<T>(i);
		if (!c.check(x.size() == static_cast<long>(s.NumVariables()), "start-point-size", "start point " + std::to_string(i) + " has " + std::to_string(x.size()) + " coordinates, the system has " + std::to_string(s.NumVariables()) + " variables " + ctx)) return;
		bool fin = true;
		for (auto& z : hv(x)) fin = fin && finite(z);
		if (!c.check(fin, "start-point-finite", "start point " + std::to_string(i) + " is not finite " + ctx)) return;
		if (!std::is_same<T, dbl>::value)
			for (long k = 0; k < x.size(); ++k) c.check(bertini::Precision(x(k)) == prec, "start-point-precision", "coordinate " + std::to_string(k) + " has precision " + std::to_string(bertini::Precision(x(k))) + " not " + std::to_string(prec) + " " + ctx);
		judge_zero<T>(c, s, x, prec, "start-point-not-a-zero", "start point " + std::to_string(i) + " " + ctx, degrees, nullptr, hr(cpx));
		auto d = hv(Vec<T>(s.DehomogenizePoint(x)));
		seen.push_back(d);
		// asking again gives the same point
		if (r.chance(0.2)) { auto y = hv(s.template StartPoint<T>(i)); auto xx = hv(x); for (size_t k = 0; k < y.size(); ++k) c.check(y[k] == xx[k], "start-point-repeat", "asked again, start point " + std::to_string(i) + " differs " + ctx); }
		c.obs("start points judged");
	}
	for (size_t a = 0; a < seen.size(); ++a) for (size_t b = a + 1; b < seen.size(); ++b) {
		HR df(0);
		for (size_t k = 0; k < seen[a].size(); ++k) df = std::max(df, habs(seen[a][k] - seen[b][k]));
		c.check(df > sqrt(eps) * std::max(HR(1), norm(seen[a])), "start-points-coincide", "start points " + std::to_string(which[a]) + " and " + std::to_string(which[b]) + " coincide " + ctx);
	}
	bool threw = false;
	try { (void)s.template StartPoint<T>(num); } catch (std::exception&) { threw = true; }
	c.check(threw, "start-point-range", "asking for start point " + std::to_string(num) + " of " + std::to_string(num) + " is not refused " + ctx);
}

// ------------------------------------------------------------------ S08 total degree, user
void td_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	SysModel m;
	int n = r.in(1, 4);
	for (int i = 0; i < n; ++i) m.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	m.t = bn::Variable::Make("t");
	m.groups.push_back({});
	for (int i = 0; i < n; ++i) m.groups[0].push_back(i);
	for (int i = n - 1; i > 0; --i) std::swap(m.groups[0][i], m.groups[0][r.in(0, i)]);
	m.kind = {0};
	std::vector<int> degs;
	unsigned long long bez = 1;
	for (int i = 0; i < n; ++i) {
		int d = r.in(1, 5);
		degs.push_back(d);
		bez *= d;
		m.fun.push_back(poly_of(r, m.groups, m.kind, {d}));
		m.names.push_back("f" + std::to_string(i));
	}
	m.tn.vars = m.vars; m.tn.t = m.t; m.tn.r = &r;
	bool hom = r.chance(0.6);
	c.desc(m.str() + (hom ? " homogenized and patched" : "") + " digits " + std::to_string(prec));
	System s;
	add_groups(m, s);
	add_functions(m, s, &r);
	if (r.chance(0.5)) s.SetEvalMethod(EvalMethod::FunctionTree);
	if (r.chance(0.5)) s.SetDerivMethod(DerivMethod::JacobianNode);
	if (hom) { s.Homogenize(); s.AutoPatch(); }
	if (r.chance(0.5)) s.VariableOrdering();
	go(s, prec);
	TotalDegree td(s);
	std::string ctx = hom ? "patched" : "affine";
	c.check(td.NumStartPoints() == bez, "start-point-number", "number of start points " + std::to_string(td.NumStartPoints()) + " expected " + std::to_string(bez));
	c.check(td.NumVariables() == s.NumVariables() && td.NumTotalFunctions() == s.NumTotalFunctions() && td.NumHomVariables() == s.NumHomVariables() && td.IsPatched() == s.IsPatched(), "start-structure", "structure of the start system");
	c.check(!hom || td.GetPatch() == s.GetPatch(), "start-structure", "the start system has another patch than the target");
	c.check(td.IsHomogeneous() == s.IsHomogeneous(), "start-structure", "homogeneous like the target");
	{ auto a = td.VariableOrdering(), b = s.VariableOrdering(); c.check(a == b, "start-structure", "the start system orders its variables differently"); }
	auto dd = td.Degrees();
	for (int i = 0; i < n; ++i) c.check(dd.size() == static_cast<size_t>(n) && dd[i] == degs[i], "start-degrees", "degree of start function " + std::to_string(i));
	auto look = [&](TotalDegree const& t, std::string const& cx) {
		unsigned p = r.pick(kPrec);
		go(t, p);
		judge_points<dbl>(c, t, degs, 0, bez, ctx + " double " + cx);
		judge_points<mpfr_complex>(c, t, degs, p, bez, ctx + " digits " + std::to_string(p) + " " + cx);
	};
	look(td, "");
	if (r.chance(0.3)) { TotalDegree t2 = reload(td, r.chance(0.5)); look(t2, "reloaded"); c.obs("start systems reloaded"); c.check(t2.NumStartPoints() == bez, "start-point-number", "after reloading"); }
	// random: another start system of the same target has other start points
	if (r.chance(0.3)) { TotalDegree t2(s); go(t2, prec); go(td, prec); c.check(hv(t2.StartPoint<dbl>(0)) != hv(td.StartPoint<dbl>(0)), "start-not-random", "two start systems of one target have the same start points"); }
	// the homotopy
	{
		unsigned p = r.pick(kPrec);
		bertini::DefaultPrecision(p);
		auto gamma = bn::Rational::Make(bn::Rational::Rand());
		System h;
		bool viaops = r.chance(0.6);
		if (viaops) h = (1 - m.t) * s + gamma * m.t * td;
		else { TotalDegree sc = td; sc *= gamma * m.t; System tg = s; tg *= (1 - m.t); h = tg + sc; c.obs("scaled start system in place"); }
		h.AddPathVariable(m.t);
		go(h, p); s.precision(p); td.precision(p); gamma->precision(p);
		for (int k = 0; k < 4; ++k) {
			auto i = static_cast<unsigned long long>(r.in(0, bez - 1));
			auto x = td.StartPoint<mpfr_complex>(i);
			auto one = to_mp(HC(1), p), zero = to_mp(HC(0), p);
			judge_zero<mpfr_complex>(c, h, x, p, "homotopy-start", "the homotopy at t=1 at a start point", degs, &one, hr(1000));
			auto f0 = h.Eval(x, zero), ft = s.Eval(x);
			HR sc = pow(std::max(HR(1), norm(hv(x))), 6) * 1000;
			for (long j = 0; j < f0.size(); ++j) c.check(habs(hc(f0(j)) - hc(ft(j))) <= eps_of(p) * 1000 * sc, "homotopy-target", "the homotopy at t=0 is not the target");
			// in between
			auto y = to_vec<mpfr_complex>(rand_point(r, s.NumVariables(), 0).x, p);
			HC tt = hc(r.in(1, 15) / 16.0, r.in(-8, 8) / 16.0);
			auto fm = h.Eval(y, to_mp(tt, p)), fs = s.Eval(y), fg = td.Eval(y);
			HC gm = hc(gamma->Eval<mpfr_complex>());
			for (int j = 0; j < n; ++j) {
				HC a = (HC(1) - tt) * hc(fs(j)), b = gm * tt * hc(fg(j));
				HR sc2 = pow(std::max(HR(2), norm(hv(y)) * 2), 6) * 1000 + habs(a) + habs(b);
				c.check(habs(hc(fm(j)) - a - b) <= eps_of(p) * 1000 * sc2, "homotopy-between", "the homotopy between its ends is not the combination of its ends: " + show(hc(fm(j))) + " expected " + show(a + b));
			}
			c.obs("homotopies judged");
		}
		go(td, p);
		judge_points<mpfr_complex>(c, td, degs, p, bez, ctx + " after forming a homotopy");
	}
	// user start systems
	{
		bertini::DefaultPrecision(prec);
		int np = r.in(1, 6);
		std::vector<std::vector<HC>> pts;
		for (int i = 0; i < np; ++i) pts.push_back(rand_point(r, n).x);
		auto judge = [&](User const& u, std::string const& how) {
			c.check(u.NumStartPoints() == static_cast<unsigned long long>(np), "user-start", "number of user start points");
			for (int i = 0; i < np; ++i) {
				auto a = hv(u.StartPoint<dbl>(i)), b = hv(u.StartPoint<mpfr_complex>(i));
				if (!c.check(a.size() == pts[i].size() && b.size() == pts[i].size(), "user-start", "size")) continue;
				for (size_t k = 0; k < a.size(); ++k) c.check(habs(a[k] - pts[i][k]) <= eps_of(0) * 4 * (1 + habs(pts[i][k])) && habs(b[k] - pts[i][k]) <= eps_of(15) * 4 * (1 + habs(pts[i][k])), "user-start", "user start point " + std::to_string(i) + " " + how);
			}
			c.obs("user start systems judged");
		};
		bertini::SampCont<dbl> d; bertini::SampCont<mpfr_complex> q;
		for (auto& p : pts) { d.push_back(to_vec<dbl>(p, 0)); q.push_back(to_vec<mpfr_complex>(p, prec)); }
		judge(User(s, d), "double"); judge(User(s, q), "multiprecision");
	}
	c.sig(m.str() + ctx);
}
Register rS08("S08", 3000, 12000, td_case, 60);

// ------------------------------------------------------------------ E07 products of linears
// a linear product as a model expression and as a node
X linear_product(Rng& r, SysModel& m, std::vector<long> const& vars, bool homvars, unsigned prec) {
	int nf = r.in(1, 3), nv = vars.size();
	VariableGroup vg;
	for (long v : vars) vg.push_back(m.vars[v]);
	std::vector<X> fac;
	std::shared_ptr<bn::LinearProduct> node;
	if (r.chance(0.6)) {
		vf::Mat<mpfr_complex> C(nf, nv + 1);
		for (int i = 0; i < nf; ++i) {
			std::vector<X> terms;
			for (int j = 0; j <= nv; ++j) {
				long a = r.in(-64, 64), b = r.in(-64, 64);
				C(i, j) = to_mp(HC(HR(a) / 16, HR(b) / 16), prec);
				if (j == nv && homvars) break;
				auto k = mk(Op::Flt); k->n = a; k->n2 = 16; k->m = b; k->m2 = 16;
				terms.push_back(j < nv ? xmul({k, xvar(vars[j])}) : k);
			}
			fac.push_back(xsum(terms));
		}
		node = bn::LinearProduct::Make(vg, C, homvars);
	} else {
		node = bn::LinearProduct::Make(vg, nf, homvars);
		vf::Mat<bertini::mpq_rational> A, B;
		node->GetRatCoeffs(A, B);
		for (int i = 0; i < nf; ++i) {
			std::vector<X> terms;
			for (int j = 0; j <= nv; ++j) {
				if (j == nv && homvars) break;
				// the model keeps its constants as pairs of long; random rationals are too long for that
				auto k = mk(Op::Rat);
				k->big = std::make_shared<HC>(HR(hr(A(i, j))), HR(hr(B(i, j))));
				terms.push_back(j < nv ? xmul({k, xvar(vars[j])}) : k);
			}
			fac.push_back(xsum(terms));
		}
	}
	X x = xmul(fac);
	m.tn.memo[x] = node;
	return x;
}

void lin_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = 30;
	bertini::DefaultPrecision(prec);
	SysModel m;
	int n = r.in(1, 4);
	for (int i = 0; i < n; ++i) m.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	m.t = bn::Variable::Make("t");
	m.path = r.chance(0.3);
	for (long i = 0; i < n;) {
		long sz = std::min<long>(r.in(1, 3), n - i);
		bool h = sz > 1 && r.chance(0.3);
		m.groups.push_back({});
		for (long k = 0; k < sz; ++k) m.groups.back().push_back(i + k);
		m.kind.push_back(h ? 1 : 0);
		i += sz;
	}
	m.tn.vars = m.vars; m.tn.t = m.t; m.tn.r = &r;
	int nf = r.in(1, 3);
	for (int i = 0; i < nf; ++i) {
		std::vector<X> f;
		int k = r.in(1, 2);
		bool hh = false;
		for (int kind : m.kind) if (kind == 1) hh = true;
		for (int j = 0; j < k; ++j) { size_t g = r.in(0, m.groups.size() - 1); f.push_back(linear_product(r, m, m.groups[g], m.kind[g] == 1, prec)); }
		X x = f.size() == 1 ? f[0] : xmul(f);
		if (!hh && r.chance(0.4)) x = xsum({x, xvar(m.groups[0][0])});
		if (m.path && r.chance(0.5)) x = xmul({x, xsum({xvar(-1), xint(2)})});
		m.fun.push_back(x);
		m.names.push_back("f" + std::to_string(i));
	}
	c.desc(m.str());
	System s;
	add_groups(m, s);
	add_functions(m, s, &r);
	bool slp = r.chance(0.4), expl = slp || r.chance(0.5);
	s.SetEvalMethod(slp ? EvalMethod::SLP : EvalMethod::FunctionTree);
	s.SetDerivMethod(expl ? DerivMethod::Derivatives : DerivMethod::JacobianNode);
	SysModel h = m;
	bool homogenize = r.chance(0.5);
	if (homogenize) {
		// evaluated or not, then homogenized: the model is h^d f(x/h)
		if (r.chance(0.5)) { go(s, prec); check_system<dbl>(c, s, m, rand_point(r, n, 0), 0, "linear", "before homogenization", 7); }
		s.Homogenize();
		h.groups.clear();
		std::map<long, long> hv_of;
		for (size_t g = 0; g < m.groups.size(); ++g) {
			std::vector<long> gg = m.groups[g];
			if (m.kind[g] == 0) { long hi = h.vars.size(); h.vars.push_back(nullptr); gg.insert(gg.begin(), hi); for (long v : m.groups[g]) hv_of[v] = hi; }
			h.groups.push_back(gg);
		}
		std::function<X(X)> sub = [&](X x) -> X {
			if (x->op == Op::Var) { auto it = hv_of.find(x->n); return it == hv_of.end() ? x : xmul({x, xvar(it->second)}, {true, false}); }
			if (x->ch.empty()) return x;
			auto y = std::make_shared<Ex>(*x);
			for (auto& k : y->ch) k = sub(k);
			return y;
		};
		for (auto& f : h.fun) {
			std::vector<X> fac;
			for (size_t g = 0; g < m.groups.size(); ++g) if (m.kind[g] == 0) { int d = pdeg(f, std::set<long>(m.groups[g].begin(), m.groups[g].end())); if (d) fac.push_back(xpowi(xvar(h.groups[g][0]), d)); }
			fac.push_back(sub(f));
			f = xmul(fac);
		}
		c.check(s.IsHomogeneous(), "linear-homogeneous", "the homogenized system says it is not homogeneous");
		c.obs("homogenized");
	}
	for (size_t i = 0; i < m.fun.size(); ++i) for (size_t g = 0; g < m.groups.size(); ++g) {
		VariableGroup vg;
		for (long v : m.groups[g]) vg.push_back(m.vars[v]);
		int want = pdeg(m.fun[i], std::set<long>(m.groups[g].begin(), m.groups[g].end()));
		c.check(s.Function(i)->Degree(vg) == want, "linear-degree", "degree of function " + std::to_string(i) + " in group " + std::to_string(g) + ": " + std::to_string(s.Function(i)->Degree(vg)) + " is " + std::to_string(want));
	}
	auto pt = [&] { Point p = rand_point(r, h.vars.size(), 0); for (size_t g = 0; g < h.groups.size(); ++g) if (homogenize && h.kind[g] == 0) p.x[h.groups[g][0]] = hc(0.75 + r.in(0, 3) * 0.25, r.in(-3, 3) * 0.25); return p; };
	std::string seq;
	System* q = &s;
	std::unique_ptr<System> copy;
	for (int k = 0; k < 4; ++k) {
		unsigned p = r.pick(kPrec);
		if (p < 30 && !slp && false) p = 30;
		seq += std::to_string(p) + " ";
		go(*q, p);
		Point x = pt();
		std::string ctx = std::string(slp ? "slp" : "tree") + (expl ? " derivatives " : " jacobian nodes ") + seq;
		check_system<mpfr_complex>(c, *q, h, x, p, "linear", ctx, 7, r.in(0, 2), &r);
		check_system<dbl>(c, *q, h, x, 0, "linear", ctx, 7, r.in(0, 2), &r);
		if (!copy && r.chance(0.25)) { copy.reset(new System(Clone(*q))); q = copy.get(); seq += "clone "; c.obs("cloned"); }
	}
	c.obs(slp ? "straight line programs" : "function trees");
	c.sig(m.str() + seq);
}
Register rE07("E07", 1200, 25000, lin_case, 60);

// ------------------------------------------------------------------ S09 m-homogeneous
void mhom_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	SysModel m;
	int ng = r.in(1, 3);
	std::vector<int> dim;
	int at = 0, nfun = 0;
	bool patched = r.chance(0.55);
	for (int g = 0; g < ng; ++g) {
		int d = r.in(1, 2);
		bool h = patched && r.chance(0.3);
		m.groups.push_back({});
		for (int k = 0; k < d + (h ? 1 : 0); ++k) m.groups.back().push_back(at++);
		m.kind.push_back(h ? 1 : 0);
		dim.push_back(d);
		nfun += d;
	}
	for (int i = 0; i < at; ++i) m.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	m.t = bn::Variable::Make("t");
	std::vector<std::vector<int>> D;
	std::vector<int> tot;
	for (int i = 0; i < nfun; ++i) {
		std::vector<int> d(ng);
		int sum = 0;
		for (auto& k : d) { k = r.in(0, 2); sum += k; }
		if (!sum) { d[r.in(0, ng - 1)] = 1; sum = 1; }
		D.push_back(d);
		tot.push_back(sum);
	}
	for (int g = 0; g < ng; ++g) { bool z = true; for (auto& d : D) if (d[g]) z = false; if (z) { D[0][g] = 1; tot[0] += 1; } }
	for (int i = 0; i < nfun; ++i) { m.fun.push_back(poly_of(r, m.groups, m.kind, D[i])); m.names.push_back("f" + std::to_string(i)); }
	m.tn.vars = m.vars; m.tn.t = m.t; m.tn.r = &r;
	// the multihomogeneous Bezout number: the coefficient of prod a_g^dim_g in prod_i sum_g D_ig a_g
	std::map<std::vector<int>, unsigned long long> poly{{std::vector<int>(ng, 0), 1}};
	for (auto& d : D) {
		std::map<std::vector<int>, unsigned long long> nx;
		for (auto& t : poly) for (int g = 0; g < ng; ++g) if (d[g] && t.first[g] < dim[g]) { auto e = t.first; ++e[g]; nx[e] += t.second * d[g]; }
		poly = nx;
	}
	unsigned long long bez = poly.count(dim) ? poly[dim] : 0;
	c.desc(m.str() + (patched ? " homogenized and patched" : "") + " digits " + std::to_string(prec));
	System s;
	add_groups(m, s);
	add_functions(m, s, &r);
	if (patched) { s.Homogenize(); s.AutoPatch(); }
	if (r.chance(0.5)) s.VariableOrdering();
	go(s, prec);
	MHomogeneous mh(s);
	std::string ctx = patched ? "patched" : "affine";
	c.check(mh.NumStartPoints() == bez, "start-point-number", "number of start points " + std::to_string(mh.NumStartPoints()) + ", the Bezout number is " + std::to_string(bez));
	if (mh.NumStartPoints() != bez) return;
	c.check(mh.NumVariables() == s.NumVariables() && mh.NumTotalFunctions() == s.NumTotalFunctions() && mh.IsPatched() == s.IsPatched(), "start-structure", "structure of the start system");
	c.check(!patched || mh.GetPatch() == s.GetPatch(), "start-structure", "another patch");
	{ auto a = mh.VariableOrdering(), b = s.VariableOrdering(); c.check(a == b, "start-structure", "the start system orders its variables differently"); }
	for (size_t g = 0; g < m.groups.size(); ++g) {
		VariableGroup vg;
		for (long v : m.groups[g]) vg.push_back(m.vars[v]);
		auto dg = mh.Degrees(vg);
		for (int i = 0; i < nfun; ++i) c.check(dg[i] == D[i][g], "start-degrees", "degree of start function " + std::to_string(i) + " in group " + std::to_string(g));
	}
	if (bez == 0) { c.obs("no start points"); return; }
	for (int k = 0; k < 2; ++k) {
		unsigned p = r.pick(kPrec);
		go(mh, p);
		judge_points<dbl>(c, mh, tot, 0, bez, ctx + " double", 1e3);
		judge_points<mpfr_complex>(c, mh, tot, p, bez, ctx + " digits " + std::to_string(p), 1e3);
	}
	if (r.chance(0.3)) {
		unsigned p = r.pick(kPrec);
		MHomogeneous t2 = reload(mh, r.chance(0.5));
		go(t2, p);
		c.check(t2.NumStartPoints() == bez, "start-point-number", "after reloading");
		judge_points<dbl>(c, t2, tot, 0, bez, ctx + " reloaded double", 1e3);
		judge_points<mpfr_complex>(c, t2, tot, p, bez, ctx + " reloaded digits " + std::to_string(p), 1e3);
		c.obs("start systems reloaded");
	}
	{
		unsigned p = r.pick(kPrec);
		bertini::DefaultPrecision(p);
		auto gamma = bn::Rational::Make(bn::Rational::Rand());
		System h;
		if (r.chance(0.6)) h = (1 - m.t) * s + gamma * m.t * mh;
		else { MHomogeneous sc = mh; sc *= gamma * m.t; System tg = s; tg *= (1 - m.t); h = tg + sc; c.obs("scaled start system in place"); }
		h.AddPathVariable(m.t);
		go(h, p); s.precision(p); mh.precision(p);
		for (int k = 0; k < 3; ++k) {
			auto x = mh.StartPoint<mpfr_complex>(r.in(0, bez - 1));
			auto one = to_mp(HC(1), p);
			judge_zero<mpfr_complex>(c, h, x, p, "homotopy-start", "the homotopy at t=1 at a start point", tot, &one, hr(1e5));
			c.obs("homotopies judged");
		}
	}
	c.obs(patched ? "patched" : "affine");
	c.sig(m.str() + ctx);
}
Register rS09("S09", 3000, 12000, mhom_case, 60);

void before() { bertini::DefaultPrecision(16); }
} // namespace

int main(int argc, char** argv) { before_case() = before; return run_main(argc, argv); }
