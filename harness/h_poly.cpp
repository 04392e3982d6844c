// Polynomial structure: degrees, homogenization, patches, slices, serialization.
#include "sysmodel.hpp"
#include "bertini2/system/slice.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
using namespace vf;
using bertini::System;
using bertini::EvalMethod;
using bertini::DerivMethod;
using bertini::VariableGroup;

namespace {
const std::vector<unsigned> kPrec{16, 20, 30, 50, 77, 100};

bool has_var(X const& x) {
	if (x->op == Op::Var) return true;
	for (auto& c : x->ch) if (has_var(c)) return true;
	return false;
}
// a constant expression which is an integer
bool const_int(X const& x, long& n, bool* clear = nullptr) {
	if (clear) *clear = true;
	if (x->op == Op::Int) { n = x->n; return true; }
	try {
		Point p;
		V v = Oracle(p)(x).v;
		HR k = bmp::round(HR(v.v.real()));
		HR off = habs(v.v - HC(k));
		n = static_cast<long>(k);
		bool number = x->op == Op::Rat || x->op == Op::Flt;
		if (clear) *clear = habs(v.v) < 1000 && (off > hr(1e-9) || (number && off == 0));
		return off < hr(1e-30);
	} catch (Inconclusive&) { if (clear) *clear = false; return false; }
}
// the degree by the rules of polynomial arithmetic, cancellation not considered; negative: not polynomial
int deg(X const& x, std::set<long> const& vs) {
	switch (x->op) {
		case Op::Int: case Op::Rat: case Op::Flt: case Op::Pi: case Op::E: case Op::I: return 0;
		case Op::Var: return vs.count(x->n) ? 1 : 0;
		case Op::Fun: case Op::Neg: return deg(x->ch[0], vs);
		case Op::Sum: { int d = 0; for (auto& c : x->ch) { int k = deg(c, vs); if (k < 0) return -1; d = std::max(d, k); } return d; }
		case Op::Mul: { int d = 0; for (size_t i = 0; i < x->ch.size(); ++i) { int k = deg(x->ch[i], vs); if (k < 0 || (k > 0 && !x->flag[i])) return -1; d += k; } return d; }
		case Op::PowI: { int k = deg(x->ch[0], vs); if (k < 0) return -1; return k * static_cast<int>(x->n) < 0 ? -1 : k * static_cast<int>(x->n); }
		case Op::Pow: {
			int k = deg(x->ch[0], vs), e = deg(x->ch[1], vs);
			if (k < 0 || e != 0) return -1;
			if (k == 0) return 0;
			if (has_var(x->ch[1])) return -1;   // made of other variables
			long n;
			if (!const_int(x->ch[1], n)) return -1;
			return n < 0 ? -1 : k * static_cast<int>(n);
		}
		default: return deg(x->ch[0], vs) == 0 ? 0 : -1;
	}
}
bool plain(X const& x) {   // built by polynomial operations only
	if (static_cast<int>(x->op) > static_cast<int>(Op::Pow) && x->op != Op::Fun) return false;
	if (x->op == Op::Pow && x->ch[1]->op != Op::Int) return false;
	if ((x->op == Op::PowI && x->n < 0) || (x->op == Op::Pow && x->ch[1]->n < 0)) return false;
	if (x->op == Op::Mul) for (bool f : x->flag) if (!f) return false;
	for (auto& c : x->ch) if (!plain(c)) return false;
	return true;
}
bool unsaid(X const& x) {
	long e = 1;
	bool clear = true;
	// made of variables, but constant (as in x^(y^0)): either answer can be defended
	if (x->op == Op::Pow && has_var(x->ch[1]) && deg(x->ch[1], {-1, 0, 1, 2, 3, 4, 5, 6}) == 0) return true;
	if (x->op == Op::Pow && !has_var(x->ch[1]) && (!const_int(x->ch[1], e, &clear) || !clear)) { if (!clear) return true; e = 1; }
	// b^0 of something not polynomial: either answer can be defended
	if (((x->op == Op::PowI && x->n == 0) || (x->op == Op::Pow && e == 0)) && !plain(x->ch[0])) return true;
	for (auto& c : x->ch) if (unsaid(c)) return true;
	return false;
}

// E05: degrees, polynomiality, homogeneity
void degree_case(Case& c) {
	Rng& r = c.rng;
	bertini::DefaultPrecision(r.pick(kPrec));
	GenOpt g;
	g.nvars = r.in(1, 4);
	g.path = r.chance(0.3);
	g.poly = r.chance(0.75);
	g.allow_div = true;
	g.depth = r.in(1, 4);
	g.max_pow = 3;
	std::vector<X> pool;
	g.pool = &pool;
	ToNode tn;
	for (int i = 0; i < g.nvars; ++i) tn.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	tn.t = bn::Variable::Make("t");
	tn.r = &r;
	X x = gen(r, g);
	if (r.chance(0.4)) { auto f = mk(Op::Fun, {x}); f->name = "F"; x = xsum({f, gen(r, g)}); }
	if (unsaid(x)) { g.poly = true; pool.clear(); x = gen(r, g); }
	c.desc(x->str());
	Nd n = tn(x);
	// what values the variables have is of no matter
	if (r.chance(0.7)) {
		for (auto& v : tn.vars) v->set_current_value<dbl>(dbl(r.in(-1, 3), 0));
		tn.t->set_current_value<dbl>(dbl(r.in(-1, 3), 0));
		n->Reset();
	}
	auto cmp = [&](int got, int want, std::string const& what) {
		bool ok = want < 0 ? got < 0 : got == want;
		c.check(ok, "degree", what + " of " + x->str() + ": reported " + std::to_string(got) + ", is " + std::to_string(want));
		c.obs(want < 0 ? "not polynomial" : want == 0 ? "degree zero" : "positive degree");
	};
	std::set<long> all;
	for (long v = -1; v < g.nvars; ++v) all.insert(v);
	for (long v = -1; v < g.nvars; ++v) {
		Var vv = v < 0 ? tn.t : tn.vars[v];
		int w = deg(x, {v});
		cmp(n->Degree(vv), w, "degree in variable " + std::to_string(v));
		c.check(n->IsPolynomial(vv) == (w >= 0), "polynomial", "polynomial in variable " + std::to_string(v) + ": " + x->str());
	}
	for (int k = 0; k < 3; ++k) {
		std::set<long> s;
		VariableGroup vg;
		for (long v = 0; v < g.nvars; ++v) if (r.chance(0.6)) { s.insert(v); vg.push_back(tn.vars[v]); }
		if (vg.empty()) continue;
		int w = deg(x, s);
		cmp(n->Degree(vg), w, "degree in a group");
		c.check(n->IsPolynomial(vg) == (w >= 0), "polynomial", "polynomial in a group: " + x->str());
		auto md = n->MultiDegree(vg);
		if (c.check(md.size() == vg.size(), "multidegree", "size of the multidegree"))
			{ size_t i = 0; for (long v : s) cmp(md[i++], deg(x, {v}), "multidegree entry"); }
		// soundness of IsHomogeneous: if it says so, scaling the group scales the value by the power of the degree
		if (w >= 0 && n->IsHomogeneous(vg)) {
			c.obs("reported homogeneous");
			Point p = rand_point(r, g.nvars, 0), q = p;
			HC l = hc(r.u(0.5, 1.5), r.u(-1, 1));
			for (long v : s) q.x[v] = p.x[v] * l;
			try {
				V a = Oracle(p)(x).v, b = Oracle(q)(x).v;
				HC lw = hpowi(l, w);
				HR tol = hr(1e-80) * (a.e * habs(lw) + b.e + 1);
				c.check(habs(b.v - lw * a.v) <= tol, "homogeneous", "said to be homogeneous of degree " + std::to_string(w) + ", but is not: " + x->str());
			} catch (Inconclusive&) { c.obs("inconclusive"); }
		}
	}
	// completeness of IsHomogeneous: forms
	{
		int d = r.in(1, 4), nt = r.in(1, 4);
		std::vector<X> terms;
		std::vector<bool> sg;
		for (int i = 0; i < nt; ++i) {
			std::vector<X> f{r.chance(0.5) ? xint(r.in(1, 9)) : xrat(r.in(1, 9), 7, r.in(-3, 3), 5)};
			int left = d;
			while (left > 0) { int e = r.in(1, left); X v = xvar(r.in(0, g.nvars - 1)); f.push_back(e == 1 ? v : r.chance(0.7) ? xpowi(v, e) : mk(Op::Pow, {v, xint(e)})); left -= e; }
			terms.push_back(xmul(f));
			sg.push_back(r.chance(0.6));
		}
		X form = xsum(terms, sg);
		if (r.chance(0.3)) form = mk(Op::Neg, {form});
		if (r.chance(0.3)) { form = xpowi(form, 2); d *= 2; }
		c.note(" form " + form->str());
		Nd fn = tn(form);
		VariableGroup vg(tn.vars.begin(), tn.vars.end());
		c.check(fn->IsHomogeneous(vg), "homogeneous", "a form is said not to be homogeneous: " + form->str());
		c.check(fn->Degree(vg) == d, "degree", "degree of the form " + form->str() + " reported " + std::to_string(fn->Degree(vg)));
		X bad = xsum({form, xint(1)});
		c.check(!tn(bad)->IsHomogeneous(vg), "homogeneous", "said to be homogeneous: " + bad->str());
		c.obs("forms judged");
	}
	if (weight(x) > 2) c.sig(x->str());
}
Register rE05("E05", 30000, 100000, degree_case, 30);

// ------------------------------------------------------------------ homogenization
// replace the variables of x by other expressions
using Memo = std::map<X, X>;   // keeps what it has seen alive
X subst(X const& x, std::map<long, X> const& m, Memo& memo) {
	auto it = memo.find(x);
	if (it != memo.end()) return it->second;
	X out;
	if (x->op == Op::Var) { auto f = m.find(x->n); out = f == m.end() ? x : f->second; }
	else if (x->ch.empty()) out = x;
	else {
		out = std::make_shared<Ex>(*x);
		for (auto& c : out->ch) c = subst(c, m, memo);
	}
	memo[x] = out;
	memo[out] = out;   // what was substituted once is left alone
	return out;
}

struct HomModel { SysModel m; std::vector<std::vector<int>> d; /* degree of function in affine group */ };

// the model of the homogenization: h^d f(x/h), group by group
SysModel homogenized(SysModel const& m, std::vector<std::vector<int>>* degrees = nullptr) {
	SysModel h = m;
	h.groups.clear();
	std::map<long, X> rep;
	std::vector<std::pair<long, std::set<long>>> hv;   // homogenizing variable and its group
	for (size_t i = 0; i < m.groups.size(); ++i) {
		if (m.kind[i] != 0) { h.groups.push_back(m.groups[i]); continue; }
		long hi = h.vars.size();
		h.vars.push_back(nullptr);
		std::vector<long> g{hi};
		g.insert(g.end(), m.groups[i].begin(), m.groups[i].end());
		h.groups.push_back(g);
		for (long v : m.groups[i]) rep[v] = xmul({xvar(v), xvar(hi)}, {true, false});
		hv.push_back({hi, std::set<long>(m.groups[i].begin(), m.groups[i].end())});
	}
	Memo memo;
	if (degrees) degrees->clear();
	for (auto& f : h.fun) {
		std::vector<X> fac;
		std::vector<int> ds;
		for (auto& v : hv) { int d = deg(f, v.second); ds.push_back(d); if (d) fac.push_back(xpowi(xvar(v.first), d)); }
		X g = subst(f, rep, memo);
		fac.push_back(g);
		f = xmul(fac);
		if (degrees) degrees->push_back(ds);
	}
	return h;
}

// a polynomial system, homogeneous in its homogeneous groups
SysModel gen_poly(Rng& r, bool ungrouped, bool allow_hom = true, int maxv = 4) {
	SysModel m;
	int n = r.in(1, maxv);
	for (int i = 0; i < n; ++i) m.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	m.t = bn::Variable::Make("t");
	m.path = r.chance(0.4);
	std::vector<long> idx(n), aff;
	for (int i = 0; i < n; ++i) idx[i] = i;
	for (int i = n - 1; i > 0; --i) std::swap(idx[i], idx[r.in(0, i)]);
	for (size_t at = 0; at < idx.size();) {
		size_t sz = std::min<size_t>(idx.size() - at, r.in(1, 3));
		int k = r.in(0, 5);
		k = k <= 3 || !(k == 4 ? allow_hom : ungrouped) ? 0 : k == 4 ? 1 : 2;
		if (k == 1 && sz < 2) k = 0;
		if (k == 2) sz = 1;
		m.groups.push_back(std::vector<long>(idx.begin() + at, idx.begin() + at + sz));
		m.kind.push_back(k);
		if (k != 1) aff.insert(aff.end(), idx.begin() + at, idx.begin() + at + sz);
		at += sz;
	}
	std::vector<X> pool;
	GenOpt g;
	g.path = m.path;
	g.poly = true;
	g.allow_div = true;
	g.depth = r.in(1, 4);
	g.max_pow = 3;
	g.pool = &pool;
	g.nvars = n;
	int nf = r.in(1, 3);
	std::map<long, X> ren;   // the generator uses x0..: rename to the affine variables
	for (int i = 0; i < n; ++i) ren[i] = aff.empty() ? xint(2) : xvar(aff[i % aff.size()]);
	Memo memo;
	for (int i = 0; i < nf; ++i) {
		X x = subst(gen(r, g), ren, memo);
		bool has_hom = false;
		for (size_t k = 0; k < m.groups.size(); ++k) if (m.kind[k] == 1) has_hom = true;
		if (has_hom) {
			std::vector<X> terms;
			std::vector<int> e(m.groups.size());
			for (auto& k : e) k = r.in(0, 2);
			int nt = r.in(1, 3);
			for (int j = 0; j < nt; ++j) {
				std::vector<X> f{j == 0 ? x : subst(gen(r, g, 1), ren, memo)};
				for (size_t k = 0; k < m.groups.size(); ++k) if (m.kind[k] == 1)
					for (int q = 0; q < e[k]; ++q) f.push_back(xvar(r.pick(m.groups[k])));
				terms.push_back(xmul(f));
			}
			x = xsum(terms);
		}
		if (r.chance(0.3)) {
			auto f = mk(Op::Fun, {x});
			f->name = "S" + std::to_string(i);
			x = f;
			if (!has_hom) { if (!aff.empty()) x = xsum({f, xvar(r.pick(aff))}); pool.push_back(f); }
		}
		m.fun.push_back(x);
		m.names.push_back("f" + std::to_string(i));
	}
	m.tn.vars = m.vars;
	m.tn.t = m.t;
	m.tn.r = &r;
	return m;
}
bool too_high(SysModel const& m) {
	std::set<long> all;
	for (long v = -1; v < static_cast<long>(m.vars.size()); ++v) all.insert(v);
	for (auto& f : m.fun) if (deg(f, all) > 14) return true;
	return false;
}
Point hom_point(Rng& r, SysModel const& h) {
	Point p = rand_point(r, h.vars.size(), 0);
	for (size_t i = 0; i < h.groups.size(); ++i)
		if (h.kind[i] == 0) { double a = r.u(0, 6.2831853); double m = r.u(0.6, 1.4); auto q = [](double x) { return std::round(x * 1048576) / 1048576; }; p.x[h.groups[i][0]] = hc(q(m * cos(a)), q(m * sin(a))); }
	return p;
}
std::string sigof(SysModel const& m) { std::string s; for (auto& g : m.groups) s += std::to_string(g.size()) + "g"; for (auto& f : m.fun) s += f->str() + ";"; return s; }

void hom_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	SysModel m = gen_poly(r, true);
	for (int k = 0; k < 5 && too_high(m); ++k) m = gen_poly(r, true);
	if (too_high(m)) return;
	c.desc(m.str());
	System s;
	add_groups(m, s);
	add_functions(m, s, &r);
	if (r.chance(0.5)) s.SetEvalMethod(r.chance(0.5) ? EvalMethod::SLP : EvalMethod::FunctionTree);
	if (r.chance(0.5)) s.SetDerivMethod(r.chance(0.5) ? DerivMethod::JacobianNode : DerivMethod::Derivatives);
	if (r.chance(0.6)) {
		Point p = rand_point(r, m.vars.size(), 0);
		go(s, prec);
		check_system<dbl>(c, s, m, p, 0, "before-homogenization", "", 7);
		c.obs("evaluated before homogenization");
	}
	c.check(s.IsPolynomial(), "polynomial", "a polynomial system is said not to be polynomial");
	std::vector<std::vector<int>> ds;
	SysModel h = homogenized(m, &ds);
	s.Homogenize();
	bool ung = false;
	size_t naff = 0;
	for (int k : m.kind) { if (k == 2) ung = true; if (k == 0) ++naff; }
	c.check(s.NumHomVariables() == naff, "homogenizing-variables", "number of homogenizing variables " + std::to_string(s.NumHomVariables()));
	c.check(s.NumVariables() == m.vars.size() + naff, "homogenizing-variables", "number of variables");
	if (!ung) c.check(s.IsHomogeneous(), "not-homogeneous", "the homogenized system says it is not homogeneous");
	c.check(s.IsPolynomial(), "polynomial", "the homogenized system is said not to be polynomial");
	auto look = [&](std::string const& ctx) {
		go(s, prec);
		Point p = hom_point(r, h);
		if (r.chance(0.3)) for (size_t i = 0; i < h.groups.size(); ++i) if (h.kind[i] == 0) p.x[h.groups[i][0]] = HC(1);
		check_system<dbl>(c, s, h, p, 0, "homogenized", ctx, 7);
		check_system<mpfr_complex>(c, s, h, p, prec, "homogenized", ctx, 7);
		// scaling one group, by the library alone
		size_t gi = r.in(0, h.groups.size() - 1);
		if (h.kind[gi] == 2) return;
		Point q = p;
		HC l = hc(r.u(0.5, 1.5), r.u(-1, 1));
		std::set<long> gs(h.groups[gi].begin(), h.groups[gi].end());
		l = HC(HR(std::round(static_cast<double>(l.real()) * 64) / 64), HR(std::round(static_cast<double>(l.imag()) * 64) / 64));
		for (long v : h.groups[gi]) q.x[v] = p.x[v] * l;
		auto xp = ordered<mpfr_complex>(h, p, prec), xq = ordered<mpfr_complex>(h, q, prec);
		auto t = to_mp(p.t, prec);
		auto fp = m.path ? s.Eval(xp, t) : s.Eval(xp);
		auto fq = m.path ? s.Eval(xq, t) : s.Eval(xq);
		size_t ai = 0;
		for (size_t k = 0; k < gi; ++k) if (h.kind[k] == 0) ++ai;
		for (size_t i = 0; i < h.fun.size(); ++i) {
			int d = h.kind[gi] == 0 ? ds[i][ai] : deg(m.fun[i], gs);
			try {
				V a = Oracle(q)(h.fun[i]).v;
				HC want = hc(fp(i)) * hpowi(l, d);
				HR tol = (a.e + habs(want) * 10) * eps_of(prec) * 4000 + eps_of(prec) * eps_of(prec);
				if (tol > hr(1e-3) * (1 + habs(want))) { c.obs("inconclusive"); continue; }
				c.check(habs(hc(fq(i)) - want) <= tol, "scaling", "scaling group " + std::to_string(gi) + " of " + m.fun[i]->str() + " degree " + std::to_string(d) + ": " + show(hc(fq(i))) + " expected " + show(want));
				c.obs("scaling identities judged");
			} catch (Inconclusive&) { c.obs("inconclusive"); }
		}
	};
	look("after Homogenize");
	if (r.chance(0.4)) { s.Homogenize(); look("after a second Homogenize"); c.obs("homogenized twice"); c.check(s.NumVariables() == m.vars.size() + naff, "homogenizing-variables", "second homogenization added variables"); }
	c.sig(sigof(m));
}
Register rE06("E06", 7000, 40000, hom_case, 60);

// ------------------------------------------------------------------ patches
template <typename T> HR tol_of(unsigned prec, HR const& scale) { return eps_of(std::is_same<T, dbl>::value ? 0 : prec) * 5000 * (scale + 1); }

template <typename T> void patch_look(Case& c, System const& s, SysModel const& h, unsigned prec, std::map<std::pair<long, long>, HC>& known, std::string const& ctx) {
	Rng& r = c.rng;
	Point p = hom_point(r, h);
	auto x = ordered<T>(h, p, prec);
	T t = to_num<T>(p.t, prec);
	long nf = h.fun.size(), ng = h.groups.size(), nv = x.size();
	c.check(static_cast<long>(s.NumTotalFunctions()) == nf + ng, "patch-count", "functions and patches");
	check_system<T>(c, s, h, p, prec, "patched", ctx, 7, c.rng.in(0, 2), &c.rng);
	Vec<T> f = h.path ? s.Eval(x, t) : s.Eval(x);
	vf::Mat<T> J(nf + ng, nv);
	junk(J, prec);
	if (h.path) s.JacobianInPlace(J, x, t); else s.JacobianInPlace(J, x);
	Vec<T> ft;
	if (h.path) ft = s.TimeDerivative(x, t);
	std::vector<long> first;
	long at = 0;
	for (auto& g : h.groups) { first.push_back(at); at += g.size(); }
	for (long k = 0; k < ng; ++k) {
		HC v(-1);
		HR sc(1);
		for (long j = 0; j < nv; ++j) {
			HC a = hc(J(nf + k, j));
			bool inside = j >= first[k] && j < first[k] + static_cast<long>(h.groups[k].size());
			if (!inside) c.check(a == HC(0), "patch-jacobian", "patch " + std::to_string(k) + " depends on variable " + std::to_string(j) + " of another group: " + show(a) + " " + ctx);
			else {
				auto key = std::make_pair(k, j);
				auto it = known.find(key);
				unsigned d = std::is_same<T, dbl>::value ? 15 : std::min(prec, 100u);
				if (it == known.end()) { if (!std::is_same<T, dbl>::value && prec == 100) known[key] = a; }
				else c.check(habs(it->second - a) <= pow(HR(10), -static_cast<int>(d)) * 200, "patch-changed", "patch coefficient changed: " + show(a) + " was " + show(it->second) + " " + ctx);
				c.check(finite(a) && habs(a) > 0, "patch-jacobian", "patch coefficient " + show(a) + " " + ctx);
			}
			v += a * hc(x(j));
			sc += habs(a) * habs(hc(x(j)));
		}
		c.check(habs(hc(f(nf + k)) - v) <= tol_of<T>(prec, sc), "patch-value", "value of patch " + std::to_string(k) + ": " + show(hc(f(nf + k))) + " expected " + show(v) + " " + ctx);
		if (h.path) c.check(hc(ft(nf + k)) == HC(0), "patch-time-derivative", "patch depends on time " + ctx);
	}
	// rescaling
	Vec<T> y = s.RescalePointToFitPatch(x);
	if (c.rng.chance(0.3)) { y = x; s.RescalePointToFitPatchInPlace(y); }
	for (long k = 0; k < ng; ++k) {
		HC dot(0);
		HR sc(0);
		for (long j = first[k]; j < first[k] + static_cast<long>(h.groups[k].size()); ++j) { dot += hc(J(nf + k, j)) * hc(x(j)); sc += habs(hc(J(nf + k, j))) * habs(hc(x(j))); }
		if (habs(dot) < sc * hr(0.02)) { c.obs("inconclusive"); continue; }
		for (long j = first[k]; j < first[k] + static_cast<long>(h.groups[k].size()); ++j)
			c.check(habs(hc(y(j)) - hc(x(j)) / dot) <= tol_of<T>(prec, habs(hc(x(j)) / dot)) * 100, "rescale", "rescaled coordinate " + std::to_string(j) + ": " + show(hc(y(j))) + " expected " + show(hc(x(j)) / dot) + " " + ctx);
		c.obs("groups rescaled");
	}
	{
		Vec<T> g = h.path ? s.Eval(y, t) : s.Eval(y);
		for (long k = 0; k < ng; ++k) {
			HR sc(1);
			for (long j = first[k]; j < first[k] + static_cast<long>(h.groups[k].size()); ++j) sc += habs(hc(J(nf + k, j))) * habs(hc(y(j)));
			if (sc > 1000) continue;
			c.check(habs(hc(g(nf + k))) <= tol_of<T>(prec, sc), "rescaled-off-patch", "patch " + std::to_string(k) + " at a rescaled point: " + show(hc(g(nf + k))) + " " + ctx);
		}
	}
	// dehomogenization
	Vec<T> dx = s.DehomogenizePoint(x), dy = s.DehomogenizePoint(y);
	long o = 0;
	for (long k = 0; k < ng; ++k) {
		bool aff = h.kind[k] == 0;
		for (size_t j = aff ? 1 : 0; j < h.groups[k].size(); ++j, ++o) {
			if (o >= dx.size()) { c.check(false, "dehomogenize", "the dehomogenized point is too short"); return; }
			HC w = aff ? hc(x(first[k] + j)) / hc(x(first[k])) : hc(x(first[k] + j));
			c.check(habs(hc(dx(o)) - w) <= tol_of<T>(prec, habs(w)), "dehomogenize", "coordinate " + std::to_string(o) + " " + show(hc(dx(o))) + " expected " + show(w) + " " + ctx);
			if (aff) c.check(habs(hc(dy(o)) - w) <= tol_of<T>(prec, habs(w)) * 100, "dehomogenize", "coordinate " + std::to_string(o) + " of the rescaled point " + show(hc(dy(o))) + " expected " + show(w) + " " + ctx);
			c.obs("coordinates dehomogenized");
		}
	}
	c.check(o == dx.size(), "dehomogenize", "length of the dehomogenized point");
}

// patches on their own, and compared with one another, whatever their structures
template <typename T> void lone_look(Case& c, bertini::Patch const& p, std::vector<unsigned> const& sizes, unsigned digits, std::vector<std::vector<HC>>& known, bool real, std::string const& ctx) {
	long n = 0;
	for (auto k : sizes) n += k;
	Vec<T> x(n);
	for (long i = 0; i < n; ++i) { x(i) = to_num<T>(HC(HR(c.rng.in(-900, 900)) / 64, HR(c.rng.in(1, 900)) / 64), digits); }
	vf::Mat<T> j = p.Jacobian(x);
	Vec<T> f = p.Eval(x), y = p.RescalePoint(x), g = p.Eval(y);
	unsigned d = std::is_same<T, dbl>::value ? 15 : digits;
	HR tol = pow(HR(10), -static_cast<int>(d)) * 2000;
	c.check(j.rows() == static_cast<long>(sizes.size()) && j.cols() == n && f.size() == static_cast<long>(sizes.size()) && y.size() == n, "patch-count", "shape of a patch on its own " + ctx);
	if (known.empty()) for (auto k : sizes) known.push_back(std::vector<HC>(k, HC(0)));
	long off = 0;
	for (size_t k = 0; k < sizes.size(); ++k) {
		HC v(-1), w(0);
		HR sc(1);
		for (long i = 0; i < n; ++i) {
			HC a = hc(j(k, i));
			bool inside = i >= off && i < off + static_cast<long>(sizes[k]);
			if (!inside) { c.check(a == HC(0), "patch-jacobian", "a patch depends on another group's variable, on its own " + ctx); continue; }
			HC& o = known[k][i - off];
			if (o == HC(0)) o = a;
			c.check(habs(o - a) <= tol, "patch-changed", "patch coefficient " + show(a) + " was " + show(o) + ", on its own " + ctx);
			c.check(habs(a) > 0 && (!real || a.imag() == 0), "patch-jacobian", "patch coefficient " + show(a) + (real ? " of a real patch " : " ") + ctx);
			v += o * hc(x(i));
			w += o * hc(x(i));
			sc += habs(o) * habs(hc(x(i)));
		}
		c.check(habs(hc(f(k)) - v) <= tol * sc, "patch-value", "value " + show(hc(f(k))) + " expected " + show(v) + ", on its own " + ctx);
		HR loss = sc / (habs(w) > 0 ? habs(w) : HR(1));
		if (loss < 1000) {
			c.check(habs(hc(g(k))) <= tol * loss * loss, "rescaled-off-patch", "patch at a rescaled point " + show(hc(g(k))) + ", on its own " + ctx);
			for (unsigned i = 0; i < sizes[k]; ++i) c.check(habs(hc(y(off + i)) * w - hc(x(off + i))) <= tol * loss * sc, "rescaled-off-patch", "a rescaled point is another point, on its own " + ctx);
		}
		off += sizes[k];
	}
	c.obs("lone patch");
}
void lone_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	std::vector<unsigned> sizes;
	for (int k = r.in(1, 4); k > 0; --k) sizes.push_back(r.in(1, 4));
	bool real = r.chance(0.4);
	bertini::Patch a = real ? bertini::Patch::RandomReal(sizes) : bertini::Patch::Random(sizes);
	unsigned n = 0;
	for (auto k : sizes) n += k;
	c.check(a.NumVariableGroups() == sizes.size() && a.NumVariables() == n && a.Precision() == prec, "patch-count", "structure of a patch on its own");
	std::vector<std::vector<HC>> known;
	bertini::DefaultPrecision(100);
	a.Precision(100);
	lone_look<mpfr_complex>(c, a, sizes, 100, known, real, "first");
	std::vector<bertini::Patch> all(1, a);
	for (int st = 0; st < 3; ++st) {
		unsigned p = r.pick(kPrec);
		bertini::DefaultPrecision(p);
		if (r.chance(0.6)) all.push_back(all[r.in(0, all.size() - 1)]);
		else { bertini::Patch b; b = all[r.in(0, all.size() - 1)]; all.push_back(b); }
		bertini::Patch& u = all[r.in(0, all.size() - 1)];
		u.Precision(p);
		c.check(u.Precision() == p, "patch-changed", "precision of a patch");
		lone_look<mpfr_complex>(c, u, sizes, p, known, real, "digits " + std::to_string(p));
		lone_look<dbl>(c, u, sizes, p, known, real, "double");
		c.check(u == a && a == u && !(u != a), "patch-changed", "a patch differs from its copy");
	}
	// a patch of any other structure is another patch: fewer or more groups, the same variables split differently
	std::vector<unsigned> other = sizes;
	int how = r.in(0, 4);
	if (how == 0) other.push_back(r.in(1, 3));
	else if (how == 1) { other.pop_back(); if (other.empty()) other.push_back(sizes[0] + 1); }
	else if (how == 2) other[r.in(0, other.size() - 1)] += 1;
	else if (how == 3) { if (other.size() > 1) { other[0] += other.back(); other.pop_back(); } else other = {1, sizes[0]}; }
	else std::reverse(other.begin(), other.end());
	bertini::Patch b = r.chance(0.5) ? bertini::Patch::Random(other) : bertini::Patch::RandomReal(other);
	c.check(a != b && b != a && !(a == b) && !(b == a), "patch-not-random", "patches of different structure, or drawn twice, are called the same");
	bertini::Patch none;
	c.check(none.NumVariableGroups() == 0 && a != none && none != a && none == bertini::Patch(), "patch-not-random", "an empty patch is called the same as another");
	b = a;
	c.check(a == b && b.NumVariables() == n, "patch-changed", "an assigned patch is another patch");
	lone_look<dbl>(c, b, sizes, prec, known, real, "assigned over another");
	c.obs("compared with another structure " + std::to_string(how));
	std::string k = real ? "real" : "";
	for (auto z : sizes) k += " " + std::to_string(z);
	c.sig(k + "/" + std::to_string(how));
}
void patch_case(Case& c) {
	Rng& r = c.rng;
	if (r.chance(0.12)) return lone_case(c);
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	SysModel m = gen_poly(r, false, true, 5);
	for (int k = 0; k < 5 && too_high(m); ++k) m = gen_poly(r, false, true, 5);
	if (too_high(m)) return;
	c.desc(m.str());
	System s;
	add_groups(m, s);
	add_functions(m, s, &r);
	s.SetEvalMethod(r.chance(0.5) ? EvalMethod::SLP : EvalMethod::FunctionTree);
	s.SetDerivMethod(r.chance(0.5) ? DerivMethod::JacobianNode : DerivMethod::Derivatives);
	SysModel h = homogenized(m);
	s.Homogenize();
	if (r.chance(0.3)) { go(s, prec); Point p = hom_point(r, h); check_system<dbl>(c, s, h, p, 0, "homogenized", "before patching"); }
	s.AutoPatch();
	c.check(s.IsPatched() && s.NumPatches() == h.groups.size(), "patch-count", "number of patches");
	std::map<std::pair<long, long>, HC> known;
	go(s, 100);
	patch_look<mpfr_complex>(c, s, h, 100, known, "first");
	std::string kinds;
	std::vector<System> others;
	for (int st = 0; st < 4; ++st) {
		System* u = &s;
		if (!others.empty() && r.chance(0.6)) u = &others[r.in(0, others.size() - 1)];
		unsigned p = r.pick(kPrec);
		bertini::DefaultPrecision(p);
		s.precision(p);
		for (auto& y : others) y.precision(p);
		patch_look<mpfr_complex>(c, *u, h, p, known, "digits " + std::to_string(p) + " after " + kinds);
		if (r.chance(0.5)) patch_look<dbl>(c, *u, h, p, known, "double after " + kinds);
		int op = r.in(0, 4);
		if (op == 0) { others.push_back(System(*u)); kinds += "copy "; c.check(others.back().GetPatch() == s.GetPatch(), "patch-changed", "a copy's patch differs"); }
		else if (op == 1) { System e; e.CopyVariableStructure(*u); for (size_t i = 0; i < m.fun.size(); ++i) e.AddFunction(u->Function(i)); e.CopyPatches(*u); e.precision(p); others.push_back(e); kinds += "copypatches "; }
		else if (op == 2) { others.push_back(Clone(*u)); kinds += "clone "; c.check(others.back().GetPatch() == s.GetPatch(), "patch-changed", "a clone's patch differs"); }
		else if (op == 3) { System e = *u; for (auto& y : others) (void)y; e.AutoPatch(); c.check(e.GetPatch() != s.GetPatch(), "patch-not-random", "a second automatic patch is the same patch"); std::map<std::pair<long, long>, HC> k2; e.precision(p); patch_look<mpfr_complex>(c, e, h, p, k2, "a second patch"); kinds += "repatch "; }
		c.obs("op " + std::to_string(op));
	}
	c.sig(sigof(m) + kinds);
}
Register rS05("S05", 2000, 15000, patch_case, 60);

// S03: combining systems of which some are patched
void patched_algebra_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	SysModel m = gen_poly(r, false, true, 4);
	for (int k = 0; k < 5 && too_high(m); ++k) m = gen_poly(r, false, true, 4);
	if (too_high(m)) return;
	System A;
	add_groups(m, A);
	add_functions(m, A, &r);
	auto method = [&](System& s) { s.SetEvalMethod(r.chance(0.5) ? EvalMethod::SLP : EvalMethod::FunctionTree); s.SetDerivMethod(r.chance(0.5) ? DerivMethod::JacobianNode : DerivMethod::Derivatives); };
	method(A);
	SysModel a = homogenized(m), b = a;
	A.Homogenize();
	// B has the same variables, and its functions are made of those of A
	System B;
	B.CopyVariableStructure(A);
	size_t n = a.fun.size();
	std::string made;
	for (size_t i = 0; i < n; ++i) {
		size_t j = r.in(0, n - 1);
		long w = r.in(-3, 5);
		B.AddFunction(bertini::node::Integer::Make(static_cast<int>(w)) * A.Function(j)->EntryNode());
		b.fun[i] = xmul({xint(w), a.fun[j]});
		made += " " + std::to_string(w) + "*f" + std::to_string(j);
	}
	method(B);
	int who = r.in(0, 4);   // neither, A, B, both alike, both different
	static const char* names[] = {"neither", "A", "B", "both alike", "both, differently"};
	if (who == 1 || who >= 3) A.AutoPatch();
	if (who == 2 || who == 4) B.AutoPatch();
	if (who == 3) B.CopyPatches(A);
	c.desc(m.str() + " B:" + made + " patched: " + names[who]);
	std::map<std::pair<long, long>, HC> ka, kb;
	auto look = [&](System& s, SysModel const& h, bool patched, std::map<std::pair<long, long>, HC>& known, std::string const& ctx, unsigned p) {
		bertini::DefaultPrecision(p);
		go(s, p);
		c.check(s.IsPatched() == patched && s.NumNaturalFunctions() == h.fun.size(), "algebra-patch", ctx + (patched ? " is not patched" : " is patched"));
		if (s.IsPatched() != patched) return;
		if (patched) { patch_look<mpfr_complex>(c, s, h, p, known, ctx); if (r.chance(0.3)) patch_look<dbl>(c, s, h, p, known, ctx); }
		else { Point q = hom_point(r, h); check_system<mpfr_complex>(c, s, h, q, p, "algebra", ctx, 7, 0, &r); }
	};
	bool pa = A.IsPatched(), pb = B.IsPatched();
	look(A, a, pa, ka, "A", 100);
	if (who == 3) kb = ka;
	look(B, b, pb, kb, "B", 100);
	auto& kr = pa ? ka : kb;
	X sc = xint(r.in(2, 5));
	Nd N = bertini::node::Integer::Make(static_cast<int>(sc->n));
	std::string ops;
	for (int k = 0; k < 3; ++k) {
		unsigned p = r.pick(kPrec);
		bertini::DefaultPrecision(p);
		A.precision(p);
		B.precision(p);
		int op = r.in(0, 7);
		ops += std::to_string(op);
		System R;
		SysModel h = a;
		bool patched = pa || pb;
		auto* known = &kr;
		std::string ctx;
		bool threw = false;
		try {
			switch (op) {
				case 0: ctx = "A+B"; for (size_t i = 0; i < n; ++i) h.fun[i] = xsum({a.fun[i], b.fun[i]}); R = A + B; break;
				case 1: ctx = "B+A"; for (size_t i = 0; i < n; ++i) h.fun[i] = xsum({a.fun[i], b.fun[i]}); R = B + A; break;
				case 2: ctx = "Concatenate(A,B)"; h.fun.insert(h.fun.end(), b.fun.begin(), b.fun.end()); R = Concatenate(A, B); break;
				case 3: ctx = "Concatenate(B,A)"; h.fun = b.fun; h.fun.insert(h.fun.end(), a.fun.begin(), a.fun.end()); R = Concatenate(B, A); break;
				case 4: ctx = "N*A"; for (auto& f : h.fun) f = xmul({sc, f}); R = N * A; patched = pa; known = &ka; break;
				case 5: { ctx = "swap(A,B)"; System P(A); R = B; swap(P, R); look(P, b, pb, kb, "B swapped with A", p); patched = pa; known = &ka; break; }
				case 6: { ctx = "A assigned over B"; R = B; R = A; patched = pa; known = &ka; break; }
				default: { ctx = "B moved over A"; System P(B); R = A; R = std::move(P); h.fun = b.fun; patched = pb; known = &kb; break; }
			}
		} catch (std::runtime_error const& e) { threw = true; if (!(who == 4 && op <= 3)) { c.check(false, "algebra-refused", ctx + " is refused: " + e.what()); return; } }
		c.obs(std::string("op ") + ctx + ", patched: " + names[who]);
		if (who == 4 && op <= 3) { c.check(threw, "algebra-patch", ctx + " combines systems whose patches differ"); continue; }
		if (h.names.size() < h.fun.size()) h.names.resize(h.fun.size(), "g");
		look(R, h, patched, *known, ctx, p);
		look(A, a, pa, ka, "A after " + ctx, p);
		look(B, b, pb, kb, "B after " + ctx, p);
	}
	c.sig(sigof(m) + made + names[who] + ops);
}
Register rS03("S03", 900, 8000, patched_algebra_case, 60);

// ------------------------------------------------------------------ slices
void slice_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	int n = r.in(1, 6), dim = r.in(1, n);
	bool homog = r.chance(0.5), orth = r.chance(0.6), real = r.chance(0.5);
	VariableGroup vg;
	for (int i = 0; i < n; ++i) vg.push_back(bn::Variable::Make("x" + std::to_string(i)));
	c.desc("slice of " + std::to_string(n) + " variables, dimension " + std::to_string(dim) + (homog ? " homogeneous" : "") + (orth ? " orthogonal" : "") + (real ? " real" : " complex") + " digits " + std::to_string(prec));
	auto s = real ? bertini::LinearSlice::RandomReal(vg, dim, homog, orth) : bertini::LinearSlice::RandomComplex(vg, dim, homog, orth);
	std::vector<std::vector<HC>> C0;
	std::vector<HC> k0;
	unsigned p0 = 100;
	auto look = [&](bertini::LinearSlice const& s, unsigned p, std::string const& ctx, bool first) {
		c.check(s.Dimension() == static_cast<unsigned>(dim) && s.NumVariables() == static_cast<unsigned>(n), "slice-shape", "dimension " + std::to_string(s.Dimension()) + " variables " + std::to_string(s.NumVariables()) + " " + ctx);
		for (int half = 0; half < 2; ++half) {
			Point q = rand_point(r, n);
			std::vector<std::vector<HC>> C(dim, std::vector<HC>(n));
			std::vector<HC> k(dim), v(dim);
			unsigned d = half ? 0 : p;
			if (half == 0) {
				auto x = to_vec<mpfr_complex>(q.x, p);
				Vec<mpfr_complex> z = to_vec<mpfr_complex>(std::vector<HC>(n, HC(0)), p), f = s.Eval(x), f0 = s.Eval(z), fi(dim);
				s.Eval(fi, x);
				vf::Mat<mpfr_complex> J = s.Jacobian(vf::Mat<mpfr_complex>(x));
				c.check(J.rows() == dim && J.cols() == n && f.size() == dim, "slice-shape", "sizes of value and Jacobian " + ctx);
				for (int i = 0; i < dim; ++i) { v[i] = hc(f(i)); k[i] = hc(f0(i)); for (int j = 0; j < n; ++j) C[i][j] = hc(J(i, j)); c.check(hc(fi(i)) == v[i], "slice-value", "in-place evaluation differs"); }
			} else {
				auto x = to_vec<dbl>(q.x, 0);
				Vec<dbl> z = to_vec<dbl>(std::vector<HC>(n, HC(0)), 0), f = s.Eval(x), f0 = s.Eval(z);
				vf::Mat<dbl> J = s.Jacobian(vf::Mat<dbl>(x));
				for (int i = 0; i < dim; ++i) { v[i] = hc(f(i)); k[i] = hc(f0(i)); for (int j = 0; j < n; ++j) C[i][j] = hc(J(i, j)); }
			}
			HR eps = eps_of(d);
			bool record = first && half == 0;
			if (record) { C0 = C; k0 = k; p0 = p; }
			HR eps2 = std::max(eps, eps_of(p0));
			for (int i = 0; i < dim; ++i) {
				HC w = k[i];
				HR sc = habs(k[i]) + 1;
				for (int j = 0; j < n; ++j) { w += C[i][j] * q.x[j]; sc += habs(C[i][j]) * habs(q.x[j]); }
				c.check(habs(w - v[i]) <= eps * 200 * sc, "slice-value", "value is not coefficients times point plus constant " + ctx + ": " + show(v[i]) + " expected " + show(w));
				if (homog) c.check(k[i] == HC(0), "slice-homogeneous", "a homogeneous slice has a constant " + ctx);
				else c.check(habs(k[i]) > 0, "slice-constant", "an affine slice without constants " + ctx);
				if (real) { c.check(k[i].imag() == 0, "slice-real", "real slice, complex constant " + ctx); for (int j = 0; j < n; ++j) c.check(abs(C[i][j].imag()) == 0, "slice-real", "real slice, complex coefficient " + show(C[i][j]) + " " + ctx); }
				c.check(habs(k[i] - k0[i]) <= eps2 * 200 * (1 + habs(k0[i])), "slice-changed", "constant changed " + ctx);
				for (int j = 0; j < n; ++j) c.check(habs(C[i][j] - C0[i][j]) <= eps2 * 200, "slice-changed", "coefficient changed " + ctx + ": " + show(C[i][j]) + " was " + show(C0[i][j]));
				if (orth) for (int b = 0; b < dim; ++b) {
					HC dot(0);
					for (int j = 0; j < n; ++j) dot += C[i][j] * conj(C[b][j]);
					c.check(habs(dot - HC(i == b ? 1 : 0)) <= eps * 500, "slice-orthogonal", "rows " + std::to_string(i) + " and " + std::to_string(b) + " have inner product " + show(dot) + " " + ctx);
				}
			}
			c.obs(half ? "double slices judged" : "multiprecision slices judged");
		}
	};
	std::string seq;
	look(s, prec, "fresh", true);
	for (int k = 0; k < 4; ++k) {
		unsigned p = r.pick(kPrec);
		bertini::DefaultPrecision(p);
		s.Precision(p);
		seq += std::to_string(p) + " ";
		c.check(s.Precision() == p, "slice-precision", "reported precision");
		look(s, p, "precisions " + seq, p > p0);
		if (p > 16) {
			auto f = s.Eval(to_vec<mpfr_complex>(std::vector<HC>(n, HC(1)), p));
			c.check(f(0).precision() == p, "slice-precision", "value has " + std::to_string(f(0).precision()) + " digits, precision is " + std::to_string(p));
		}
		if (r.chance(0.3)) {
			std::stringstream ss;
			bertini::LinearSlice q;
			if (r.chance(0.5)) { { boost::archive::text_oarchive oa(ss); oa << s; } boost::archive::text_iarchive ia(ss); ia >> q; }
			else { { boost::archive::binary_oarchive oa(ss); oa << s; } boost::archive::binary_iarchive ia(ss); ia >> q; }
			look(q, p, "serialized", false);
			q.Precision(100);
			bertini::DefaultPrecision(100);
			look(q, 100, "serialized, then 100 digits", false);
			bertini::DefaultPrecision(p);
			c.obs("slices serialized");
		}
	}
	c.sig(c.text + seq);
}
Register rS06("S06", 6000, 24000, slice_case, 60);

// ------------------------------------------------------------------ serialization
void serial_case(Case& c) {
	Rng& r = c.rng;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	bool poly = r.chance(0.5), patched = false;
	SysGen o;
	o.max_vars = 3;
	o.depth = 3;
	o.poly_prob = 0.2;
	SysModel m = poly ? gen_poly(r, false) : gen_model(r, o);
	if (poly && too_high(m)) return;
	c.desc(m.str());
	System s;
	add_groups(m, s);
	add_functions(m, s, &r);
	s.SetEvalMethod(r.chance(0.5) ? EvalMethod::SLP : EvalMethod::FunctionTree);
	s.SetDerivMethod(r.chance(0.5) ? DerivMethod::JacobianNode : DerivMethod::Derivatives);
	SysModel h = m;
	if (poly && r.chance(0.6)) { h = homogenized(m); s.Homogenize(); if (r.chance(0.5)) { s.AutoPatch(); patched = true; c.note(" patched"); } }
	auto pt = [&] { return poly ? hom_point(r, h) : rand_point(r, h.vars.size()); };
	go(s, prec);
	// a state with or without derivatives, at a point with finite values
	if (r.chance(0.6)) {
		Point p = pt();
		bool ok = true;
		try { for (auto& f : h.fun) for (long v : h.order()) (void)Oracle(p, v).operator()(f); } catch (Inconclusive&) { ok = false; }
		if (ok) { check_system<mpfr_complex>(c, s, h, p, prec, "original", "before saving"); check_system<dbl>(c, s, h, p, 0, "original", "before saving"); c.obs("saved after evaluation"); }
	} else c.obs("saved before evaluation");
	int way = r.in(0, 2);
	std::unique_ptr<System> q(new System);
	unsigned lp = r.chance(0.5) ? prec : r.pick(kPrec);
	std::string ctx;
	if (way == 0) { *q = Clone(s); ctx = "clone"; }
	else {
		std::stringstream ss;
		if (way == 1) { { boost::archive::text_oarchive oa(ss); oa << s; } bertini::DefaultPrecision(lp); boost::archive::text_iarchive ia(ss); ia >> *q; ctx = "text archive"; }
		else { { boost::archive::binary_oarchive oa(ss); oa << s; } bertini::DefaultPrecision(lp); boost::archive::binary_iarchive ia(ss); ia >> *q; ctx = "binary archive"; }
	}
	c.note(" " + ctx + " default precision at loading " + std::to_string(bertini::DefaultPrecision()));
	c.obs("saved by " + ctx);
	c.check(q->NumNaturalFunctions() == s.NumNaturalFunctions() && q->NumVariables() == s.NumVariables() && q->NumVariableGroups() == s.NumVariableGroups() && q->NumHomVariableGroups() == s.NumHomVariableGroups()
		&& q->NumUngroupedVariables() == s.NumUngroupedVariables() && q->NumHomVariables() == s.NumHomVariables() && q->HavePathVariable() == s.HavePathVariable() && q->IsPatched() == s.IsPatched(), "serial-structure", "structure differs, " + ctx);
	auto va = s.VariableOrdering(), vb = q->VariableOrdering();
	for (size_t i = 0; i < va.size() && i < vb.size(); ++i) {
		c.check(va[i]->name() == vb[i]->name(), "serial-structure", "variable names or order, " + ctx);
		c.check(va[i] != vb[i], "serial-shared", "the loaded system shares a variable with the original, " + ctx);
	}
	for (size_t i = 0; i < s.NumNaturalFunctions(); ++i) c.check(s.Function(i)->name() == q->Function(i)->name(), "serial-structure", "function names, " + ctx);
	if (patched) c.check(s.GetPatch() == q->GetPatch(), "serial-patch", "patch differs, " + ctx);
	for (int k = 0; k < 2; ++k) {
		unsigned p = r.pick(kPrec);
		go(*q, p);
		Point x = pt();
		check_system<dbl>(c, *q, h, x, 0, "loaded", ctx, 7, r.in(0, 2), &r);
		check_system<mpfr_complex>(c, *q, h, x, p, "loaded", ctx, 7, r.in(0, 2), &r);
	}
	// what is done to the copy leaves the original alone, and the other way round
	bool first = r.chance(0.5);
	System& a = first ? *q : s;
	System& b = first ? s : *q;
	unsigned p = r.pick(kPrec);
	if (poly && a.NumHomVariables() == 0) { a.Homogenize(); c.obs("homogenized one of the two"); }
	else a *= bn::Integer::Make(7);
	a.ReorderFunctionsByDegreeIncreasing();
	go(a, p == 30 ? 50 : 30);
	{ Point x = pt(); x.x.resize(40, hc(0.5)); Vec<dbl> v(a.NumVariables()); for (long i = 0; i < v.size(); ++i) v(i) = dbl(0.3 + i, 0.1); if (m.path) a.Eval(v, dbl(0.4)); else a.Eval(v); }
	go(b, p);
	Point x = pt();
	check_system<dbl>(c, b, h, x, 0, "independent", ctx, 7);
	check_system<mpfr_complex>(c, b, h, x, p, "independent", ctx, 7);
	c.sig(sigof(m) + ctx);
}
Register rS07("S07", 4800, 25000, serial_case, 60);

void before() { bertini::DefaultPrecision(16); }
} // namespace

int main(int argc, char** argv) {
	before_case() = before;
	return run_main(argc, argv);
}
