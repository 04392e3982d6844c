// A system under test together with its model: the functions as model expressions over an ordered
// list of variables, so that values, Jacobian and time derivative can be predicted independently.
#pragma once
#include "model.hpp"
#include "bertini2/function_tree.hpp"

namespace vf {
namespace bn = bertini::node;

struct SysModel {
	std::vector<Var> vars;            // by model index
	Var t;
	bool path = false;
	std::vector<X> fun;
	std::vector<std::string> names;
	ToNode tn;
	std::vector<std::vector<long>> groups;   // variable indices by group
	std::vector<int> kind;                   // 0 affine, 1 homogeneous, 2 ungrouped (one variable each)
	std::vector<long> order() const { std::vector<long> o; for (auto& g : groups) for (long v : g) o.push_back(v); return o; }
	std::string str() const {
		std::string s = "groups";
		for (size_t i = 0; i < groups.size(); ++i) {
			s += kind[i] == 0 ? " A{" : kind[i] == 1 ? " H{" : " U{";
			for (long v : groups[i]) s += "x" + std::to_string(v) + " ";
			s += "}";
		}
		s += path ? " path t; " : "; ";
		for (auto& f : fun) s += f->str() + "; ";
		return s;
	}
};

struct SysGen {
	int min_vars = 1, max_vars = 4, min_fun = 1, max_fun = 4;
	double path_prob = 0.5, poly_prob = 0.5, named_prob = 0.3;
	int depth = 4;
	bool multi_groups = true;
	bool ungrouped = true;
	int max_pow = 4;
	bool flt = true;
};

// make the variables, groups and expressions
inline SysModel gen_model(Rng& r, SysGen const& o) {
	SysModel m;
	int n = r.in(o.min_vars, o.max_vars);
	for (int i = 0; i < n; ++i) m.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	m.t = bn::Variable::Make("t");
	m.path = r.chance(o.path_prob);
	std::vector<long> idx(n);
	for (int i = 0; i < n; ++i) idx[i] = i;
	for (int i = n - 1; i > 0; --i) std::swap(idx[i], idx[r.in(0, i)]);
	size_t at = 0;
	while (at < idx.size()) {
		size_t sz = o.multi_groups ? std::min<size_t>(idx.size() - at, r.in(1, 3)) : idx.size() - at;
		int k = o.multi_groups ? r.in(0, o.ungrouped ? 4 : 3) : 0;
		k = k <= 2 ? 0 : k == 3 ? 1 : 2;
		if (k == 2) sz = 1;
		m.groups.push_back(std::vector<long>(idx.begin() + at, idx.begin() + at + sz));
		m.kind.push_back(k);
		at += sz;
	}
	GenOpt g;
	g.nvars = n;
	g.path = m.path;
	g.poly = r.chance(o.poly_prob);
	g.allow_div = true;
	g.depth = r.in(1, o.depth);
	g.max_pow = o.max_pow;
	g.flt = o.flt;
	std::vector<X> pool;
	g.pool = &pool;
	int nf = r.in(o.min_fun, o.max_fun);
	for (int i = 0; i < nf; ++i) {
		X x = gen(r, g);
		if (r.chance(o.named_prob)) {
			auto f = mk(Op::Fun, {x});
			f->name = "S" + std::to_string(i);
			pool.push_back(f);
			if (r.chance(0.6)) x = xsum({f, xvar(r.in(0, n - 1))}); else x = f;
		}
		m.fun.push_back(x);
		m.names.push_back("f" + std::to_string(i));
	}
	m.tn.vars = m.vars;
	m.tn.t = m.t;
	m.tn.r = &r;
	return m;
}

inline void add_groups(SysModel const& m, bertini::System& s) {
	for (size_t i = 0; i < m.groups.size(); ++i) {
		bertini::VariableGroup g;
		for (long v : m.groups[i]) g.push_back(m.vars[v]);
		if (m.kind[i] == 0) s.AddVariableGroup(g);
		else if (m.kind[i] == 1) s.AddHomVariableGroup(g);
		else s.AddUngroupedVariable(g[0]);
	}
	if (m.path) s.AddPathVariable(m.t);
}
inline void add_functions(SysModel& m, bertini::System& s, Rng* r = nullptr) {
	for (size_t i = 0; i < m.fun.size(); ++i) {
		Nd n = m.tn(m.fun[i]);
		auto f = std::dynamic_pointer_cast<bn::Function>(n);
		if (f && r && r->chance(0.5)) s.AddFunction(f);
		else s.AddFunction(n, m.names[i]);
	}
	for (auto& f : m.tn.funs) s.AddSubfunction(f.second);
}

// a point in the order of the system's variables
template <typename T> Vec<T> ordered(SysModel const& m, Point const& p, unsigned digits) {
	std::vector<HC> x;
	for (long v : m.order()) x.push_back(p.x.at(v));
	return to_vec<T>(x, digits);
}

struct Judge {
	Case& c;
	std::string ctx;
	long conclusive = 0;
	void value(HC const& got, V const& want, unsigned digits, std::string const& key, std::string const& what) {
		int a = agrees(got, want, digits);
		if (a < 0) { c.obs("inconclusive"); return; }
		++conclusive;
		c.check(a == 1, key, what + " digits " + std::to_string(digits) + " [" + ctx + "]: " + diff(got, want));
	}
};

template <typename M> void junk(M& m, unsigned digits) { for (long i = 0; i < m.size(); ++i) m(i) = to_num<typename M::Scalar>(hc(1e3 + i, -7), digits ? digits : 16); }
// compare everything a system computes at a point with the model
template <typename T>
void check_system(Case& c, bertini::System const& s, SysModel const& m, Point const& p, unsigned digits, std::string const& key, std::string const& ctx, int which = 7, int style = 0, Rng* r = nullptr) {
	Judge j{c, ctx + " at " + show(p)};
	unsigned d = std::is_same<T, dbl>::value ? 0 : digits;
	auto x = ordered<T>(m, p, digits);
	T t = to_num<T>(p.t, digits);
	auto ord = m.order();
	long nf = m.fun.size();
	// overflow and essential singularities make the multiprecision library run for hours; such points are for double only
	if (!std::is_same<T, dbl>::value)
		try { for (auto& f : m.fun) { (void)Oracle(p).operator()(f); } }
		catch (Inconclusive&) { c.obs("points not evaluated in multiprecision (pole, branch cut, overflow)"); return; }
	if (!m.path) which &= 3;
	if (!which) which = 1;
	// style 0: every quantity asked for at the point; 1: the point set once, quantities asked for afterwards;
	// 2: in place, into containers holding something else
	bool want_t = which & 4;
	Vec<T> f(nf), ft(nf);
	Mat<T> J(nf, static_cast<long>(ord.size()));
	if (style == 2) { junk(f, digits); junk(ft, digits); junk(J, digits); }
	if (style == 1) { if (m.path) s.SetAndReset(x, t); else s.SetAndReset(x); }
	int start = r ? r->in(0, 2) : 0;
	for (int k = 0; k < 3; ++k) switch ((start + k) % 3) {
		case 0: if (which & 1) {
			if (style == 0) f = m.path ? s.Eval(x, t) : s.Eval(x);
			else if (style == 1) f = s.template Eval<T>();
			else { if (s.NumTotalFunctions() != static_cast<size_t>(nf)) f.resize(s.NumTotalFunctions()); if (m.path) s.EvalInPlace(f, x, t); else s.EvalInPlace(f, x); }
		} break;
		case 1: if (which & 2) {
			if (style == 0) J = m.path ? s.Jacobian(x, t) : s.Jacobian(x);
			else if (style == 1) J = s.template Jacobian<T>();
			else { if (s.NumTotalFunctions() != static_cast<size_t>(nf)) J.resize(s.NumTotalFunctions(), ord.size()); if (m.path) s.JacobianInPlace(J, x, t); else s.JacobianInPlace(J, x); }
		} break;
		default: if (want_t) {
			if (style == 0) ft = s.TimeDerivative(x, t);
			else if (style == 1) ft = s.template TimeDerivative<T>();
			else { if (s.NumTotalFunctions() != static_cast<size_t>(nf)) ft.resize(s.NumTotalFunctions()); s.TimeDerivativeInPlace(ft, x, t); }
		} break;
	}
	if (which & 1) {
		if (c.check(f.size() >= nf, key + "-size", "number of function values " + std::to_string(f.size()) + " [" + ctx + "]"))
			for (long i = 0; i < nf; ++i) {
				try { j.value(hc(f(i)), Oracle(p)(m.fun[i]).v, d, key + "-value", "f" + std::to_string(i) + "=" + m.fun[i]->str()); c.obs("function values compared"); }
				catch (Inconclusive&) { c.obs("inconclusive"); }
			}
	}
	if (which & 2) {
		if (c.check(J.rows() >= nf && J.cols() == static_cast<long>(ord.size()), key + "-size", "Jacobian shape [" + ctx + "]"))
			for (long i = 0; i < nf; ++i)
				for (size_t k = 0; k < ord.size(); ++k) {
					try {
						V w = Oracle(p, ord[k])(m.fun[i]).d;
						j.value(hc(J(i, k)), w, d, key + "-jacobian", "d/dx" + std::to_string(ord[k]) + " of f" + std::to_string(i) + "=" + m.fun[i]->str());
						c.obs("jacobian entries compared");
						if (w.v != HC(0)) c.obs("nonzero jacobian entries");
					} catch (Inconclusive&) { c.obs("inconclusive"); }
				}
	}
	if (want_t) {
		if (c.check(ft.size() >= nf, key + "-size", "number of time derivatives [" + ctx + "]"))
			for (long i = 0; i < nf; ++i) {
				try {
					V w = Oracle(p, -1)(m.fun[i]).d;
					j.value(hc(ft(i)), w, d, key + "-time-derivative", "d/dt of f" + std::to_string(i) + "=" + m.fun[i]->str());
					c.obs("time derivatives compared");
					if (w.v != HC(0)) c.obs("nonzero time derivatives");
				} catch (Inconclusive&) { c.obs("inconclusive"); }
			}
	}
	if (j.conclusive) c.obs("points judged");
}
// everything together: default precision, and the system's
inline void go(bertini::System const& s, unsigned digits) {
	bertini::DefaultPrecision(digits);
	s.precision(digits);
}
} // namespace vf
