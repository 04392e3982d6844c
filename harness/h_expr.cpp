// Expressions: value, derivative, simplification, degree.
#include "model.hpp"
#include "bertini2/function_tree.hpp"
#include "bertini2/function_tree/simplify.hpp"
using namespace vf;
namespace bn = bertini::node;

namespace {
const std::vector<unsigned> kPrec{16, 20, 30, 50, 77, 100};

struct Tree {
	std::vector<X> ex;
	std::vector<Var> vars;
	Var t;
	ToNode tn;
	std::vector<Nd> nodes;
};

Tree make_tree(Case& c, GenOpt g, int n_expr, bool named) {
	Tree T;
	g.nvars = g.nvars ? g.nvars : c.rng.in(1, 4);
	std::vector<X> pool;
	g.pool = &pool;
	std::string d;
	for (int i = 0; i < n_expr; ++i) {
		X x = gen(c.rng, g);
		if (named && c.rng.chance(0.3)) {   // a named subfunction, used by others
			auto f = mk(Op::Fun, {x});
			f->name = "F" + std::to_string(i);
			pool.push_back(f);
			x = c.rng.chance(0.5) ? f : xsum({f, xvar(0)});
		}
		T.ex.push_back(x);
		d += x->str() + " ; ";
	}
	c.desc(d);
	for (int i = 0; i < g.nvars; ++i) T.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	T.t = bn::Variable::Make("t");
	T.tn.vars = T.vars;
	T.tn.t = T.t;
	T.tn.r = &c.rng;
	for (auto& x : T.ex) T.nodes.push_back(T.tn(x));
	return T;
}
template <typename T> void set_vars(Tree& tr, Point const& p, unsigned digits) {
	for (size_t i = 0; i < tr.vars.size(); ++i) tr.vars[i]->set_current_value<T>(to_num<T>(p.x[i], digits));
	tr.t->set_current_value<T>(to_num<T>(p.t, digits));
}
void go_precision(Tree& tr, unsigned digits) {
	bertini::DefaultPrecision(digits);
	for (auto& n : tr.nodes) n->precision(digits);
	for (auto& v : tr.vars) v->precision(digits);
	tr.t->precision(digits);
}
std::string opsig(X const& x) {
	std::set<int> s;
	ops_of(x, s);
	std::string o;
	for (int i : s) o += std::to_string(i) + ",";
	return o + "w" + std::to_string(std::min<size_t>(weight(x), 60) / 4);
}
void judge(Case& c, X const& x, HC const& got, V const& want, unsigned digits, std::string const& key, Point const& p) {
	int a = agrees(got, want, digits);
	if (a < 0) { c.obs("inconclusive"); return; }
	c.check(a == 1, key, key + " of " + x->str() + " at " + show(p) + " digits " + std::to_string(digits) + ": " + diff(got, want));
}

// E01: the value of an expression
void value_case(Case& c) {
	GenOpt g;
	g.nvars = c.rng.in(1, 4);
	g.path = c.rng.chance(0.4);
	g.poly = c.rng.chance(0.35);
	g.allow_div = true;
	g.depth = c.rng.in(1, 5);
	unsigned p0 = c.rng.pick(kPrec);
	bertini::DefaultPrecision(p0);
	Tree T = make_tree(c, g, c.rng.in(1, 4), true);
	for (int rep = 0; rep < 3; ++rep) {
		Point p = rand_point(c.rng, T.vars.size());
		unsigned prec = rep == 0 ? p0 : c.rng.pick(kPrec);
		if (prec != p0) c.obs("precision changed between evaluations");
		go_precision(T, prec);
		bool dfirst = c.rng.chance(0.5);
		for (int half = 0; half < 2; ++half) {
			bool use_d = (half == 0) == dfirst;
			if (use_d) set_vars<dbl>(T, p, 0); else set_vars<mpfr_complex>(T, p, prec);
			for (size_t i = 0; i < T.nodes.size(); ++i) T.nodes[i]->Reset();
			for (size_t i = 0; i < T.nodes.size(); ++i) {
				try {
					V want = Oracle(p)(T.ex[i]).v;
					HC got;
					if (use_d) got = hc(c.rng.chance(0.5) ? T.nodes[i]->Eval<dbl>() : [&] { dbl r; T.nodes[i]->EvalInPlace<dbl>(r); return r; }());
					else {
						mpfr_complex r;
						if (c.rng.chance(0.5)) r = T.nodes[i]->Eval<mpfr_complex>(); else T.nodes[i]->EvalInPlace<mpfr_complex>(r);
						got = hc(r);
						c.check(r.precision() == prec, "result-precision", "asked " + std::to_string(prec) + " got " + std::to_string(r.precision()) + " for " + T.ex[i]->str());
					}
					judge(c, T.ex[i], got, want, use_d ? 0 : prec, use_d ? "value-double" : "value-multiprecision", p);
					c.obs(use_d ? "double evaluations" : "multiprecision evaluations");
					if (weight(T.ex[i]) > 2) c.sig(T.ex[i]->str());
				} catch (Inconclusive&) { c.obs("inconclusive"); }
			}
		}
	}
	for (auto& x : T.ex) { std::set<int> s; ops_of(x, s); for (int o : s) c.obs("op " + std::to_string(o)); }
}
Register r1("E01", 16000, 80000, value_case, 30);

// E03: derivatives of expressions (nodes); systems' Jacobians are in h_system
void deriv_case(Case& c) {
	GenOpt g;
	g.nvars = c.rng.in(1, 3);
	g.path = c.rng.chance(0.4);
	g.poly = c.rng.chance(0.4);
	g.allow_div = true;
	g.depth = c.rng.in(1, 4);
	unsigned p0 = c.rng.pick(kPrec);
	bertini::DefaultPrecision(p0);
	Tree T = make_tree(c, g, c.rng.in(1, 2), true);
	struct D { Nd n; long v; size_t i; };
	std::vector<D> ds;
	for (size_t i = 0; i < T.nodes.size(); ++i)
		for (long v = g.path ? -1 : 0; v < g.nvars; ++v) {
			ds.push_back({T.nodes[i]->Differentiate(v < 0 ? T.t : T.vars[v]), v, i});
			if (c.rng.chance(0.2)) { ds.back().n = bn::Function::Make(ds.back().n, "d"); }
		}
	// Jacobian node: one tree for all variables
	std::vector<std::shared_ptr<bn::Jacobian>> jac;
	for (auto& n : T.nodes) jac.push_back(bn::Jacobian::Make(n->Differentiate()));
	for (int rep = 0; rep < 2; ++rep) {
		Point p = rand_point(c.rng, T.vars.size());
		unsigned prec = rep == 0 ? p0 : c.rng.pick(kPrec);
		go_precision(T, prec);
		for (auto& d : ds) d.n->precision(prec);
		for (auto& j : jac) j->precision(prec);
		for (int use_d = 0; use_d < 2; ++use_d) {
			if (use_d) set_vars<dbl>(T, p, 0); else set_vars<mpfr_complex>(T, p, prec);
			for (auto& d : ds) d.n->Reset();
			for (auto& d : ds) {
				try {
					V want = Oracle(p, d.v)(T.ex[d.i]).d;
					HC got = use_d ? hc(d.n->Eval<dbl>()) : hc(d.n->Eval<mpfr_complex>());
					judge(c, T.ex[d.i], got, want, use_d ? 0 : prec, use_d ? "derivative-double" : "derivative-multiprecision", p);
					c.obs("derivative nodes evaluated");
					if (habs(want.v) > 0) { c.sig(T.ex[d.i]->str() + "/" + std::to_string(d.v)); c.obs("nonzero derivatives"); }
					// the Jacobian-node form of the same derivative
					jac[d.i]->Reset();
					Var v = d.v < 0 ? T.t : T.vars[d.v];
					HC gj = use_d ? hc(jac[d.i]->EvalJ<dbl>(v)) : hc(jac[d.i]->EvalJ<mpfr_complex>(v));
					judge(c, T.ex[d.i], gj, want, use_d ? 0 : prec, "jacobian-node", p);
					c.obs("jacobian nodes evaluated");
				} catch (Inconclusive&) { c.obs("inconclusive"); }
			}
		}
	}
}
Register r3("E03", 12000, 48000, deriv_case, 30);
// E08: what is printed. The reader of the text knows the usual rules only: powers before products before sums, from left to
// right, a leading minus below a power, (a,b) for a complex number, and "name function (...)" for a named function.
struct Reader {
	std::string s;
	std::map<std::string, long> vars;
	size_t i = 0;
	struct Bad { std::string what; };
	char at() { while (i < s.size() && s[i] == ' ') ++i; return i < s.size() ? s[i] : '\0'; }
	bool eat(char ch) { if (at() == ch) { ++i; return true; } return false; }
	void need(char ch) { if (!eat(ch)) throw Bad{std::string("expected ") + ch + " at " + s.substr(i, 20)}; }
	static X number(HC const& v) { auto x = mk(Op::Rat); x->big = std::make_shared<HC>(v); return x; }
	bool digits_ahead() { return isdigit(static_cast<unsigned char>(at())); }
	HR real() {   // [-]digits[.digits][e[+-]digits][/digits]
		bool minus = eat('-');
		if (!minus) eat('+');
		auto one = [&] {
			if (!digits_ahead()) throw Bad{"expected a number at " + s.substr(i, 20)};
			size_t a = i;
			while (i < s.size() && (isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.')) ++i;
			if (i + 1 < s.size() && (s[i] == 'e' || s[i] == 'E') && (isdigit(static_cast<unsigned char>(s[i + 1])) || ((s[i + 1] == '-' || s[i + 1] == '+') && i + 2 < s.size() && isdigit(static_cast<unsigned char>(s[i + 2]))))) {
				i += 2;
				while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i;
			}
			HR r(0);
			mpfr_set_str(r.backend().data(), s.substr(a, i - a).c_str(), 10, MPFR_RNDN);
			return r;
		};
		HR r = one();
		if (slashed && at() == '/') { ++i; r /= one(); }
		return minus ? HR(-r) : r;
	}
	bool slashed = false;
	bool complex_ahead() {   // "(number,": nothing else has a comma
		size_t j = i;
		if (at() != '(') return false;
		for (j = i + 1; j < s.size(); ++j) {
			if (s[j] == ',') return true;
			if (!isdigit(static_cast<unsigned char>(s[j])) && !strchr("+-./eE ", s[j])) return false;
		}
		return false;
	}
	X sum() {
		std::vector<X> c;
		std::vector<bool> f;
		bool plus = true;
		for (;;) {
			c.push_back(product());
			f.push_back(plus);
			if (eat('+')) plus = true;
			else if (eat('-')) plus = false;
			else break;
		}
		return c.size() == 1 ? c[0] : xsum(c, f);
	}
	X product() {
		std::vector<X> c;
		std::vector<bool> f;
		bool times = true;
		for (;;) {
			c.push_back(factor());
			f.push_back(times);
			if (eat('*')) times = true;
			else if (eat('/')) times = false;
			else break;
		}
		return c.size() == 1 ? c[0] : xmul(c, f);
	}
	X factor() {
		if (eat('-')) return mk(Op::Neg, {factor()});
		X b = atom();
		if (!eat('^')) return b;
		size_t a = i;
		if (at() == '-' || digits_ahead()) {
			bool minus = eat('-');
			a = i;
			while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) ++i;
			if (i == a) throw Bad{"no exponent at " + s.substr(i, 20)};
			long n = std::stol(s.substr(a, i - a));
			return xpowi(b, minus ? -n : n);
		}
		return mk(Op::Pow, {b, atom()});
	}
	X atom() {
		if (complex_ahead()) {
			need('(');
			slashed = true;
			HR re = real();
			need(',');
			HR im = real();
			slashed = false;
			need(')');
			return number(HC(re, im));
		}
		if (eat('(')) { X x = sum(); need(')'); return x; }
		if (digits_ahead()) return number(HC(real()));
		size_t a = i;
		while (i < s.size() && (isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) ++i;
		std::string w = s.substr(a, i - a);
		if (w.empty()) throw Bad{"nothing to read at " + s.substr(i, 20)};
		auto v = vars.find(w);
		if (v != vars.end()) return xvar(v->second);
		if (w == "pi") return mk(Op::Pi);
		if (w == "e") return mk(Op::E);
		static const std::map<std::string, Op> fs{{"sqrt", Op::Sqrt}, {"exp", Op::Exp}, {"log", Op::Log}, {"sin", Op::Sin}, {"cos", Op::Cos}, {"tan", Op::Tan}, {"asin", Op::Asin}, {"acos", Op::Acos}, {"atan", Op::Atan}};
		auto f = fs.find(w);
		if (f != fs.end()) { need('('); X x = sum(); need(')'); return mk(f->second, {x}); }
		if (at() == 'f' && s.compare(i, 8, "function") == 0) { i += 8; need('('); X x = sum(); need(')'); return x; }
		throw Bad{"unknown name " + w};
	}
	X all() { X x = sum(); if (at() != '\0') throw Bad{"text left over: " + s.substr(i, 20)}; return x; }
};
void print_case(Case& c) {
	GenOpt g;
	g.nvars = c.rng.in(1, 4);
	g.path = c.rng.chance(0.4);
	g.poly = c.rng.chance(0.35);
	g.allow_div = true;
	g.depth = c.rng.in(1, 4);
	bertini::DefaultPrecision(30);
	Tree T = make_tree(c, g, c.rng.in(1, 3), true);
	struct D { Nd n; long v; size_t i; };
	std::vector<D> ds;
	for (size_t i = 0; i < T.nodes.size(); ++i) {
		ds.push_back({T.nodes[i], -2, i});
		if (c.rng.chance(0.3)) { long v = c.rng.in(0, g.nvars - 1); ds.push_back({T.nodes[i]->Differentiate(T.vars[v]), v, i}); }
	}
	for (auto& d : ds) {
		std::ostringstream o;
		o.precision(60);
		o << *d.n;
		Reader rd;
		rd.s = o.str();
		for (int i = 0; i < g.nvars; ++i) rd.vars["x" + std::to_string(i)] = i;
		rd.vars["t"] = -1;
		X back;
		try { back = rd.all(); }
		catch (Reader::Bad& b) { c.check(false, "unreadable", b.what + " in the text " + rd.s + " of " + T.ex[d.i]->str()); continue; }
		for (int rep = 0; rep < 3; ++rep) {
			Point p = rand_point(c.rng, T.vars.size());
			try {
				Dual w = Oracle(p, d.v)(T.ex[d.i]);
				V want = d.v == -2 ? w.v : w.d;
				HC got = Oracle(p)(back).v.v;
				int a = agrees(got, want, 28);
				if (a < 0) { c.obs("inconclusive"); continue; }
				c.check(a == 1, d.v == -2 ? "text" : "text-of-derivative", "printed " + rd.s + " for " + (d.v == -2 ? "" : "a derivative of ") + T.ex[d.i]->str() + " at " + show(p) + ": " + diff(got, want));
				c.obs(d.v == -2 ? "texts of expressions read" : "texts of derivatives read");
			} catch (Inconclusive&) { c.obs("inconclusive"); }
		}
		if (weight(T.ex[d.i]) > 2) c.sig(rd.s);
	}
}
Register r8("E08", 8000, 60000, print_case, 30);
// E04: simplification
void simplify_case(Case& c) {
	Rng& r = c.rng;
	GenOpt g;
	g.nvars = r.in(1, 3);
	g.path = r.chance(0.4);
	g.poly = r.chance(0.5);
	g.allow_div = true;
	g.depth = r.in(1, 5);
	g.max_pow = 3;
	unsigned p0 = r.pick(kPrec);
	bertini::DefaultPrecision(p0);
	Tree T = make_tree(c, g, r.in(1, 3), false);
	// expressions and some of their derivatives are simplified, in place; the others share nodes with them
	struct D { Nd n; long v; size_t i; };
	std::vector<D> ds;
	for (size_t i = 0; i < T.nodes.size(); ++i) {
		ds.push_back({T.nodes[i], -2, i});
		for (long v = 0; v < g.nvars; ++v) if (r.chance(0.4)) ds.push_back({T.nodes[i]->Differentiate(T.vars[v]), v, i});
	}
	for (int rep = 0; rep < 2; ++rep) {
		// simplification looks at the value at a point, which has to be a general one
		Point at = rand_point(r, T.vars.size(), 0);
		for (size_t i = 0; i < T.vars.size(); ++i) { double a = r.u(0, 6.28318), m = r.u(0.7, 1.3); dbl z(m * cos(a), m * sin(a)); T.vars[i]->set_current_value<dbl>(z); at.x[i] = hc(z); }
		{ double a = r.u(0, 6.28318); dbl z(cos(a), sin(a)); T.t->set_current_value<dbl>(z); at.t = hc(z); }
		for (auto& d : ds) d.n->Reset();
		for (auto& d : ds) if (rep == 1 || r.chance(0.6)) {
			bool fin = std::isfinite(std::abs(d.n->Eval<dbl>()));
			if (!fin) { c.obs("not simplified: not finite at the point"); continue; }
			// nor may a part vanish there for rounding or underflow alone
			try { for (auto& e : ds) { Dual w = Oracle(at, e.v)(T.ex[e.i]); (void)w; } } catch (Inconclusive&) { c.obs("not simplified: no general point"); continue; }
			unsigned k = bertini::Simplify(d.n);
			c.obs("simplified");
			if (k) c.obs("changed by simplification");
			for (auto& e : ds) e.n->Reset();
		}
		Point p = rand_point(r, T.vars.size(), 0);
		unsigned prec = r.pick(kPrec);
		go_precision(T, prec);
		for (auto& d : ds) d.n->precision(prec);
		for (int use_d = 0; use_d < 2; ++use_d) {
			if (use_d) set_vars<dbl>(T, p, 0); else set_vars<mpfr_complex>(T, p, prec);
			for (auto& d : ds) d.n->Reset();
			for (auto& d : ds) {
				try {
					Dual w = Oracle(p, d.v)(T.ex[d.i]);
					V want = d.v == -2 ? w.v : w.d;
					HC got = use_d ? hc(d.n->Eval<dbl>()) : hc(d.n->Eval<mpfr_complex>());
					judge(c, T.ex[d.i], got, want, 0, d.v == -2 ? "value-after-simplification" : "derivative-after-simplification", p);
					c.obs("values judged");
					if (weight(T.ex[d.i]) > 3) c.sig(T.ex[d.i]->str() + "/" + std::to_string(d.v));
				} catch (Inconclusive&) { c.obs("inconclusive"); }
			}
		}
	}
}
Register r4("E04", 16000, 64000, simplify_case, 30);
void noop() { bertini::DefaultPrecision(16); }
} // namespace

int main(int argc, char** argv) {
	before_case() = noop;
	return run_main(argc, argv);
}
