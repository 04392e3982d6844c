// Systems: evaluation by every method, operation histories, precision, algebra.
#include "sysmodel.hpp"
using namespace vf;
using bertini::System;
using bertini::EvalMethod;
using bertini::DerivMethod;

namespace {
const std::vector<unsigned> kPrec{16, 20, 30, 50, 77, 100};

std::string sigof(SysModel const& m) { std::string s; for (auto& f : m.fun) s += f->str() + ";"; return s; }

void methods(System& s, int k) {
	s.SetEvalMethod(k & 1 ? EvalMethod::SLP : EvalMethod::FunctionTree);
	s.SetDerivMethod(k & 2 ? DerivMethod::JacobianNode : DerivMethod::Derivatives);
	s.SetAutoSimplify(k & 4);
}
std::string mname(int k) { return std::string(k & 1 ? "SLP" : "FunctionTree") + (k & 2 ? "+JacobianNode" : "+Derivatives") + (k & 4 ? "+simplify" : ""); }

// E02: every method of evaluation and differentiation computes the same functions
void methods_case(Case& c) {
	SysGen o;
	o.max_vars = 4;
	o.depth = 4;
	bertini::DefaultPrecision(c.rng.pick(kPrec));
	SysModel m = gen_model(c.rng, o);
	if (c.rng.chance(0.25)) m.fun.push_back(m.fun[0]), m.names.push_back("again");   // the same function twice
	if (c.rng.chance(0.2)) m.fun.push_back(xvar(0)), m.names.push_back("bare");
	if (c.rng.chance(0.2)) m.fun.push_back(xint(c.rng.in(-3, 3))), m.names.push_back("const");
	c.desc(m.str());
	System s;
	add_groups(m, s);
	add_functions(m, s, &c.rng);
	std::vector<int> ks{0, 1, 2, 3, 4, 5, 6, 7};
	for (int i = 7; i > 0; --i) std::swap(ks[i], ks[c.rng.in(0, i)]);
	ks.resize(5);
	std::vector<System> ss;
	bool fresh = c.rng.chance(0.5);
	for (int k : ks) { if (fresh) { ss.push_back(s); methods(ss.back(), k); } }
	for (int rep = 0; rep < 2; ++rep) {
		Point p = rand_point(c.rng, m.vars.size());
		unsigned prec = c.rng.pick(kPrec);
		for (size_t i = 0; i < ks.size(); ++i) {
			System& u = fresh ? ss[i] : s;
			if (!fresh) methods(u, ks[i]);
			go(u, prec);
			check_system<dbl>(c, u, m, p, 0, "method", mname(ks[i]), 7, c.rng.in(0, 2), &c.rng);
			check_system<mpfr_complex>(c, u, m, p, prec, "method", mname(ks[i]), 7, c.rng.in(0, 2), &c.rng);
			c.obs("evaluated with " + mname(ks[i]));
		}
	}
	c.sig(sigof(m));
}
Register rE02("E02", 1200, 30000, methods_case, 60);

// S01: histories of operations on systems; what a system evaluates is what it was last told to be
struct Member { System s; SysModel m; std::string what; };

void history_case(Case& c) {
	Rng& r = c.rng;
	SysGen o;
	o.max_vars = 4;
	o.depth = 3;
	o.max_fun = 3;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	SysModel m = gen_model(r, o);
	// implicit parameters: further model variables, in no group
	size_t npar = r.chance(0.3) ? r.in(1, 2) : 0;
	std::vector<Var> par;
	long first_par = m.vars.size();
	for (size_t i = 0; i < npar; ++i) {
		par.push_back(bn::Variable::Make("par" + std::to_string(i)));
		m.vars.push_back(par.back());
		m.fun[r.in(0, m.fun.size() - 1)] = xsum({m.fun[0], xmul({xvar(first_par + i), r.chance(0.5) ? xvar(0) : m.fun.back()})});
	}
	// variables which systems get later
	long first_spare = m.vars.size();
	for (int i = 0; i < 3; ++i) m.vars.push_back(bn::Variable::Make("late" + std::to_string(i)));
	m.tn.vars = m.vars;
	GenOpt go_;
	go_.nvars = static_cast<int>(first_par);
	go_.path = m.path;
	go_.poly = r.chance(0.6);
	go_.depth = 3;
	std::string trace = m.str() + " || ";
	c.desc(trace);
	std::vector<Member> w(1);
	w[0].m = m;
	add_groups(m, w[0].s);
	for (auto& v : par) w[0].s.AddImplicitParameter(v);
	add_functions(w[0].m, w[0].s, &r);
	auto all_go = [&](unsigned p) { for (auto& x : w) go(x.s, p); prec = p; };
	Point base = rand_point(r, m.vars.size());
	std::vector<HC> pval(base.x.begin() + first_par, base.x.begin() + first_spare);
	auto set_par = [&](System& s) {
		if (!npar) return;
		s.SetImplicitParameters<dbl>(to_vec<dbl>(pval, 0));
		s.SetImplicitParameters<mpfr_complex>(to_vec<mpfr_complex>(pval, prec));
	};
	auto say = [&](std::string const& t) { trace += t + " "; c.desc(trace); };
	all_go(prec);
	for (auto& x : w) set_par(x.s);
	std::string kinds;
	int steps = r.in(4, 14), fresh = 0;
	for (int st = 0; st < steps; ++st) {
		size_t i = r.in(0, w.size() - 1);
		Member& x = w[i];
		int op = r.in(0, 24);
		std::string id = std::to_string(i);
		if (op <= 7) {
			Point p = rand_point(r, m.vars.size());
			for (size_t k = 0; k < npar; ++k) p.x[first_par + k] = pval[k];
			bool d = r.chance(0.5);
			int which = r.in(1, 7), style = r.in(0, 2);
			say("eval" + id + (d ? "d" : "m" + std::to_string(prec)) + std::to_string(which) + std::to_string(style));
			if (d) check_system<dbl>(c, x.s, x.m, p, 0, "history", "after " + kinds, which, style, &r);
			else check_system<mpfr_complex>(c, x.s, x.m, p, prec, "history", "after " + kinds, which, style, &r);
			kinds += "e";
			continue;
		}
		switch (op) {
			case 8: { unsigned p = r.pick(kPrec); say("prec" + std::to_string(p)); all_go(p); for (auto& y : w) set_par(y.s); kinds += "p"; c.obs("op precision"); break; }
			case 9: { int k = r.in(0, 7); say("methods" + id + mname(k)); methods(x.s, k); kinds += "m"; c.obs("op methods"); break; }
			case 10: { say("diff" + id); x.s.Differentiate(); kinds += "d"; c.obs("op differentiate"); break; }
			case 11: case 12: {
				GenOpt gg = go_;
				gg.path = x.m.path;
				int how = r.in(0, 2);
				std::vector<std::shared_ptr<bn::Function>> many;
				for (int k = how == 2 ? r.in(1, 3) : 1; k > 0; --k) {
					X f = gen(r, gg);
					for (long v : x.m.order()) if (v >= first_spare && r.chance(0.5)) f = xsum({f, xmul({xvar(v), r.chance(0.5) ? xvar(0) : xint(3)})});
					x.m.fun.push_back(f);
					x.m.names.push_back("g" + std::to_string(++fresh));
					say("add" + id + "way" + std::to_string(how) + "[" + f->str() + "]");
					if (how == 0) x.s.AddFunction(x.m.tn(f), x.m.names.back());
					else many.push_back(bn::Function::Make(x.m.tn(f), x.m.names.back()));
				}
				if (how == 1) x.s.AddFunction(many[0]);
				if (how == 2) { x.s.AddFunctions(many); c.obs("op add several functions"); }
				go(x.s, prec);   // a new function comes at the default precision; say so to the system
				kinds += "a"; c.obs("op add function");
				break;
			}
			case 13: case 14: {
				bool dec = op == 13;
				say(std::string("reorder") + (dec ? "-" : "+") + id);
				std::vector<std::shared_ptr<bn::Function>> before;
				for (size_t k = 0; k < x.s.NumNaturalFunctions(); ++k) before.push_back(x.s.Function(k));
				if (dec) x.s.ReorderFunctionsByDegreeDecreasing(); else x.s.ReorderFunctionsByDegreeIncreasing();
				auto degs = x.s.Degrees(x.s.Variables());
				bool sorted = true;
				for (size_t k = 1; k < degs.size(); ++k) if (dec ? degs[k] > degs[k - 1] : degs[k] < degs[k - 1]) sorted = false;
				c.check(sorted, "reorder-not-sorted", "degrees not in order after reordering");
				std::vector<bool> used(before.size());
				std::vector<X> nf;
				std::vector<std::string> nn;
				bool perm = x.s.NumNaturalFunctions() == before.size();
				for (size_t k = 0; perm && k < before.size(); ++k) {
					size_t j = 0;
					while (j < before.size() && (used[j] || before[j] != x.s.Function(k))) ++j;
					if (j == before.size()) { perm = false; break; }
					used[j] = true;
					nf.push_back(x.m.fun[j]);
					nn.push_back(x.m.names[j]);
				}
				if (!c.check(perm, "reorder-not-permutation", "functions lost by reordering")) return;
				x.m.fun = nf;
				x.m.names = nn;
				kinds += "r"; c.obs("op reorder");
				break;
			}
			case 15: {
				X n = r.chance(0.5) ? gen_const(r, go_) : gen(r, go_, 1);
				say("scale" + id + "[" + n->str() + "]");
				x.s *= x.m.tn(n);
				for (auto& f : x.m.fun) f = xmul({n, f});
				go(x.s, prec);
				kinds += "s"; c.obs("op scale");
				break;
			}
			case 16: {
				size_t j = r.in(0, w.size() - 1);
				auto sorted_order = [](SysModel const& q) { auto v = q.order(); std::sort(v.begin(), v.end()); return v; };
				if (w[j].m.path != x.m.path || sorted_order(w[j].m) != sorted_order(x.m)) break;
				if (j == i || w[j].m.fun.size() != x.m.fun.size() || w[j].m.order().size() != x.m.order().size() || w[j].s.NumTotalVariableGroups() != x.s.NumTotalVariableGroups()) break;
				say("sum" + id + "+=" + std::to_string(j));
				x.s += w[j].s;
				for (size_t k = 0; k < x.m.fun.size(); ++k) x.m.fun[k] = xsum({x.m.fun[k], w[j].m.fun[k]});
				for (auto& e : w[j].m.tn.memo) x.m.tn.memo.insert(e);
				kinds += "+"; c.obs("op add systems");
				break;
			}
			case 17: case 18: {
				int how = r.in(0, 3);
				say("copy" + id + "way" + std::to_string(how));
				if (how == 0 && w.size() < 4) { Member y; y.s = System(x.s); y.m = x.m; w.push_back(std::move(y)); }
				else if (how == 1 && w.size() < 4) { Member y; y.m = x.m; w.push_back(std::move(y)); w.back().s = w[i].s; }
				else if (how == 2 && w.size() < 4) { System t(x.s); Member y; y.m = x.m; w.push_back(std::move(y)); w.back().s = std::move(t); }
				else if (w.size() > 1) { size_t j = (i + 1) % w.size(); swap(w[i].s, w[j].s); std::swap(w[i].m, w[j].m); }
				kinds += "c"; c.obs("op copy/assign/move/swap");
				break;
			}
			case 19: {
				// the same variables, grouped and ordered differently
				SysModel g = x.m;
				std::vector<long> ord = g.order();
				for (int k = static_cast<int>(ord.size()) - 1; k > 0; --k) std::swap(ord[k], ord[r.in(0, k)]);
				g.groups.clear();
				g.kind.clear();
				for (size_t at = 0; at < ord.size();) {
					size_t sz = std::min<size_t>(ord.size() - at, r.in(1, 3));
					g.groups.push_back(std::vector<long>(ord.begin() + at, ord.begin() + at + sz));
					g.kind.push_back(r.in(0, 1));
					at += sz;
				}
				say("regroup" + id);
				System donor;
				add_groups(g, donor);
				if (r.chance(0.5)) donor.Variables();
				if (r.chance(0.5)) x.s.CopyVariableStructure(donor);
				else { x.s.ClearVariables(); add_groups(g, x.s); }
				x.m.groups = g.groups;
				x.m.kind = g.kind;
				kinds += "v"; c.obs("op regroup variables");
				break;
			}
			case 20: {
				if (!npar) break;
				for (auto& z : pval) z = rand_coord(r, 0);
				say("params");
				for (auto& y : w) set_par(y.s);
				kinds += "i"; c.obs("op set parameters");
				break;
			}
			case 22: case 23: {
				// more variables, which the functions so far do not have
				std::vector<long> v;
				auto have = x.m.order();
				for (long k = first_spare; k < static_cast<long>(x.m.vars.size()); ++k) if (std::find(have.begin(), have.end(), k) == have.end()) v.push_back(k);
				if (v.empty()) break;
				v.resize(r.in(1, v.size()));
				bertini::VariableGroup g;
				for (long k : v) g.push_back(x.m.vars[k]);
				int kind = r.in(0, 2);
				say("variables" + id + "kind" + std::to_string(kind) + "x" + std::to_string(v.size()));
				if (kind == 0) x.s.AddVariableGroup(g);
				else if (kind == 1) x.s.AddHomVariableGroup(g);
				else if (v.size() == 1) x.s.AddUngroupedVariable(g[0]);
				else x.s.AddUngroupedVariables(g);
				if (kind < 2) { x.m.groups.push_back(v); x.m.kind.push_back(kind); }
				else for (long k : v) { x.m.groups.push_back({k}); x.m.kind.push_back(2); }
				go(x.s, prec);
				kinds += "V"; c.obs("op add variables");
				break;
			}
			case 24: {
				if (x.m.path) break;
				say("path" + id);
				x.s.AddPathVariable(x.m.t);
				x.m.path = true;
				go(x.s, prec);
				kinds += "t"; c.obs("op add path variable");
				break;
			}
			case 21: {
				// whatever values things were last given
				bool special = r.chance(0.5);
				say("simplify" + id + (special ? "at0/1" : ""));
				if (special) {
					if (npar) { Vec<dbl> z(npar); for (size_t k = 0; k < npar; ++k) z(k) = dbl(r.in(0, 1), 0); x.s.SetImplicitParameters<dbl>(z); }
					auto ord = x.m.order();
					Vec<dbl> z(ord.size());
					for (size_t k = 0; k < ord.size(); ++k) z(k) = dbl(r.in(0, 1), 0);
					if (x.m.path) { dbl tt(r.in(0, 1), 0); x.s.Eval(z, tt); } else x.s.Eval(z);
					c.obs("simplified at special values");
				}
				if (r.chance(0.5)) x.s.Simplify(); else x.s.SimplifyDerivatives();
				if (special) for (auto& y : w) set_par(y.s);
				kinds += "S"; c.obs("op simplify");
				break;
			}
		}
	}
	for (auto& x : w) {
		Point p = rand_point(r, m.vars.size());
		for (size_t k = 0; k < npar; ++k) p.x[first_par + k] = pval[k];
		check_system<dbl>(c, x.s, x.m, p, 0, "history", "at the end, after " + kinds, 7, 0, &r);
		check_system<mpfr_complex>(c, x.s, x.m, p, prec, "history", "at the end, after " + kinds, 7, 0, &r);
	}
	c.sig(kinds);
	c.obs("histories with several systems", w.size() > 1);
}
Register rS01("S01", 7500, 60000, history_case, 60);

// S02: precision changes neither lose nor invent digits
void precision_case(Case& c) {
	Rng& r = c.rng;
	SysGen o;
	o.max_vars = 3;
	o.depth = 4;
	bertini::DefaultPrecision(100);
	SysModel m = gen_model(r, o);
	// coefficients which are exact in no precision, given to 100 digits
	for (auto& f : m.fun) {
		auto z = mk(Op::Flt);
		z->n = r.in(1, 40) * (r.chance(0.5) ? 1 : -1); z->n2 = r.pick(std::vector<long>{3, 7, 11, 13}); z->m = r.chance(0.5) ? r.in(1, 20) : 0; z->m2 = 17;
		f = xsum({f, xmul({z, xvar(0)})});
		if (r.chance(0.5)) f = xsum({f, xmul({xrat(r.in(1, 9), 7, r.in(1, 9), 13), mk(r.pick(std::vector<Op>{Op::Pi, Op::E}))})});
	}
	c.desc(m.str());
	System s;
	add_groups(m, s);
	add_functions(m, s, &r);
	methods(s, r.in(0, 7));
	unsigned last = 100;
	std::string seq;
	System copy;
	bool have_copy = false;
	for (int st = 0; st < 6; ++st) {
		unsigned p = r.chance(0.25) ? last : r.pick(kPrec);
		seq += std::to_string(p) + " ";
		c.desc(m.str() + " precisions " + seq);
		go(s, p);
		if (have_copy) copy.precision(p);
		if (p > last) c.obs("precision raised");
		if (p < last) c.obs("precision lowered");
		last = p;
		Point q = rand_point(r, m.vars.size());
		if (r.chance(0.3)) check_system<dbl>(c, s, m, q, 0, "precision", "in double, sequence " + seq, 7, r.in(0, 2), &r);
		check_system<mpfr_complex>(c, s, m, q, p, "precision", "sequence " + seq, 7, r.in(0, 2), &r);
		c.check(s.precision() == p, "precision-reported", "system says " + std::to_string(s.precision()) + " was set to " + std::to_string(p));
		try { for (auto& f : m.fun) (void)Oracle(q).operator()(f); } catch (Inconclusive&) { continue; }
		auto x = ordered<mpfr_complex>(m, q, p);
		auto t = to_mp(q.t, p);
		auto f = m.path ? s.Eval(x, t) : s.Eval(x);
		auto J = m.path ? s.Jacobian(x, t) : s.Jacobian(x);
		for (long i = 0; i < f.size(); ++i) c.check(f(i).precision() == p, "precision-of-value", "value of " + m.fun[i]->str() + " has " + std::to_string(f(i).precision()) + " digits, working precision " + std::to_string(p));
		for (long i = 0; i < J.size(); ++i) c.check(J(i).precision() == p, "precision-of-jacobian", "an entry has " + std::to_string(J(i).precision()) + " digits, working precision " + std::to_string(p));
		if (have_copy) check_system<mpfr_complex>(c, copy, m, q, p, "precision", "a copy, sequence " + seq, 7, 0, &r);
		if (!have_copy && r.chance(0.3)) { copy = s; have_copy = true; }
	}
	c.sig(seq + sigof(m));
}
Register rS02("S02", 3000, 20000, precision_case, 60);

// S03: combining and copying systems: right results, operands unchanged
void algebra_case(Case& c) {
	Rng& r = c.rng;
	SysGen o;
	o.max_vars = 3;
	o.depth = 3;
	o.max_fun = 3;
	unsigned prec = r.pick(kPrec);
	bertini::DefaultPrecision(prec);
	SysModel a = gen_model(r, o), b = a;
	b.fun.clear();
	b.names.clear();
	GenOpt g;
	g.nvars = static_cast<int>(a.vars.size());
	g.path = a.path;
	g.poly = r.chance(0.5);
	g.depth = 3;
	for (size_t i = 0; i < a.fun.size(); ++i) { b.fun.push_back(r.chance(0.2) ? a.fun[i] : gen(r, g)); b.names.push_back("h" + std::to_string(i)); }
	X sc = r.chance(0.4) ? (a.path ? xvar(-1) : xvar(0)) : gen_const(r, g);
	c.desc("A: " + a.str() + " B: " + b.str() + " N: " + sc->str());
	System A, B;
	add_groups(a, A);
	add_groups(b, B);
	add_functions(a, A, &r);
	b.tn.memo = a.tn.memo;     // subexpressions are shared across the systems
	b.tn.funs = a.tn.funs;
	add_functions(b, B, &r);
	Nd N = a.tn(sc);
	methods(A, r.in(0, 7));
	methods(B, r.in(0, 7));
	auto look = [&](System& s, SysModel const& m, std::string const& ctx) {
		Point p = rand_point(r, m.vars.size());
		go(s, prec);
		if (r.chance(0.5)) check_system<dbl>(c, s, m, p, 0, "algebra", ctx, 7, 0, &r);
		check_system<mpfr_complex>(c, s, m, p, prec, "algebra", ctx, 7, 0, &r);
	};
	auto both = [&](std::string const& ctx) { look(A, a, "operand A after " + ctx); look(B, b, "operand B after " + ctx); };
	if (r.chance(0.7)) both("construction");
	std::string ops;
	for (int k = 0; k < 4; ++k) {
		int op = r.in(0, 10);
		System R;
		SysModel m = a;
		std::string ctx;
		switch (op) {
			case 0: R = A + B; for (size_t i = 0; i < m.fun.size(); ++i) m.fun[i] = xsum({a.fun[i], b.fun[i]}); ctx = "A+B"; break;
			case 1: R = N * A; for (auto& f : m.fun) f = xmul({sc, f}); ctx = "N*A"; break;
			case 2: R = A * N; for (auto& f : m.fun) f = xmul({sc, f}); ctx = "A*N"; break;
			case 3: R = Concatenate(A, B); m.fun.insert(m.fun.end(), b.fun.begin(), b.fun.end()); ctx = "Concatenate(A,B)"; break;
			case 4: R = N * A + B; for (size_t i = 0; i < m.fun.size(); ++i) m.fun[i] = xsum({xmul({sc, a.fun[i]}), b.fun[i]}); ctx = "N*A+B"; break;
			case 5: R = A; R += B; R *= N; for (size_t i = 0; i < m.fun.size(); ++i) m.fun[i] = xmul({sc, xsum({a.fun[i], b.fun[i]})}); ctx = "(A+=B)*=N of a copy"; break;
			case 6: R = Clone(A); ctx = "Clone(A)"; break;
			case 8: { System P(B); methods(P, r.in(0, 7)); if (r.chance(0.5)) look(P, b, "a copy of B"); R = A; if (r.chance(0.5)) look(R, a, "a copy of A"); swap(P, R); look(R, b, "A swapped with B"); look(P, a, "B swapped with A"); swap(R, P); ctx = "swap(A,B) twice"; break; }
			case 9: { System P(A); if (r.chance(0.5)) look(P, a, "a copy of A"); System Q(std::move(P)); if (r.chance(0.5)) look(Q, a, "A moved"); R = B; if (r.chance(0.5)) look(R, b, "a copy of B"); R = std::move(Q); ctx = "A moved over B"; break; }
			case 10: { R = B; if (r.chance(0.5)) look(R, b, "a copy of B"); R = A; System& me = R; R = me; ctx = "A assigned over B and itself"; break; }
			default: R = Concatenate(A, A); m.fun.insert(m.fun.end(), a.fun.begin(), a.fun.end()); ctx = "Concatenate(A,A)"; break;
		}
		c.note(" " + ctx);
		ops += std::to_string(op);
		c.obs("op " + ctx);
		c.check(R.NumNaturalFunctions() == m.fun.size(), "algebra-size", "number of functions of " + ctx);
		look(R, m, ctx);
		if (r.chance(0.5)) { R *= N; look(A, a, "operand A after scaling the result of " + ctx); }
		both(ctx);
	}
	c.sig(ops + sigof(a) + sigof(b));
}
Register rS03("S03", 2700, 20000, algebra_case, 60);

void before() { bertini::DefaultPrecision(16); }
} // namespace

int main(int argc, char** argv) {
	before_case() = before;
	return run_main(argc, argv);
}
