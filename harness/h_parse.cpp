// I01: text of systems.  I02: numbers written and read.
#include "sysmodel.hpp"
#include "bertini2/io/parsing/system_parsers.hpp"
#include "bertini2/io/parsing/number_parsers.hpp"
#include "bertini2/io/generators.hpp"

using namespace vf;
namespace {
// ------------------------------------------------------------------ writing expressions
struct Printer {
	Rng& r;
	std::vector<std::string> names;   // of the variables
	std::string tname;
	std::map<std::string, std::string> fun_names;
	double parens = 0.1, space = 0.3;
	std::string sp() {
		if (!r.chance(space)) return "";
		static const std::vector<std::string> w{" ", "  ", "\t", "\n", " \n "};
		return r.pick(w);
	}
	std::string wrap(std::string const& s, int have, int need) {
		if (have < need || r.chance(parens)) return "(" + sp() + s + sp() + ")";
		return s;
	}
	std::string digits(long n) {
		std::string s = std::to_string(n);
		if (r.chance(0.05)) s = "0" + s;
		return s;
	}
	// an exact decimal for n/2^k, n >= 0
	std::string decimal(long n, long d) {
		HR v = HR(n) / d;
		std::string s = v.str(12, std::ios_base::fixed);
		if (s.find('.') != std::string::npos) { while (s.back() == '0') s.pop_back(); }
		else s += ".";
		auto dot = s.find('.');
		switch (r.in(0, 6)) {
			case 0: return s;
			case 1: if (s.back() == '.') { s.pop_back(); return s + "e0"; } return s;
			case 2: if (dot == 1 && s[0] == '0' && s.size() > 2) return s.substr(1); return s;       // .5
			case 3: return s + (s.back() == '.' ? "0" : "") + "e0";
			case 4: {   // shift the point: integer mantissa
				std::string ip = s.substr(0, dot), fp = s.substr(dot + 1);
				return ip + fp + (r.chance(0.5) ? "e-" : "E-") + std::to_string(fp.size());
			}
			case 5: {
				std::string ip = s.substr(0, dot), fp = s.substr(dot + 1);
				std::string z = "0." + ip + fp;
				return z + (r.chance(0.5) ? "e" : "E") + (r.chance(0.4) ? "+" : "") + std::to_string(ip.size());
			}
			default: return s + (s.back() == '.' ? "" : "00");
		}
	}
	std::string num(long n, long d, bool flt) {   // level 3 for nonnegative numbers, 1 for quotients
		if (flt) return decimal(n, d);
		return d == 1 ? digits(n) : digits(n) + sp() + "/" + sp() + digits(d);
	}
	std::string pr(X const& x, int need) {
		switch (x->op) {
			case Op::Int:
				if (x->n < 0) return wrap("-" + sp() + digits(-x->n), 2, need);
				return wrap(digits(x->n), 3, need);
			case Op::Rat: case Op::Flt: {
				if (x->big) return wrap(x->name, 3, need);
				bool f = x->op == Op::Flt;
				std::string s = (x->n < 0 ? "-" : "") + num(std::labs(x->n), x->n2, f);
				if (x->m) s += sp() + (x->m < 0 ? "-" : "+") + sp() + (r.chance(0.5) ? "I*" : "i *") + num(std::labs(x->m), x->m2, f);
				int lev = x->m ? 0 : x->n < 0 || (!f && x->n2 != 1) ? 1 : 3;
				return wrap(s, lev, need);
			}
			case Op::Pi: return wrap(r.chance(0.5) ? "Pi" : "pi", 3, need);
			case Op::E: return wrap(r.chance(0.5) ? "E" : "e", 3, need);
			case Op::I: return wrap(r.chance(0.5) ? "I" : "i", 3, need);
			case Op::Var: return wrap(x->n < 0 ? tname : names.at(x->n), 3, need);
			case Op::Fun: return wrap(fun_names.at(x->name), 3, need);
			case Op::Sum: {
				std::string s = x->flag[0] ? (r.chance(0.03) ? "+" : "") : "-" + sp();
				s += pr(x->ch[0], 1);
				for (size_t i = 1; i < x->ch.size(); ++i) s += sp() + (x->flag[i] ? "+" : "-") + sp() + pr(x->ch[i], 1);
				return wrap(s, 0, need);
			}
			case Op::Mul: {
				std::string s = x->flag[0] ? "" : "1" + sp() + "/" + sp();
				s += pr(x->ch[0], 2);
				for (size_t i = 1; i < x->ch.size(); ++i) s += sp() + (x->flag[i] ? "*" : "/") + sp() + pr(x->ch[i], 2);
				return wrap(s, 1, need);
			}
			case Op::Neg: return wrap("-" + sp() + pr(x->ch[0], 2), 2, need);
			case Op::PowI: return wrap(pr(x->ch[0], 3) + sp() + "^" + sp() + (x->n < 0 ? (r.chance(0.5) ? "-" + digits(-x->n) : "(-" + digits(-x->n) + ")") : digits(x->n)), 2, need);
			case Op::Pow: return wrap(pr(x->ch[0], 3) + sp() + "^" + sp() + pr(x->ch[1], 3), 2, need);
			default: {
				static const std::map<Op, std::string> f{{Op::Sqrt, "sqrt"}, {Op::Exp, "exp"}, {Op::Log, "log"}, {Op::Sin, "sin"}, {Op::Cos, "cos"}, {Op::Tan, "tan"}};
				return wrap(f.at(x->op) + sp() + "(" + sp() + pr(x->ch[0], 0) + sp() + ")", 3, need);
			}
		}
	}
};
// the text format knows no inverse trigonometric functions
X known_only(X const& x, std::map<X, X>& memo, Rng& r) {
	auto it = memo.find(x);
	if (it != memo.end()) return it->second;
	auto y = std::make_shared<Ex>(*x);
	if (y->op == Op::Asin) y->op = Op::Sin;
	if (y->op == Op::Acos) y->op = Op::Cos;
	if (y->op == Op::Atan) y->op = Op::Exp;
	if ((y->op == Op::Flt || y->op == Op::Int) && r.chance(0.15)) {   // a long number
		bool integer = y->op == Op::Int;
		y->op = Op::Flt;
		std::string d;
		int n = r.in(1, integer ? 30 : 45);
		for (int i = 0; i < n; ++i) d += static_cast<char>('0' + r.in(i == 0 && n > 1 ? 1 : 0, 9));
		if (!integer) d.insert(r.in(0, n), ".");
		if (d == ".") d = "0.";
		if (!integer && n > 18) d += "e-" + std::to_string(r.in(n / 2, n));
		y->name = d;
		y->big = std::make_shared<HC>(HR(d), HR(0));
	}
	for (auto& c : y->ch) c = known_only(c, memo, r);
	return memo[x] = y;
}
const std::vector<std::string>& name_pool() {
	static const std::vector<std::string> p{"x", "x1", "x10", "x_1", "x[1]", "xy", "X", "y", "z", "e1", "Ix", "i_", "pi2", "Pix", "sinx", "expo", "logs", "si",
		"variable1", "variable_groups", "function_f", "constantx", "parameterp", "f", "f1", "f10", "f_", "F", "g", "ab", "a", "abc", "hom", "hom_variable_groupx", "pathvariables", "ee", "ii", "II", "lambda", "random1", "t1", "tt"};
	return p;
}
std::string fresh(Rng& r, std::set<std::string>& used) {
	for (;;) {
		std::string n = r.pick(name_pool());
		if (r.chance(0.25)) n += std::to_string(r.in(0, 12));
		if (used.insert(n).second) return n;
	}
}
bool parse_into(std::string const& s, bertini::System& sys) { return bertini::parsing::classic::parse(s.begin(), s.end(), sys); }

void i01(Case& c) {
	Rng& r = c.rng;
	bertini::DefaultPrecision(30);
	SysGen o;
	o.depth = 4;
	o.named_prob = 0.5;
	SysModel m = gen_model(r, o);
	std::map<X, X> memo;
	for (auto& f : m.fun) f = known_only(f, memo, r);
	// names
	std::set<std::string> used{"sin", "cos", "tan", "exp", "log", "sqrt"};
	Printer pr{r};
	if (r.chance(0.3)) pr.space = 0;
	if (r.chance(0.5)) pr.parens = 0;
	for (size_t i = 0; i < m.vars.size(); ++i) pr.names.push_back(fresh(r, used));
	pr.tname = fresh(r, used);
	std::vector<std::string> fn;
	for (size_t i = 0; i < m.fun.size(); ++i) fn.push_back(fresh(r, used));
	// the named subexpressions: constants, parameters or subfunctions
	struct Sub { std::string name; X x; int kind; };
	std::vector<Sub> subs;
	std::function<void(X const&)> find = [&](X const& x) {
		for (auto& k : x->ch) find(k);
		if (x->op != Op::Fun || pr.fun_names.count(x->name)) return;
		Sub s{fresh(r, used), x->ch[0], 0};
		pr.fun_names[x->name] = s.name;
		bool has_var = false;
		for (size_t v = 0; v < m.vars.size(); ++v) if (uses(x->ch[0], v)) has_var = true;
		std::function<bool(X const&)> has_fun = [&](X const& y) { if (y->op == Op::Fun) return true; for (auto& k : y->ch) if (has_fun(k)) return true; return false; };
		s.kind = has_var || has_fun(x->ch[0]) ? 0 : uses(x->ch[0], -1) ? 2 : 1;
		if (r.chance(0.2)) s.kind = 0;
		subs.push_back(s);
	};
	for (auto& f : m.fun) find(f);
	bool implicit = r.chance(0.15);
	std::string iname = implicit ? fresh(r, used) : "";
	// declarations
	std::vector<std::string> decl_order, text;
	auto nl = [&]() { return pr.sp(); };
	auto sepnl = [&]() -> std::string { static const std::vector<std::string> w{" ", "  ", "\t", "\n", " \n "}; return r.pick(w); };
	std::vector<std::string> gdecl;
	for (size_t g = 0; g < m.groups.size(); ++g) {
		std::string s = m.kind[g] == 0 ? "variable_group" : m.kind[g] == 1 ? "hom_variable_group" : "variable";
		s += sepnl();
		for (size_t k = 0; k < m.groups[g].size(); ++k) s += (k ? nl() + "," + nl() : "") + pr.names[m.groups[g][k]];
		gdecl.push_back(s + nl() + ";" + nl());
	}
	std::vector<std::vector<std::string>> decls;   // sequences whose order matters, shuffled together
	decls.push_back(gdecl);
	{
		std::vector<std::string> fd;
		size_t at = 0;
		while (at < fn.size()) {
			size_t n = r.in(1, fn.size() - at);
			std::string s = "function" + sepnl();
			for (size_t k = 0; k < n; ++k) s += (k ? nl() + "," + nl() : "") + fn[at + k];
			fd.push_back(s + nl() + ";" + nl());
			at += n;
		}
		decls.push_back(fd);
	}
	if (m.path) decls.push_back({"pathvariable" + sepnl() + pr.tname + nl() + ";" + nl()});
	if (implicit) decls.push_back({"implicit_parameter" + sepnl() + iname + nl() + ";" + nl()});
	for (auto& s : subs) if (s.kind) decls.push_back({(s.kind == 1 ? "constant" : "parameter") + sepnl() + s.name + nl() + ";" + nl()});
	std::string txt = nl();
	for (;;) {
		std::vector<size_t> live;
		for (size_t i = 0; i < decls.size(); ++i) if (!decls[i].empty()) live.push_back(i);
		if (live.empty()) break;
		size_t i = r.pick(live);
		txt += decls[i].front();
		decls[i].erase(decls[i].begin());
	}
	// definitions: subfunctions before their use, the others anywhere after
	std::vector<std::string> defs;
	for (auto& s : subs) defs.push_back(s.name + nl() + "=" + nl() + pr.pr(s.x, 0) + nl() + ";" + nl());
	std::vector<size_t> ord;
	for (size_t i = 0; i < m.fun.size(); ++i) ord.push_back(i);
	for (size_t i = ord.size(); i-- > 1;) std::swap(ord[i], ord[r.in(0, i)]);
	for (size_t i : ord) {
		bool self = m.fun[i]->op == Op::Fun;
		defs.push_back(fn[i] + nl() + "=" + nl() + pr.pr(m.fun[i], 0) + nl() + ";" + nl());
		if (self) c.obs("functions which are another one");
	}
	for (auto& d : defs) txt += d;
	c.desc(txt);
	for (auto& s : subs) c.obs(s.kind == 0 ? "subfunctions" : s.kind == 1 ? "constants" : "parameters");

	bool ok = true;
	bertini::System sys;
	if (r.chance(0.5)) { ok = parse_into(txt, sys); }
	else { try { sys = bertini::System(txt); } catch (std::runtime_error const&) { ok = false; } }
	if (!c.check(ok, "valid-rejected", "the text is valid, and was rejected; model " + m.str())) return;
	c.obs("texts parsed");
	// structure
	c.check(sys.NumNaturalFunctions() == m.fun.size(), "functions", "number of functions " + std::to_string(sys.NumNaturalFunctions()));
	auto ordv = m.order();
	auto vs = sys.Variables();
	if (!c.check(vs.size() == ordv.size(), "variables", "number of variables " + std::to_string(vs.size()))) return;
	// the order of the variables of a system: as its groups were declared
	for (size_t i = 0; i < vs.size(); ++i) c.check(vs[i]->name() == pr.names[ordv[i]], "variables", "variable " + std::to_string(i) + " is " + vs[i]->name() + " not " + pr.names[ordv[i]]);
	size_t na = 0, nh = 0, nu = 0;
	for (int k : m.kind) (k == 0 ? na : k == 1 ? nh : nu)++;
	c.check(sys.NumVariableGroups() == na && sys.NumHomVariableGroups() == nh && sys.NumUngroupedVariables() == nu, "groups", "numbers of groups");
	c.check(sys.HavePathVariable() == m.path, "path-variable", "path variable");
	if (m.path) c.check(sys.GetPathVariable()->name() == pr.tname, "path-variable", "name of the path variable");
	c.check(sys.NumImplicitParameters() == (implicit ? 1u : 0u), "implicit-parameters", "number of implicit parameters");
	for (size_t i = 0; i < m.fun.size() && i < sys.NumNaturalFunctions(); ++i) c.check(sys.Function(i)->name() == fn[i], "functions", "name of function " + std::to_string(i) + ": " + sys.Function(i)->name());
	size_t nc = 0, np = 0, nsf = 0;
	for (auto& s : subs) (s.kind == 0 ? nsf : s.kind == 1 ? nc : np)++;
	c.check(sys.NumConstants() == nc, "constants", "number of constants " + std::to_string(sys.NumConstants()));
	c.check(sys.NumParameters() == np, "parameters", "number of parameters " + std::to_string(sys.NumParameters()));
	// values
	for (int i = 0; i < 2; ++i) {
		Point p = rand_point(r, m.vars.size());
		if (r.chance(0.5)) { go(sys, 30); check_system<mpfr_complex>(c, sys, m, p, 30, "parsed", "text", r.in(1, 7), 0, &r); }
		else check_system<dbl>(c, sys, m, p, 16, "parsed", "text", r.in(1, 7), 0, &r);
	}
	c.sig(txt);

	// the same text, damaged
	for (int k = 0; k < 3; ++k) {
		std::string bad = txt;
		int how = r.in(0, 9);
		auto all = [&](char ch) { std::vector<size_t> v; for (size_t i = 0; i < bad.size(); ++i) if (bad[i] == ch) v.push_back(i); return v; };
		std::string what;
		switch (how) {
			case 0: { auto v = all(';'); bad.erase(r.pick(v), 1); what = "a semicolon removed"; break; }
			case 1: { auto v = all('('); auto w = all(')'); v.insert(v.end(), w.begin(), w.end()); if (v.empty()) continue; bad.erase(r.pick(v), 1); what = "a parenthesis removed"; break; }
			case 2: bad += fn[0] + "2nd = " + "undeclared_name + 1;"; what = "an undeclared name"; break;
			case 3: bad += "variable_group " + pr.names[0] + ";"; what = "a name declared again"; break;
			case 4: bad += "zz9 = " + pr.names[0] + " * / " + pr.names[0] + ";"; what = "two operators"; break;
			case 5: bad += "zz9 = " + pr.names[0] + " " + pr.names[0] + ";"; what = "no operator"; break;
			case 6: bad += "zz9 = 1.2.3;"; what = "a malformed number"; break;
			case 7: bad += "zz9 = sin 2;"; what = "a function without parentheses"; break;
			case 8: bad += "function variable;"; what = "a keyword as a name"; break;
			default: bad += "nonsense"; what = "something after the end"; break;
		}
		bertini::System keep;
		auto v = bn::Variable::Make("keep");
		keep.AddVariableGroup(bertini::VariableGroup{v});
		bool rejected;
		if (r.chance(0.5)) {
			rejected = !parse_into(bad, keep);
			if (rejected) c.check(keep.NumVariables() == 1 && keep.Variables()[0] == v, "failed-parse-changed-system", "a rejected text changed the system");
		} else {
			rejected = false;
			try { bertini::System s2(bad); } catch (std::runtime_error const&) { rejected = true; }
		}
		c.check(rejected, "invalid-accepted", what + " was accepted: " + bad);
		c.obs("damaged texts");
	}
}

// ------------------------------------------------------------------ numbers
double rand_double(Rng& r) {
	switch (r.in(0, 8)) {
		case 0: return 0;
		case 1: return r.in(-1000, 1000);
		case 2: return r.u(-1, 1);
		case 3: return std::ldexp(r.u(-1, 1), r.in(-900, 900));
		case 4: return std::pow(10.0, r.in(-300, 300)) * (r.chance(0.5) ? 1 : -1);
		case 5: return std::ldexp(1.0, r.in(-1000, 1000));
		case 6: return std::nextafter(std::pow(10.0, r.in(-20, 20)), r.chance(0.5) ? 0 : 1e300);
		case 7: return r.in(1, 9) * 1e5 + r.u();
		default: { uint64_t b; double d; do { b = r.next(); memcpy(&d, &b, 8); } while (!std::isfinite(d) || (d != 0 && std::abs(d) < 2.3e-300)); return d; }
	}
}
long ulps(double a, double b) {
	int64_t x, y;
	memcpy(&x, &a, 8); memcpy(&y, &b, 8);
	if (x < 0) x = INT64_MIN - x;
	if (y < 0) y = INT64_MIN - y;
	__int128 d = static_cast<__int128>(x) - y;
	if (d < 0) d = -d;
	return d > 1000000 ? 1000000 : static_cast<long>(d);
}
const long DBL_ULPS = 16;
template <typename T> bool read_back(std::string const& s, T& z) { return bertini::parsing::classic::parse(s.begin(), s.end(), z); }
mpfr_float rand_mp(Rng& r, unsigned digits) {
	mpfr_float x;
	x.precision(digits);
	switch (r.in(0, 6)) {
		case 0: x = r.in(-100, 100); return x;
		case 1: x = mpfr_float(r.u(-1, 1)); break;
		default: {
			x = 0;
			for (int k = 0; k < static_cast<int>(digits / 8) + 2; ++k) { x *= 4294967296.0; x += static_cast<double>(r.next() >> 32); }
			long sc = r.in(-400, 400);
			mpfr_mul_2si(x.backend().data(), x.backend().data(), sc - static_cast<long>(digits * 4), MPFR_RNDN);
			if (r.chance(0.5)) x = -x;
			if (r.chance(0.1)) { x = mpfr_float(std::to_string(r.in(1, 9)) + "e" + std::to_string(r.in(-600, 600))); }
		}
	}
	mpfr_float y; y.precision(digits); mpfr_set(y.backend().data(), x.backend().data(), MPFR_RNDN);
	return y;
}
void i02(Case& c) {
	Rng& r = c.rng;
	unsigned digits = r.in(16, 120);
	bertini::DefaultPrecision(digits);
	using Gen = bertini::generators::Classic;
	for (int k = 0; k < 6; ++k) {
		{
			double x = rand_double(r), y = rand_double(r);
			std::complex<double> z(x, y), w;
			std::string s;
			bool g = Gen::generate(std::back_inserter(s), z);
			c.desc("double complex written as " + s);
			c.check(g, "generate", "could not be written");
			if (c.check(read_back(s, w), "unreadable", "what was written for a complex double cannot be read: " + s))
				c.check(ulps(z.real(), w.real()) <= DBL_ULPS && ulps(z.imag(), w.imag()) <= DBL_ULPS, "double-changed", s + " read as off by ulps " + std::to_string(ulps(z.real(), w.real())) + " " + std::to_string(ulps(z.imag(), w.imag())));
			c.obs("complex doubles");
			long worst = std::max(ulps(z.real(), w.real()), ulps(z.imag(), w.imag()));
			if (worst) c.obs("off by some ulps");
			s.clear();
			bertini::generators::CPlusPlus::generate(std::back_inserter(s), z);
			std::complex<double> v;
			if (c.check(bertini::parsing::cplusplus::parse(s.begin(), s.end(), v), "unreadable", "what was written in C++ form cannot be read: " + s))
				c.check(ulps(z.real(), v.real()) <= DBL_ULPS && ulps(z.imag(), v.imag()) <= DBL_ULPS, "double-changed", s + " (C++ form)");
			// a double is written as a complex number
			s.clear();
			Gen::generate(std::back_inserter(s), x);
			if (c.check(read_back(s, w), "unreadable", "what was written for a double cannot be read: " + s))
				c.check(ulps(x, w.real()) <= DBL_ULPS && w.imag() == 0, "double-changed", s);
			// read by the multiprecision reader: the same number
			mpfr_complex m;
			s.clear();
			Gen::generate(std::back_inserter(s), z);
			if (c.check(read_back(s, m), "unreadable", "the multiprecision reader cannot read " + s)) {
				HC h = hc(m), e = hc(z);
				c.check(habs(h - e) <= habs(e) * hr(2e-15), "double-changed", s + " read in multiprecision as " + show(h));
			}
		}
		{
			mpfr_float x = rand_mp(r, digits), y = rand_mp(r, digits);
			std::string s;
			Gen::generate(std::back_inserter(s), x);
			c.desc("real written as " + s);
			// the reader may work with another default precision
			unsigned other = r.chance(0.5) ? digits : r.in(16, 150);
			bertini::DefaultPrecision(other);
			mpfr_float w;
			if (c.check(read_back(s, w), "unreadable", "what was written for a real cannot be read: " + s)) {
				HR a = hr(x), b = hr(w);
				// a text shorter than the default precision is read at that
				int have = std::min<unsigned>(digits, std::max<size_t>(other, s.size()));
				c.check(abs(a - b) <= abs(a) * pow(HR(10), -have + 1), "multiprecision-changed", s + " at " + std::to_string(digits) + " digits read as " + w.str());
				c.check(w.precision() >= std::min<unsigned>(digits, s.size()), "precision-lost", s + " read with precision " + std::to_string(w.precision()));
				if (mpfr_equal_p(x.backend().data(), w.backend().data())) c.obs("exactly equal");
			}
			bertini::DefaultPrecision(digits);
			mpfr_complex z(x, y), v;
			s.clear();
			Gen::generate(std::back_inserter(s), z);
			bertini::DefaultPrecision(other);
			if (c.check(read_back(s, v), "unreadable", "what was written for a complex number cannot be read: " + s)) {
				HC a = hc(z), b = hc(v);
				auto sp = s.find(' ');
				int have = std::min<unsigned>(digits, std::max<size_t>(other, std::min(sp, s.size() - sp - 1)));
				HR e = pow(HR(10), -have + 1);
				c.check(abs(a.real() - b.real()) <= abs(a.real()) * e && abs(a.imag() - b.imag()) <= abs(a.imag()) * e, "multiprecision-changed", s);
			}
			bertini::DefaultPrecision(digits);
			c.obs("multiprecision numbers");
			c.sig(s);
		}
		{   // vectors: one number a line
			long n = r.in(1, 4);
			Vec<mpfr_complex> v(n);
			for (long i = 0; i < n; ++i) v(i) = mpfr_complex(rand_mp(r, digits), rand_mp(r, digits));
			std::string s;
			Gen::generate(std::back_inserter(s), v);
			std::istringstream in(s);
			std::string line;
			long i = 0;
			while (std::getline(in, line)) {
				mpfr_complex w;
				if (c.check(i < n && read_back(line, w), "unreadable", "line " + line))
					c.check(habs(hc(w) - hc(v(i))) <= habs(hc(v(i))) * pow(HR(10), -static_cast<int>(digits) + 1), "multiprecision-changed", line);
				++i;
			}
			c.check(i == n, "vector-lines", "a vector of " + std::to_string(n) + " was written as " + std::to_string(i) + " lines");
		}
	}
	// not numbers
	static const std::vector<std::string> junk_{"", "1.2.3", "abc", "1e", "--1", "1 2 3", "0x12", "1,2", "e5", ".", "-", "1.5e+", "1 e5"};
	for (int k = 0; k < 3; ++k) {
		std::string s = r.pick(junk_);
		mpfr_float f;
		f = 7;
		mpfr_complex z(3, 4);
		double d = 5;
		std::complex<double> e(6, 7);
		{
			// two numbers need no space between them in a complex number: "1.2.3" is (1.2, 0.3) there
			c.check(!read_back(s, f) && f == 7, "not-a-number-accepted", "'" + s + "' read as a real");
			if (s != "1.2.3") c.check(!read_back(s, z) && z == mpfr_complex(3, 4), "not-a-number-accepted", "'" + s + "' read as a complex number");
			c.check(!read_back(s, d) && d == 5, "not-a-number-accepted", "'" + s + "' read as a double");
			if (s != "1.2.3") c.check(!read_back(s, e) && e == std::complex<double>(6, 7), "not-a-number-accepted", "'" + s + "' read as a complex double");
		}
		c.obs("texts which are not numbers");
	}
}
Register r1("I01", 12000, 300000, i01, 30);
Register r2("I02", 36000, 200000, i02, 30);
} // namespace
int main(int argc, char** argv) { return run_main(argc, argv); }
