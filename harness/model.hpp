// An independent model of expressions: own syntax tree, own evaluation at 120 digits with a running
// bound of the rounding error any sensible evaluation order commits, own forward-mode derivatives.
#pragma once
#include "bertini2/system.hpp"
#include "common.hpp"

namespace vf {
namespace bmp = boost::multiprecision;
using HC = bmp::number<bmp::backends::mpc_complex_backend<120>, bmp::et_off>;
using HR = bmp::number<bmp::mpfr_float_backend<120>, bmp::et_off>;
using bertini::dbl;
using bertini::mpfr_complex;
using bertini::mpfr_float;
using bertini::mpq_rational;
using Nd = std::shared_ptr<bertini::node::Node>;
using Var = std::shared_ptr<bertini::node::Variable>;
using bertini::Vec;
using bertini::Mat;

struct Inconclusive {};   // the oracle cannot judge at this point (branch cut, pole, overflow)

inline HR hr(double d) { return HR(d); }
inline HC hc(double re, double im = 0) { return HC(HR(re), HR(im)); }
inline HC hc(dbl z) { return hc(z.real(), z.imag()); }
inline HC hc(mpfr_complex const& z) {
	HC r;
	mpc_set(r.backend().data(), z.backend().data(), MPC_RNDNN);
	return r;
}
inline HR hr(mpfr_float const& z) {
	HR r;
	mpfr_set(r.backend().data(), z.backend().data(), MPFR_RNDN);
	return r;
}
inline HR hr(mpq_rational const& q) { HR r; mpfr_set_q(r.backend().data(), q.backend().data(), MPFR_RNDN); return r; }
inline mpfr_complex to_mp(HC const& h, unsigned digits) {
	mpfr_complex z;
	z.precision(digits);
	mpc_set(z.backend().data(), h.backend().data(), MPC_RNDNN);
	return z;
}
inline dbl to_dbl(HC const& h) { return dbl(static_cast<double>(h.real()), static_cast<double>(h.imag())); }
inline HR habs(HC const& z) {
	HR r;
	mpc_abs(r.backend().data(), z.backend().data(), MPFR_RNDU);
	return r;
}
inline bool finite(HC const& z) { return mpfr_number_p(mpc_realref(z.backend().data())) && mpfr_number_p(mpc_imagref(z.backend().data())); }
inline HR eps_of(unsigned digits) {   // unit of relative error at a working precision; 0 means double
	if (digits == 0) return HR(2.3e-16);
	return pow(HR(10), -static_cast<int>(digits));
}
inline std::string show(HC const& z, int d = 20) { return "(" + z.real().str(d) + "," + z.imag().str(d) + ")"; }
inline std::string show(HR const& z, int d = 8) { return z.str(d); }

struct V { HC v; HR e; };   // a value, and the error committed by working precision, in units of eps

inline V operator+(V const& a, V const& b) { return {a.v + b.v, a.e + b.e + habs(a.v) + habs(b.v)}; }
inline V neg(V const& a) { return {-a.v, a.e}; }
inline V operator*(V const& a, V const& b) { return {a.v * b.v, habs(a.v) * b.e + habs(b.v) * a.e + habs(a.v) * habs(b.v) + a.e * b.e * hr(2.3e-16)}; }
inline V operator/(V const& a, V const& b) {
	HR m = habs(b.v);
	if (m < hr(0.02) || b.e > m * hr(1e6)) throw Inconclusive{};
	return {a.v / b.v, a.e / m + habs(a.v) * b.e / (m * m) + habs(a.v) / m};
}
inline V exact(HC const& c) { return {c, hr(0)}; }
inline V rounded(HC const& c) { return {c, habs(c)}; }

inline void off_cut(HC const& z, bool left, bool both_real = false, bool both_imag = false) {
	// keep away from the branch cut of log/sqrt/pow (left), asin/acos (real, beyond 1), atan (imaginary, beyond i)
	HR im = abs(z.imag()), re = abs(z.real());
	if (left && z.real() <= 0 && im < hr(1e-2) * (HR(1) + re)) throw Inconclusive{};
	if (both_real && re > hr(0.9) && im < hr(0.05)) throw Inconclusive{};
	if (both_imag && im > hr(0.9) && re < hr(0.05)) throw Inconclusive{};
}
inline V func(V const& z, HC const& f, HC const& df) {
	if (!finite(f) || !finite(df)) throw Inconclusive{};
	return {f, habs(df) * z.e + 8 * habs(f) + 8 * habs(df) * habs(z.v)};
}
inline V vexp(V const& z) { if (habs(z.v) > 20) throw Inconclusive{}; HC f = exp(z.v); return func(z, f, f); }
inline V vlog(V const& z) { off_cut(z.v, true); if (habs(z.v) < hr(0.01)) throw Inconclusive{}; V r = func(z, log(z.v), HC(1) / z.v); r.e += 4; return r; }
inline V vsqrt(V const& z) { off_cut(z.v, true); if (habs(z.v) < hr(0.01)) throw Inconclusive{}; HC f = sqrt(z.v); return func(z, f, HC(1) / (2 * f)); }
inline V vsin(V const& z) { if (habs(z.v) > 15) throw Inconclusive{}; return func(z, sin(z.v), cos(z.v)); }
inline V vcos(V const& z) { if (habs(z.v) > 15) throw Inconclusive{}; return func(z, cos(z.v), -sin(z.v)); }
inline V vtan(V const& z) { if (habs(z.v) > 15) throw Inconclusive{}; HC c = cos(z.v); if (habs(c) < hr(0.05)) throw Inconclusive{}; return func(z, tan(z.v), HC(1) / (c * c)); }
inline HC csqrt1mz2(HC const& z) { return sqrt(HC(1) - z * z); }
inline V vasin(V const& z) { off_cut(z.v, false, true); HC s = csqrt1mz2(z.v); if (habs(s) < hr(0.05) || habs(z.v) > 50) throw Inconclusive{}; V r = func(z, asin(z.v), HC(1) / s); r.e += 4; return r; }
inline V vacos(V const& z) { off_cut(z.v, false, true); HC s = csqrt1mz2(z.v); if (habs(s) < hr(0.05) || habs(z.v) > 50) throw Inconclusive{}; V r = func(z, acos(z.v), HC(-1) / s); r.e += 4; return r; }
inline V vatan(V const& z) { off_cut(z.v, false, false, true); HC s = HC(1) + z.v * z.v; if (habs(s) < hr(0.05) || habs(z.v) > 50) throw Inconclusive{}; V r = func(z, atan(z.v), HC(1) / s); r.e += 4; return r; }
inline HC hpowi(HC const& z, int n) {
	HC r(1), b(z);
	unsigned m = n < 0 ? -static_cast<unsigned>(n) : n;
	while (m) { if (m & 1) r *= b; b *= b; m >>= 1; }
	return n < 0 ? HC(1) / r : r;
}
inline V vpowi(V const& z, int n) {
	if (n == 0) return exact(HC(1));
	if (n < 0 && habs(z.v) < hr(0.02)) throw Inconclusive{};
	HC f = hpowi(z.v, n);
	HR nn = hr(std::abs(n));
	// the derivative's size about the point, as far as the error reaches (which matters next to zero)
	HR pm = n == 1 ? HR(1) : n > 1 ? HR(pow(HR(habs(z.v) + z.e * hr(2.3e-16)), n - 1)) : HR(habs(f) / habs(z.v));
	return {f, nn * pm * z.e + 4 * nn * habs(f)};
}

enum class Op { Int, Rat, Flt, Pi, E, I, Var, Sum, Mul, Neg, PowI, Pow, Sqrt, Exp, Log, Sin, Cos, Tan, Asin, Acos, Atan, Fun };

struct Ex;
using X = std::shared_ptr<Ex>;
struct Ex {
	Op op;
	std::vector<X> ch;
	std::vector<bool> flag;   // Sum: added?  Mul: multiplied?
	long n = 0, n2 = 1, m = 0, m2 = 1;   // Int n; Rat n/n2 + i m/m2; Flt n/2^k..; PowI exponent; Var index
	std::string name;         // Fun
	std::shared_ptr<HC> big;  // Rat too long for the above
	std::string str() const;
};

inline X mk(Op o, std::vector<X> c = {}) { auto x = std::make_shared<Ex>(); x->op = o; x->ch = std::move(c); return x; }
inline X xint(long n) { auto x = mk(Op::Int); x->n = n; return x; }
inline X xrat(long n, long d, long m = 0, long md = 1) { auto x = mk(Op::Rat); x->n = n; x->n2 = d; x->m = m; x->m2 = md; return x; }
inline X xvar(long i) { auto x = mk(Op::Var); x->n = i; return x; }
inline X xsum(std::vector<X> c, std::vector<bool> s = {}) { auto x = mk(Op::Sum, c); x->flag = s.empty() ? std::vector<bool>(c.size(), true) : s; return x; }
inline X xmul(std::vector<X> c, std::vector<bool> s = {}) { auto x = mk(Op::Mul, c); x->flag = s.empty() ? std::vector<bool>(c.size(), true) : s; return x; }
inline X xpowi(X b, long n) { auto x = mk(Op::PowI, {b}); x->n = n; return x; }

inline std::string Ex::str() const {
	auto fn = [&](const char* f) { return std::string(f) + "(" + ch[0]->str() + ")"; };
	std::ostringstream o;
	switch (op) {
		case Op::Int: if (n < 0) o << "(" << n << ")"; else o << n; break;
		case Op::Rat: if (big) { o << "[" << show(*big, 6) << "]"; break; } o << "[" << n << "/" << n2 << "," << m << "/" << m2 << "]"; break;
		case Op::Flt: o << "{" << n << "/" << n2 << "," << m << "/" << m2 << "}"; break;
		case Op::Pi: o << "Pi"; break;
		case Op::E: o << "E"; break;
		case Op::I: o << "I"; break;
		case Op::Var: if (n < 0) o << "t"; else o << "x" << n; break;
		case Op::Sum: o << "("; for (size_t i = 0; i < ch.size(); ++i) o << (flag[i] ? (i ? "+" : "") : "-") << ch[i]->str(); o << ")"; break;
		case Op::Mul: o << "("; for (size_t i = 0; i < ch.size(); ++i) o << (flag[i] ? (i ? "*" : "") : (i ? "/" : "1/")) << ch[i]->str(); o << ")"; break;
		case Op::Neg: o << "-(" << ch[0]->str() << ")"; break;
		case Op::PowI: o << "(" << ch[0]->str() << ")^" << n; break;
		case Op::Pow: o << "(" << ch[0]->str() << ")^(" << ch[1]->str() << ")"; break;
		case Op::Sqrt: return fn("sqrt"); case Op::Exp: return fn("exp"); case Op::Log: return fn("log");
		case Op::Sin: return fn("sin"); case Op::Cos: return fn("cos"); case Op::Tan: return fn("tan");
		case Op::Asin: return fn("asin"); case Op::Acos: return fn("acos"); case Op::Atan: return fn("atan");
		case Op::Fun: return "fun:" + name + "{" + ch[0]->str() + "}";
	}
	return o.str();
}

// ------------------------------------------------------------------ oracle evaluation
struct Point { std::vector<HC> x; HC t = HC(0); };   // variable n is x[n]; the path variable is -1

struct Dual { V v, d; };
struct Oracle {
	Point const& p;
	long wrt;   // derivative with respect to this variable; -2 for none
	std::map<Ex const*, Dual> memo;
	Oracle(Point const& pp, long w = -2) : p(pp), wrt(w) {}
	Dual operator()(X const& x) { return at(x.get()); }
	Dual at(Ex const* x) {
		auto it = memo.find(x);
		if (it != memo.end()) return it->second;
		Dual r = raw(x);
		if (!finite(r.v.v) || !finite(r.d.v) || habs(r.v.v) > hr(1e60)) throw Inconclusive{};
		memo[x] = r;
		return r;
	}
	static V zero() { return exact(HC(0)); }
	Dual raw(Ex const* x) {
		auto c = [&](size_t i) { return at(x->ch[i].get()); };
		auto chain = [&](Dual const& a, V const& f, V const& df) { return Dual{f, df * a.d}; };
		V one = exact(HC(1));
		switch (x->op) {
			case Op::Int: return {rounded(HC(x->n)), zero()};
			case Op::Rat: case Op::Flt: if (x->big) return {rounded(*x->big), zero()}; return {rounded(HC(HR(x->n) / x->n2, HR(x->m) / x->m2)), zero()};
			case Op::Pi: return {rounded(HC(acos(HR(-1)))), zero()};
			case Op::E: return {rounded(HC(exp(HR(1)))), zero()};
			case Op::I: return {exact(HC(0, 1)), zero()};
			case Op::Var: return {exact(x->n < 0 ? p.t : p.x.at(x->n)), x->n == wrt ? one : zero()};
			case Op::Fun: return c(0);
			case Op::Sum: {
				Dual r{zero(), zero()};
				HR mv(0), md(0);
				for (size_t i = 0; i < x->ch.size(); ++i) {
					Dual a = c(i);
					mv += habs(a.v.v); md += habs(a.d.v);
					r.v = r.v + (x->flag[i] ? a.v : neg(a.v));
					r.d = r.d + (x->flag[i] ? a.d : neg(a.d));
				}
				r.v.e += mv * static_cast<unsigned>(x->ch.size());
				r.d.e += md * static_cast<unsigned>(x->ch.size());
				return r;
			}
			case Op::Mul: {
				Dual r{exact(HC(1)), zero()};
				for (size_t i = 0; i < x->ch.size(); ++i) {
					Dual a = c(i);
					if (x->flag[i]) { r.d = r.d * a.v + r.v * a.d; r.v = r.v * a.v; }
					else { V q = r.v / a.v; r.d = r.d / a.v + neg(q * a.d / a.v); r.v = q; }
				}
				r.v.e *= 2; r.d.e *= 2;
				return r;
			}
			case Op::Neg: { Dual a = c(0); return {neg(a.v), neg(a.d)}; }
			case Op::PowI: {
				Dual a = c(0);
				int n = static_cast<int>(x->n);
				V f = vpowi(a.v, n);
				if (n == 0) return {f, zero()};
				V df = exact(HC(n)) * vpowi(a.v, n - 1);
				return chain(a, f, df);
			}
			case Op::Pow: {
				Dual a = c(0), b = c(1);
				if (x->ch[1]->op == Op::Int && x->ch[1]->n >= 0) {   // no branch cut, and zero is a fine base
					int n = static_cast<int>(x->ch[1]->n);
					V f = vpowi(a.v, n);
					f.e += 50 * habs(f.v);
					if (n == 0) return {f, zero()};
					V df = exact(HC(n)) * vpowi(a.v, n - 1);
					df.e += 50 * habs(df.v);
					return chain(a, f, df);
				}
				V l = vlog(a.v);
				V f = vexp(b.v * l);
				V d = f * (b.d * l + b.v * a.d / a.v);
				return {f, d};
			}
			case Op::Sqrt: { Dual a = c(0); V f = vsqrt(a.v); return chain(a, f, one / (exact(HC(2)) * f)); }
			case Op::Exp: { Dual a = c(0); V f = vexp(a.v); return chain(a, f, f); }
			case Op::Log: { Dual a = c(0); return chain(a, vlog(a.v), one / a.v); }
			case Op::Sin: { Dual a = c(0); return chain(a, vsin(a.v), vcos(a.v)); }
			case Op::Cos: { Dual a = c(0); return chain(a, vcos(a.v), neg(vsin(a.v))); }
			case Op::Tan: { Dual a = c(0); V co = vcos(a.v); return chain(a, vtan(a.v), one / (co * co)); }
			case Op::Asin: { Dual a = c(0); V f = vasin(a.v); V w = one + neg(a.v * a.v); off_cut(w.v, true); return chain(a, f, one / vsqrt(w)); }
			case Op::Acos: { Dual a = c(0); V f = vacos(a.v); V w = one + neg(a.v * a.v); off_cut(w.v, true); return chain(a, f, neg(one / vsqrt(w))); }
			case Op::Atan: { Dual a = c(0); return chain(a, vatan(a.v), one / (one + a.v * a.v)); }
		}
		throw Inconclusive{};
	}
};

// does the computed value agree with the model, allowing for rounding at the given precision?
// 1 yes, 0 no, -1 cannot tell
inline int agrees(HC const& got, V const& want, unsigned digits, double slack = 2000) {
	HR eps = eps_of(digits);
	HR tol = want.e * eps * slack + eps * eps * hr(1e6);
	if (tol > hr(1e-3) * (HR(1) + habs(want.v))) return -1;
	if (!finite(got)) return 0;
	return habs(got - want.v) <= tol ? 1 : 0;
}
inline std::string diff(HC const& got, V const& want) {
	return "got " + show(got, 30) + " expected " + show(want.v, 30) + " |difference| " + show(habs(got - want.v)) + " error bound/eps " + show(want.e);
}

// ------------------------------------------------------------------ random expressions
struct GenOpt {
	int nvars = 2;
	bool path = false;       // may use the path variable (index -1)
	bool poly = true;        // polynomial in the variables
	bool allow_div = false;  // division by constants in polynomial mode
	int depth = 4;
	bool specials = true;    // Pi, E, I
	bool flt = true;         // dyadic floats
	bool rat = true;
	int max_pow = 4;
	std::vector<X>* pool = nullptr;   // shared subexpressions to reuse
};

inline X gen_const(Rng& r, GenOpt const& g) {
	switch (r.in(0, 9)) {
		case 0: return xint(0);
		case 1: return xint(1);
		case 2: return xint(-1);
		case 3: case 4: return xint(r.in(-9, 9));
		case 5: if (g.rat) return xrat(r.in(-20, 20), r.in(1, 9), r.chance(0.5) ? r.in(-9, 9) : 0, r.in(1, 7)); return xint(r.in(2, 5));
		case 6: if (g.flt) { auto x = mk(Op::Flt); x->n = r.in(-64, 64); x->n2 = 1l << r.in(0, 5); x->m = r.chance(0.5) ? r.in(-16, 16) : 0; x->m2 = 8; return x; } return xint(r.in(2, 5));
		case 7: if (g.specials) return mk(Op::Pi); return xint(3);
		case 8: if (g.specials) return mk(Op::E); return xint(4);
		default: if (g.specials) return mk(Op::I); return xint(7);
	}
}
inline X gen_leaf(Rng& r, GenOpt const& g) {
	if (g.path && r.chance(0.25)) return xvar(-1);
	if (r.chance(0.68)) return xvar(r.in(0, g.nvars - 1));
	return gen_const(r, g);
}
inline X gen(Rng& r, GenOpt const& g, int depth) {
	if (g.pool && !g.pool->empty() && r.chance(0.12)) return r.pick(*g.pool);
	if (depth <= 0 || r.chance(0.08)) return gen_leaf(r, g);
	X out;
	int k = r.in(0, g.poly ? 12 : 19);
	auto sub = [&]() { return gen(r, g, depth - 1); };
	if (k <= 4) {
		std::vector<X> c; std::vector<bool> s;
		int n = r.in(2, 4);
		for (int i = 0; i < n; ++i) { c.push_back(sub()); s.push_back(r.chance(0.6)); }
		if (r.chance(0.7)) s[0] = true;
		out = xsum(c, s);
	} else if (k <= 8) {
		std::vector<X> c; std::vector<bool> s;
		int n = r.in(2, g.poly ? 3 : 3);
		for (int i = 0; i < n; ++i) {
			bool d = g.poly ? (g.allow_div && i > 0 && r.chance(0.2)) : r.chance(0.25);
			if (d && g.poly) { X q = xint(r.in(2, 7)); c.push_back(r.chance(0.5) ? q : xrat(r.in(1, 9), r.in(1, 9), r.in(1, 4), 3)); }
			else c.push_back(sub());
			s.push_back(!d);
		}
		out = xmul(c, s);
	} else if (k == 9) out = mk(Op::Neg, {sub()});
	else if (k == 10 && r.chance(0.4)) out = mk(Op::Pow, {sub(), xint(r.in(0, 4))});
	else if (k <= 12) out = xpowi(sub(), g.poly ? r.in(0, g.max_pow) : r.in(-3, g.max_pow));
	else if (k == 13) out = mk(Op::Pow, {sub(), sub()});
	else {
		static const std::vector<Op> f{Op::Sqrt, Op::Exp, Op::Log, Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan};
		out = mk(r.pick(f), {sub()});
	}
	if (g.pool && r.chance(0.25)) g.pool->push_back(out);
	return out;
}
inline X gen(Rng& r, GenOpt const& g) { return gen(r, g, g.depth); }

inline void ops_of(X const& x, std::set<int>& s) { s.insert(static_cast<int>(x->op)); for (auto& c : x->ch) ops_of(c, s); }
inline bool uses(X const& x, long v) { if (x->op == Op::Var && x->n == v) return true; for (auto& c : x->ch) if (uses(c, v)) return true; return false; }
inline size_t weight(X const& x) { size_t n = 1; for (auto& c : x->ch) n += weight(c); return n; }

// ------------------------------------------------------------------ to the library's nodes
struct ToNode {
	std::vector<Var> vars;
	Var t;
	Rng* r = nullptr;      // when set, vary the way of construction (operators, Make, compound assignment)
	std::map<X, Nd> memo;   // shared subexpressions become shared nodes
	std::map<std::string, std::shared_ptr<bertini::node::Function>> funs;
	Nd operator()(X const& x) {
		auto it = memo.find(x);
		if (it != memo.end()) return it->second;
		Nd n = raw(x.get());
		memo[x] = n;
		return n;
	}
	bool alt() { return r && r->chance(0.5); }
	// a number among the operands may also be handed over as a plain number of one of the library's types
	static bool plain(Ex const* x) { return x->op == Op::Int || (x->op == Op::Rat && x->m == 0 && !x->big) || (x->op == Op::Flt && !x->big); }
	bool plainly(X const& x) { return r && plain(x.get()) && r->chance(0.6); }
	template <typename F> Nd as_number(X const& x, F f) {
		switch (x->op) {
			case Op::Int:
				switch (r->in(0, 2)) {
					case 0: return f(static_cast<int>(x->n));
					case 1: return f(bertini::mpz_int(x->n));
					default: return f(mpq_rational(x->n, 1));
				}
			case Op::Rat: return f(mpq_rational(x->n, x->n2));
			default: {
				mpfr_complex z = to_mp(HC(HR(x->n) / x->n2, HR(x->m) / x->m2), bertini::DefaultPrecision());
				if (x->m == 0 && r->chance(0.5)) return f(bertini::mpfr_float(z.real()));
				return f(z);
			}
		}
	}
	Nd raw(Ex const* x) {
		using namespace bertini::node;
		auto c = [&](size_t i) { return (*this)(x->ch[i]); };
		switch (x->op) {
			case Op::Int: if (alt()) return Integer::Make(std::to_string(x->n)); return Integer::Make(static_cast<int>(x->n));
			case Op::Rat: return Rational::Make(mpq_rational(x->n, x->n2), mpq_rational(x->m, x->m2));
			case Op::Flt: {
				mpfr_complex z = to_mp(HC(HR(x->n) / x->n2, HR(x->m) / x->m2), bertini::DefaultPrecision());
				return Float::Make(z);
			}
			case Op::Pi: return Pi();
			case Op::E: return E();
			case Op::I: return I();
			case Op::Var: return x->n < 0 ? t : vars.at(x->n);
			case Op::Fun: {
				auto& f = funs[x->name];
				if (!f) f = Function::Make(c(0), x->name);
				return f;
			}
			case Op::Sum: {
				if (alt()) {
					size_t i = 1;
					Nd s;
					if (x->flag[0] && x->ch.size() > 1 && plainly(x->ch[0])) {
						bool plus = x->flag[1];
						Nd other = c(1);
						s = as_number(x->ch[0], [&](auto const& v) -> Nd { if (plus) return v + other; return v - other; });
						i = 2;
					}
					else s = x->flag[0] ? c(0) : -c(0);
					for (; i < x->ch.size(); ++i) {
						bool a = alt();
						if (plainly(x->ch[i])) { bool plus = x->flag[i]; s = as_number(x->ch[i], [&](auto const& v) -> Nd { if (plus) return s + v; return s - v; }); }
						else if (x->flag[i]) { if (a) s = s + c(i); else s += c(i); }
						else { if (a) s = s - c(i); else s -= c(i); }
					}
					return s;
				}
				auto s = SumOperator::Make(c(0), x->flag[0]);
				for (size_t i = 1; i < x->ch.size(); ++i) s->AddOperand(c(i), x->flag[i]);
				return s;
			}
			case Op::Mul: {
				if (x->flag[0] && alt()) {
					size_t i = 1;
					Nd s;
					if (x->ch.size() > 1 && plainly(x->ch[0])) {
						bool times = x->flag[1];
						Nd other = c(1);
						s = as_number(x->ch[0], [&](auto const& v) -> Nd { if (times) return v * other; return v / other; });
						i = 2;
					}
					else s = c(0);
					for (; i < x->ch.size(); ++i) {
						bool a = alt();
						if (plainly(x->ch[i])) { bool times = x->flag[i]; s = as_number(x->ch[i], [&](auto const& v) -> Nd { if (times) return s * v; return s / v; }); }
						else if (x->flag[i]) { if (a) s = s * c(i); else s *= c(i); }
						else { if (a) s = s / c(i); else s /= c(i); }
					}
					return s;
				}
				auto s = MultOperator::Make(c(0), x->flag[0], x->ch.size() > 1 ? c(1) : Nd(Integer::Make(1)), x->ch.size() > 1 ? bool(x->flag[1]) : true);
				for (size_t i = 2; i < x->ch.size(); ++i) s->AddOperand(c(i), x->flag[i]);
				return s;
			}
			case Op::Neg: return -c(0);
			case Op::PowI: return pow(c(0), static_cast<int>(x->n));
			case Op::Pow:
				if (x->ch[1]->op != Op::Int && plainly(x->ch[1])) { Nd b = c(0); return as_number(x->ch[1], [&](auto const& v) -> Nd { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, bertini::mpz_int>) return pow(b, Nd(Integer::Make(v))); else return pow(b, v); }); }
				return pow(c(0), c(1));
			case Op::Sqrt: return sqrt(c(0));
			case Op::Exp: return exp(c(0));
			case Op::Log: return log(c(0));
			case Op::Sin: return sin(c(0));
			case Op::Cos: return cos(c(0));
			case Op::Tan: return tan(c(0));
			case Op::Asin: return asin(c(0));
			case Op::Acos: return acos(c(0));
			case Op::Atan: return atan(c(0));
		}
		return nullptr;
	}
};

// ------------------------------------------------------------------ points
inline HC rand_coord(Rng& r, int style) {
	auto q = [&](double s) { return std::round(r.u(-s, s) * 1048576) / 1048576; };   // dyadic: exact in every precision
	switch (style) {
		case 1: { static const std::vector<int> v{0, 1, -1, 2, 1, 0}; return HC(r.pick(v)); }
		case 2: return HC(HR(q(1.5)));
		case 3: { double s = r.chance(0.5) ? 1024 : 1.0 / 1024; return HC(HR(q(1.5) * s), HR(q(1.5) * s)); }
		default: return HC(HR(q(1.5)), HR(q(1.5)));
	}
}
inline Point rand_point(Rng& r, size_t n, int style = -1) {
	Point p;
	int s = style >= 0 ? style : (r.chance(0.7) ? 0 : r.in(1, 3));
	for (size_t i = 0; i < n; ++i) p.x.push_back(rand_coord(r, s == 1 && r.chance(0.4) ? 0 : s));
	p.t = rand_coord(r, r.chance(0.2) ? 1 : 0);
	return p;
}
template <typename T> T to_num(HC const& h, unsigned digits);
template <> inline dbl to_num<dbl>(HC const& h, unsigned) { return to_dbl(h); }
template <> inline mpfr_complex to_num<mpfr_complex>(HC const& h, unsigned d) { return to_mp(h, d); }
template <typename T> Vec<T> to_vec(std::vector<HC> const& x, unsigned digits) {
	Vec<T> v(x.size());
	for (size_t i = 0; i < x.size(); ++i) v(i) = to_num<T>(x[i], digits);
	return v;
}
inline std::string show(Point const& p) {
	std::string s = "x=(";
	for (auto& z : p.x) s += show(z, 12) + " ";
	return s + ") t=" + show(p.t, 12);
}
} // namespace vf
