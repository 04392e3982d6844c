// N01: random numbers; N02: numbers kept, converted, compared.
#include "common.hpp"
#include "bertini2/system.hpp"
#include "bertini2/random.hpp"
#include "bertini2/num_traits.hpp"
#include "bertini2/eigen_extensions.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <cmath>
#include <sstream>

using namespace vf;
using bertini::DefaultPrecision;
using R = bertini::mpfr_float;
using C = bertini::mpfr_complex;
namespace bm = bertini::multiprecision;
namespace {

unsigned digits_of(Rng& r) {
	static const unsigned pool[] = {16, 17, 20, 29, 30, 40, 49, 50, 51, 64, 99, 100, 101, 150, 199, 200, 201, 300, 400, 401, 500, 700};
	return r.chance(0.8) ? pool[r.in(0, 21)] : static_cast<unsigned>(r.in(16, 700));
}
std::string show(R const& x) { std::ostringstream o; o << x.str(40, std::ios::scientific) << " (" << x.precision() << " digits)"; return o.str(); }
std::string show(C const& z) { return "(" + show(R(z.real())) + ", " + show(R(z.imag())) + ")"; }
// how many bits of the mantissa are in use: position of the lowest set bit
long used_bits(R const& x) {
	if (x == 0) return 0;
	return static_cast<long>(mpfr_min_prec(x.backend().data()));
}
// a random number of d digits is expected to use nearly all of its bits: the chance that the last 30 are all zero is 1e-9
bool random_to_the_end(R const& x, unsigned d) { return used_bits(x) > static_cast<long>(d * 3.3219) - 32 - 3; }

struct Draw { std::string what; };

void n01(Case& c) {
	auto& r = c.rng;
	unsigned const dflt = digits_of(r), d = digits_of(r);
	bool const wide = r.chance(0.4);
	std::ostringstream ds;
	ds << "default precision " << dflt << " asked for " << d;
	DefaultPrecision(dflt);
	R a = 0, b = 1;
	if (wide) {
		a = R(r.in(-1000, 1000)) / 7;
		b = a + R(r.in(1, 1000)) / 3;
		if (r.chance(0.2)) b = a + R(1) / 1000000;
		ds << " in [" << a.str(12) << "," << b.str(12) << "]";
	}
	c.desc(ds.str());
	auto policy = [&](std::string const& which) {
		return c.check(DefaultPrecision() == dflt, "default-precision-left", which + " left the default precision at " + std::to_string(DefaultPrecision()) + " not " + std::to_string(dflt));
	};
	auto one = [&](std::string const& which, R const& x, R const& lo, R const& hi, unsigned want, bool full) {
		c.obs("real numbers drawn");
		if (!policy(which)) return false;
		if (!c.check(x.precision() == want, "precision", which + " gave " + show(x) + " instead of " + std::to_string(want) + " digits")) return false;
		if (!c.check(x >= lo && x <= hi, "interval", which + " gave " + show(x) + " outside [" + show(lo) + "," + show(hi) + "]")) return false;
		if (full && !c.check(random_to_the_end(x, want), "digits", which + " gave " + show(x) + " which uses only " + std::to_string(used_bits(x)) + " bits of its mantissa")) return false;
		return true;
	};
	auto differ = [&](std::string const& which, R const& x, R const& y) {
		return c.check(x != y, "repeat", which + " gave " + show(x) + " twice");
	};
	R const zero = 0, unit = 1, minus = -1;
	// reals in the unit interval
	{
		R x = bertini::RandomMp(d), y = bertini::RandomMp(d);
		if (!one("a random number", x, zero, unit, d, true) || !one("a random number", y, zero, unit, d, true) || !differ("a random number", x, y)) return;
		R x2 = bertini::RandomMp(), y2 = bertini::RandomMp();
		if (!one("a random number at the default precision", x2, zero, unit, dflt, true) || !one("a random number at the default precision", y2, zero, unit, dflt, true) || !differ("a random number at the default precision", x2, y2)) return;
		R z(r.in(1, 9), digits_of(r)), w(r.in(1, 9), digits_of(r));
		bertini::RandomMpAssign(z, d); bertini::RandomMpAssign(w, d);
		if (!one("assigning a random number", z, zero, unit, d, true) || !one("assigning a random number", w, zero, unit, d, true) || !differ("assigning a random number", z, w)) return;
		c.obs(d > dflt ? "more digits than the default" : d < dflt ? "fewer digits than the default" : "as many digits as the default");
	}
	// reals in an interval
	{
		R slack_d = pow(R(10, d), -static_cast<int>(std::min(d, dflt)) + 3) * (abs(a) + abs(b));
		R x = bertini::RandomMp(a, b, d), y = bertini::RandomMp(a, b, d);
		bool full = d <= dflt;    // the ends of the interval have only so many digits
		R lo = a - slack_d, hi = b + slack_d;
		if (!one("a random number in an interval", x, lo, hi, d, full) || !one("a random number in an interval", y, lo, hi, d, full) || !differ("a random number in an interval", x, y)) return;
		R x2 = bertini::RandomMp(a, b), y2 = bertini::RandomMp(a, b);
		if (!one("a random number in an interval at the default precision", x2, lo, hi, dflt, true) || !one("a random number in an interval at the default precision", y2, lo, hi, dflt, true) || !differ("a random number in an interval", x2, y2)) return;
		c.obs("numbers in intervals");
	}
	// the interval is covered
	if (c.k % 40 == 0) {
		int seen[8] = {0}, seen2[8] = {0}, seenr[8] = {0};
		for (int i = 0; i < 300; ++i) {
			R x = bertini::RandomMp(d);
			seen[std::min(7, static_cast<int>(x.convert_to<double>() * 8))]++;
			R y = bertini::RandomMp(a, b, d);
			double t = (R((y - a) / (b - a))).convert_to<double>() * 8;
			seen2[std::max(0, std::min(7, static_cast<int>(t)))]++;
			double u = (bm::RandomReal(d).real().convert_to<double>() + 1) * 4;
			seenr[std::max(0, std::min(7, static_cast<int>(u)))]++;
		}
		for (int i = 0; i < 8; ++i)
			if (!c.check(seen[i] > 0 && seen2[i] > 0 && seenr[i] > 0, "coverage", "300 draws left part " + std::to_string(i) + " of 8 of the interval without a number")) return;
		c.obs("intervals seen covered");
		c.eval(900);
	}
	// complex numbers
	auto cplx = [&](std::string const& which, C const& z, unsigned want, bool unitmod, bool realonly) {
		c.obs("complex numbers drawn");
		if (!policy(which)) return false;
		if (!c.check(z.precision() == want, "precision", which + " gave " + show(z) + " instead of " + std::to_string(want) + " digits")) return false;
		R re(z.real()), im(z.imag());
		if (!c.check(abs(re) <= 1 && abs(im) <= 1, "interval", which + " gave " + show(z))) return false;
		if (!c.check(random_to_the_end(re, want) && (realonly || random_to_the_end(im, want)), "digits", which + " gave " + show(z) + " which uses only " + std::to_string(used_bits(re)) + "/" + std::to_string(used_bits(im)) + " bits of its mantissas")) return false;
		if (realonly && !c.check(im == 0, "real", which + " gave " + show(z))) return false;
		if (!realonly && !c.check(im != 0 && re != im, "complex", which + " gave " + show(z))) return false;
		if (unitmod) {
			unsigned keep = DefaultPrecision();
			DefaultPrecision(want + 20);
			R n = sqrt(R(re * re + im * im)), tol = pow(R(10), -static_cast<int>(want) + 1);
			R off = abs(R(n - 1));
			DefaultPrecision(keep);
			if (!c.check(off < tol, "modulus", which + " gave " + show(z) + " of modulus 1 + " + off.str(5))) return false;
			c.obs("unit numbers drawn");
		}
		return true;
	};
	auto differc = [&](std::string const& which, C const& x, C const& y) {
		return c.check(x.real() != y.real(), "repeat", which + " gave " + show(x) + " twice");
	};
	C x, y;
	x = bm::RandomReal(d); y = bm::RandomReal(d);
	if (!cplx("a random real", x, d, false, true) || !cplx("a random real", y, d, false, true) || !differc("a random real", x, y)) return;
	x = bm::RandomReal(); y = bm::RandomReal();
	if (!cplx("a random real at the default precision", x, dflt, false, true) || !cplx("a random real at the default precision", y, dflt, false, true) || !differc("a random real", x, y)) return;
	x = bm::RandomComplex(d); y = bm::RandomComplex(d);
	if (!cplx("a random complex", x, d, false, false) || !cplx("a random complex", y, d, false, false) || !differc("a random complex", x, y)) return;
	x = bm::rand(); y = bm::rand();
	if (!cplx("a random complex at the default precision", x, dflt, false, false) || !cplx("a random complex at the default precision", y, dflt, false, false) || !differc("a random complex", x, y)) return;
	x = bm::RandomUnit(d); y = bm::RandomUnit(d);
	if (!cplx("a random unit", x, d, true, false) || !cplx("a random unit", y, d, true, false) || !differc("a random unit", x, y)) return;
	x = bm::RandomUnit(); y = bm::RandomUnit();
	if (!cplx("a random unit at the default precision", x, dflt, true, false) || !cplx("a random unit at the default precision", y, dflt, true, false) || !differc("a random unit", x, y)) return;
	for (int form = 0; form < 3; ++form) {
		C z(r.in(1, 9)), w(r.in(1, 9));
		z.precision(digits_of(r)); w.precision(digits_of(r));
		const char* n = form == 0 ? "assigning a random real" : form == 1 ? "assigning a random complex" : "assigning a random unit";
		if (form == 0) { bm::RandomRealAssign(z, d); bm::RandomRealAssign(w, d); }
		else if (form == 1) { bm::RandomComplexAssign(z, d); bm::RandomComplexAssign(w, d); }
		else { bm::RandomUnitAssign(z, d); bm::RandomUnitAssign(w, d); }
		if (!cplx(n, z, d, form == 2, form == 0) || !cplx(n, w, d, form == 2, form == 0) || !differc(n, z, w)) return;
	}
	// matrices and vectors of them
	{
		unsigned n = r.in(1, 4), m = r.in(1, 4);
		bertini::Mat<C> M = bertini::RandomOfUnits<C>(n, m);
		if (!c.check(M.rows() == n && M.cols() == m, "shape", "a random matrix of the wrong shape")) return;
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) {
			if (!cplx("an entry of a random matrix", M(i, j), dflt, true, false)) return;
			for (unsigned p = 0; p < n; ++p) for (unsigned q = 0; q < m; ++q) if (p != i || q != j) if (!differc("a random matrix", M(i, j), M(p, q))) return;
		}
		bertini::Vec<C> V = bertini::RandomOfUnits<C>(n);
		if (!c.check(V.size() == n, "shape", "a random vector of the wrong size")) return;
		for (unsigned i = 0; i < n; ++i) if (!cplx("an entry of a random vector", V(i), dflt, true, false)) return;
		bertini::Mat<bertini::dbl_complex> D = bertini::RandomOfUnits<bertini::dbl_complex>(n, m);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) {
			if (!c.check(std::abs(std::abs(D(i, j)) - 1) < 1e-14, "modulus", "a random double unit of modulus " + std::to_string(std::abs(D(i, j))))) return;
			for (unsigned p = 0; p < n; ++p) for (unsigned q = 0; q < m; ++q) if ((p != i || q != j) && !c.check(D(i, j) != D(p, q), "repeat", "a random double unit came twice")) return;
		}
		c.obs("random matrices");
	}
	// integers and rationals
	{
		bertini::mpz_int lim = pow(bertini::mpz_int(10), 50), i1 = bertini::RandomInt(), i2 = bertini::RandomInt();
		if (!c.check(abs(i1) <= lim && abs(i2) <= lim && i1 != i2, "integer", "random integers " + i1.str() + " " + i2.str())) return;
		bertini::mpq_rational q1 = bertini::RandomRat(), q2 = bertini::RandomRat();
		if (!c.check(abs(numerator(q1)) <= lim && abs(denominator(q1)) <= lim && q1 != q2 && denominator(q1) != 1, "rational", "random rationals " + q1.str() + " " + q2.str())) return;
		c.obs("integers and rationals");
	}
	c.sig(c.text);
	if (c.k < 4) c.sample(c.text);
}

// ---------------------------------------------------------------- N02
R hard_real(Rng& r, unsigned p) {
	unsigned keep = DefaultPrecision();
	DefaultPrecision(p);
	R x = sqrt(R(r.in(2, 5000)));
	switch (r.in(0, 5)) {
		case 0: x = R(r.in(-99, 99)); break;
		case 1: x *= pow(R(10), static_cast<int>(r.in(-60, 60))); break;
		case 2: x = -x; break;
		case 3: x = R(1) / r.in(3, 999); break;
		case 4: x = pow(R(2), static_cast<int>(r.in(-300, 300))) * (1 + pow(R(10), -static_cast<int>(p) + 2)); break;
		default: break;
	}
	x.precision(p);
	DefaultPrecision(keep);
	return x;
}
template <typename OA, typename IA, typename T> T through(T const& x, unsigned other, std::string& text) {
	std::stringstream s;
	{ OA oa(s); oa << x; }
	text = s.str();
	unsigned keep = DefaultPrecision();
	DefaultPrecision(other);
	T y;
	{ IA ia(s); ia >> y; }
	DefaultPrecision(keep);
	return y;
}
template <typename T> T save_load(Rng& r, T const& x, unsigned other, std::string& text) {
	if (r.chance(0.5)) return through<boost::archive::text_oarchive, boost::archive::text_iarchive>(x, other, text);
	return through<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(x, other, text);
}
bool same(C const& a, C const& b) { return a.real() == b.real() && a.imag() == b.imag(); }

void n02(Case& c) {
	auto& r = c.rng;
	unsigned const dflt = digits_of(r), p = digits_of(r), q = digits_of(r);
	DefaultPrecision(dflt);
	std::ostringstream ds;
	ds << "default precision " << dflt << " numbers of " << p << " digits, read under " << q << " ";
	c.desc(ds.str());
	std::string t;
	R const x = hard_real(r, p);
	R const y = hard_real(r, p);
	C z; z.precision(p);
	mpfr_set(mpc_realref(z.backend().data()), x.backend().data(), MPFR_RNDN);
	mpfr_set(mpc_imagref(z.backend().data()), y.backend().data(), MPFR_RNDN);
	c.note(show(z));
	// saved and loaded
	{
		R x2 = save_load(r, x, q, t);
		if (!c.check(x2.precision() == p && x2 == x, "saved-real", show(x) + " came back as " + show(x2) + " from " + t)) return;
		C z2 = save_load(r, z, q, t);
		if (!c.check(z2.precision() == p && same(z2, z), "saved-complex", show(z) + " came back as " + show(z2) + " from " + t)) return;
		bertini::mpz_int i = bertini::RandomInt(), i2;
		i2 = save_load(r, i, q, t);
		if (!c.check(i2 == i, "saved-integer", i.str() + " came back as " + i2.str())) return;
		bertini::mpq_rational u(r.in(-999, 999), r.in(1, 999)), u2;
		if (r.chance(0.5)) u = bertini::RandomRat();
		u2 = save_load(r, u, q, t);
		if (!c.check(u2 == u, "saved-rational", u.str() + " came back as " + u2.str())) return;
		c.obs("numbers saved and loaded", 4);
		if (q < p) c.obs("loaded under a lower default");
	}
	// precision changed
	{
		R a = x;
		bertini::Precision(a, q);
		if (!c.check(bertini::Precision(a) == q, "precision", "a real asked to have " + std::to_string(q) + " digits has " + std::to_string(bertini::Precision(a)))) return;
		R err = q >= p ? R(0) : R(abs(x) * pow(R(10, p), -static_cast<int>(q)));
		R xd = x; R diff = abs(xd - a);
		if (!c.check(diff <= err, "value", show(x) + " became " + show(a))) return;
		C w = z;
		bertini::Precision(w, q);
		if (!c.check(bertini::Precision(w) == q, "precision", "a complex asked to have " + std::to_string(q) + " digits has " + std::to_string(bertini::Precision(w)))) return;
		if (q >= p && !c.check(same(w, z), "value", show(z) + " became " + show(w))) return;
		bertini::Precision(w, p);
		if (q >= p && !c.check(same(w, z), "value", show(z) + " became " + show(w))) return;
		c.obs(q >= p ? "precision raised" : "precision lowered");
		unsigned n = r.in(1, 4), m = r.in(1, 4);
		bertini::Mat<C> M(n, m);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) M(i, j) = z;
		bertini::Precision(M, q);
		bool all = true;
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) all = all && M(i, j).precision() == q;
		if (!c.check(all && bertini::Precision(M) == q && bertini::PrecisionRequireUniform(M) == q, "matrix-precision", "a matrix asked to have " + std::to_string(q) + " digits")) return;
		if (n * m > 1) {
			unsigned k = r.in(1, n * m - 1);
			M(k % n, k / n).precision(q + 1 + r.in(0, 20));
			bool threw = false;
			try { bertini::PrecisionRequireUniform(M); } catch (std::exception const&) { threw = true; }
			if (!c.check(threw, "uniform", "a matrix with an entry of another precision passed as uniform")) return;
			c.obs("mixed matrices");
		}
		for (int i = 0; i < 2; ++i) {
			bool threw = false;
			try { bertini::Precision(1.5, i ? q + 17 : 16); } catch (std::exception const&) { threw = true; }
			bool threw2 = false;
			try { bertini::Precision(bertini::dbl_complex(1, 2), i ? q + 17 : 16); } catch (std::exception const&) { threw2 = true; }
			if (!c.check(threw == (i == 1) && threw2 == (i == 1), "double-precision", "a double's precision")) return;
		}
	}
	// made from rationals and text
	{
		bertini::mpq_rational u(r.in(-99999, 99999), r.in(1, 99999));
		R a = bertini::NumTraits<R>::FromRational(u, p);
		C b = bertini::NumTraits<C>::FromRational(u, p);
		R ref(0, p + 30);
		mpfr_set_q(ref.backend().data(), u.backend().data(), MPFR_RNDN);
		auto close = [&](R const& g) { R e(0, p + 30); mpfr_sub(e.backend().data(), g.backend().data(), ref.backend().data(), MPFR_RNDN); return abs(e) <= abs(ref) * pow(R(10, p + 30), -static_cast<int>(p)) ; };
		if (!c.check(a.precision() == p && close(a), "from-rational", u.str() + " became " + show(a) + " at " + std::to_string(p))) return;
		if (!c.check(b.precision() == p && close(R(b.real())) && b.imag() == 0, "from-rational", u.str() + " became " + show(b) + " at " + std::to_string(p))) return;
		if (!c.check(bertini::NumTraits<double>::FromRational(u, 16) == static_cast<double>(u) && bertini::NumTraits<bertini::dbl_complex>::FromRational(u, 16) == bertini::dbl_complex(static_cast<double>(u), 0), "from-rational", u.str() + " as a double")) return;
		c.obs("numbers from rationals", 2);
		std::ostringstream s1, s2;
		s1 << r.in(-99, 99) << "." << r.in(0, 9999); s2 << r.in(1, 99) << "e-" << r.in(0, 9);
		C g = bertini::NumTraits<C>::FromString(s1.str(), s2.str());
		if (!c.check(g.precision() == dflt && g.real() == R(s1.str()) && g.imag() == R(s2.str()), "from-text", s1.str() + "," + s2.str() + " became " + show(g))) return;
		bertini::dbl_complex gd = bertini::NumTraits<bertini::dbl_complex>::FromString(s1.str(), s2.str());
		if (!c.check(gd == bertini::dbl_complex(std::strtod(s1.str().c_str(), 0), std::strtod(s2.str().c_str(), 0)), "from-text", s1.str() + "," + s2.str() + " as doubles")) return;
		c.obs("numbers from text", 2);
	}
	// tolerances in digits: the least whole number of digits at least as tight
	{
		int k = r.in(1, 14);
		double tol = std::pow(10.0, -k) * (r.chance(0.5) ? (1.01 + (9.9 - 1.01) * r.u()) : 1.0);
		bool pure = tol == std::pow(10.0, -k);
		unsigned got = bertini::NumTraits<double>::TolToDigits(tol), gotm = bertini::NumTraits<R>::TolToDigits(R(tol));
		auto ok = [&](unsigned g) { return pure ? (g == unsigned(k) || g == unsigned(k) + 1) : g == unsigned(k); };
		if (!c.check(ok(got) && ok(gotm), "digits-of-tolerance", "tolerance " + std::to_string(tol * 1e15) + "e-15 is " + std::to_string(got) + "/" + std::to_string(gotm) + " digits, not " + std::to_string(k))) return;
		c.obs("tolerances");
	}
	// close, small, large
	{
		DefaultPrecision(p);
		double e = std::pow(10.0, -static_cast<int>(r.in(1, 12)));
		R E(e);
		R a = x == 0 ? R(3) : x;
		double f = r.chance(0.5) ? (0.01 + (0.8 - 0.01) * r.u()) : (1.5 + (50 - 1.5) * r.u());
		R b = a * (1 + (r.chance(0.5) ? 1 : -1) * E * f);
		if (e * f < 0.3) {
			bool want = f < 1;
			if (!c.check(bertini::IsSymmRelDiffSmall(a, b, E) == want && bertini::IsSymmRelDiffSmall(b, a, E) == want && bertini::IsSymmRelDiffSmall(a, a, E), "close", show(a) + " and " + show(b) + " at tolerance " + std::to_string(e))) return;
			C ac(a, -a), bc(b, -b);
			if (!c.check(bertini::IsSymmRelDiffSmall(ac, bc, E) == want, "close", "complex " + show(a) + " and " + show(b) + " at tolerance " + std::to_string(e))) return;
			double ad = (0.1 + (9 - 0.1) * r.u()), bd = ad * (1 + e * f);
			if (e >= 1e-10 && !c.check(bertini::IsSymmRelDiffSmall(ad, bd, e) == want && bertini::IsSymmRelDiffSmall(bertini::dbl_complex(ad, ad), bertini::dbl_complex(bd, bd), e) == want, "close", "doubles")) return;
			c.obs(want ? "close numbers" : "numbers apart");
		}
		// sizes about the precision: 100 units in the last place
		R tiny = pow(R(10), -static_cast<int>(p)), small = tiny * (r.chance(0.5) ? 1 : 10), big = tiny * 100000;
		if (!c.check(bertini::IsSmallValue(small) && !bertini::IsSmallValue(big) && bertini::IsSmallValue(C(small, -small)) && !bertini::IsSmallValue(C(0, big)), "small", "at " + std::to_string(p) + " digits")) return;
		if (!c.check(bertini::IsSmallValue(2e-15) && bertini::IsSmallValue(bertini::dbl_complex(0, -2e-15)) && !bertini::IsSmallValue(1e-12) && !bertini::IsSmallValue(bertini::dbl_complex(0, 1e-12)), "small", "doubles")) return;
		if (!c.check(bertini::IsLargeChange(R(1), R(tiny)) && !bertini::IsLargeChange(R(1), R(tiny * pow(R(10), 6))) && bertini::IsLargeChange(1.0, 1e-13) && !bertini::IsLargeChange(1.0, 1e-10) , "large-change", "at " + std::to_string(p) + " digits")) return;
		// triangular factors
		unsigned n = r.in(1, 5);
		bertini::Mat<C> L(n, n);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) L(i, j) = C(r.in(1, 9), r.in(-9, 9));
		if (!c.check(bertini::LUPartialPivotDecompositionSuccessful(L) == bertini::MatrixSuccessCode::Success, "pivots", "good pivots refused")) return;
		unsigned at = r.in(0, n - 1);
		L(at, at) = r.chance(0.5) ? C(0) : C(R(0), small);
		if (!c.check(bertini::LUPartialPivotDecompositionSuccessful(L) != bertini::MatrixSuccessCode::Success, "pivots", "a vanishing pivot at " + std::to_string(at) + " of " + std::to_string(n) + " accepted")) return;
		bertini::Mat<bertini::dbl_complex> D(n, n);
		for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) D(i, j) = bertini::dbl_complex(r.in(1, 9), r.in(-9, 9));
		if (!c.check(bertini::LUPartialPivotDecompositionSuccessful(D) == bertini::MatrixSuccessCode::Success, "pivots", "good pivots refused")) return;
		D(at, at) = r.chance(0.5) ? 0 : 1e-16;
		if (!c.check(bertini::LUPartialPivotDecompositionSuccessful(D) != bertini::MatrixSuccessCode::Success, "pivots", "a vanishing double pivot at " + std::to_string(at) + " of " + std::to_string(n) + " accepted")) return;
		c.obs("triangular factors", 2);
		DefaultPrecision(dflt);
	}
	c.sig(c.text);
	if (c.k < 4) c.sample(c.text);
}

Register r1("N01", 12000, 120000, n01, 60);
Register r2("N02", 40000, 600000, n02, 60);
}
int main(int argc, char** argv) { return run_main(argc, argv); }
