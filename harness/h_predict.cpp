// T01 predictors, T02 corrector: one step along / one correction towards a path of a random nonlinear
// homotopy, compared with the path itself (followed by the harness at 120 digits).
#include "sysmodel.hpp"
#include "bertini2/tracking.hpp"
#include "hlin.hpp"

using namespace vf;
using namespace bertini;
using namespace bertini::tracking;
namespace bn = bertini::node;

namespace {

struct Hom {
	int n;
	std::vector<X> f;
	std::vector<Var> vars;
	Var t;
	System s;
	Point at;         // a point on a path
	std::string str() const { std::string o; for (auto& g : f) o += g->str() + "; "; return o; }
};

HR cond_of(HMat const& J) { HMat inv; if (!hinv(J, inv)) throw Inconclusive{}; return hfro(J) * hfro(inv); }

// a random homotopy H(x,t), and a point on a nonsingular path of it
Hom gen_hom(Rng& r, bool transcendental) {
	Hom h;
	h.n = r.in(1, 3);
	for (int i = 0; i < h.n; ++i) h.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
	h.t = bn::Variable::Make("t");
	auto coef = [&]() { return xrat(r.in(-9, 9), r.in(2, 7), r.in(-9, 9), r.in(2, 7)); };
	Point p0 = rand_point(r, h.n, 0);
	p0.t = HC(HR(std::round(r.u(0.1, 1) * 1024) / 1024), r.chance(0.4) ? HR(std::round(r.u(-.5, .5) * 1024) / 1024) : HR(0));
	for (int i = 0; i < h.n; ++i) {
		std::vector<X> terms{xmul({xint(3), xvar(i)})};
		int nt = r.in(2, 4);
		for (int k = 0; k < nt; ++k) {
			std::vector<X> m{coef()};
			int d = r.in(1, 3);
			for (int j = 0; j < d; ++j) m.push_back(xvar(r.in(0, h.n - 1)));
			if (r.chance(0.5)) m.push_back(r.chance(0.5) ? xvar(-1) : xpowi(xvar(-1), 2));
			terms.push_back(xmul(m));
		}
		terms.push_back(xmul({coef(), xpowi(xvar(-1), r.in(1, 3))}));
		terms.push_back(xmul({xint(2), xvar(-1)}));
		if (transcendental) {
			Op o = r.chance(0.4) ? Op::Exp : r.chance(0.5) ? Op::Sin : Op::Cos;
			terms.push_back(xmul({coef(), mk(o, {xmul({xrat(1, 2), r.chance(0.7) ? xvar(r.in(0, h.n - 1)) : xvar(-1)})})}));
		}
		X g = xsum(terms);
		HC v = Oracle(p0)(g).v.v;
		long re = std::lround(static_cast<double>(v.real()) * 64), im = std::lround(static_cast<double>(v.imag()) * 64);
		h.f.push_back(xsum({g, xrat(-re, 64, -im, 64)}));
	}
	h.at = p0;
	if (!hnewton(h.f, h.at, 60)) throw Inconclusive{};
	HMat J = hjac(h.f, h.at);
	if (cond_of(J) > 200) throw Inconclusive{};
	// not too wild: the path's own velocity
	auto v = hvel(h.f, h.at);
	HR m(0); for (auto& z : v) m += habs(z);
	if (m > 20 || m < hr(0.05)) throw Inconclusive{};
	ToNode tn; tn.vars = h.vars; tn.t = h.t; tn.r = &r;
	VariableGroup g(h.vars.begin(), h.vars.end());
	h.s.AddVariableGroup(g);
	h.s.AddPathVariable(h.t);
	for (auto& e : h.f) h.s.AddFunction(tn(e));
	return h;
}

// degrees mean nothing for other than polynomial systems; such systems get the bounds from the user
AdaptiveMultiplePrecisionConfig amp_for(System const& s) {
	AdaptiveMultiplePrecisionConfig a;
	a.SetBoundsAndEpsilonFrom(s);
	if (!s.IsPolynomial()) { a.degree_bound = 5; a.coefficient_bound = 100; }
	a.SetPhiPsiFromBounds();
	return a;
}

struct Table { Predictor p; const char* name; int order, err; };   // local error exponents of result and of estimate
const std::vector<Table> kTables{
	{Predictor::Constant, "constant", 1, 0}, {Predictor::Euler, "Euler", 2, 0}, {Predictor::HeunEuler, "Heun-Euler", 3, 2},
	{Predictor::RK4, "RK4", 5, 0}, {Predictor::RKF45, "RKF45", 6, 5}, {Predictor::RKCashKarp45, "Cash-Karp45", 6, 5},
	{Predictor::RKDormandPrince56, "Dormand-Prince56", 6, 6}, {Predictor::RKVerner67, "Verner67", 8, 7}};

struct Out { SuccessCode code; std::vector<HC> x; double err = -1, prop = -1, nJ = -1, nJi = -1, cond = -1; };

template <typename T>
Out predict(predict::ExplicitRKPredictor& P, System const& s, std::vector<HC> const& x, HC const& t, HC const& h, unsigned digits, int overload, double tol, AdaptiveMultiplePrecisionConfig const& amp, unsigned since = 100, unsigned freq = 1) {
	Vec<T> cur = to_vec<T>(x, digits), nxt;
	if (overload & 4) { nxt.resize(1); nxt(0) = to_num<T>(hc(7), digits); }   // a container of another size, holding something
	T tt = to_num<T>(t, digits), hh = to_num<T>(h, digits);
	Out o;
	unsigned sn = since;
	switch (overload & 3) {
		case 0: o.code = P.Predict(nxt, s, cur, tt, hh, o.cond, sn, freq, tol); break;
		case 1: o.code = P.Predict(nxt, o.prop, o.nJ, o.nJi, s, cur, tt, hh, o.cond, sn, freq, tol, amp); break;
		default: o.code = P.Predict(nxt, o.err, o.prop, o.nJ, o.nJi, s, cur, tt, hh, o.cond, sn, freq, tol, amp);
	}
	for (long i = 0; i < nxt.size(); ++i) o.x.push_back(hc(nxt(i)));
	return o;
}
HR dist(std::vector<HC> const& a, std::vector<HC> const& b) {
	HR m(0);
	if (a.size() != b.size()) return HR(1e30);
	for (size_t i = 0; i < a.size(); ++i) { if (!finite(a[i])) return HR(1e30); HR d = habs(a[i] - b[i]); if (d > m) m = d; }
	return m;
}

void predict_case(Case& c) {
	Rng& r = c.rng;
	Hom h;
	try { h = gen_hom(r, r.chance(0.4)); } catch (Inconclusive&) { c.obs("ill-conditioned homotopies skipped"); return; }
	Table const& tb = r.pick(kTables);
	c.desc(std::string(tb.name) + " on " + h.str() + " from " + show(h.at));
	AdaptiveMultiplePrecisionConfig amp = amp_for(h.s);
	unsigned digits = r.in(80, 100);
	go(h.s, digits);
	predict::ExplicitRKPredictor P(tb.p, h.s);
	// a history of other uses, that must not matter
	auto history = [&](int k) {
		for (int i = 0; i < k; ++i) switch (r.in(0, 3)) {
			case 0: { unsigned d = r.in(16, 120); go(h.s, d); P.ChangePrecision(d); c.obs("precision changes"); break; }
			case 1: P.PredictorMethod(r.pick(kTables).p); P.PredictorMethod(tb.p); c.obs("method changes"); break;
			case 2: { auto p = rand_point(r, h.n, 0); predict<dbl>(P, h.s, p.x, p.t, hc(0.1), 16, r.in(0, 1), 1e-5, amp); break; }
			default: { unsigned d = DefaultPrecision(); auto p = rand_point(r, h.n, 0); predict<mpfr_complex>(P, h.s, p.x, p.t, hc(0.1), d, r.in(0, 1), 1e-5, amp); }
		}
	};
	history(r.in(0, 4));
	digits = r.in(80, 100);
	go(h.s, digits);
	P.ChangePrecision(digits);
	c.check(P.precision() == digits, "precision", "precision() after a change");
	c.check(P.HasErrorEstimate() == (tb.err > 0), "has-estimate", "HasErrorEstimate");
	// the local error along the path, for ever smaller steps
	double ang = r.chance(0.5) ? (r.chance(0.5) ? 0 : M_PI) : r.u(0, 2 * M_PI);
	std::vector<double> e, es;
	int first = 9, steps = 5;
	HC dir(HR(std::cos(ang)), HR(std::sin(ang)));
	for (int k = 0; k < steps; ++k) {
		HC dt = dir / HC(HR(1ul << (first + k)));
		dt = hc(to_mp(dt, digits));
		Point q = h.at;
		q.x = hc_round(h.at.x, digits);
		try {
			Point p2 = h.at;
			p2.t = h.at.t + dt;
			auto v = hvel(h.f, h.at);
			for (int i = 0; i < h.n; ++i) p2.x[i] += dt * v[i];
			if (!hnewton(h.f, p2, 40)) throw Inconclusive{};
			int ov = tb.err ? r.in(0, 2) : r.in(0, 1);
			if (tb.err && ov != 2 && r.chance(0.7)) ov = 2;
			auto o = predict<mpfr_complex>(P, h.s, q.x, h.at.t, dt, digits, ov | (r.chance(0.5) ? 4 : 0), 1e-6, amp);
			if (!c.check(o.code == SuccessCode::Success, "code", "prediction at a well conditioned point with " + std::to_string(digits) + " digits returned " + std::to_string(static_cast<int>(o.code)))) return;
			HR d = dist(o.x, p2.x);
			e.push_back(d == 0 ? -300 : static_cast<double>(log(d) / log(HR(2))));
			if (o.err >= 0) {
				es.push_back(o.err == 0 ? -300 : std::log2(o.err));
				double want = o.err / std::pow(std::abs(to_dbl(dt)), P.Order() + 1);
				c.check(std::abs(want - o.prop) <= 1e-8 * want, "size-proportion", "size proportion " + std::to_string(o.prop) + " expected " + std::to_string(want));
			}
			if (o.nJ >= 0) {
				HMat J = hjac(h.f, q);
				HR nj = hfro(J);
				c.check(abs(HR(o.nJ) - nj) <= hr(1e-10) * nj, "norm-J", "norm of the Jacobian " + std::to_string(o.nJ) + " expected " + show(nj));
				// |J^-1 u| for a vector of unit entries lies between sqrt(n)*smallest and sqrt(n)*largest singular value of the inverse
				HMat inv; hinv(J, inv);
				HR up = hfro(inv) * sqrt(HR(h.n)), lo = sqrt(HR(h.n)) / nj;
				c.check(HR(o.nJi) <= up * hr(1.0000001) && HR(o.nJi) >= lo * hr(0.9999999), "norm-J-inverse", "estimate of the norm of the inverse " + std::to_string(o.nJi) + " outside [" + show(lo) + "," + show(up) + "]");
				c.check(std::abs(o.cond - o.nJ * o.nJi) < 1e-8 * o.cond || h.n > 1, "condition", "condition number estimate");
				c.check(HR(o.cond) <= nj * up * hr(1.000001) && HR(o.cond) >= sqrt(HR(h.n)) * hr(0.999999), "condition", "condition number estimate " + std::to_string(o.cond));
			}
			// the same step in double precision
			if (k == 0 || r.chance(0.3)) {
				HC dd = hc(to_dbl(dt)); std::vector<HC> xd; for (auto& z : q.x) xd.push_back(hc(to_dbl(z)));
				auto od = predict<dbl>(P, h.s, xd, hc(to_dbl(h.at.t)), dd, 16, 0, 1e-6, amp);
				c.check(od.code == SuccessCode::Success && dist(od.x, o.x) < hr(1e-9), "double-differs", "prediction in double precision differs from the one in multiprecision by " + show(dist(od.x, o.x)));
				c.obs("steps compared with double precision");
			}
			// a fresh predictor, never used before
			if (k == 1) {
				predict::ExplicitRKPredictor F(tb.p, h.s);
				auto of = predict<mpfr_complex>(F, h.s, q.x, h.at.t, dt, digits, 0, 1e-6, amp);
				c.check(of.code == SuccessCode::Success && dist(of.x, o.x) <= eps_of(digits) * 1000, "history", "a used predictor predicts otherwise than a fresh one, by " + show(dist(of.x, o.x)));
			}
			c.obs("steps");
		} catch (Inconclusive&) { c.obs("inconclusive"); return; }
	}
	auto slope = [&](std::vector<double> const& v) { double best = -1e9; for (size_t i = 1; i < v.size(); ++i) best = std::max(best, v[i] <= -250 ? 1e9 : v[i - 1] - v[i]); return best; };
	std::ostringstream o; for (double x : e) o << x << " "; o << "; estimates "; for (double x : es) o << x << " ";
	// the last three halvings
	std::vector<double> tail(e.end() - 4, e.end());
	c.check(slope(tail) >= tb.order - 0.4, "order", std::string(tb.name) + ": the local error must shrink like h^" + std::to_string(tb.order) + "; log2 of the errors " + o.str());
	c.obs(std::string("order measured: ") + tb.name);
	if (es.size() >= 4) {
		std::vector<double> t2(es.end() - 4, es.end());
		c.check(slope(t2) >= tb.err - 0.4, "estimate-order", std::string(tb.name) + ": the error estimate must shrink like h^" + std::to_string(tb.err) + "; log2 of the errors " + o.str());
		// for small steps the estimate (of the lower order method's error) does not fall short of the actual error
		c.check(es.back() + 2 >= e.back() || e.back() < -220, "estimate-too-small", std::string(tb.name) + ": estimate far below the actual error: " + o.str());
		if (e.back() - e[e.size() - 2] > -300) c.obs("error estimates measured");
	}
	c.sig(h.str() + tb.name);
}
Register rT01("T01", 700, 20000, predict_case, 60);

// ------------------------------------------------------------------ the corrector
void newton_case(Case& c) {
	Rng& r = c.rng;
	Hom h;
	try { h = gen_hom(r, r.chance(0.3)); } catch (Inconclusive&) { c.obs("ill-conditioned homotopies skipped"); return; }
	AdaptiveMultiplePrecisionConfig const amp_own = amp_for(h.s);
	AdaptiveMultiplePrecisionConfig amp = amp_own;
	bool dp = r.chance(0.4);
	unsigned digits = dp ? 16 : r.pick(std::vector<unsigned>{20, 30, 40, 50, 70, 100});
	unsigned start_digits = r.pick(std::vector<unsigned>{16, 30, 50, 100});
	go(h.s, start_digits);
	correct::NewtonCorrector N(h.s);
	for (int k = r.in(0, 2); k-- > 0;) { unsigned d = r.in(16, 120); go(h.s, d); N.ChangePrecision(d); }
	go(h.s, digits);
	N.ChangePrecision(digits);
	c.check(N.precision() == digits, "precision", "precision() of the corrector");
	for (int rep = 0; rep < 3; ++rep) {
		// a starting point off the path by a chosen amount
		double off = std::pow(10.0, -r.u(0.3, 8));
		Point p = h.at;
		for (auto& z : p.x) z += hc(r.u(-1, 1) * off, r.u(-1, 1) * off);
		if (dp) { for (auto& z : p.x) z = hc(to_dbl(z)); }
		else p.x = hc_round(p.x, digits);
		p.t = hc(to_dbl(p.t));
		unsigned mn = r.in(1, 3), mx = mn + r.in(0, 4);
		double tol = std::pow(10.0, -r.u(1, dp ? 9 : std::min(40u, digits - 8)));
		int ov = r.in(0, 2);
		amp = amp_own;
		if (ov && r.chance(0.5)) {
			// other settings, with one criterion or the other about to decide
			int nd = dp ? 16 : static_cast<int>(digits), which = r.in(0, 2);
			amp.epsilon = std::pow(10.0, r.u(-2, 2)); amp.Phi = std::pow(10.0, r.u(-1, 6)); amp.Psi = std::pow(10.0, r.u(-1, 6));
			amp.safety_digits_1 = which == 0 ? nd - static_cast<int>(r.in(0, 12)) : static_cast<int>(r.in(-4, 2));
			amp.safety_digits_2 = which == 1 ? nd - static_cast<int>(r.in(0, 12)) : static_cast<int>(r.in(-nd, 2));
			tol = std::pow(10.0, -r.u(0.5, which == 2 ? nd - 4 : std::min(7, nd - 9)));
		}
		else if (ov && r.chance(0.3)) tol = std::pow(10.0, -(dp ? 16 : static_cast<int>(digits)) + r.u(-1, 6));   // more than the precision supports
		double ndz = -1, nJ = -1, nJi = -1, cond = -1;
		c.desc("Newton on " + h.str() + " from " + show(p) + " off by " + std::to_string(off) + " tol " + std::to_string(std::log10(tol)) + " iterations " + std::to_string(mn) + ".." + std::to_string(mx) + " digits " + std::to_string(dp ? 0 : digits) + " overload " + std::to_string(ov) + (ov ? " safety digits " + std::to_string(amp.safety_digits_1) + "," + std::to_string(amp.safety_digits_2) + " epsilon " + std::to_string(amp.epsilon) + " Phi " + std::to_string(amp.Phi) + " Psi " + std::to_string(amp.Psi) : ""));
		SuccessCode code;
		std::vector<HC> got;
		auto run = [&](auto tag) {
			using T = decltype(tag);
			Vec<T> cur = to_vec<T>(p.x, digits), nxt;
			T tt = to_num<T>(p.t, digits);
			if (ov == 0) code = N.Correct(nxt, h.s, cur, tt, tol, mn, mx);
			else if (ov == 1) code = N.Correct(nxt, h.s, cur, tt, tol, mn, mx, amp);
			else code = N.Correct(nxt, ndz, nJ, nJi, cond, h.s, cur, tt, tol, mn, mx, amp);
			for (long i = 0; i < nxt.size(); ++i) got.push_back(hc(nxt(i)));
		};
		if (dp) run(dbl()); else run(mpfr_complex());
		// the exact iteration, and what the criteria say about it
		HR eps = eps_of(dp ? 0 : digits);
		try {
			Point q = p;
			int verdict = -1;   // 0 success 1 no convergence 2 higher precision 3 unclear
			double nd = dp ? 16 : digits;
			HR lastJ, lastz; HMat lastinv;
			std::string by;
			for (unsigned ii = 0; ii < mx && verdict < 0; ++ii) {
				HMat J = hjac(h.f, q), inv;
				if (!hinv(J, inv)) throw Inconclusive{};
				if (hfro(J) * hfro(inv) > 1e4) throw Inconclusive{};
				auto st = hmul(inv, hval(h.f, q));
				HR m(0);
				for (int i = 0; i < h.n; ++i) { q.x[i] -= st[i]; if (habs(st[i]) > m) m = habs(st[i]); }
				lastJ = hfro(J); lastz = m; lastinv = inv;
				HR noise = eps * 1e7;
				if (ii + 1 >= mn) {
					if (m + noise < HR(tol) * hr(0.99)) { verdict = 0; break; }
					if (m - noise < HR(tol) * hr(1.01)) { verdict = 3; break; }
				}
				if (ov) {
					// bounds over every vector of unit entries
					double lo = static_cast<double>(sqrt(HR(h.n)) / lastJ), up = static_cast<double>(sqrt(HR(h.n)) * hfro(inv)), j = static_cast<double>(lastJ);
					double mz = static_cast<double>(m), zn = 0; for (auto& z : q.x) zn += std::norm(to_dbl(z)); zn = std::sqrt(zn);
					if (m < noise) { verdict = 3; break; }   // the residual seen is rounding noise
					auto B = [&](double ji) { return amp.safety_digits_1 + std::log10(ji * ((2 + amp.epsilon) * j + amp.epsilon * amp.Phi) + 1) + (std::log10(mz) - std::log10(tol)) / (mx - ii); };
					auto C = [&](double ji) { return amp.safety_digits_2 - std::log10(tol) + std::log10(ji * amp.Psi + zn); };
					if (B(lo) > nd + 0.1 || C(lo) > nd + 0.1) { verdict = 2; by = C(up) < nd - 0.1 ? "B" : B(up) < nd - 0.1 ? "C" : ""; break; }
					if (B(up) > nd - 0.1 || C(up) > nd - 0.1) { verdict = 3; break; }
				}
			}
			if (verdict < 0) verdict = 1;
			if (verdict == 3) { c.obs("unclear"); continue; }
			SuccessCode want = verdict == 0 ? SuccessCode::Success : verdict == 1 ? SuccessCode::FailedToConverge : SuccessCode::HigherPrecisionNecessary;
			std::ostringstream w; w << "code " << static_cast<int>(code) << " expected " << static_cast<int>(want) << " last step " << show(lastz) << " tol " << tol;
			if (!c.check(code == want, "code", w.str())) continue;
			c.obs(verdict == 0 ? "converged" : verdict == 1 ? "not converged" : "higher precision asked for");
			if (!by.empty()) c.obs("higher precision asked for by " + by + " alone");
			if (ov == 0) c.obs(verdict == 0 ? "converged (fixed precision)" : "not converged (fixed precision)");
			HR d = dist(got, q.x);
			c.check(d <= eps * 1e7, "point", "the corrected point is " + show(d) + " from the Newton iterate");
			if (verdict == 0 && off < 1e-3) c.check(dist(got, [&] { Point z = h.at; z.t = p.t; hnewton(h.f, z, 40); return z.x; }()) <= HR(tol) * 2 + eps * 1e7 || lastz * lastz * 1e4 > HR(tol), "not-on-path", "a converged point is off the path");
			if (ov == 2) {
				c.check(abs(HR(ndz) - lastz) <= eps * 1e7 + lastz * hr(1e-6), "norm-delta-z", "norm of the last step " + std::to_string(ndz));
				c.check(abs(HR(nJ) - lastJ) <= lastJ * hr(1e-6), "norm-J", "norm of the Jacobian");
				HR lo = sqrt(HR(h.n)) / lastJ, up = sqrt(HR(h.n)) * hfro(lastinv);
				c.check(HR(nJi) >= lo * hr(0.999) && HR(nJi) <= up * hr(1.001), "norm-J-inverse", "estimate of the norm of the inverse");
				c.check(std::abs(cond - nJ * nJi) <= 1e-9 * cond, "condition", "condition number estimate");
			}
			c.sig(c.text);
		} catch (Inconclusive&) { c.obs("inconclusive"); }
	}
	// what the predictor demands
	for (int rep = 0; rep < 3; ++rep) {
		Table const& tb = r.pick(kTables);
		Point p = h.at;
		if (dp) { for (auto& z : p.x) z = hc(to_dbl(z)); }
		else p.x = hc_round(p.x, digits);
		p.t = hc(to_dbl(p.t));
		int nd = dp ? 16 : static_cast<int>(digits), which = r.in(0, 2);
		amp = amp_own;
		if (r.chance(0.8)) { amp.epsilon = std::pow(10.0, r.u(-2, 2)); amp.Phi = std::pow(10.0, r.u(-1, 6)); amp.Psi = std::pow(10.0, r.u(-1, 6)); }
		amp.safety_digits_1 = which == 0 ? nd - static_cast<int>(r.in(-3, 8)) : static_cast<int>(r.in(-4, 2));
		amp.safety_digits_2 = which == 1 ? nd - static_cast<int>(r.in(-3, 12)) : static_cast<int>(r.in(-nd, 2));
		double tol = std::pow(10.0, -r.u(0.5, which == 2 ? nd : std::min(7, nd - 9)));
		int ov = tb.err && r.chance(0.6) ? 2 : 1;
		HC dt = hc(r.u(-1, 1) * 0.001, r.u(-1, 1) * 0.001);
		c.desc(std::string(tb.name) + " on " + h.str() + " from " + show(p) + " tol " + std::to_string(std::log10(tol)) + " digits " + std::to_string(dp ? 0 : digits) + " overload " + std::to_string(ov) + " safety digits " + std::to_string(amp.safety_digits_1) + "," + std::to_string(amp.safety_digits_2) + " epsilon " + std::to_string(amp.epsilon) + " Phi " + std::to_string(amp.Phi) + " Psi " + std::to_string(amp.Psi));
		predict::ExplicitRKPredictor P(tb.p, h.s);
		auto o = dp ? predict<dbl>(P, h.s, p.x, p.t, dt, 16, ov, tol, amp) : predict<mpfr_complex>(P, h.s, p.x, p.t, dt, digits, ov, tol, amp);
		try {
			HMat J = hjac(h.f, p), inv;
			if (!hinv(J, inv) || hfro(J) * hfro(inv) > 1e4) throw Inconclusive{};
			double j = static_cast<double>(hfro(J)), lo = std::sqrt(double(h.n)) / j, up = std::sqrt(double(h.n)) * static_cast<double>(hfro(inv)), zn = 0;
			for (auto& z : p.x) zn += std::norm(to_dbl(z));
			zn = std::sqrt(zn);
			auto A = [&](double ji) { return amp.safety_digits_1 + std::log10(ji * amp.epsilon * (j + amp.Phi)); };
			auto C = [&](double ji) { return amp.safety_digits_2 - std::log10(tol) + std::log10(ji * amp.Psi + zn); };
			bool yes = A(lo) > nd + 0.1 || C(lo) > nd + 0.1, no = A(up) < nd - 0.1 && C(up) < nd - 0.1;
			if (!yes && !no) { c.obs("unclear"); continue; }
			c.check(o.code == (yes ? SuccessCode::HigherPrecisionNecessary : SuccessCode::Success), "predictor-code", "prediction returned " + std::to_string(static_cast<int>(o.code)) + "; digits needed by A " + std::to_string(A(lo)) + ".." + std::to_string(A(up)) + " by C " + std::to_string(C(lo)) + ".." + std::to_string(C(up)));
			c.obs(no ? "predictions within the precision" : C(up) < nd - 0.1 ? "predictor asks for precision by A alone" : A(up) < nd - 0.1 ? "predictor asks for precision by C alone" : "predictor asks for precision");
		} catch (Inconclusive&) { c.obs("inconclusive"); }
	}
	// a singular Jacobian is reported, not divided by
	if (r.chance(0.2)) {
		System s;
		Var x = bn::Variable::Make("x"), y = bn::Variable::Make("y"), t = bn::Variable::Make("t");
		s.AddVariableGroup(VariableGroup{x, y}); s.AddPathVariable(t);
		int k = r.in(0, 1);
		if (k == 0) { s.AddFunction(x + y - t); s.AddFunction(2 * x + 2 * y - t); }
		else { s.AddFunction(pow(x, 2) - t); s.AddFunction(y - x); }
		go(s, digits);
		correct::NewtonCorrector M(s);
		predict::ExplicitRKPredictor P(r.pick(std::vector<Predictor>{Predictor::Euler, Predictor::RK4, Predictor::RKF45}), s);
		SuccessCode a, b;
		std::vector<HC> z = k == 0 ? std::vector<HC>{hc(0.5), hc(0.25)} : std::vector<HC>{hc(0), hc(0)};
		double cond; unsigned since = 1;
		if (dp) {
			Vec<dbl> cur = to_vec<dbl>(z, 16), nx;
			a = M.Correct(nx, s, cur, dbl(0.5), 1e-5, 1, 3); b = P.Predict(nx, s, cur, dbl(0.5), dbl(0.1), cond, since, 1, 1e-5);
		} else {
			Vec<mpfr_complex> cur = to_vec<mpfr_complex>(z, digits), nx;
			a = M.Correct(nx, s, cur, to_mp(hc(0.5), digits), 1e-5, 1, 3); b = P.Predict(nx, s, cur, to_mp(hc(0.5), digits), to_mp(hc(0.125), digits), cond, since, 1, 1e-5);
		}
		c.check(a == SuccessCode::MatrixSolveFailure, "singular-corrector", "correcting at a singular Jacobian returned " + std::to_string(static_cast<int>(a)));
		c.check(b == SuccessCode::MatrixSolveFailureFirstPartOfPrediction || b == SuccessCode::MatrixSolveFailure, "singular-predictor", "predicting at a singular Jacobian returned " + std::to_string(static_cast<int>(b)));
		c.obs("singular Jacobians");
	}
}
Register rT02("T02", 4000, 60000, newton_case, 60);

void before() { bertini::DefaultPrecision(16); }
} // namespace
int main(int argc, char** argv) { before_case() = before; return run_main(argc, argv); }
