// G01 power series endgame, G02 Cauchy endgame, G03 Hermite interpolation.
#include "knownpath.hpp"
#include "bertini2/tracking.hpp"
#include "bertini2/endgames.hpp"

using namespace vf;
using namespace bertini;
using namespace bertini::tracking;
using bertini::endgame::EndgameSelector;

namespace {
using EndgameConfig = bertini::endgame::EndgameConfig;
using PowerSeriesConfig = bertini::endgame::PowerSeriesConfig;
using CauchyConfig = bertini::endgame::CauchyConfig;
using SecurityConfig = bertini::endgame::SecurityConfig;

std::string code_name(SuccessCode c) { return std::to_string(static_cast<int>(c)); }

HC hpow_real(HR const& x, long m, long c) { return HC(HR(exp(log(x) * HR(m) / HR(c)))); }
HC cis(HR const& a) { return HC(HR(cos(a)), HR(sin(a))); }
HR hpi() { return HR(acos(HR(-1))); }
// one c-th root, the j-th
HC hroot(HC const& z, int c, int j) {
	HR a = atan2(HR(z.imag()), HR(z.real()));
	return hpow_real(habs(z), 1, c) * cis((a + 2 * hpi() * j) / c);
}

// y_k = p_k(w) + u_k w^(m/c), w = t - target, behind a triangular and a linear change of variables; m<0: the path diverges
struct SingPath {
	int n = 0;
	HC target, ws;             // the path begins at target + ws
	struct Coord { int c = 1, m = 0, j = 0; HC g; std::vector<HC> p; };
	std::vector<Coord> co;
	HMat A, Ainv;
	std::vector<HC> sh;
	struct Quad { int i, j; HC co; };
	std::vector<std::vector<Quad>> q;
	std::vector<X> f;
	std::vector<Var> vars;
	Var t;
	int cycle() const { int l = 1; for (auto& k : co) { if (k.m == 0) continue; int c = k.c; int a = l, b = c; while (b) { int z = a % b; a = b; b = z; } l = l / a * c; } return l; }
	bool diverges() const { for (auto& k : co) if (k.m < 0) return true; return false; }
	// at w = s * ws, 0 <= s <= 1
	std::vector<HC> at(HR const& s, HR const& theta = HR(0)) const {   // theta: continued around the target
		std::vector<HC> z(n);
		HC w = ws * HC(s) * cis(theta);
		for (int k = 0; k < n; ++k) {
			HC y(0);
			for (size_t i = co[k].p.size(); i-- > 0;) y = y * w + co[k].p[i];
			if (co[k].m != 0 && s > 0) {
				// the branch: (g ws^m)^(1/c), j-th root, times s^(m/c)
				HC gm = co[k].g;
				for (int i = 0; i < std::abs(co[k].m); ++i) { if (co[k].m > 0) gm *= ws; else gm /= ws; }
				y += hroot(gm, co[k].c, co[k].j) * hpow_real(s, co[k].m, co[k].c) * cis(theta * HR(co[k].m) / HR(co[k].c));
			}
			HC qv(0);
			for (auto& m : q[k]) qv += m.co * z[m.i] * (m.j >= 0 ? z[m.j] : HC(1));
			z[k] = y - qv;
		}
		for (int k = 0; k < n; ++k) z[k] -= sh[k];
		return hmul(Ainv, z);
	}
	HC time(HR const& s) const { return target + ws * HC(s); }
	std::string str() const { std::string o; for (auto& g : f) o += g->str() + "; "; return o + " target " + show(target, 5) + " start " + show(target + ws, 5); }
};

SingPath gen_sing(Rng& r, bool diverging, int maxc, bool origin) {
	for (;;) {
		SingPath h;
		h.n = r.in(1, 3);
		int n = h.n;
		long ta = 0, tb = 0;
		if (!origin) { ta = r.in(-8, 8); tb = r.chance(0.5) ? r.in(-8, 8) : 0; }
		h.target = rat(ta, 8, tb, 8);
		long wa = r.in(4, 16), wb = origin && r.chance(0.6) ? 0 : r.in(-8, 8);
		h.ws = rat(wa, 128, wb, 128);
		X w = ta == 0 && tb == 0 ? xvar(-1) : xsum({xvar(-1), xrat(ta, 8, tb, 8)}, {true, false});
		h.A.assign(n, std::vector<HC>(n));
		std::vector<std::vector<X>> xa(n, std::vector<X>(n));
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
			long a = i == j ? r.in(2, 3) : (r.chance(0.6) ? r.in(-2, 2) : 0), b = r.chance(0.3) ? r.in(-2, 2) : 0;
			h.A[i][j] = rat(a, 2, b, 4);
			xa[i][j] = xrat(a, 2, b, 4);
		}
		if (!hinv(h.A, h.Ainv) || hfro(h.A) * hfro(h.Ainv) > 20) continue;
		std::vector<X> z;
		for (int i = 0; i < n; ++i) {
			long a = r.in(-3, 3), b = r.in(-3, 3);
			h.sh.push_back(rat(a, 4, b, 4));
			std::vector<X> s;
			for (int j = 0; j < n; ++j) if (h.A[i][j] != HC(0)) s.push_back(xmul({xa[i][j], xvar(j)}));
			s.push_back(xrat(a, 4, b, 4));
			z.push_back(xsum(s));
		}
		h.q.resize(n);
		int special = r.in(0, n - 1);
		for (int k = 0; k < n; ++k) {
			std::vector<X> s{z[k]};
			if (k && !diverging) for (int m = r.in(0, 1); m-- > 0;) {
				int i = r.in(0, k - 1), j = r.chance(0.5) ? r.in(0, k - 1) : -1;
				long a = r.in(-2, 2), b = r.in(-2, 2);
				X co = xrat(a, 4, b, 4);
				h.q[k].push_back({i, j, rat(a, 4, b, 4)});
				s.push_back(j < 0 ? xmul({co, z[i]}) : xmul({co, z[i], z[j]}));
			}
			X y = s.size() > 1 ? xsum(s) : s[0];
			SingPath::Coord c;
			int deg = r.in(0, 2);
			std::vector<X> terms{y}; std::vector<bool> sg{true};
			for (int i = 0; i <= deg; ++i) {
				long a = r.in(-6, 6), b = r.in(-6, 6);
				c.p.push_back(rat(a, 5, b, 5));
				X cx = xrat(a, 5, b, 5);
				terms.push_back(i == 0 ? cx : i == 1 ? xmul({cx, w}) : xmul({cx, xpowi(w, i)}));
				sg.push_back(false);
			}
			X base = xsum(terms, sg);
			bool sing = k == special || r.chance(0.3);
			if (sing && maxc > 0) {
				c.c = r.in(diverging ? 1 : 2, maxc);
				c.m = diverging && k == special ? -1 : 1;
				if (c.m > 0 && c.c > 2 && r.chance(0.3)) c.m = 2;
				if (c.m == 2 && c.c % 2 == 0) c.m = 1;
				if (c.c == 1 && c.m > 0) c.m = 0;
				c.j = r.in(0, c.c - 1);
			}
			if (c.m != 0) {
				long ga = r.in(2, 6), gb = r.in(-3, 3);
				c.g = rat(ga, 4, gb, 4);
				X gx = xrat(ga, 4, gb, 4), lhs = c.c == 1 ? base : xpowi(base, c.c);
				if (c.m > 0) h.f.push_back(xsum({lhs, xmul({gx, c.m == 1 ? w : xpowi(w, c.m)})}, {true, false}));
				else h.f.push_back(xsum({xmul({w, lhs}), gx}, {true, false}));
			} else h.f.push_back(base);
			h.co.push_back(c);
		}
		if (h.cycle() > 6) continue;
		for (int i = 0; i < n; ++i) h.vars.push_back(bn::Variable::Make("x" + std::to_string(i)));
		h.t = bn::Variable::Make("t");
		return h;
	}
}
System build(SingPath const& h, Rng& r) {
	System s;
	ToNode tn; tn.vars = h.vars; tn.t = h.t; tn.r = &r;
	s.AddVariableGroup(bertini::VariableGroup(h.vars.begin(), h.vars.end()));
	s.AddPathVariable(h.t);
	for (auto& g : h.f) s.AddFunction(tn(g));
	return s;
}

template <typename TrackerT> struct Ty;
template <> struct Ty<DoublePrecisionTracker> { using C = dbl; };
template <> struct Ty<MultiplePrecisionTracker> { using C = mpfr_complex; };
template <> struct Ty<AMPTracker> { using C = mpfr_complex; };

struct Conf {
	bool amp = false, mp = false;
	unsigned digits = 16;
	Predictor p = Predictor::RKF45;
	double tol = 1e-7, trunc = 1e5;
	SteppingConfig st;
	NewtonConfig nw;
	EndgameConfig eg;
	SecurityConfig sec;
	std::string str() const {
		std::ostringstream o;
		o << (amp ? "adaptive" : mp ? "multiple" : "double") << " digits " << digits << " predictor " << int(p) << " tol " << tol << " final " << eg.final_tolerance << " samples " << eg.num_sample_points << " factor " << eg.sample_factor << " security " << sec.level << "," << sec.max_norm << " "; if (eg.min_track_time > 1e-50) o << "neighbourhood " << eg.min_track_time << " ";
		return o.str();
	}
};
Conf gen_conf(Rng& r) {
	Conf k;
	int kind = r.in(0, 9);
	k.amp = kind >= 4; k.mp = kind >= 2 && kind < 4;
	k.digits = k.amp ? r.pick(std::vector<unsigned>{16, 16, 20, 30, 40}) : k.mp ? r.pick(std::vector<unsigned>{30, 40, 50}) : 16;
	k.p = r.pick(std::vector<Predictor>{Predictor::HeunEuler, Predictor::RK4, Predictor::RKF45, Predictor::RKCashKarp45, Predictor::RKDormandPrince56, Predictor::RKVerner67});
	k.tol = std::pow(10.0, -r.u(5.5, 8));
	k.eg.final_tolerance = std::pow(10.0, -r.u(7, k.amp || k.mp ? 12 : 8));
	if (k.eg.final_tolerance > k.tol / 3) k.eg.final_tolerance = k.tol / 3;
	k.eg.num_sample_points = r.in(3, 5);
	k.eg.sample_factor = r.pick(std::vector<mpq_rational>{mpq_rational(1, 2), mpq_rational(1, 2), mpq_rational(1, 3), mpq_rational(3, 5), mpq_rational(2, 5)});
	k.st.max_step_size = mpq_rational(1, 20);
	return k;
}

HR hnorm_inf(std::vector<HC> const& v) { HR m(0); for (auto& z : v) if (habs(z) > m) m = habs(z); return m; }
enum class Ev { Approx, Converged, Failure, Other };
template <typename EG, typename C> struct Watch : public Observer<EG> {
	unsigned approx = 0, converged = 0, failure = 0;
	std::vector<std::vector<HC>> seen;
	std::vector<HC> times;
	std::vector<double> errs;
	void Observe(AnyEvent const& e) override {
		if (auto p = dynamic_cast<const bertini::endgame::ApproximatedRoot<EG>*>(&e)) { ++approx; times.push_back(hc(p->Get().LatestTime())); errs.push_back(p->Get().ApproximateError()); seen.push_back(from_vec(p->Get().template FinalApproximation<C>())); }
		else if (dynamic_cast<const bertini::endgame::Converged<EG>*>(&e)) ++converged;
		else if (dynamic_cast<const bertini::endgame::EndgameFailure<EG>*>(&e)) ++failure;
	}
};

struct Out { SuccessCode code; std::vector<HC> x; unsigned cycle = 0; double err = 0; unsigned prec = 0, approx = 0, converged = 0, failure = 0; std::vector<HC> times; std::vector<double> errs; std::vector<std::vector<HC>> seen; };

template <typename EG, typename TrackerT> Out run_eg(EG& eg, System const& s, Conf const& k, SingPath const& h, std::vector<HC> start) {
	using C = typename Ty<TrackerT>::C;
	Out o;
	go(s, k.digits);
	C t = to_num<C>(h.time(HR(1)), k.digits), tau = to_num<C>(h.target, k.digits);
	Vec<C> x = to_vec<C>(start, k.digits);
	Watch<EG, C> w;
	eg.AddObserver(w);
	o.code = h.target == HC(0) ? eg.Run(t, x) : eg.Run(t, x, tau);
	eg.RemoveObserver(w);
	auto const& fa = eg.template FinalApproximation<C>();
	o.x = from_vec(fa);
	o.cycle = eg.CycleNumber();
	o.err = eg.ApproximateError();
	o.approx = w.approx; o.converged = w.converged; o.failure = w.failure; o.times = w.times; o.errs = w.errs; o.seen = w.seen;
	if constexpr (!std::is_same<C, dbl>::value) { if (fa.size()) o.prec = Precision(fa); }
	return o;
}

template <template <typename> class Pick, typename TrackerT> void eg_case(Case& c, Conf k, bool cauchy) {
	Rng& r = c.rng;
	using EG = typename Pick<TrackerT>::type;
	int kind = r.in(0, 9);
	bool diverging = kind >= 8, regular = kind < 1;
	SingPath h = gen_sing(r, diverging, regular ? 0 : cauchy ? 4 : 3, r.chance(0.6));
	System s = build(h, r);
	bool homog = r.chance(0.3);
	if (homog) { s.Homogenize(); s.AutoPatch(); }
	if (homog) {
		// the coordinates in the patch are x/D with D = p.(1,x); the endgame needs D without zeros between the start and the target
		go(s, 80);
		std::vector<HC> p;
		for (int i = 0; i <= h.n; ++i) {
			std::vector<HC> e(h.n + 1, HC(0));
			e[i] = HC(1);
			p.push_back(HC(1) / from_vec(s.RescalePointToFitPatch(to_vec<mpfr_complex>(e, 80)))[i]);
		}
		int tries = 0;
		for (;; ++tries) {
			int C = h.cycle(), N = 96 * C, order = 0;
			for (auto& q : h.co) if (q.m < 0 && C / q.c > order) order = C / q.c;
			HR total(0), worst(0);
			HC last;
			for (int i = 0; i <= N; ++i) {
				auto x = h.at(HR(1), 2 * hpi() * C * i / N);
				HC d = p[0];
				for (int j = 0; j < h.n; ++j) d += p[j + 1] * x[j];
				if (i) { HC q = d / last; HR a = atan2(HR(q.imag()), HR(q.real())); total += a; if (abs(a) > worst) worst = abs(a); }
				last = d;
			}
			long zeros = std::lround(static_cast<double>(HR(total / (2 * hpi())))) + order;
			if (zeros == 0 && worst < 1) break;
			if (tries == 6) { c.obs("inconclusive"); return; }
			h.ws /= HC(8);
		}
		if (tries) c.obs("starts moved into the operating zone");
	}
	// a neighbourhood of the target which is not to be entered
	bool hood = r.chance(0.2);
	if (hood) k.eg.min_track_time = std::pow(10.0, -r.u(2, 8));
	if (diverging) { k.sec.level = r.in(0, 1); k.sec.max_norm = std::pow(10.0, r.u(1.5, 3)); k.trunc = 1e8; }
	c.desc(k.str() + (homog ? "homogenized " : "") + h.str() + " cycle " + std::to_string(h.cycle()));
	go(s, k.digits);
	TrackerT tr(s);
	tr.Setup(k.p, k.tol, k.trunc, k.st, k.nw);
	if constexpr (std::is_same<TrackerT, AMPTracker>::value) tr.PrecisionSetup(AMPConfigFrom(s));
	std::unique_ptr<EG> egp;
	if constexpr (std::is_same<EG, typename EndgameSelector<TrackerT>::PSEG>::value) egp.reset(new EG(tr, k.eg, k.sec, PowerSeriesConfig()));
	else egp.reset(new EG(tr, k.eg, k.sec, CauchyConfig()));
	EG& eg = *egp;
	auto start = [&](HR const& sc) {
		auto x = h.at(sc);
		if (!homog) return x;
		std::vector<HC> v{HC(1)};
		for (auto& z : x) v.push_back(z);
		go(s, 80);
		auto o = from_vec(s.RescalePointToFitPatch(to_vec<mpfr_complex>(v, 80)));
		return o;
	};
	auto affine = [&](std::vector<HC> v) { if (homog && v.size()) { HC d = v[0]; v.erase(v.begin()); for (auto& z : v) z /= d; } return v; };
	auto st = start(HR(1));
	for (int rep = 0; rep < (r.chance(0.3) ? 2 : 1); ++rep) {
		Out o = run_eg<EG, TrackerT>(eg, s, k, h, st);
		std::string what = rep ? "run again: " : "";
		c.obs(std::string("runs: ") + (k.amp ? "adaptive" : k.mp ? "multiple" : "double"));
		c.check(o.converged == (o.code == SuccessCode::Success ? 1u : 0u), "announcement", what + "convergence announced " + std::to_string(o.converged) + " times, the verdict is " + code_name(o.code));
		// times approach the target
		for (size_t i = 0; i < o.times.size(); ++i) {
			HR ratio = habs(o.times[i] - h.target) / (i ? habs(o.times[i - 1] - h.target) : habs(h.ws));
			c.eval();
			HR res = habs(o.times[i] - h.target);
			if (i && abs(ratio - HR(k.eg.sample_factor)) > vf::hr(1e-6) + 8 * eps_of(k.amp || k.mp ? k.digits : 0) * habs(h.target) / res) c.violation("sample-times", "the distance to the target time shrinks by the factor " + show(ratio) + ", asked for " + show(HR(k.eg.sample_factor)));
		}
		for (size_t i = 1; i < o.seen.size(); ++i) {
			std::vector<HC> d = o.seen[i];
			if (d.size() != o.seen[i - 1].size()) break;
			for (size_t q = 0; q < d.size(); ++q) d[q] -= o.seen[i - 1][q];
			HR want = hnorm_inf(d), slack = want * hr(1e-6) + hnorm_inf(o.seen[i]) * eps_of(k.amp || k.mp ? 20 : 0) * 100;
			c.obs("error estimates compared");
			if (!c.check(abs(HR(o.errs[i]) - want) <= slack, "error-estimate", what + "approximation " + std::to_string(i) + " is " + show(want) + " from the one before, and the error estimate is " + std::to_string(o.errs[i]))) break;
		}
		// the neighbourhood of the target is left alone
		HR hood_r = HR(k.eg.min_track_time), unc = hood_r * hr(1e-6) + habs(h.target) * 8 * eps_of(k.amp || k.mp ? k.digits : 0);
		HR nearest = habs(h.ws);
		for (auto& t : o.times) { HR a = habs(t - h.target); if (a < nearest) nearest = a; }
		if (hood) c.check(nearest >= hood_r - unc || o.times.empty(), "min-track-time", what + "a sample at distance " + show(nearest) + " from the target, the neighbourhood has radius " + show(hood_r));
		if (o.code == SuccessCode::MinTrackTimeReached) {
			c.obs("stopped at the neighbourhood of the target");
			// the next sample would be inside; samples at the outset are as many as there are for an approximation
			HR f = HR(k.eg.sample_factor), next = nearest * f;
			if (o.times.empty()) for (unsigned i = 1; i < k.eg.num_sample_points; ++i) next *= f;
			if (hood) { if (!o.times.empty()) c.check(next <= hood_r + unc, "min-track-time", what + "stopped at distance " + show(nearest) + " from the target, the neighbourhood has radius " + show(hood_r)); continue; }
		}
		if (!diverging) {
			auto e = h.at(HR(0));
			HR sc(1);
			for (auto& z : e) if (habs(z) > 1) sc += habs(z);
			if (o.code != SuccessCode::Success) {
				if (!k.amp && !k.mp && !regular) { c.obs("not decided in double precision"); continue; }
				c.violation("code", what + "the endgame returned " + code_name(o.code) + " on a bounded path");
				continue;
			}
			HR d = hdist(affine(o.x), e);
			if (homog) sc *= 4 / habs(o.x[0]);
			HR lim = HR(k.eg.final_tolerance) * 100 * sc;
			c.check(d <= lim, "wrong-endpoint", what + "the end point is " + show(d) + " off, final tolerance " + std::to_string(-std::log10(k.eg.final_tolerance)) + " digits, cycle number found " + std::to_string(o.cycle));
			c.check(o.err <= k.eg.final_tolerance, "error-estimate", what + "success with an error estimate of " + std::to_string(o.err));
			if (cauchy) c.check(o.cycle == unsigned(h.cycle()), "cycle-number", what + "cycle number " + std::to_string(o.cycle) + " for a path of cycle number " + std::to_string(h.cycle()));
			else c.check(o.cycle >= 1 && (o.cycle % h.cycle() == 0 || true), "cycle-number", "cycle number");
			if (!cauchy) c.obs(o.cycle == unsigned(h.cycle()) ? "cycle number found" : o.cycle % h.cycle() == 0 ? "cycle number: multiple" : "cycle number: other");
			c.obs("cycle number " + std::to_string(h.cycle()));
			c.obs(std::string("end points: ") + (regular ? "regular" : "singular"));
			if (h.target != HC(0)) c.obs("target times other than zero");
			if (homog) c.obs("homogenized");
		} else {
			if (!homog) {
				// the mean over the loops of a branch with a pole is its finite part, whatever the radius
				bool finite_part = false;
				if (cauchy && o.code == SuccessCode::Success) finite_part = hdist(o.x, h.at(HR(0))) < vf::hr(1e-4);
				// times which the working precision does not tell from the target are one time to the tracker
				unsigned dg = o.prec ? o.prec : 16;
				if (o.code == SuccessCode::Success && h.target != HC(0) && !o.times.empty() && habs(HC(o.times.back() - h.target)) < vf::hr(std::pow(10.0, 1 - double(std::min(dg, 200u)))) * habs(h.target)) { c.obs("not decided: times not told from the target"); return; }
				c.check(o.code != SuccessCode::Success, finite_part ? "finite-part-of-diverging" : "diverging", what + "success on a path which diverges, at " + show(o.x.size() ? o.x[0] : HC(0)));
			}
			else if (o.code == SuccessCode::Success) {
				c.obs("solutions at infinity");
				c.check(habs(o.x[0]) < vf::hr(1e-3), "wrong-endpoint", what + "the homogenizing coordinate of a solution at infinity is " + show(habs(o.x[0])));
			}
			if (o.code == SuccessCode::SecurityMaxNormReached) {
				c.obs("paths cut off at the maximal norm");
				// two approximations beyond the limit
				c.check(hnorm_inf(affine(o.x)) > HR(k.sec.max_norm) * vf::hr(0.999999), "cut-off", what + "a path is cut off at norm " + show(hnorm_inf(affine(o.x))));
			}
			if (k.sec.level > 0) c.check(o.code != SuccessCode::SecurityMaxNormReached, "security-level", what + "a path is cut off although the level of security forbids it");
			c.obs("diverging paths");
		}
	}
	c.sig(c.text);
}
template <typename T> struct PickPS { using type = typename EndgameSelector<T>::PSEG; };
template <typename T> struct PickCauchy { using type = typename EndgameSelector<T>::Cauchy; };

void pseg_case(Case& c) {
	Conf k = gen_conf(c.rng);
	if (k.amp) eg_case<PickPS, AMPTracker>(c, k, false);
	else if (k.mp) eg_case<PickPS, MultiplePrecisionTracker>(c, k, false);
	else eg_case<PickPS, DoublePrecisionTracker>(c, k, false);
}
void cauchy_case(Case& c) {
	Conf k = gen_conf(c.rng);
	if (k.amp) eg_case<PickCauchy, AMPTracker>(c, k, true);
	else if (k.mp) eg_case<PickCauchy, MultiplePrecisionTracker>(c, k, true);
	else eg_case<PickCauchy, DoublePrecisionTracker>(c, k, true);
}
Register rG01("G01", 4000, 12000, pseg_case, 200);
Register rG02("G02", 4000, 12000, cauchy_case, 200);

// ------------------------------------------------------------------ interpolation
template <typename C> void hermite(Case& c, unsigned digits) {
	Rng& r = c.rng;
	bertini::DefaultPrecision(digits);
	unsigned n = r.in(1, 6), extra = r.in(0, 3), dim = r.in(1, 3);
	int deg = r.in(0, 2 * n - 1);
	bool back = r.chance(0.5);
	std::vector<std::vector<HC>> p(dim);
	for (auto& q : p) for (int i = 0; i <= deg; ++i) q.push_back(vf::hc(std::round(r.u(-1, 1) * 64) / 64, std::round(r.u(-1, 1) * 64) / 64));
	HC tau = r.chance(0.4) ? HC(0) : vf::hc(std::round(r.u(-1, 1) * 64) / 64, std::round(r.u(-1, 1) * 64) / 64);
	bertini::TimeCont<C> times;
	bertini::SampCont<C> samples, ders;
	std::vector<HC> ht;
	HR sep(1);
	// either a geometric progression towards the target, or points anywhere
	bool geo = r.chance(0.5);
	HC w = vf::hc(r.u(0.05, 0.5), r.u(-0.3, 0.3));
	double fac = r.u(0.3, 0.7);
	for (unsigned i = 0; i < n + extra; ++i) {
		HC t = geo ? tau + w : vf::hc(r.u(-1, 1), r.u(-1, 1));
		w *= vf::hc(fac);
		t = vf::hc(to_num<C>(t, digits));
		for (auto& u : ht) { HR d = habs(u - t); if (d < sep) sep = d; }
		ht.push_back(t);
	}
	if (sep < vf::hr(1e-3)) { c.obs("inconclusive"); return; }
	for (auto& t : ht) {
		Vec<C> x(dim), d(dim);
		for (unsigned k = 0; k < dim; ++k) {
			HC v(0), dv(0);
			for (int i = deg; i >= 0; --i) { dv = dv * t + v; v = v * t + p[k][i]; }
			x(k) = to_num<C>(v, digits); d(k) = to_num<C>(dv, digits);
		}
		times.push_back(to_num<C>(t, digits)); samples.push_back(x); ders.push_back(d);
	}
	c.desc("digits " + std::to_string(digits) + " " + std::to_string(n) + " of " + std::to_string(n + extra) + " samples, degree " + std::to_string(deg) + (back ? " latest" : " earliest") + " samples, target " + show(tau, 6) + (geo ? " geometric" : ""));
	Vec<C> got = bertini::endgame::HermiteInterpolateAndSolve(to_num<C>(tau, digits), n, times, samples, ders, back ? bertini::ContStart::Back : bertini::ContStart::Front);
	// sensitivity to the rounding of the data: products of differences over the separation
	HR cond(1);
	size_t b = back ? extra : 0;
	for (unsigned i = b; i < b + n; ++i) {
		HR l(1), sum(0);
		for (unsigned j = b; j < b + n; ++j) if (j != i) { HR dd = habs(ht[i] - ht[j]); l = l * habs(tau - ht[j]) / dd; sum += HR(1) / dd; }
		cond += l * l * (1 + 2 * sum * habs(tau - ht[i]) + habs(tau - ht[i]));
	}
	HR growth(1);
	for (unsigned i = 0; i < 2 * n; ++i) growth = growth * 4;
	HR mx(1);
	for (unsigned i = b; i < b + n; ++i) for (unsigned j = b; j < i; ++j) { HR q = (1 + habs(tau - ht[j])) / habs(ht[i] - ht[j]); if (q > mx) mx = q; }
	HR lim = eps_of(std::is_same<C, dbl>::value ? 0 : digits) * cond * growth * mx * 100;
	if (lim > vf::hr(1e-2)) { c.obs("inconclusive"); return; }
	for (unsigned k = 0; k < dim; ++k) {
		HC v(0);
		for (int i = deg; i >= 0; --i) v = v * tau + p[k][i];
		HR d = habs(vf::hc(got(k)) - v);
		// the recorded finding: the Newton form evaluated with the nodes z(ii), z(ii-1) in place of z(2ii), z(2ii-1)
		std::vector<HC> z, dd;
		for (unsigned i = 0; i < n; ++i) { HC t = ht[b + n - 1 - i]; z.push_back(t); z.push_back(t); }
		std::vector<std::vector<HC>> F(2 * n, std::vector<HC>(2 * n));
		for (unsigned i = 0; i < 2 * n; ++i) {
			HC t = z[i], fv(0), dv(0);
			for (int e = deg; e >= 0; --e) { dv = dv * t + fv; fv = fv * t + p[k][e]; }
			F[i][0] = fv;
			for (unsigned j = 1; j <= i; ++j) F[i][j] = j == 1 && i % 2 ? dv : (F[i][j - 1] - F[i - 1][j - 1]) / (z[i] - z[i - j]);
		}
		HC rr = F[2 * n - 1][2 * n - 1];
		for (unsigned i = n - 1; i >= 1; --i) rr = (rr * (tau - z[i]) + F[2 * i][2 * i]) * (tau - z[i - 1]) + F[2 * i - 1][2 * i - 1];
		rr = rr * (tau - z[0]) + F[0][0];
		bool finding = n > 1 && d > lim && habs(vf::hc(got(k)) - rr) <= lim;
		if (d <= lim) c.obs("interpolations exact up to rounding"); else if (finding) c.obs("interpolations with the nodes of the recorded finding");
		c.check(d <= lim, finding ? "newton-nodes" : "interpolation", "interpolating a polynomial of degree " + std::to_string(deg) + " with " + std::to_string(n) + " values and derivatives is off by " + show(d) + " (rounding accounts for " + show(lim) + ")");
	}
	c.obs(std::is_same<C, dbl>::value ? "interpolations in double" : "interpolations in multiple precision");
	if (deg == int(2 * n - 1)) c.obs("interpolations of the highest degree");
	c.sig(c.text);
}
void hermite_case(Case& c) { if (c.rng.chance(0.4)) hermite<dbl>(c, 16); else hermite<mpfr_complex>(c, c.rng.pick(std::vector<unsigned>{20, 30, 50, 90})); }
Register rG03("G03", 40000, 200000, hermite_case);

void before() { bertini::DefaultPrecision(16); }
} // namespace
int main(int argc, char** argv) { before_case() = before; return run_main(argc, argv); }
