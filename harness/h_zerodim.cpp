// Z01 zero-dimensional solving, Z02 path crossing check, Z03 the course of a solve.
#include "zdmodel.hpp"

namespace {
bool reading = false;
// I04: what is printed is read back and compared with what the solver holds
struct Lines {
	std::vector<std::string> l; size_t at = 0;
	explicit Lines(std::string const& t) { std::istringstream i(t); std::string x; while (std::getline(i, x)) { size_t a = x.find_first_not_of(" \t\r"); if (a != std::string::npos) l.push_back(x.substr(a)); } }
	std::string next() { return at < l.size() ? l[at++] : std::string("<end of the output>"); }
};
struct Misread { std::string what; };
template <typename N> void rd_int(Lines& t, N want, const char* name) { std::string s = t.next(); char* e; long v = std::strtol(s.c_str(), &e, 10); if (*e || v != static_cast<long>(want)) throw Misread{std::string(name) + " reads " + s + " and is " + std::to_string(static_cast<long>(want))}; }
template <typename N> void rd_real(Lines& t, N const& w, const char* name) {
	double want = static_cast<double>(w); std::string s = t.next(); char* e; double v = std::strtod(s.c_str(), &e);
	bool same = v == want || (std::isnan(v) && std::isnan(want)) || std::abs(v - want) <= 1e-5 * std::abs(want);
	if (*e || !same) throw Misread{std::string(name) + " reads " + s + " and is " + std::to_string(want)};
}
bool rd_number(std::string const& s, HR const& want, unsigned digits) {
	if (s.empty()) return false;
	HR v;
	try { v = HR(s); } catch (std::exception const&) { return false; }
	if (isnan(want) || isinf(want)) return isnan(v) == isnan(want) && isinf(v) == isinf(want);
	return abs(v - want) <= abs(want) * pow(HR(10), -static_cast<int>(digits) + 2);
}
template <typename C> void rd_complex(Lines& t, C const& z, const char* name) {
	std::string s = t.next(); std::istringstream i(s); std::string a, b, more; i >> a >> b;
	HC w = vf::hc(z);
	unsigned d = bertini::Precision(z);
	if ((i >> more) || !rd_number(a, HR(w.real()), d) || !rd_number(b, HR(w.imag()), d)) throw Misread{std::string(name) + " reads " + s + " and is " + vf::show(w) + " (" + std::to_string(d) + " digits)"};
}
template <typename S> void rd_code(Lines& t, S const& want, const char* name) { std::ostringstream o; o << want; std::string s = t.next(); if (s != o.str()) throw Misread{std::string(name) + " reads " + s + " and is " + o.str()}; }
template <typename ZD> void read_output(Case& c, ZD& zd) {
	using O = alg::output::Classic<ZD>;
	Rng& r = c.rng;
	unsigned const ambient = r.pick(std::vector<unsigned>{16, 20, 30, 50, 100});
	bertini::DefaultPrecision(ambient);
	auto const& sols = zd.FinalSolutions();
	auto const& md = zd.FinalSolutionMetadata();
	auto const& ts = zd.TargetSystem();
	auto same_default = [&](const char* w) { return c.check(bertini::DefaultPrecision() == ambient, "default-precision", std::string(w) + " left the default precision at " + std::to_string(bertini::DefaultPrecision()) + " not " + std::to_string(ambient)); };
	auto tail = [&](Lines& t, std::vector<std::string> const& texts, const char* w) {
		std::string want, got;
		for (auto& x : texts) { Lines l(x); for (auto& y : l.l) want += y + "\n"; }
		while (t.at < t.l.size()) got += t.next() + "\n";
		c.check(want == got, "systems", std::string("the systems at the end of the ") + w + " output");
	};
	auto text = [](auto const& s) { std::ostringstream o; o << s; return o.str(); };
	size_t shown = 0;
	try {
		std::ostringstream o; O::RawData(o, zd);
		if (!same_default("raw output")) return;
		Lines t(o.str());
		rd_int(t, ts.NumVariables(), "number of variables");
		for (size_t i = 0; i < sols.size(); ++i) {
			if (md[i].endgame_success == SuccessCode::NeverStarted) { c.obs("paths without a result left out"); continue; }
			rd_int(t, i, "path index");
			rd_int(t, bertini::Precision(sols[i]), "precision");
			for (long q = 0; q < sols[i].size(); ++q) rd_complex(t, sols[i](q), "coordinate");
			rd_real(t, md[i].function_residual, "function residual"); rd_real(t, md[i].condition_number, "condition number"); rd_real(t, md[i].newton_residual, "newton residual");
			rd_complex(t, md[i].final_time_used, "final time"); rd_real(t, md[i].accuracy_estimate, "accuracy"); rd_complex(t, md[i].time_of_first_prec_increase, "time of the first increase of precision");
			rd_int(t, md[i].cycle_num, "cycle number"); rd_code(t, md[i].endgame_success, "verdict");
			++shown;
			c.obs(md[i].endgame_success == SuccessCode::Success ? "results read back" : "failed paths read back");
		}
		tail(t, {text(ts)}, "raw");
		c.eval(shown * 10);
	} catch (Misread const& m) { c.check(false, "raw", "in the raw output, result " + std::to_string(shown) + ": " + m.what); }
	shown = 0;
	try {
		std::ostringstream o; O::MainData(o, zd);
		if (!same_default("main output")) return;
		Lines t(o.str());
		rd_int(t, ts.NumVariables(), "number of variables");
		std::ostringstream names; for (auto& v : ts.VariableOrdering()) names << v->name() << ' ';
		std::string nm = t.next();
		if (nm != names.str()) throw Misread{"the variables read " + nm + " and are " + names.str()};
		for (size_t i = 0; i < sols.size(); ++i) {
			if (md[i].endgame_success == SuccessCode::NeverStarted) continue;
			rd_int(t, md[i].path_index, "path index"); rd_int(t, md[i].solution_index, "solution index");
			rd_real(t, md[i].condition_number, "condition number"); rd_real(t, md[i].function_residual, "function residual"); rd_real(t, md[i].newton_residual, "newton residual");
			rd_complex(t, md[i].final_time_used, "final time"); rd_int(t, md[i].max_precision_used, "highest precision"); rd_complex(t, md[i].time_of_first_prec_increase, "time of the first increase of precision");
			rd_real(t, md[i].accuracy_estimate, "accuracy"); rd_real(t, md[i].accuracy_estimate_user_coords, "accuracy in the user's coordinates");
			rd_int(t, md[i].cycle_num, "cycle number"); rd_int(t, md[i].multiplicity, "multiplicity");
			std::ostringstream w; w << md[i].pre_endgame_success << ' ' << md[i].endgame_success;
			std::string s = t.next(); if (s != w.str()) throw Misread{"the verdicts read " + s + " and are " + w.str()};
			for (long q = 0; q < sols[i].size(); ++q) rd_complex(t, sols[i](q), "coordinate");
			++shown;
		}
		tail(t, {text(ts), text(zd.StartSystem()), text(zd.Homotopy())}, "main");
		c.eval(shown * 14);
	} catch (Misread const& m) { c.check(false, "main", "in the main output, result " + std::to_string(shown) + ": " + m.what); }
	// in the user's coordinates
	auto as = alg::output::AllSolutions::Extract(zd);
	auto ns = alg::output::NonsingularSolutions::Extract(zd);
	if (!same_default("extracting solutions")) return;
	size_t a = 0, n = 0;
	for (size_t i = 0; i < sols.size(); ++i) {
		if (md[i].endgame_success == SuccessCode::NeverStarted) continue;
		// dividing by the homogenizing coordinate of each group
		std::vector<HC> want; std::vector<HC> raw = from_vec(sols[i]);
		size_t at = 0;
		for (auto const& g : ts.VariableGroups()) { HC h = raw[at]; for (size_t q = 1; q <= g.size(); ++q) want.push_back(raw[at + q] / h); at += g.size() + 1; }
		bool sane = true; for (auto& z : want) if (!vf::finite(z)) sane = false;
		unsigned d = bertini::Precision(sols[i]);
		auto near = [&](std::vector<HC> const& x) { if (x.size() != want.size()) return false; for (size_t q = 0; q < x.size(); ++q) if (!(habs(x[q] - want[q]) <= habs(want[q]) * pow(HR(10), -static_cast<int>(std::min(d, 110u)) + 2))) return false; return true; };
		if (!c.check(a < as.size(), "extract-all", "fewer end points extracted than paths with results")) return;
		if (sane && !c.check(near(from_vec(as[a])), "extract-all", "end point " + std::to_string(a) + " extracted is not that of path " + std::to_string(i))) return;
		++a;
		if (md[i].endgame_success == SuccessCode::Success && md[i].multiplicity == 1) {
			if (!c.check(n < ns.size() && (!sane || near(from_vec(ns[n]))), "extract-simple", "simple solution " + std::to_string(n) + " extracted is not that of path " + std::to_string(i))) return;
			++n; c.obs("simple solutions extracted");
		}
		if (sane) {
			std::ostringstream o; O::EndPointDehom(i, o, zd, "");
			if (!same_default("printing an end point")) return;
			Lines t(o.str());
			try {
				for (auto& w : want) { std::istringstream is(t.next()); std::string x, y; is >> x >> y; if (abs(HR(x) - w.real()) + abs(HR(y) - w.imag()) > habs(w) * pow(HR(10), -static_cast<int>(std::min(d, 110u)) + 2)) throw Misread{"a coordinate reads " + x + " " + y + " and is " + vf::show(w)}; }
				c.check(t.at == t.l.size(), "dehom", "more lines than coordinates");
				c.obs("end points in the user's coordinates read back");
			} catch (Misread const& m) { c.check(false, "dehom", "of path " + std::to_string(i) + " " + m.what); }
			catch (std::exception const& e) { c.check(false, "dehom", std::string("unreadable number ") + e.what()); }
		}
	}
	c.check(a == as.size() && n == ns.size(), "extract-count", std::to_string(as.size()) + " and " + std::to_string(ns.size()) + " solutions extracted, of " + std::to_string(a) + " and " + std::to_string(n));
	bertini::DefaultPrecision(16);
}
template <typename ZD> void drive(Case& c, Known const& k, ZD& zd, bool strict) {
	Rng& r = c.rng;
	constexpr bool adaptive = std::is_same<typename ZD::TrackerT, AMPTracker>::value;
	auto tols = zd.template Get<alg::TolerancesConfig>();
	tols.newton_before_endgame = std::pow(10.0, -r.u(6, 8));
	tols.newton_during_endgame = tols.newton_before_endgame / 10;
	zd.Set(tols);
	auto eg = zd.template GetFromEndgame<bertini::endgame::EndgameConfig>();
	if (r.chance(0.5)) eg.final_tolerance = std::pow(10.0, -r.u(10, adaptive ? 15 : 11));
	if (r.chance(0.3)) eg.num_sample_points = r.in(3, 5);
	zd.SetToEndgame(eg);
	using Conf = typename ZD::ZeroDimConf;
	auto zc = zd.template Get<Conf>();
	if (adaptive && r.chance(0.4)) zc.initial_ambient_precision = r.pick(std::vector<unsigned>{20, 30, 40});
	if (r.chance(0.3)) { using C = typename ZD::BaseComplexType; zc.endgame_boundary = C(1) / C(r.in(4, 20)); }
	zd.Set(zc);
	if (r.chance(0.4)) { auto pr = r.pick(std::vector<Predictor>{Predictor::HeunEuler, Predictor::RK4, Predictor::RKF45, Predictor::RKCashKarp45, Predictor::RKDormandPrince56, Predictor::RKVerner67}); zd.GetTracker().SetPredictor(pr); }
	// starved: the paths cannot get there, and must say so
	bool starved = r.chance(reading ? 0.3 : 0.1);
	if (starved) { auto st = zd.GetTracker().template Get<SteppingConfig>(); st.max_num_steps = r.in(0, 30); zd.GetTracker().Set(st); }
	int reps = r.chance(0.25) ? 2 : 1;
	for (int i = 0; i < reps; ++i) {
		zd.Solve();
		c.obs(starved ? "solves with too few steps" : "solves");
		if (reading) { read_output(c, zd); continue; }
		judge(c, k, zd, i ? "solving again: " : "", strict && !starved, eg.final_tolerance, zc.initial_ambient_precision);
		if (i) c.obs("solved again");
	}
	c.sig(c.text);
}
template <typename T, typename EG, typename SS> void clone_case(Case& c, Known const& k, System const& s, bool strict) {
	using ZD = alg::ZeroDim<T, EG, System, SS>;
	ZD zd(s);
	drive(c, k, zd, strict);
	// the given system is left as it was
	c.check(s.NumVariables() == size_t(k.n) && !s.IsPatched() && !s.HavePathVariable(), "given-system", "the given system has changed");
}
void solve_case(Case& c) {
	Rng& r = c.rng;
	Known k = gen_known_sys(r);
	System s = build(k, r);
	static const char* kinds[] = {"products of linear forms", "repeated roots", "roots at infinity", "several variable groups", "change of variables"};
	c.obs(std::string("systems: ") + kinds[k.kind]);
	int t = r.in(0, 9);
	bool cauchy = r.chance(0.5);
	c.desc(std::string(t <= 5 ? "adaptive " : t <= 7 ? "double " : "multiple ") + (cauchy ? "cauchy " : "power series ") + k.str());
	bool hard = k.kind == 1;
	using A = AMPTracker; using D = DoublePrecisionTracker; using M = MultiplePrecisionTracker;
	if (k.kind == 3) {
		using bertini::start_system::MHomogeneous;
		if (cauchy) clone_case<A, EndgameSelector<A>::Cauchy, MHomogeneous>(c, k, s, true);
		else clone_case<A, EndgameSelector<A>::PSEG, MHomogeneous>(c, k, s, true);
		c.obs("solves with the m-homogeneous start system");
		return;
	}
	using bertini::start_system::TotalDegree;
	c.obs("solves with the total degree start system");
	if (t <= 5) { if (cauchy) clone_case<A, EndgameSelector<A>::Cauchy, TotalDegree>(c, k, s, true); else clone_case<A, EndgameSelector<A>::PSEG, TotalDegree>(c, k, s, true); }
	else if (t <= 7) clone_case<D, EndgameSelector<D>::Cauchy, TotalDegree>(c, k, s, !hard);
	else clone_case<M, EndgameSelector<M>::PSEG, TotalDegree>(c, k, s, !hard);
	c.obs(t <= 5 ? "solves: adaptive" : t <= 7 ? "solves: double" : "solves: multiple");
}
void output_case(Case& c) { reading = true; solve_case(c); reading = false; }
Register rI04("I04", 300, 6000, output_case, 200);
Register rZ01("Z01", 600, 12000, solve_case, 200);


// ------------------------------------------------------------------ crossings
template <typename C> struct FakeStart {
	std::vector<Vec<C>> pts;
	template <typename T> Vec<T> StartPoint(unsigned long long i) const { return pts.at(i); }
};
template <typename C> void crossing(Case& c, unsigned digits) {
	Rng& r = c.rng;
	using R = typename NumTraits<C>::Real;
	using MD = alg::EGBoundaryMetaData<C>;
	using MC = alg::MidpathChecker<R, C, MD>;
	bertini::DefaultPrecision(digits);
	alg::MidPathConfig conf;
	conf.same_point_tolerance = r.chance(0.3) ? 1e-5 : std::pow(10.0, -r.u(2, 8));
	MC mc = r.chance(0.5) ? MC(conf) : MC(alg::MidPathConfig());
	if (r.chance(0.5)) mc.Set(conf); else mc = MC(conf);
	double tol = conf.same_point_tolerance;
	int times = r.in(1, 4);
	std::string text;
	for (int q = 0; q < times; ++q) {
		int n = r.in(1, 12), dim = r.in(1, 4), nc = r.chance(0.3) ? n : r.in(1, n), ns = r.chance(0.3) ? n : r.in(1, n);
		double size = std::pow(10.0, r.u(-3, 3));
		auto cluster = [&](int many) {
			std::vector<std::vector<HC>> v;
			while (int(v.size()) < many) {
				std::vector<HC> x;
				for (int i = 0; i < dim; ++i) x.push_back(vf::hc(r.u(-1, 1), r.u(-1, 1)));
				HR m(0);
				for (auto& z : x) if (habs(z) > m) m = habs(z);
				if (m < vf::hr(0.3)) continue;
				for (auto& z : x) z /= HC(m);
				bool ok = true;
				for (auto& y : v) if (hdist(x, y) < vf::hr(0.05)) ok = false;
				if (ok || v.size() > 3) { if (ok) v.push_back(x); else many = v.size(); }
			}
			return v;
		};
		auto cs = cluster(nc), ss = cluster(ns);
		typename MC::BoundaryData data;
		FakeStart<C> fs;
		std::vector<std::vector<HC>> P, S;
		std::vector<bool> good;
		text += " [" + std::to_string(n) + " paths, dimension " + std::to_string(dim) + ", size " + std::to_string(size) + ":";
		for (int i = 0; i < n; ++i) {
			int a = r.in(0, int(cs.size()) - 1), b = r.in(0, int(ss.size()) - 1);
			// apart from the middle of its cluster, in one coordinate, by a multiple of the tolerance
			auto x = cs[a];
			double f = r.pick(std::vector<double>{0, 0, 0.1, 0.3, 2.5, 6});
			int co = r.in(0, dim - 1);
			if (dim > 1) { int big = 0; for (int z = 0; z < dim; ++z) if (habs(x[z]) == 1) big = z; if (co == big) co = (co + 1) % dim; }
			x[co] += vf::hc(f * tol, 0.0);
			for (auto& z : x) z *= vf::hc(size);
			auto y = ss[b];
			double g = r.pick(std::vector<double>{0, 0, 0.1, 0.3, 2.5, 6});
			y[r.in(0, dim - 1)] += vf::hc(0.0, g * tol);
			bool ok = !r.chance(0.15);
			MD md(to_vec<C>(x, digits), ok ? SuccessCode::Success : r.pick(std::vector<SuccessCode>{SuccessCode::MaxNumStepsTaken, SuccessCode::GoingToInfinity, SuccessCode::NeverStarted}), R(0.1));
			data.push_back(md);
			fs.pts.push_back(to_vec<C>(y, digits));
			P.push_back(from_vec(data.back().path_point)); S.push_back(from_vec(fs.pts.back())); good.push_back(ok);
			text += " " + std::to_string(a) + "+" + show(HR(f), 2) + "/" + std::to_string(b) + "+" + show(HR(g), 2) + (ok ? "" : " failed");
			if (!ok) c.obs("failed paths");
		}
		text += "]";
		c.desc("tolerance " + std::to_string(-std::log10(tol)) + (digits == 16 ? " double" : " multiple") + text);
		auto inf = [](std::vector<HC> const& a) { HR m(0); for (auto& z : a) if (habs(z) > m) m = habs(z); return m; };
		std::map<int, bool> want;
		bool close = false;
		for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (good[i] && good[j]) {
			HR d = hdist(P[i], P[j]) / inf(P[i]), d2 = hdist(P[i], P[j]) / inf(P[j]), e = hdist(S[i], S[j]);
			auto near = [&](HR const& v) { return v > HR(tol) / 1.4 && v < HR(tol) * 1.4; };
			if (near(d) || near(d2) || near(e)) { close = true; continue; }
			if (d < HR(tol)) { bool rerun = e > HR(tol); want[i] = want[i] || rerun; want[j] = want[j] || rerun; c.obs("crossings"); }
		}
		bool passed = mc.Check(data, fs);
		if (close) { c.obs("too close to the tolerance to call"); continue; }
		c.obs(digits == 16 ? "checks in double" : "checks in multiple precision");
		c.obs(want.empty() ? "checks passed" : "checks with crossings");
		if (q) c.obs("checks after another check");
		c.check(passed == want.empty() && mc.Passed() == passed, "verdict", std::string("the check ") + (passed ? "passes" : "does not pass") + " with " + std::to_string(want.size()) + " crossed paths");
		std::map<int, bool> got;
		bool twice = false;
		for (auto& v : mc.GetCrossedPaths()) { if (got.count(v.index())) twice = true; got[v.index()] = v.rerun(); }
		c.check(!twice, "listed-twice", "a crossed path is listed twice");
		for (auto& w : want) {
			c.eval();
			c.obs(w.second ? "crossed paths to be tracked again" : "crossed paths with the same start");
			if (!got.count(w.first)) c.violation("crossing-missed", "path " + std::to_string(w.first) + " coincides with another and is not listed");
			else if (got[w.first] != w.second) c.violation("rerun", "path " + std::to_string(w.first) + (w.second ? " crossed one with another start point, and is not to be tracked again" : " coincides only with paths of the same start point, and is to be tracked again"));
		}
		for (auto& g : got) c.check(want.count(g.first), "false-crossing", "path " + std::to_string(g.first) + " coincides with no other and is listed");
		c.sig(c.text);
	}
}
void crossing_case(Case& c) { if (c.rng.chance(0.5)) crossing<dbl>(c, 16); else crossing<mpfr_complex>(c, c.rng.pick(std::vector<unsigned>{20, 30, 60})); }
Register rZ02("Z02", 32000, 200000, crossing_case, 60);

// ------------------------------------------------------------------ the course of a solve
struct Trk { HC t0, t1, tend; std::vector<HC> from, to; double tol = 0; HR step; bool began = false, ended = false; };
template <typename TrackerT> struct Course : public Observer<TrackerT> {
	using E = typename TrackerTraits<TrackerT>::EventEmitterType;
	std::vector<Trk> log;
	template <typename N> bool init(AnyEvent const& e) {
		auto p = dynamic_cast<const Initializing<E, N>*>(&e);
		if (!p) return false;
		Trk t; t.t0 = vf::hc(p->StartTime()); t.t1 = vf::hc(p->EndTime()); t.from = from_vec(p->StartPoint());
		log.push_back(t);
		return true;
	}
	void Observe(AnyEvent const& e) override {
		if (init<dbl>(e) || init<mpfr_complex>(e)) return;
		if (log.empty()) return;
		if (auto p = dynamic_cast<const TrackingStarted<E>*>(&e)) { log.back().began = true; log.back().tol = static_cast<double>(p->Get().TrackingTolerance()); log.back().step = HR(p->Get().CurrentStepsize()); }
		if (auto p = dynamic_cast<const TrackingEnded<E>*>(&e)) { log.back().ended = true; log.back().tend = vf::hc(p->Get().CurrentTime()); log.back().to = from_vec(p->Get().CurrentPoint()); }
	}
	virtual ~Course() = default;
};
template <typename ZD> void follow(Case& c, Known const& k, ZD& zd, bool strict) {
	Rng& r = c.rng;
	constexpr bool adaptive = std::is_same<typename ZD::TrackerT, AMPTracker>::value;
	auto tols = zd.template Get<alg::TolerancesConfig>();
	tols.newton_before_endgame = std::pow(10.0, -r.u(5, 7));
	tols.newton_during_endgame = tols.newton_before_endgame / r.pick(std::vector<double>{3, 10, 30});
	zd.Set(tols);
	using Conf = typename ZD::ZeroDimConf;
	using C = typename ZD::BaseComplexType;
	auto zc = zd.template Get<Conf>();
	if (adaptive && r.chance(0.3)) zc.initial_ambient_precision = r.pick(std::vector<unsigned>{20, 30});
	if (r.chance(0.3)) zc.endgame_boundary = C(1) / C(r.in(4, 20));
	zc.max_num_crossed_path_resolve_attempts = r.in(0, 3);
	zd.Set(zc);
	auto ar = zd.template Get<alg::AutoRetrackConfig>();
	if (r.chance(0.7)) ar.midpath_decrease_tolerance_factor = 1 / r.u(1.5, 20);
	zd.Set(ar);
	double const factor = static_cast<double>(ar.midpath_decrease_tolerance_factor);
	auto eg = zd.template GetFromEndgame<bertini::endgame::EndgameConfig>();
	Course<typename ZD::TrackerT> rec;
	zd.GetTracker().AddObserver(rec);
	bool starving = r.chance(0.25);
	auto inf = [](std::vector<HC> const& a) { HR m(0); for (auto& z : a) if (habs(z) > m) m = habs(z); return m; };
	double mid = 1e-5;
	HR first_step(-1);
	auto st = zd.GetTracker().template Get<SteppingConfig>();
	auto const plenty = st;
	int reps = r.in(2, 3);
	for (int round = 0; round < reps; ++round) {
		alg::MidPathConfig mc; mc.same_point_tolerance = mid;
		zd.SetMidpath(mc);
		// sometimes too few steps for some of the paths: they take no part in what follows
		bool starved = starving && r.chance(0.6);
		st = plenty; if (starved) st.max_num_steps = r.in(2, 25);
		zd.GetTracker().Set(st);
		rec.log.clear();
		zd.Solve();
		c.obs("solves");
		std::string ctx = " (solve " + std::to_string(round + 1) + (starved ? ", few steps" : "") + ", paths are the same within " + show(HR(mid), 4) + ", at most " + std::to_string(zc.max_num_crossed_path_resolve_attempts) + " attempts)";
		auto const& bd = zd.EndgameBoundaryData();
		size_t n = bd.size();
		HC b = vf::hc(zc.endgame_boundary), one = vf::hc(zc.start_time);
		std::vector<std::vector<HC>> S, P(n);
		std::vector<bool> good(n, false);
		std::vector<int> last(n, -1);
		bertini::DefaultPrecision(zc.initial_ambient_precision);
		zd.StartSystem().precision(zc.initial_ambient_precision);
		for (size_t i = 0; i < n; ++i) S.push_back(from_vec(zd.StartSystem().template StartPoint<C>(i)));
		size_t at = 0;
		bool ok = true, judged = true;
		// one track from a start point to the boundary, with the tolerance of its round
		auto take = [&](double tol, std::map<int, int>& took, size_t many, const char* what) {
			for (size_t q = 0; q < many && ok; ++q, ++at) {
				if (!c.check(at < rec.log.size(), "tracks-missing", std::string("too few tracks ") + what + ctx)) { ok = false; return; }
				Trk& t = rec.log[at];
				int who = -1;
				for (size_t i = 0; i < n; ++i) if (hdist(S[i], t.from) < HR(1e-9) * (inf(S[i]) + 1)) who = i;
				if (!c.check(t.t0 == one && who >= 0, "start-of-track", std::string("a track ") + what + " does not begin at a start point, at time " + show(t.t0) + ctx)) { ok = false; return; }
				c.check(habs(t.t1 - b) <= HR(1e-15), "end-of-track", std::string("a track ") + what + " is to end at time " + show(t.t1) + ctx);
				c.check(std::abs(t.tol - tol) <= 1e-9 * tol, "tolerance", std::string("a track ") + what + " has tolerance " + show(HR(t.tol), 6) + ", not " + show(HR(tol), 6) + ctx);
				if (first_step < 0) first_step = t.step;
				c.check(abs(t.step - first_step) <= first_step * HR(1e-12), "step-size", std::string("a track ") + what + " begins with step size " + show(t.step, 6) + ", not " + show(first_step, 6) + ctx);
				c.check(t.began && t.ended, "track-unfinished", std::string("a track ") + what + " has no beginning or end" + ctx);
				took[who]++;
				HR off = habs(t.tend - t.t1);
				if (off != 0 && off <= HR(1e-14) && starved) judged = false;   // a last step of no length may have been left over
				good[who] = off <= HR(1e-14);
				P[who] = t.to;
				last[who] = at;
			}
		};
		std::map<int, int> took;
		take(tols.newton_before_endgame, took, n, "before the endgame");
		for (size_t i = 0; i < n && ok; ++i) ok = c.check(took[i] == 1, "tracked-once", "path " + std::to_string(i) + " is tracked " + std::to_string(took[i]) + " times to the boundary" + ctx);
		double tol = tols.newton_before_endgame;
		unsigned attempts = 0;
		while (ok && judged) {
			std::map<int, bool> want;
			for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (good[i] && good[j]) {
				HR d = hdist(P[i], P[j]) / inf(P[i]), d2 = hdist(P[i], P[j]) / inf(P[j]), e = hdist(S[i], S[j]);
				auto near = [&](HR const& v) { return v > HR(mid) / 1.001 && v < HR(mid) * 1.001; };
				if (near(d) || near(d2) || near(e) || (d < HR(mid)) != (d2 < HR(mid))) { judged = false; continue; }
				if (d < HR(mid)) { bool rerun = e > HR(mid); want[i] = want[i] || rerun; want[j] = want[j] || rerun; }
			}
			if (!judged) { c.obs("too close to the tolerance to call"); break; }
			if (want.empty()) { c.obs(attempts ? "crossings resolved" : "solves without crossings"); break; }
			if (attempts >= zc.max_num_crossed_path_resolve_attempts) { c.obs("crossings left after all attempts"); break; }
			++attempts; tol *= factor;
			size_t many = 0; for (auto& w : want) if (w.second) ++many;
			took.clear();
			take(tol, took, many, "of crossed paths");
			for (auto& w : want) if (ok) { ok = c.check(took[w.first] == (w.second ? 1 : 0), "tracked-again", "crossed path " + std::to_string(w.first) + " is tracked again " + std::to_string(took[w.first]) + " times in attempt " + std::to_string(attempts) + ctx); if (w.second) c.obs("crossed paths tracked again"); else c.obs("crossed paths of one start"); }
			for (auto& w : took) if (ok && w.second) ok = c.check(want.count(w.first), "tracked-again", "path " + std::to_string(w.first) + " is tracked again and has crossed no other" + ctx);
			c.obs("attempts");
		}
		if (!ok) return;
		if (!judged) { c.obs("solves not judged"); while (at < rec.log.size() && rec.log[at].t0 == one) ++at; for (size_t i = 0; i < n; ++i) { good[i] = bd[i].success_code == SuccessCode::Success; P[i] = from_vec(bd[i].path_point); } }
		for (size_t i = 0; i < n; ++i) {
			c.check((bd[i].success_code == SuccessCode::Success) == good[i], "boundary-data", "path " + std::to_string(i) + " is recorded at the boundary with verdict " + code_name(bd[i].success_code) + ", its last track " + (good[i] ? "got there" : "did not get there") + ctx);
			if (good[i]) c.check(hdist(from_vec(bd[i].path_point), P[i]) <= HR(1e-12) * inf(P[i]), "boundary-data", "path " + std::to_string(i) + " is recorded at another point of the boundary than its last track reached" + ctx);
			c.obs(good[i] ? "paths at the boundary" : "paths which did not get to the boundary");
		}
		// the endgames: each path from its point at the boundary, with the tolerance for the endgame
		std::vector<int> entered(n, 0);
		size_t begun = 0;
		for (; at < rec.log.size(); ++at) {
			Trk& t = rec.log[at];
			c.check(!(habs(t.t0 - one) < HR(1e-9)), "tracked-again", "a track from the start once the endgames have begun" + ctx);
			if (!t.began) continue;
			c.check(std::abs(t.tol - double(tols.newton_during_endgame)) <= 1e-9 * t.tol, "endgame-tolerance", "a track in the endgame has tolerance " + show(HR(t.tol), 6) + ", not " + show(HR(double(tols.newton_during_endgame)), 6) + ctx);
			c.obs("tracks in endgames");
			++begun;
			if (habs(t.t0 - b) > HR(1e-13)) continue;
			for (size_t i = 0; i < n; ++i) if (bd[i].success_code == SuccessCode::Success && hdist(from_vec(bd[i].path_point), t.from) <= HR(1e-10) * inf(t.from)) {
				if (!entered[i]++) c.check(abs(t.step - HR(bd[i].last_used_stepsize)) <= t.step * HR(1e-12), "endgame-step", "the endgame of path " + std::to_string(i) + " begins with step size " + show(t.step, 6) + ", not with the last one used, " + show(HR(bd[i].last_used_stepsize), 6) + ctx);
			}
		}
		for (size_t i = 0; i < n; ++i) if (bd[i].success_code == SuccessCode::Success) c.check(entered[i] > 0, "endgame-missing", "no track begins at the point of path " + std::to_string(i) + " at the boundary" + ctx);
		judge(c, k, zd, "after crossings: ", strict && !starved && !starving, eg.final_tolerance, zc.initial_ambient_precision);
		// a tolerance for the next solve which calls some pairs of paths the same, between two of the distances seen
		mid = 1e-5;
		std::vector<std::pair<HR, HR>> ds;
		std::vector<HR> es, cut;
		for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (good[i] && good[j]) {
			HR d = hdist(P[i], P[j]) / inf(P[i]), d2 = hdist(P[i], P[j]) / inf(P[j]);
			ds.push_back({std::min(d, d2), std::max(d, d2)}); es.push_back(hdist(S[i], S[j]));
		}
		for (auto& x : ds) cut.push_back(x.second * HR(r.u(1.02, 1.3)));
		std::sort(cut.begin(), cut.end());
		if (!cut.empty() && r.chance(0.9)) for (int q = 0; q < 12; ++q) {
			HR m = cut[r.in(0, std::min<long>(cut.size() - 1, 10))];
			bool fine = true;
			for (auto& x : ds) if (x.first < m * HR(1.01) && x.second > m / HR(1.01)) fine = false;
			for (auto& x : es) if (x < m * HR(1.01) && x > m / HR(1.01)) fine = false;
			if (fine) { mid = static_cast<double>(m); break; }
		}
	}
	zd.GetTracker().RemoveObserver(rec);
	c.sig(c.text);
}
template <typename T, typename EG, typename SS> void follow_one(Case& c, Known const& k, System const& s, bool strict) {
	alg::ZeroDim<T, EG, System, SS> zd(s);
	zd.DefaultSetup();
	follow(c, k, zd, strict);
}
void course_case(Case& c) {
	Rng& r = c.rng;
	Known k = gen_known_sys(r);
	for (int q = 0; q < 6 && k.paths > 9; ++q) k = gen_known_sys(r);
	System s = build(k, r);
	int t = r.in(0, 9);
	c.desc(std::string(t <= 4 ? "adaptive " : t <= 7 ? "double " : "multiple ") + k.str());
	bool hard = k.kind == 1;
	using A = AMPTracker; using D = DoublePrecisionTracker; using M = MultiplePrecisionTracker;
	if (k.kind == 3) { follow_one<A, EndgameSelector<A>::Cauchy, bertini::start_system::MHomogeneous>(c, k, s, true); return; }
	using bertini::start_system::TotalDegree;
	if (t <= 4) follow_one<A, EndgameSelector<A>::PSEG, TotalDegree>(c, k, s, true);
	else if (t <= 7) follow_one<D, EndgameSelector<D>::Cauchy, TotalDegree>(c, k, s, !hard);
	else follow_one<M, EndgameSelector<M>::PSEG, TotalDegree>(c, k, s, !hard);
	c.obs(t <= 4 ? "solves: adaptive" : t <= 7 ? "solves: double" : "solves: multiple");
}
Register rZ03("Z03", 200, 4000, course_case, 300);

void before() { bertini::DefaultPrecision(16); }
} // namespace
int main(int argc, char** argv) { before_case() = before; return run_main(argc, argv); }
