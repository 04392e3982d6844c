// O01 observers, T03 endpoints of tracked paths, T04 the trace of events and the step control, T05 adaptive precision.
#include "knownpath.hpp"
#include "bertini2/tracking.hpp"

using namespace vf;
using namespace bertini;
using namespace bertini::tracking;

namespace {
const std::vector<Predictor> kPred{Predictor::Constant, Predictor::Euler, Predictor::HeunEuler, Predictor::RK4, Predictor::RKF45, Predictor::RKCashKarp45, Predictor::RKDormandPrince56, Predictor::RKVerner67};
const char* pname(Predictor p) { switch (p) { case Predictor::Constant: return "constant"; case Predictor::Euler: return "Euler"; case Predictor::HeunEuler: return "Heun-Euler"; case Predictor::RK4: return "RK4"; case Predictor::RKF45: return "RKF45"; case Predictor::RKCashKarp45: return "Cash-Karp45"; case Predictor::RKDormandPrince56: return "Dormand-Prince56"; case Predictor::RKVerner67: return "Verner67"; default: return "?"; } }
std::string code_name(SuccessCode c) { return std::to_string(static_cast<int>(c)); }

HR norm_(HC const& z) { HR a = habs(z); return a * a; }
enum class Ev { Init, Started, New, Predicted, Corrected, Good, Bad, Trunc, End, Prec, SingStart, SolveFail, Higher, Other };
struct Rec {
	Ev e;
	HC time, delta;
	HR step;
	unsigned prec = 0, prev = 0, next = 0;
	std::vector<HC> point;   // Corrected: the new point; New, Good, Bad: the tracker's current point
	HC t0, t1; double ndz = -1, cond = -1;
};
template <typename TrackerT> struct Recorder : public Observer<TrackerT> {
	using E = typename TrackerTraits<TrackerT>::EventEmitterType;
	std::vector<Rec> log;
	bool points = true;
	template <typename T> bool as(AnyEvent const& e, Ev k) {
		auto p = dynamic_cast<const T*>(&e);
		if (!p) return false;
		put(k, p->Get());
		return true;
	}
	void put(Ev k, E const& tr) {
		Rec r;
		r.e = k;
		if (k != Ev::Init && k != Ev::SingStart) {
			r.time = hc(tr.CurrentTime()); r.delta = hc(tr.DeltaT()); r.step = hr(tr.CurrentStepsize());
			if (points && (k == Ev::New || k == Ev::Good || k == Ev::Bad)) r.point = from_vec(tr.CurrentPoint());
		}
		r.prec = tr.CurrentPrecision();
		if (k == Ev::Good) { r.ndz = static_cast<double>(tr.LatestNormOfStep()); r.cond = static_cast<double>(tr.LatestConditionNumber()); }
		log.push_back(r);
	}
	template <typename N> bool predcorr(AnyEvent const& e) {
		if (auto p = dynamic_cast<const SuccessfulPredict<E, N>*>(&e)) { put(Ev::Predicted, p->Get()); log.back().point = from_vec(p->ResultingPoint()); return true; }
		if (auto p = dynamic_cast<const SuccessfulCorrect<E, N>*>(&e)) { put(Ev::Corrected, p->Get()); log.back().point = from_vec(p->ResultingPoint()); return true; }
		if (auto p = dynamic_cast<const Initializing<E, N>*>(&e)) { put(Ev::Init, p->Get()); log.back().t0 = hc(p->StartTime()); log.back().t1 = hc(p->EndTime()); log.back().point = from_vec(p->StartPoint()); return true; }
		return false;
	}
	void Observe(AnyEvent const& e) override {
		if (predcorr<dbl>(e) || predcorr<mpfr_complex>(e)) return;
		if (auto p = dynamic_cast<const PrecisionChanged<E>*>(&e)) { Rec r; r.e = Ev::Prec; r.prev = p->Previous(); r.next = p->Next(); log.push_back(r); return; }
		if (as<TrackingStarted<E>>(e, Ev::Started) || as<NewStep<E>>(e, Ev::New) || as<SuccessfulStep<E>>(e, Ev::Good) || as<FailedStep<E>>(e, Ev::Bad) || as<InfinitePathTruncation<E>>(e, Ev::Trunc)
			|| as<TrackingEnded<E>>(e, Ev::End) || as<SingularStartPoint<E>>(e, Ev::SingStart)) return;
		if (dynamic_cast<const bertini::tracking::MatrixSolveFailure<E>*>(&e)) { Rec r; r.e = Ev::SolveFail; log.push_back(r); return; }
		if (dynamic_cast<const bertini::tracking::HigherPrecisionNecessary<E>*>(&e)) { Rec r; r.e = Ev::Higher; log.push_back(r); return; }
		Rec r; r.e = Ev::Other; log.push_back(r);
	}
};
inline HR hr(HR const& x) { return x; }

struct Conf {
	Predictor p;
	double tol, trunc = 1e5;
	SteppingConfig st;
	NewtonConfig nw;
	bool preserve = false, truncate = true;
	unsigned maxprec = 300;
	bool amp = false, mp = false;
	unsigned digits = 16;
	std::string str() const {
		std::ostringstream o;
		o << (amp ? "adaptive" : mp ? "multiple" : "double") << " digits " << digits << " " << pname(p) << " tol " << tol << " trunc " << trunc << " step " << double(st.initial_step_size) << " max " << double(st.max_step_size) << " min " << double(st.min_step_size)
		  << " factors " << double(st.step_size_success_factor) << "," << double(st.step_size_fail_factor) << " after " << st.consecutive_successful_steps_before_stepsize_increase << " steps " << st.min_num_steps << ".." << st.max_num_steps
		  << " newton " << nw.min_num_newton_iterations << ".." << nw.max_num_newton_iterations << (preserve ? " preserve" : "") << (truncate ? "" : " no truncation") << " maxprec " << maxprec;
		return o.str();
	}
};

Conf gen_conf(Rng& r) {
	Conf k;
	int kind = r.in(0, 9);
	k.amp = kind >= 5; k.mp = kind < 5 && kind >= 3;
	k.digits = k.amp ? r.pick(std::vector<unsigned>{16, 16, 16, 20, 30, 50}) : k.mp ? r.pick(std::vector<unsigned>{20, 30, 40, 60}) : 16;
	k.p = r.pick(kPred);
	k.tol = std::pow(10.0, -r.u(4, k.mp ? std::min(14u, k.digits - 8) : 9));
	if (k.p == Predictor::Constant) k.tol = std::max(k.tol, 1e-5);
	k.st.max_step_size = mpq_rational(r.in(2, 10), 100);
	k.st.initial_step_size = k.st.max_step_size * mpq_rational(r.in(1, 4), 4);
	if (r.chance(0.3)) k.st.initial_step_size = mpq_rational(r.in(1, 20), 1000);
	if (k.st.initial_step_size > k.st.max_step_size) k.st.initial_step_size = k.st.max_step_size;
	k.st.step_size_success_factor = mpq_rational(r.in(5, 12), 4);
	k.st.step_size_fail_factor = mpq_rational(r.in(3, 7), 10);
	k.st.consecutive_successful_steps_before_stepsize_increase = r.in(1, 7);
	k.st.min_num_steps = r.chance(0.6) ? 1 : r.in(2, 30);
	k.nw.max_num_newton_iterations = r.in(2, 4);
	k.nw.min_num_newton_iterations = r.in(1, 2);
	k.preserve = r.chance(0.4);
	return k;
}

template <typename TrackerT> struct Ty;
template <> struct Ty<DoublePrecisionTracker> { using C = dbl; };
template <> struct Ty<MultiplePrecisionTracker> { using C = mpfr_complex; };
template <> struct Ty<AMPTracker> { using C = mpfr_complex; };

template <typename TrackerT> void configure(TrackerT& tr, Conf const& k, System const& s) {
	tr.Setup(k.p, k.tol, k.trunc, k.st, k.nw);
	tr.SetInfiniteTruncation(k.truncate);
	if constexpr (std::is_same<TrackerT, AMPTracker>::value) {
		auto a = AMPConfigFrom(s);
		a.maximum_precision = k.maxprec;
		tr.PrecisionSetup(a);
		tr.PrecisionPreservation(k.preserve);
	}
}

struct Result { SuccessCode code; std::vector<HC> end; unsigned end_prec = 0, def_prec = 0, sys_prec = 0, steps = 0; std::vector<Rec> log; double tol; Conf conf; HC t0, t1; std::vector<HC> start; bool homog = false; HR first_step{0}; };

template <typename TrackerT> Result track(TrackerT& tr, System const& s, Conf const& k, HC const& t0, HC const& t1, std::vector<HC> const& start, unsigned digits) {
	using C = typename Ty<TrackerT>::C;
	Result o;
	o.conf = k; o.tol = k.tol;
	if (k.mp) go(s, k.digits);
	Vec<C> st = to_vec<C>(start, digits), sol;
	C a = to_num<C>(t0, digits), b = to_num<C>(t1, digits);
	o.t0 = hc(a); o.t1 = hc(b); o.start = from_vec(st);
	if (start.size() % 2) sol = st;   // a container already holding something
	Recorder<TrackerT> rec;
	tr.AddObserver(rec);
	o.code = tr.TrackPath(sol, a, b, st);
	tr.RemoveObserver(rec);
	o.log = rec.log;
	o.end = from_vec(sol);
	o.steps = tr.NumTotalStepsTaken();
	if constexpr (!std::is_same<C, dbl>::value) { if (sol.size()) o.end_prec = Precision(sol(0)); o.def_prec = DefaultPrecision(); o.sys_prec = s.precision(); }
	return o;
}

// what working precision may have cost
HR floor_of(Conf const& k, unsigned prec) { return eps_of(k.amp || k.mp ? (prec <= 16 ? 0 : prec) : 0) * 1e5; }

// ------------------------------------------------------------------ the trace specification
template <typename F> void judge_trace(Case& c, Result const& o, F const& truth, double scale) {
	auto const& L = o.log;
	Conf const& k = o.conf;
	auto bad = [&](std::string const& key, std::string const& d) { c.violation(key, d); };
	auto hq = [](mpq_rational const& q) { return vf::hr(q); };
	c.eval();
	if (L.size() < 2 || L.front().e != Ev::Init) { bad("trace-start", "tracking does not begin with its start being announced"); return; }
	if (L.back().e != Ev::End) bad("trace-end", "tracking does not end with its end being announced");
	c.check(hdist({L[0].t0, L[0].t1}, {o.t0, o.t1}) == 0 && hdist(L[0].point, o.start) == 0, "trace-start", "the start announced is not the one asked for");
	HR eps = floor_of(k, k.digits) / 1e3;
	HC now = o.t0;
	HR togo = habs(o.t1 - o.t0), step;
	HR init = o.first_step > 0 ? o.first_step : std::min(hq(k.st.initial_step_size), togo / k.st.min_num_steps);
	auto affine = [&](std::vector<HC> v) { if (o.homog && v.size()) { HC h = v[0]; v.erase(v.begin()); for (auto& z : v) z /= h; } return v; };
	auto size = [&](std::vector<HC> const& v) { HR m(0); for (auto& z : affine(v)) m += norm_(z); return HR(sqrt(m)); };
	auto beyond = [&](std::vector<HC> const& v, double f) { return v.size() && size(v) > HR(k.trunc) * f; };
	unsigned good = 0, fail = 0, since = 0, ends = 0, prec = k.digits, consecutive = 0, starts = 0;
	bool first = true;
	size_t i = 1;
	std::vector<HC> here = o.start;
	for (; i < L.size(); ++i) {
		Rec const& e = L[i];
		if (e.e == Ev::End) { ++ends; continue; }
		if (ends) { bad("trace-end", "events after the end"); return; }
		if (e.e == Ev::Prec) { c.check(e.prev == prec, "trace-precision", "a change of precision from " + std::to_string(e.prev) + " while at " + std::to_string(prec)); prec = e.next; c.obs(e.next > e.prev ? "precision increases" : "precision decreases"); continue; }
		if (e.e == Ev::Trunc || e.e == Ev::SingStart) continue;
		if (e.e == Ev::Started) { ++starts; c.check(first && starts == 1, "trace-start", "the beginning of tracking is announced again"); continue; }
		if (e.e == Ev::New && !starts) { bad("trace-start", "a step before the beginning of tracking is announced"); ++starts; }
		if (e.e != Ev::New) { bad("trace-order", "event " + std::to_string(int(e.e)) + " outside a step"); return; }
		c.eval(6);
		if (e.prec != prec && k.amp) bad("trace-precision", "step at precision " + std::to_string(e.prec) + " after a change to " + std::to_string(prec));
		if (k.amp && e.prec > k.maxprec) bad("precision-beyond-maximum", "a step is taken at precision " + std::to_string(e.prec) + ", the maximum is " + std::to_string(k.maxprec));
		HR e5 = floor_of(k, std::min(e.prec, prec)) / 1e1;
		if (habs(e.time - now) > e5 * (1 + habs(now))) bad("time-drift", "a step begins at " + show(e.time) + ", the last one ended at " + show(now));
		now = e.time; togo = habs(o.t1 - now);   // rounding does not add up
		if (first) {
			step = init;
			if (k.amp) here = e.point;   // refined at the start
			if (abs(e.step - init) > init * hr(HR(1e-9))) bad("initial-step", "first step size " + show(e.step) + " expected " + show(init));
			first = false;
		} else if (abs(e.step - step) > step * hr(HR(1e-9))) bad("step-size-drift", "step size " + show(e.step) + " at the beginning of a step, " + show(step) + " at the end of the last one");
		step = e.step;
		HR want = std::min(step, togo);
		if (abs(habs(e.delta) - want) > want * hr(HR(1e-8)) + e5) bad("step-length", "a step of length " + show(habs(e.delta)) + " at step size " + show(step) + " with " + show(togo) + " to go");
		HR along = habs((now + e.delta) - o.t1);
		if (abs(along + habs(e.delta) - togo) > e5 * 10 * (1 + togo)) bad("step-direction", "a step which does not head for the end time");
		if (step < hq(k.st.min_step_size) * (1 - hr(HR(1e-9)))) bad("min-step", "a step is taken at a step size below the minimum");
		if (good >= k.st.max_num_steps) bad("max-steps", "more steps are taken than allowed");
		// inside the step
		bool predicted = false, corrected = false;
		std::vector<HC> np;
		size_t j = i + 1;
		for (; j < L.size(); ++j) {
			if (L[j].e == Ev::Predicted) { if (predicted) bad("trace-order", "two predictions in a step"); predicted = true; }
			else if (L[j].e == Ev::Corrected) { if (!predicted || corrected) bad("trace-order", "a correction without a prediction"); corrected = true; np = L[j].point; }
			else if (L[j].e == Ev::Prec) { if (L[j].prev != prec) bad("trace-precision", "precision changes"); prec = L[j].next; c.obs(L[j].next > L[j].prev ? "precision increases" : "precision decreases"); }
			else if (L[j].e == Ev::SolveFail || L[j].e == Ev::Higher) c.obs(L[j].e == Ev::Higher ? "higher precision necessary" : "failed predictions and corrections");
			else break;
		}
		if (j >= L.size()) { bad("trace-order", "a step without an outcome"); return; }
		Rec const& z = L[j];
		i = j;
		if (z.e == Ev::Good) {
			++good; ++since; ++consecutive;
			c.obs("accepted steps");
			if (!corrected) bad("trace-order", "a step succeeded without a correction");
			if (!(z.ndz >= 0 && z.ndz <= k.tol * 1.000001)) bad("norm-of-step", "the norm of the last Newton step of an accepted step is reported as " + std::to_string(z.ndz));
			if (!(z.cond >= 0.999)) bad("condition-number", "the condition number is estimated as " + std::to_string(z.cond));
			now = now + e.delta;
			e5 = floor_of(k, std::min(e.prec, prec)) / 1e1;
			if (habs(z.time - now) > e5 * (1 + habs(now))) bad("time-drift", "after an accepted step the time is " + show(z.time) + " expected " + show(now));
			HR left = habs(o.t1 - now);
			if (!(left < togo) && togo > e5 * (1 + habs(now))) bad("no-progress", "an accepted step makes no progress");
			togo = left;
			// the accepted point lies on the path
			auto w = truth(now);
			if (w.size()) {
				HR sc(scale);
				if (o.homog) { sc = sc * 4 / habs(np[0]); for (auto& z : w) if (habs(z) > 1) sc = sc * habs(z); }
				HR d = hdist(affine(np), w), lim = HR(k.tol) * 10 * sc + floor_of(k, std::min(e.prec, prec)) * sc;
				c.check(d <= lim, "off-the-path", "a point accepted at t=" + show(now) + " is " + show(d) + " off the path (tolerance " + std::to_string(k.tol) + ")");
				d = hdist(z.point, np);
				c.check(d <= floor_of(k, std::min(e.prec, prec)) * scale, "point-changed", "the current point after an accepted step is not the corrected one, off by " + show(d));
				here = z.point;
			}
			if (k.truncate && beyond(z.point, 1.0001)) bad("truncation", "a point of norm " + show(size(z.point)) + " is accepted and tracking goes on, the threshold is " + std::to_string(k.trunc));
			// step size: unchanged, or grown in the permitted way
			HR s2 = z.step, mx = hq(k.st.max_step_size), sf = hq(k.st.step_size_success_factor), ff = hq(k.st.step_size_fail_factor);
			HR grown = std::min(step * sf, mx), tiny = hr(HR(1e-8));
			unsigned N = k.st.consecutive_successful_steps_before_stepsize_increase;
			if (!k.amp) {
				if (since < N) { if (abs(s2 - step) > step * tiny) bad("step-growth", "the step size changes from " + show(step) + " to " + show(s2) + " after " + std::to_string(since) + " successes, " + std::to_string(N) + " are required"); }
				else if (since > N || abs(s2 - std::max(step, grown)) <= step * tiny) {
					if (abs(s2 - std::max(step, grown)) > step * tiny) bad("step-growth", "the step size goes from " + show(step) + " to " + show(s2) + " after " + std::to_string(since) + " successes; it must grow to " + show(grown));
					else { since = 0; if (s2 > step * (1 + tiny)) c.obs("step size increases"); }
				}
			} else {
				if (s2 > std::max(step, grown) * (1 + tiny)) bad("step-growth", "the step size grows from " + show(step) + " to " + show(s2) + ", at most " + show(grown) + " is permitted");
				if (s2 < step * ff * (1 - tiny)) bad("step-growth", "the step size shrinks from " + show(step) + " to " + show(s2) + " after a success");
				if (s2 > step * (1 + tiny)) { if (since < N) bad("step-growth", "the step size grows after " + std::to_string(since) + " successes, " + std::to_string(N) + " are required"); since = 0; c.obs("step size increases"); }
				if (since > N + 3 && prec == e.prec && step * (1 + tiny) < grown && s2 <= step * (1 + tiny)) bad("step-growth", "the step size does not grow after " + std::to_string(since) + " successes");
				if (prec < e.prec) since = 0;
			}
			if (s2 > std::max(mx, init) * (1 + tiny)) bad("max-step", "step size " + show(s2) + " beyond the maximum " + show(mx));
			step = s2;
		} else if (z.e == Ev::Bad) {
			++fail; since = 0; consecutive = 0;
			c.obs("failed steps");
			if (habs(z.time - now) > e5 * (1 + habs(now))) bad("time-drift", "a failed step changes the time");
			if (here.size() && hdist(z.point, here) > floor_of(k, std::min(e.prec, prec)) * scale) bad("failed-step-moves", "a failed step moves the point by " + show(hdist(z.point, here)));
			HR s2 = z.step, ff = hq(k.st.step_size_fail_factor);
			if (!k.amp) { if (abs(s2 - step * ff) > step * hr(HR(1e-8))) bad("step-shrink", "after a failed step the step size goes from " + show(step) + " to " + show(s2)); }
			else if (!(s2 < step || prec > e.prec)) bad("step-shrink", "after a failed step neither is the step size smaller nor the precision higher");
			else if (s2 > step * (1 + hr(HR(1e-8)))) bad("step-shrink", "after a failed step the step size grows");
			step = s2;
		} else if (z.e == Ev::Trunc || z.e == Ev::End) {
			--i;
			if (z.e == Ev::Trunc) {
				auto const& v = corrected ? np : here;
				c.obs("truncated paths");
				if (!k.truncate) bad("truncation", "a path is truncated although truncation is off");
				if (!beyond(v, 0.9999)) bad("truncation", "a path is truncated at a point of norm " + show(size(v)) + ", the threshold is " + std::to_string(k.trunc));
				if (o.code != SuccessCode::GoingToInfinity) bad("truncation", "a path was truncated and the verdict is " + code_name(o.code));
			}
			if (z.e == Ev::End) bad("trace-order", "a step without an outcome");
		} else { bad("trace-order", "event " + std::to_string(int(z.e)) + " inside a step"); return; }
	}
	c.check(starts == 1, "trace-start", "the beginning of tracking is announced " + std::to_string(starts) + " times");
	if (ends != 1) bad("trace-end", "the end is announced " + std::to_string(ends) + " times");
	c.check(o.steps == good + fail || (o.code == SuccessCode::GoingToInfinity && o.steps + 1 >= good + fail), "step-count", "reports " + std::to_string(o.steps) + " steps, took " + std::to_string(good + fail));
	// the verdict follows from the trace
	switch (o.code) {
		case SuccessCode::Success: c.check(togo <= floor_of(k, std::min(prec, k.digits)) * (1 + habs(o.t1)), "verdict", "success reported " + show(togo) + " before the end time"); break;
		case SuccessCode::MaxNumStepsTaken: c.check(good >= k.st.max_num_steps, "verdict", "the allowed number of steps is not used up"); break;
		case SuccessCode::MinStepSizeReached: c.check(step < hq(k.st.min_step_size), "verdict", "the step size is not below the minimum"); break;
		case SuccessCode::GoingToInfinity: c.check(k.truncate, "truncation", "a path is reported as going to infinity although truncation is off"); break;
		case SuccessCode::MaxPrecisionReached: c.check(k.amp, "verdict", "maximum precision in fixed precision"); break;
		case SuccessCode::FailedToConverge: case SuccessCode::MatrixSolveFailure: case SuccessCode::MatrixSolveFailureFirstPartOfPrediction: case SuccessCode::ReduceStepSize: case SuccessCode::HigherPrecisionNecessary: case SuccessCode::NeverStarted: bad("verdict", "the verdict on a path is " + code_name(o.code)); break;
		default: break;
	}
	c.sig(std::to_string(good) + "/" + std::to_string(fail) + "/" + std::to_string(L.size()) + k.str());
}

// one known-path homotopy with everything needed to track on it
struct Task {
	HC t0, t1;
	KnownPaths h;
	System s;
	bool homog = false;
	double scale = 50;
	std::vector<HC> start(std::vector<int> const& idx, HC const& t, unsigned digits) {
		auto x = h.at(idx, t);
		if (!homog) return x;
		std::vector<HC> v{HC(1)};
		for (auto& z : x) v.push_back(z);
		bertini::DefaultPrecision(std::max(digits, 60u)); s.precision(std::max(digits, 60u));
		auto y = s.RescalePointToFitPatch(to_vec<mpfr_complex>(v, std::max(digits, 60u)));
		auto o = from_vec(y);
		return o;
	}
};
HC gen_time(Rng& r, bool complex_) { return HC(HR(std::round(r.u(-1, 1) * 64) / 64), complex_ ? HR(std::round(r.u(-1, 1) * 64) / 64) : HR(0)); }
Task gen_task(Rng& r, bool allow_homog) {
	Task k;
	switch (r.in(0, 3)) {
		case 0: case 1: k.t0 = HC(1); k.t1 = HC(0); break;
		case 2: k.t0 = gen_time(r, false); k.t1 = gen_time(r, false); break;
		default: k.t0 = gen_time(r, true); k.t1 = gen_time(r, true);
	}
	if (habs(k.t0 - k.t1) < vf::hr(0.1)) { k.t0 = HC(1); k.t1 = vf::hc(0.1); }
	k.h = gen_known(r, k.t0, k.t1);
	k.s = build(k.h, r);
	if (allow_homog && r.chance(0.25)) { k.s.Homogenize(); k.s.AutoPatch(); k.homog = true; }
	return k;
}

template <typename TrackerT> void endpoint_case(Case& c, Conf k, Task& T, bool traces) {
	Rng& r = c.rng;
	unsigned dig = k.digits;
	go(T.s, dig);
	// a tracker made for this system, or one that tracked in another before
	Task other;
	bool const given = r.chance(0.2);
	if (given) { other = gen_task(r, true); go(other.s, dig); }
	TrackerT tr(given ? other.s : T.s);
	if (given) {
		configure(tr, k, other.s);
		if (r.chance(0.7)) { auto st = other.start(other.h.index(0), other.t0, dig); bertini::DefaultPrecision(dig); other.s.precision(dig); track(tr, other.s, k, other.t0, other.t1, st, dig); }
		go(T.s, dig);
		tr.SetSystem(T.s);
		c.obs("trackers given another system");
	}
	configure(tr, k, T.s);
	int np = std::min(T.h.npaths(), traces ? 2 : 3);
	std::vector<int> order(T.h.npaths());
	for (size_t i = 0; i < order.size(); ++i) order[i] = i;
	for (size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[r.in(0, i)]);
	auto run = [&](std::vector<int> const& idx, HC a, HC b, TrackerT& w) {
		auto st = T.start(idx, a, dig);
		bertini::DefaultPrecision(dig); T.s.precision(dig);
		return track(w, T.s, k, a, b, st, dig);
	};
	auto judge_end = [&](Result const& o, std::vector<int> const& idx, HC b, std::string const& what) {
		if (!c.check(o.code == SuccessCode::Success, "code", what + ": tracking a nonsingular, bounded path returned " + code_name(o.code))) return false;
		std::vector<HC> e = o.end;
		HR sc(1);
		if (T.homog) {
			if (!c.check(e.size() == static_cast<size_t>(T.h.n) + 1, "size", "size of the end point")) return false;
			if (habs(e[0]) < vf::hr(1e-3)) { c.obs("inconclusive"); return true; }
			sc = HR(1) / habs(e[0]);
			HC d = e[0];
			e.erase(e.begin());
			for (auto& z : e) z /= d;
			sc = sc * 4;
		}
		auto w = T.h.at(idx, b);
		for (auto& z : w) if (habs(z) > 1) sc = sc + habs(z) * sc;
		HR d = hdist(e, w), lim = (HR(k.tol) * 10 + floor_of(k, std::min(o.end_prec ? o.end_prec : 16u, o.def_prec ? o.def_prec : 16u))) * T.scale * sc;
		HR other(1e9);
		std::string to = "none";
		for (int p = 0; p < T.h.npaths(); ++p) { HR q = hdist(e, T.h.at(T.h.index(p), b)); if (q < other) other = q; }
		return c.check(d <= lim, "wrong-endpoint", what + ": the end point is " + show(d) + " from where this path leads (limit " + show(lim) + "), " + show(other) + " from the nearest solution");
	};
	for (int q = 0; q < np; ++q) {
		auto idx = T.h.index(order[q]);
		c.desc(k.str() + (T.homog ? " homogenized " : " ") + T.h.str() + " from t=" + show(T.t0, 6) + " to " + show(T.t1, 6) + " path " + std::to_string(order[q]));
		Result o = run(idx, T.t0, T.t1, tr);
		if (traces) {
			std::function<std::vector<HC>(HC const&)> truth = [&](HC const& t) { return T.h.at(idx, t); };
			o.homog = T.homog;
			judge_trace(c, o, truth, T.scale);
			c.obs("traces");
			if (T.homog) c.obs("traces (homogenized)");
			// carrying on with the step size of the last path
			if (o.steps && r.chance(0.3)) {
				HR last = vf::hr(tr.CurrentStepsize());
				tr.ReinitializeInitialStepSize(false);
				Result o2 = run(idx, T.t0, T.t1, tr);
				tr.ReinitializeInitialStepSize(true);
				o2.homog = T.homog; o2.first_step = last;
				judge_trace(c, o2, truth, T.scale);
				c.obs("paths begun with the last step size");
			}
			c.obs(k.amp ? "traces (adaptive)" : k.mp ? "traces (multiple)" : "traces (double)");
			continue;
		}
		c.obs(std::string("paths: ") + (k.amp ? "adaptive" : k.mp ? "multiple" : "double"));
		c.obs(std::string("predictor: ") + pname(k.p));
		if (!judge_end(o, idx, T.t1, "tracked")) return;
		if (k.amp) {
			if (k.preserve) c.check(o.def_prec == dig && o.sys_prec == dig, "precision-preserved", "after tracking the precision is " + std::to_string(o.def_prec) + ", the system's " + std::to_string(o.sys_prec) + ", it began with " + std::to_string(dig));
			else c.check(o.def_prec == o.end_prec && o.sys_prec == o.end_prec, "precision-agrees", "after tracking the default precision is " + std::to_string(o.def_prec) + ", the system's " + std::to_string(o.sys_prec) + ", the end point's " + std::to_string(o.end_prec));
		}
		// the same again: tracking has no memory
		if (r.chance(0.4)) {
			Result p = run(idx, T.t0, T.t1, tr);
			if (judge_end(p, idx, T.t1, "tracked again with the same tracker")) c.check(p.steps == o.steps || k.amp, "memory", "the same path took " + std::to_string(o.steps) + " steps, then " + std::to_string(p.steps));
			c.obs("paths tracked twice");
		}
		// in two legs
		if (r.chance(0.3)) {
			HC mid = T.t0 + (T.t1 - T.t0) * HC(HR(r.in(1, 9)) / 10);
			Result p = run(idx, T.t0, mid, tr);
			if (judge_end(p, idx, mid, "first leg")) {
				bertini::DefaultPrecision(dig); T.s.precision(dig);
				Result p2 = track(tr, T.s, k, mid, T.t1, p.end, dig);
				judge_end(p2, idx, T.t1, "second leg");
				c.obs("paths tracked in two legs");
			}
		}
		// and back
		if (r.chance(0.3)) {
			bertini::DefaultPrecision(dig); T.s.precision(dig);
			Result p = track(tr, T.s, k, T.t1, T.t0, o.end, dig);
			judge_end(p, idx, T.t0, "tracked back");
			c.obs("paths tracked back");
		}
		// nothing to do
		if (r.chance(0.15)) {
			Result p = run(idx, T.t0, T.t0, tr);
			judge_end(p, idx, T.t0, "tracked over a segment of length zero");
			c.check(p.steps == 0, "zero-length", "steps taken over a segment of length zero");
			c.obs("segments of length zero");
		}
		// a start point which does not fit
		if (r.chance(0.1)) {
			using C = typename Ty<TrackerT>::C;
			bertini::DefaultPrecision(dig); T.s.precision(dig);
			Vec<C> st = to_vec<C>(std::vector<HC>(T.s.NumVariables() + (r.chance(0.5) ? 1 : -1), HC(1)), dig), sol;
			bool threw = false;
			try { tr.TrackPath(sol, to_num<C>(T.t0, dig), to_num<C>(T.t1, dig), st); } catch (std::exception const&) { threw = true; }
			c.check(threw, "misfit", "a start point of the wrong size is tracked");
			c.obs("start points of the wrong size");
		}
		// refinement of a perturbed point
		if (r.chance(0.4) && !T.homog) {
			using C = typename Ty<TrackerT>::C;
			bertini::DefaultPrecision(dig); T.s.precision(dig);
			auto x = T.h.at(idx, T.t0);
			for (auto& z : x) z += vf::hc(r.u(-1, 1) * 1e-4, r.u(-1, 1) * 1e-4);
			Vec<C> n;
			Vec<C> st = to_vec<C>(x, dig);
			C tt = to_num<C>(T.t0, dig);
			double tol = std::pow(10.0, -r.u(5, dig <= 16 ? 9 : std::min(dig - 9, 30u)));
			SuccessCode code;
			if constexpr (std::is_same<TrackerT, AMPTracker>::value) {
				if (dig == 16) {
					Vec<dbl> nd, sd = to_vec<dbl>(x, 16);
					code = tr.Refine(nd, sd, to_dbl(T.t0), tol, 6u);
					n = to_vec<C>(from_vec(nd), 30);
				} else code = tr.Refine(n, st, tt, tol, 6u);
			} else code = tr.Refine(n, st, tt, tol, 6u);
			if (code == SuccessCode::HigherPrecisionNecessary && k.amp) c.obs("refinement asked for precision");
			else if (c.check(code == SuccessCode::Success, "refine-code", "refining a nonsingular point to " + std::to_string(tol) + " returned " + code_name(code)))
{
				double ndz = static_cast<double>(tr.LatestNormOfStep());
				c.check(ndz >= 0 && ndz <= tol * 1.000001, "refine-norm", "the last Newton step of a refinement to " + std::to_string(tol) + " is reported as " + std::to_string(ndz));
				c.check(hdist(from_vec(n), T.h.at(idx, T.t0)) <= HR(tol) * T.scale + floor_of(k, dig) * T.scale, "refine", "a refined point is " + show(hdist(from_vec(n), T.h.at(idx, T.t0))) + " off");
			}
			c.obs("points refined");
		}
		c.sig(c.text);
	}
}

void track_case(Case& c) {
	Conf k = gen_conf(c.rng);
	Task T = gen_task(c.rng, true);
	if (k.amp) endpoint_case<AMPTracker>(c, k, T, false);
	else if (k.mp) endpoint_case<MultiplePrecisionTracker>(c, k, T, false);
	else endpoint_case<DoublePrecisionTracker>(c, k, T, false);
}
Register rT03("T03", 3000, 60000, track_case, 120);

void trace_case(Case& c) {
	Rng& r = c.rng;
	Conf k = gen_conf(r);
	if (r.chance(0.2)) k.st.max_num_steps = r.in(1, 12);
	if (r.chance(0.25)) { k.st.min_step_size = k.st.initial_step_size / 2; }
	if (r.chance(0.4)) { k.st.max_step_size = mpq_rational(r.in(15, 40), 100); if (r.chance(0.5)) k.st.initial_step_size = k.st.max_step_size; k.tol = std::min(k.tol, 1e-6); }   // long steps: failures
	if (r.chance(0.2)) k.nw.max_num_newton_iterations = k.nw.min_num_newton_iterations = 1;
	if ((k.p == Predictor::Constant || k.p == Predictor::Euler) && k.st.max_num_steps > 2000) k.st.max_num_steps = r.in(500, 2000);
	if (r.chance(0.3)) { k.trunc = r.u(0.3, 4); k.truncate = r.chance(0.7); }
	Task T = gen_task(r, true);
	if (k.amp) endpoint_case<AMPTracker>(c, k, T, true);
	else if (k.mp) endpoint_case<MultiplePrecisionTracker>(c, k, T, true);
	else endpoint_case<DoublePrecisionTracker>(c, k, T, true);
}
Register rT04("T04", 3200, 40000, trace_case, 120);

// ------------------------------------------------------------------ observers
struct Ping : public AnyEvent { int id; explicit Ping(int i) : id(i) {} virtual ~Ping() = default; };
struct Bell : public Observable { void ring(int i) const { NotifyObservers(Ping(i)); } };
struct Watcher : public AnyObserver {
	std::vector<int> seen;
	std::function<void(int)> act;
	void Observe(AnyEvent const& e) override { auto p = dynamic_cast<Ping const*>(&e); if (!p) return; seen.push_back(p->id); if (act) act(p->id); }
};
// what a set of observers must see: those watching when an event is sent and not removed before their turn, in the order they were added
void bell_case(Case& c) {
	Rng& r = c.rng;
	Bell bells[2];
	int n = r.in(1, 7), rounds = r.in(1, 12);
	std::vector<std::unique_ptr<Watcher>> w;
	for (int i = 0; i < n; ++i) w.emplace_back(new Watcher);
	struct Act { long who, at, what, whom, bell; };
	std::vector<Act> acts;
	std::string text = "observers " + std::to_string(n) + " events " + std::to_string(rounds) + " actions";
	int na = r.in(0, 2 * n);
	for (int i = 0; i < na; ++i) { Act a{r.in(0, n - 1), r.in(0, rounds - 1), r.in(0, 2), r.in(0, n - 1), 0}; acts.push_back(a); text += " (" + std::to_string(a.who) + " at " + std::to_string(a.at) + (a.what ? " removes " : " adds ") + std::to_string(a.whom) + ")"; }
	std::vector<std::vector<int>> order;   // who saw which event, in which order
	std::vector<int> watching;   // the model: those watching, in order
	std::vector<std::vector<int>> want(n);
	auto add = [&](int i) { if (std::find(watching.begin(), watching.end(), i) == watching.end()) watching.push_back(i); };
	auto del = [&](int i) { watching.erase(std::remove(watching.begin(), watching.end(), i), watching.end()); };
	std::vector<int> log, model_log;
	for (int i = 0; i < n; ++i) w[i]->act = [&, i](int id) {
		log.push_back(i);
		for (auto& a : acts) if (a.who == i && a.at == id) { if (a.what) bells[0].RemoveObserver(*w[a.whom]); else bells[0].AddObserver(*w[a.whom]); }
	};
	for (int e = 0; e < rounds; ++e) {
		// from outside
		for (int q = r.in(0, 3); q > 0; --q) {
			int i = r.in(0, n - 1);
			if (r.chance(0.7)) { bells[0].AddObserver(*w[i]); add(i); text += " +" + std::to_string(i); }
			else { bells[0].RemoveObserver(*w[i]); del(i); text += " -" + std::to_string(i); }
		}
		text += " !";
		auto now = watching;
		model_log.clear(); log.clear();
		for (int i : now) {
			if (std::find(watching.begin(), watching.end(), i) == watching.end()) continue;
			model_log.push_back(i); want[i].push_back(e);
			for (auto& a : acts) if (a.who == i && a.at == e) { c.obs(a.what ? (a.whom == i ? "observers removing themselves" : "observers removing another") : "observers adding another"); if (a.what) del(a.whom); else add(a.whom); }
		}
		c.desc(text);
		bells[0].ring(e);
		bells[1].ring(1000 + e);   // nobody watches this one
		c.obs("notifications");
		auto list = [](std::vector<int> const& v) { std::string o; for (int i : v) o += std::to_string(i) + " "; return o; };
		c.check(log == model_log, "delivery", "event " + std::to_string(e) + " was seen by " + list(log) + ", by right " + list(model_log));
	}
	for (int i = 0; i < n; ++i) c.check(w[i]->seen == want[i], "exactly-once", "observer " + std::to_string(i) + " saw " + std::to_string(w[i]->seen.size()) + " events, by right " + std::to_string(want[i].size()));
	c.sig(text);
}
template <typename TrackerT> struct Plain : public Observer<TrackerT> {
	using E = typename TrackerTraits<TrackerT>::EventEmitterType;
	std::vector<unsigned> prec;
	std::vector<std::vector<HC>> good;
	struct Ch { unsigned from, to; HC time; };
	std::vector<Ch> changes;
	unsigned start = 0;
	void Observe(AnyEvent const& e) override {
		if (auto p = dynamic_cast<TrackingEvent<E> const*>(&e)) prec.push_back(p->Get().CurrentPrecision());
		if (auto p = dynamic_cast<SuccessfulStep<E> const*>(&e)) good.push_back(from_vec(p->Get().CurrentPoint()));
		if (auto p = dynamic_cast<PrecisionChanged<E> const*>(&e)) changes.push_back({p->Previous(), p->Next(), vf::hc(p->Get().CurrentTime())});
		if (auto p = dynamic_cast<TrackingStarted<E> const*>(&e)) start = p->Get().CurrentPrecision();
	}
};
void recorders_case(Case& c) {
	Rng& r = c.rng;
	Conf k = gen_conf(r);
	k.amp = true; k.mp = false;
	k.digits = r.pick(std::vector<unsigned>{16, 16, 20, 30});
	k.tol = std::pow(10.0, -r.u(4, 9 + (k.digits > 16 ? 4 : 0)));
	if (k.p == Predictor::Constant || k.p == Predictor::Euler) { k.p = Predictor::RKF45; }
	bool const tight = r.chance(0.4);
	if (tight && (k.p == Predictor::HeunEuler || k.p == Predictor::RK4)) k.p = Predictor::RKVerner67;
	if (tight) k.tol = std::pow(10.0, -r.u(k.digits - 3, k.digits + 5));
	k.preserve = k.preserve && -std::log10(k.tol) <= k.digits;
	Task T = gen_task(r, false);
	go(T.s, k.digits);
	AMPTracker tr(T.s);
	configure(tr, k, T.s);
	Plain<AMPTracker> mine;
	FirstPrecisionRecorder<AMPTracker> first;
	MinMaxPrecisionRecorder<AMPTracker> minmax;
	PrecisionAccumulator<AMPTracker> acc;
	AMPPathAccumulator<AMPTracker> path;
	MultiObserver<AMPTracker, Plain, Plain> both;
	auto order = r.in(0, 1);
	if (order) tr.AddObserver(mine);
	tr.AddObserver(minmax); tr.AddObserver(acc); tr.AddObserver(path); tr.AddObserver(both);
	if (!order) tr.AddObserver(mine);
	int runs = r.in(1, 3);
	unsigned lo = ~0u, hi = 0;
	for (int q = 0; q < runs; ++q) {
		auto idx = T.h.index(r.in(0, T.h.npaths() - 1));
		c.desc(k.str() + " " + T.h.str() + " run " + std::to_string(q));
		size_t before = mine.changes.size();
		tr.AddObserver(first);
		auto st = T.start(idx, T.t0, k.digits);
		bertini::DefaultPrecision(k.digits); T.s.precision(k.digits);
		Vec<mpfr_complex> s0 = to_vec<mpfr_complex>(st, k.digits), sol;
		tr.TrackPath(sol, to_num<mpfr_complex>(T.t0, k.digits), to_num<mpfr_complex>(T.t1, k.digits), s0);
		tr.RemoveObserver(first);
		c.check(mine.start == k.digits, "started", "tracking begins at precision " + std::to_string(mine.start) + ", the start point has " + std::to_string(k.digits));
		lo = std::min(lo, k.digits); hi = std::max(hi, k.digits);
		bool inc = false;
		for (size_t i = before; i < mine.changes.size(); ++i) {
			auto const& ch = mine.changes[i];
			lo = std::min(lo, ch.to); hi = std::max(hi, ch.to);
			if (!inc && ch.to > ch.from) {
				inc = true;
				c.check(first.DidPrecisionIncrease() && first.StartPrecision() == k.digits && first.NextPrecision() == ch.to && habs(vf::hc(first.TimeOfIncrease()) - ch.time) == 0, "first-increase", "the first increase of precision, " + std::to_string(ch.from) + " to " + std::to_string(ch.to) + ", is recorded as " + std::to_string(first.StartPrecision()) + " to " + std::to_string(first.NextPrecision()));
			}
		}
		c.check(first.DidPrecisionIncrease() == inc, "first-increase", inc ? "an increase of precision is not recorded" : "an increase of precision is recorded, there was none");
		c.obs(inc ? "paths with an increase of precision" : "paths without an increase of precision");
		c.check(minmax.MinPrecision() == lo && minmax.MaxPrecision() == hi, "min-max", "the precision ranged from " + std::to_string(lo) + " to " + std::to_string(hi) + ", recorded is " + std::to_string(minmax.MinPrecision()) + " to " + std::to_string(minmax.MaxPrecision()));
		c.check(std::get<0>(both.observers_).prec == mine.prec && std::get<1>(both.observers_).prec == mine.prec, "multi-observer", "an observer inside another missed events");
		c.check(acc.Precisions() == mine.prec, "accumulator", "the precisions of " + std::to_string(mine.prec.size()) + " events are recorded as " + std::to_string(acc.Precisions().size()));
		bool same = path.Path().size() == mine.good.size();
		for (size_t i = 0; same && i < mine.good.size(); ++i) same = hdist(from_vec(path.Path()[i]), mine.good[i]) == 0;
		c.check(same, "path", "the recorded path is not that of the accepted steps");
	}
	// gone is gone
	size_t n = mine.prec.size();
	tr.RemoveObserver(mine); tr.RemoveObserver(acc); tr.RemoveObserver(path);
	bertini::DefaultPrecision(k.digits); T.s.precision(k.digits);
	auto st = T.start(T.h.index(0), T.t0, k.digits);
	bertini::DefaultPrecision(k.digits); T.s.precision(k.digits);
	Vec<mpfr_complex> s0 = to_vec<mpfr_complex>(st, k.digits), sol;
	tr.TrackPath(sol, to_num<mpfr_complex>(T.t0, k.digits), to_num<mpfr_complex>(T.t1, k.digits), s0);
	c.check(mine.prec.size() == n && acc.Precisions().size() == n && path.Path().size() == mine.good.size() && std::get<0>(both.observers_).prec.size() > n, "removed", "events reach an observer which was removed, or miss one which was not");
	c.obs("recorded paths", runs);
	c.sig(c.text);
}
void observer_case(Case& c) { if (c.rng.chance(0.95)) bell_case(c); else recorders_case(c); }
Register rO01("O01", 16000, 80000, observer_case, 120);

// ------------------------------------------------------------------ adaptive precision
// (A x + c - p(t))^2 = t + d, followed from t=1 to t=0: as d shrinks, the end point approaches a singularity
struct SqrtPath {
	HC A, c, d;
	std::vector<HC> p;
	int sign;
	Var x, t;
	std::string text;
	HC pv(HC const& tt) const { HC v(0); for (size_t i = p.size(); i-- > 0;) v = v * tt + p[i]; return v; }
	HC root(HC const& tt) const { HC w = tt + d; return HC(sign) * sqrt(w); }
	HC at(HC const& tt) const { return (root(tt) + pv(tt) - c) / A; }
	HC J(HC const& xx, HC const& tt) const { return HC(2) * (A * xx + c - pv(tt)) * A; }
};
System sqrt_system(Rng& r, SqrtPath& q, int expo) {
	long a = r.in(1, 4), ai = r.in(-2, 2), c = r.in(-3, 3), d = r.in(1, 9), di = r.in(-9, 9);
	q.A = rat(a, 2, ai, 2); q.c = rat(c, 3, 0, 1);
	mpz_int den = boost::multiprecision::pow(mpz_int(10), expo);
	HR hden(den);
	q.d = HC(HR(d) / hden, HR(di) / hden);
	q.sign = r.chance(0.5) ? 1 : -1;
	q.x = bn::Variable::Make("x"); q.t = bn::Variable::Make("t");
	Nd P = bn::Integer::Make(0);
	int deg = r.in(0, 2);
	for (int i = 0; i <= deg; ++i) {
		long u = r.in(-4, 4), v = r.in(-4, 4);
		q.p.push_back(rat(u, 5, v, 5));
		Nd co = bn::Rational::Make(mpq_rational(u, 5), mpq_rational(v, 5));
		P = i == 0 ? co : P + co * pow(Nd(q.t), i);
	}
	Nd y = bn::Rational::Make(mpq_rational(a, 2), mpq_rational(ai, 2)) * q.x + bn::Rational::Make(mpq_rational(c, 3), mpq_rational(0)) - P;
	Nd dd = bn::Rational::Make(mpq_rational(mpz_int(d), den), mpq_rational(mpz_int(di), den));
	System s;
	s.AddVariableGroup(bertini::VariableGroup{q.x});
	s.AddPathVariable(q.t);
	s.AddFunction(r.chance(0.5) ? pow(y, 2) - q.t - dd : y * y - (q.t + dd));
	for (auto& z : q.p) q.text += show(z, 4) + " ";
	q.text = "p=" + q.text + ", (A x + c - p(t))^2 = t + d, A=" + show(q.A, 4) + " c=" + show(q.c, 4) + " d=" + show(q.d, 4) + " branch " + std::to_string(q.sign);
	return s;
}
double num(HR const& x) { return static_cast<double>(x); }

void amp_case(Case& c) {
	Rng& r = c.rng;
	Conf k;
	k.amp = true;
	k.p = r.pick(std::vector<Predictor>{Predictor::Euler, Predictor::HeunEuler, Predictor::RK4, Predictor::RKF45, Predictor::RKCashKarp45, Predictor::RKDormandPrince56, Predictor::RKVerner67});
	k.digits = r.pick(std::vector<unsigned>{16, 16, 16, 20, 30});
	k.st.max_step_size = mpq_rational(r.in(2, 10), 100);
	k.st.initial_step_size = k.st.max_step_size / r.in(1, 3);
	k.st.min_step_size = mpq_rational(1, mpz_int("1000000000000000000000000000000000000000000000000000000000000"));
	k.st.step_size_success_factor = mpq_rational(r.in(5, 8), 4);
	k.st.step_size_fail_factor = mpq_rational(r.in(3, 7), 10);
	k.st.consecutive_successful_steps_before_stepsize_increase = r.in(1, 6);
	k.nw.max_num_newton_iterations = r.in(2, 3);
	k.nw.min_num_newton_iterations = 1;
	int kind = r.in(0, 9), expo;
	double tol;
	if (kind < 6) { expo = r.in(2, 24); tol = std::pow(10.0, -(expo / 2.0 + r.u(2, 6))); }         // towards a singularity
	else if (kind < 8) { expo = 0; tol = std::pow(10.0, -r.u(k.digits - 2, k.nw.max_num_newton_iterations == 2 ? 1.7 * k.digits : k.digits + 25)); }      // tighter than the precision at the start
	else { expo = r.in(10, 24); tol = std::pow(10.0, -(expo / 2.0 + r.u(2, 6))); k.maxprec = r.in(k.digits, k.digits + 14); }   // maximum precision in the way
	k.tol = tol;
	if (k.p == Predictor::Euler && tol < 1e-12) k.p = Predictor::RKF45;
	if (k.p == Predictor::HeunEuler && tol < 1e-16) k.p = Predictor::RKVerner67;
	k.preserve = r.chance(0.3) && -std::log10(tol) <= k.digits;
	SqrtPath q;
	System s = sqrt_system(r, q, expo);
	c.desc(k.str() + " " + q.text);
	go(s, k.digits);
	AMPTracker tr(s);
	tr.Setup(k.p, k.tol, k.trunc, k.st, k.nw);
	auto a = AMPConfigFrom(s);
	// the settings computed from a system: one variable, bounds of the system
	c.check(a.epsilon == 1 && a.Phi == a.degree_bound * (a.degree_bound - 1) * a.coefficient_bound && a.Psi == a.degree_bound * a.coefficient_bound, "settings", "the error bounds are not those of the degree and coefficient bounds");
	c.check(a.degree_bound == 2, "settings", "degree bound " + std::to_string(a.degree_bound));
	a.maximum_precision = k.maxprec;
	a.safety_digits_1 = r.in(0, 3); a.safety_digits_2 = r.in(0, 3);
	a.consecutive_successful_steps_before_precision_decrease = r.in(1, 12);
	a.max_num_precision_decreases = r.in(0, 6);
	tr.PrecisionSetup(a);
	tr.PrecisionPreservation(k.preserve);
	Result o = track(tr, s, k, HC(1), HC(0), {q.at(HC(1))}, k.digits);
	// what precision each step needs
	auto needA = [&](HR nj, HR nji) { return a.safety_digits_1 + std::log10(num(nji) * a.epsilon * (num(nj) + a.Phi)); };
	auto needC = [&](HR nji, HR nz) { return a.safety_digits_2 - std::log10(tol) + std::log10(num(nji) * a.Psi + num(nz)); };
	unsigned top = 0, decreases = 0, sincedec = 0, maxneed = 0, prec = 0;
	bool seen_dec = false;
	auto const& L = o.log;
	for (size_t i = 0; i < L.size(); ++i) {
		if (L[i].e == Ev::Prec && L[i].next < L[i].prev && i && i + 1 < L.size() && L[i + 1].e != Ev::End) {
			++decreases;
			if (seen_dec) c.check(sincedec + 1 >= a.consecutive_successful_steps_before_precision_decrease, "precision-decrease", "precision decreases " + std::to_string(sincedec) + " steps after the last decrease or failure, " + std::to_string(a.consecutive_successful_steps_before_precision_decrease) + " are required");
			seen_dec = true; sincedec = 0;
			c.obs("precision decreases");
		}
		if (L[i].e == Ev::Prec && L[i].next > L[i].prev) { c.obs("precision increases"); if (L[i].next > 1000) c.obs("precision beyond all bounds asked for"); }
		if (L[i].e == Ev::Good) ++sincedec;
		if (L[i].e == Ev::Bad) sincedec = 0;
		if (L[i].e != Ev::New) continue;
		prec = L[i].prec;
		top = std::max(top, prec);
		c.check(prec <= k.maxprec || prec == k.digits, "precision-beyond-maximum", "a step at " + std::to_string(prec) + " digits, at most " + std::to_string(k.maxprec) + " are allowed");
		// does the step succeed?
		size_t j = i + 1;
		bool higher = false;
		while (j < L.size() && L[j].e != Ev::Good && L[j].e != Ev::Bad && L[j].e != Ev::Trunc && L[j].e != Ev::End) { if (L[j].e == Ev::Higher) higher = true; ++j; }
		if (j >= L.size()) break;
		if (L[i].point.size() != 1) continue;
		HR nj = habs(q.J(L[i].point[0], L[i].time));
		if (!(nj > 0)) continue;
		HR nji = HR(1) / nj;
		double nA = needA(nj, nji), nC = needC(nji, habs(L[i].point[0]));
		maxneed = std::max(maxneed, unsigned(std::max(0.0, std::max(nA, nC))));
		c.eval(2);
		if (L[j].e == Ev::Good) {
			c.obs("accepted steps");
			if (prec < nA - 0.3) c.violation("criterion-A", "a step from t=" + show(L[i].time) + " is accepted at " + std::to_string(prec) + " digits, " + std::to_string(nA) + " are needed to solve the linear systems");
			if (prec < nC - 0.3) c.violation("criterion-C", "a step from t=" + show(L[i].time) + " is accepted at " + std::to_string(prec) + " digits, " + std::to_string(nC) + " are needed for the tolerance");
		}
		if (higher) {
			c.obs("higher precision necessary");
			size_t m = j;   // the precision at the next step
			while (m < L.size() && L[m].e != Ev::New) ++m;
			if (m < L.size()) c.check(L[m].prec > prec, "no-more-precision", "higher precision is necessary, yet the next step is taken at " + std::to_string(L[m].prec) + " digits after " + std::to_string(prec));
		}
	}
	c.check(decreases <= a.max_num_precision_decreases, "precision-decrease", std::to_string(decreases) + " decreases, at most " + std::to_string(a.max_num_precision_decreases) + " are allowed");
	judge_trace(c, o, [&](HC const& t) { return std::vector<HC>{q.at(t)}; }, 50);
	if (kind < 8) {
		if (!c.check(o.code == SuccessCode::Success, "code", "tracking returned " + code_name(o.code) + " (highest precision " + std::to_string(top) + ")")) return;
		HR d = habs(o.end[0] - q.at(HC(0))), lim = HR(tol) * 100 + floor_of(k, o.end_prec) * 10;
		if (!k.preserve) lim = HR(tol) * 100;
		c.check(d <= lim, "accuracy", "the end point is " + show(d) + " off, the tolerance is " + std::to_string(-std::log10(tol)) + " digits, precision " + std::to_string(o.end_prec));
		c.obs("paths to the end");
		if (top > k.digits) c.obs("paths which needed more precision");
	} else {
		bool enough = maxneed + 3 < k.maxprec;
		c.check(o.code == SuccessCode::Success || o.code == SuccessCode::MaxPrecisionReached || o.code == SuccessCode::SingularStartPoint || o.code == SuccessCode::MinStepSizeReached, "code", "tracking returned " + code_name(o.code));
		if (o.code == SuccessCode::Success) c.check(habs(o.end[0] - q.at(HC(0))) <= HR(tol) * 100 + floor_of(k, std::min(o.end_prec, 300u)) * 10, "accuracy", "success reported, the end point is " + show(habs(o.end[0] - q.at(HC(0)))) + " off");
		if (o.code == SuccessCode::MaxPrecisionReached) c.obs("paths ended by the maximum precision");
		if (o.code == SuccessCode::MaxPrecisionReached && enough && top + 30 < k.maxprec) c.violation("code", "maximum precision reported");
		c.obs("paths with little precision allowed");
	}
	if (k.preserve) c.check(o.def_prec == k.digits && o.sys_prec == k.digits, "precision-preserved", "after tracking the precision is " + std::to_string(o.def_prec));
	// a singular start point is recognised
	if (r.chance(0.2)) {
		System z;
		Var x = bn::Variable::Make("x"), t = bn::Variable::Make("t");
		int m = r.in(2, 3);
		z.AddVariableGroup(bertini::VariableGroup{x});
		z.AddPathVariable(t);
		z.AddFunction(pow(Nd(x), m) - t);
		go(z, k.digits);
		AMPTracker w(z);
		Conf k2 = k;
		k2.maxprec = r.in(30, 90);
		k2.preserve = false;
		configure(w, k2, z);
		Result p = track(w, z, k2, HC(0), HC(1), {HC(0)}, k.digits);
		c.check(p.code == SuccessCode::SingularStartPoint || p.code == SuccessCode::MaxPrecisionReached || p.code == SuccessCode::MinStepSizeReached, "singular-start", "tracking from a singular start point returned " + code_name(p.code));
		c.obs("singular start points");
	}
	c.sig(c.text);
}
Register rT05("T05", 3000, 60000, amp_case, 120);

void before() { bertini::DefaultPrecision(16); }
} // namespace
int main(int argc, char** argv) { before_case() = before; return run_main(argc, argv); }
