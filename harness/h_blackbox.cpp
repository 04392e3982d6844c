// B01 selection of an algorithm at run time.
#include "zdmodel.hpp"
#include "bertini2/blackbox/switches_zerodim.hpp"
#include "bertini2/blackbox/user_homotopy.hpp"

namespace {
namespace bb = bertini::blackbox;
namespace ss = bertini::start_system;
using A = AMPTracker; using D = DoublePrecisionTracker; using M = MultiplePrecisionTracker;
template <typename T, typename SS, template <typename, typename> class Pol> using Cau = alg::ZeroDim<T, typename EndgameSelector<T>::Cauchy, System, SS, Pol>;
template <typename T, typename SS, template <typename, typename> class Pol> using Pow = alg::ZeroDim<T, typename EndgameSelector<T>::PSEG, System, SS, Pol>;

template <typename ZD> bool use(Case& c, Known const& k, alg::AnyZeroDim* z, bool strict) {
	auto zd = dynamic_cast<ZD*>(z);
	if (!c.check(zd != nullptr, "selection", "the solver is not of the kind asked for")) return false;
	zd->GetTracker().SetPredictor(Predictor::RKF45);
	double ft = zd->template GetFromEndgame<bertini::endgame::EndgameConfig>().final_tolerance;
	z->Run();
	judge(c, k, *zd, "", strict, ft, zd->template Get<typename ZD::ZeroDimConf>().initial_ambient_precision);
	return true;
}
template <typename SS, template <typename, typename> class Pol> void pick(Case& c, Known const& k, alg::AnyZeroDim* z, bb::ZeroDimRT const& rt) {
	bool hard = k.kind == 1, cau = rt.endgame == bb::type::Endgame::Cauchy;
	switch (rt.tracker) {
		case bb::type::Tracker::Adaptive: if (cau) use<Cau<A, SS, Pol>>(c, k, z, true); else use<Pow<A, SS, Pol>>(c, k, z, true); break;
		case bb::type::Tracker::FixedDouble: if (cau) use<Cau<D, SS, Pol>>(c, k, z, !hard); else use<Pow<D, SS, Pol>>(c, k, z, !hard); break;
		case bb::type::Tracker::FixedMultiple: if (cau) use<Cau<M, SS, Pol>>(c, k, z, !hard); else use<Pow<M, SS, Pol>>(c, k, z, !hard); break;
	}
}
void blackbox_case(Case& c) {
	Rng& r = c.rng;
	bb::ZeroDimRT rt;
	c.check(rt.start == bb::type::Start::TotalDegree && rt.tracker == bb::type::Tracker::Adaptive && rt.endgame == bb::type::Endgame::Cauchy, "defaults", "the defaults have changed");
	int st = r.in(0, 2), tr = r.in(0, 2), eg = r.in(0, 1);
	rt.start = st == 0 ? bb::type::Start::TotalDegree : st == 1 ? bb::type::Start::MHom : bb::type::Start::User;
	rt.tracker = tr == 0 ? bb::type::Tracker::FixedDouble : tr == 1 ? bb::type::Tracker::FixedMultiple : bb::type::Tracker::Adaptive;
	rt.endgame = eg ? bb::type::Endgame::Cauchy : bb::type::Endgame::PowerSeries;
	Known k;
	do k = gen_known_sys(r); while ((st == 1) != (k.kind == 3) || (st == 2 && k.kind > 1) || k.kind == 2 || k.kind == 4);
	System s = build(k, r);
	std::string what = std::string(st == 0 ? "total degree" : st == 1 ? "m-homogeneous" : "user");
	c.obs("start: " + what);
	c.obs(std::string("tracker: ") + (tr == 0 ? "double" : tr == 1 ? "multiple" : "adaptive"));
	c.obs(std::string("endgame: ") + (eg ? "Cauchy" : "power series"));
	c.desc(what + (tr == 0 ? ", double" : tr == 1 ? ", multiple" : ", adaptive") + (eg ? ", Cauchy " : ", power series ") + k.str());
	c.sig(c.text);
	unsigned dig = 16;
	bertini::DefaultPrecision(dig);
	if (st == 0) { auto z = bb::MakeZeroDim(rt, s); pick<ss::TotalDegree, bertini::policy::CloneGiven>(c, k, z.get(), rt); return; }
	if (st == 1) { auto z = bb::MakeZeroDim(rt, s); pick<ss::MHomogeneous, bertini::policy::CloneGiven>(c, k, z.get(), rt); return; }
	// the user's own homotopy
	bool threw = false;
	try { bb::MakeZeroDim(rt, s); } catch (std::exception const&) { threw = true; }
	c.check(threw, "user-without-homotopy", "a user's homotopy is accepted without one");
	if (r.chance(0.6)) { s.Homogenize(); s.AutoPatch(); c.obs("user's homotopies on patched systems"); }
	ss::TotalDegree td(s);
	auto t = bn::Variable::Make("t_of_the_user");
	System hom = (1 - t) * s + bn::Rational::Make(mpq_rational(r.in(1, 9), 7), mpq_rational(r.in(-9, 9), 8)) * t * td;
	hom.AddPathVariable(t);
	// only some of the start points, in an order of the user's
	std::vector<unsigned long long> order(td.NumStartPoints());
	for (size_t i = 0; i < order.size(); ++i) order[i] = i;
	for (size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[r.in(0, i)]);
	std::unique_ptr<ss::User> us;
	bool dbl_points = r.chance(0.5);
	if (dbl_points) {
		SampCont<dbl> v;
		for (auto i : order) v.push_back(td.StartPoint<dbl>(i));
		us.reset(new ss::User(td, v));
	} else {
		td.precision(dig);
		SampCont<mpfr_complex> v;
		for (auto i : order) v.push_back(td.StartPoint<mpfr_complex>(i));
		us.reset(new ss::User(td, v));
	}
	c.obs(dbl_points ? "user's start points in double" : "user's start points in multiple precision");
	auto z = bb::MakeUserHom(rt, s, *us, hom);
	pick<ss::User, bertini::policy::RefToGiven>(c, k, z.get(), rt);
}
Register rB01("B01", 360, 8000, blackbox_case, 200);
void before() { bertini::DefaultPrecision(16); }
} // namespace
int main(int argc, char** argv) { before_case() = before; return run_main(argc, argv); }
