// I03: input files are split and their settings read.
#include "common.hpp"
#include "bertini2/system.hpp"
#include "bertini2/io/parsing/settings_parsers.hpp"
#include "bertini2/io/parsing/classic_utilities.hpp"
#include <cmath>
#include <fstream>

using namespace vf;
namespace bp = bertini::parsing::classic;
namespace ba = bertini::algorithm;
namespace bt = bertini::tracking;
namespace be = bertini::endgame;
namespace {
struct Setting {
	std::string name;
	int kind;        // 0 real, 1 unsigned, 2 signed, 3 name, 4 one of choices, 5 boolean
	std::vector<int> choices;
};
struct Chosen { bool set = false; double d = 0; long n = 0; std::string s; };
using Choice = std::map<std::string, Chosen>;

const std::vector<Setting>& settings() {
	static const std::vector<Setting> s{
		{"mptype", 4, {0, 1, 2}}, {"odepredictor", 4, {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8}}, {"tracktype", 4, {-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6}},
		{"maxstepsize", 0}, {"stepsuccessfactor", 0}, {"stepfailfactor", 0}, {"stepsforincrease", 1}, {"maxnumbersteps", 1},
		{"maxnewtonits", 1},
		{"coefficientbound", 0}, {"degreebound", 0}, {"epsilon", 0}, {"phi", 0}, {"psi", 0}, {"ampsafetydigits1", 2}, {"ampsafetydigits2", 2}, {"ampmaxprec", 1}, {"maxstepsprecisiondecrease", 1}, {"maxnumprecdecreases", 1},
		{"securitylevel", 2}, {"securitymaxnorm", 0},
		{"samplefactor", 0}, {"numsamplepoints", 1}, {"nbhdradius", 0},
		{"maxcyclenum", 1}, {"cycletimecutoff", 0}, {"ratiotimecutoff", 0},
		{"mincycletrackback", 1}, {"junkremovaltrackback", 5}, {"maxldtdepth", 1},
		{"tracktolbeforeeg", 0}, {"tracktolduringeg", 0}, {"finaltol", 0}, {"pathtruncationthreshold", 0},
		{"initialprec", 1}, {"maxcrossedpathresolves", 1}, {"starttime", 0}, {"endgamebdry", 0}, {"targettime", 0}, {"pathvarname", 3},
		{"midpathtol", 0}, {"retracktolfactor", 0},
		{"sharpendigits", 1}, {"functiontolerance", 0}, {"ratiotolerance", 0},
		{"regenremoveinf", 5}, {"slicetolbeforeeg", 0}, {"slicetolduringeg", 0}, {"slicefinaltol", 0}, {"regenhigherdimtest", 5}, {"regenstartlevel", 1},
		{"imagthreshold", 0}, {"endpointfinitethreshold", 0}, {"endpointsamethreshold", 0},
	};
	return s;
}
std::string recase(Rng& r, std::string s) {
	int how = r.in(0, 3);
	for (auto& ch : s) if (how == 1 || (how == 2 && r.chance(0.4))) ch = std::toupper(ch);
	return s;
}
std::string real_text(Rng& r, double& v) {
	std::ostringstream o;
	switch (r.in(0, 4)) {
		case 0: { long n = r.in(1, 5000); o << n; break; }
		case 1: { o << "1e-" << r.in(1, 14); break; }
		case 2: { o << r.in(0, 99) << "." << r.in(1, 999); break; }
		case 3: { o << r.in(1, 9) << "." << r.in(0, 99) << (r.chance(0.5) ? "e" : "E") << (r.chance(0.5) ? "-" : r.chance(0.5) ? "+" : "") << r.in(0, 12); break; }
		default: { o << "." << r.in(1, 999); break; }
	}
	v = std::strtod(o.str().c_str(), nullptr);
	return o.str();
}
bool same(double a, double b) { return std::abs(a - b) <= 1e-14 * std::abs(b) || a == b; }
struct Check {
	Case& c;
	Choice const& ch;
	std::string text;
	bool real(const char* n, double got, double def) {
		auto const& x = ch.at(n);
		double want = x.set ? x.d : def;
		if (x.set) c.obs("settings read"); else c.obs("defaults kept");
		return c.check(same(got, want), "setting", std::string(n) + " read as " + std::to_string(got) + " not " + std::to_string(want) + (x.set ? "" : " (its default)"));
	}
	bool integer(const char* n, long got, long def) {
		auto const& x = ch.at(n);
		long want = x.set ? x.n : def;
		if (x.set) c.obs("settings read"); else c.obs("defaults kept");
		return c.check(got == want, "setting", std::string(n) + " read as " + std::to_string(got) + " not " + std::to_string(want) + (x.set ? "" : " (its default)"));
	}
	template <typename T> bool parse(T& t, const char* what) {
		try { t = bp::ConfigParser<T>::Parse(text); return true; }
		catch (std::exception const& e) { c.check(false, "settings-rejected", std::string("valid settings rejected for ") + what + ": " + e.what()); return false; }
	}
};
double d(bertini::mpq_rational const& q) { return static_cast<double>(q); }

std::string comment(Rng& r) { static const std::vector<std::string> w{"% CONFIG", "% END;", "%INPUT", "% maxnewtonits: 77;", "%", "% % x", "% finaltol: 3;"}; return r.pick(w); }
std::string squeeze(std::string const& s) { std::string o; for (char ch : s) if (!std::isspace(static_cast<unsigned char>(ch))) o += ch; return o; }

void i03(Case& c) {
	Rng& r = c.rng;
	bertini::DefaultPrecision(30);
	Choice ch;
	std::vector<std::string> lines;
	double p = r.chance(0.2) ? 1.0 : r.chance(0.2) ? 0.03 : r.u();
	for (auto& s : settings()) {
		Chosen x;
		if (r.chance(p)) {
			x.set = true;
			std::string v;
			switch (s.kind) {
				case 0: v = real_text(r, x.d); break;
				case 1: x.n = r.in(0, 3000); v = std::to_string(x.n); break;
				case 2: x.n = r.in(-5, 30); v = std::to_string(x.n); break;
				case 3: { static const std::vector<std::string> w{"t", "s1", "path_var", "T"}; x.s = r.pick(w); v = x.s; break; }
				case 4: x.n = s.choices[r.in(0, s.choices.size() - 1)]; v = std::to_string(x.n); break;
				default: x.n = r.in(0, 1); v = std::to_string(x.n);
			}
			auto sp = [&]() { return r.chance(0.4) ? std::string(" ") : std::string(); };
			lines.push_back(recase(r, s.name) + sp() + ":" + sp() + v + sp() + ";");
		}
		ch[s.name] = x;
	}
	if (r.chance(0.3)) lines.push_back("someothersetting: 12;");
	if (r.chance(0.3)) lines.push_back("UserHomotopy: 1;");
	for (size_t i = lines.size(); i-- > 1;) std::swap(lines[i], lines[r.in(0, i)]);
	std::string cfg;
	for (auto& l : lines) cfg += l + (r.chance(0.8) ? "\n" : " ");
	c.desc(cfg);
	c.sig(cfg);

	// the whole file
	std::string input = "variable_group x, y;\nfunction f, g;\nf = x^2 + y;\ng = x*y - 1;\n";
	std::string file, want_cfg = squeeze(cfg), want_in = squeeze(input);
	bool comments = r.chance(0.5);
	auto with_comments = [&](std::string const& s) {
		if (!comments) return s;
		std::string o;
		for (char k : s) { if (k == '\n' && r.chance(0.4)) o += comment(r); o += k; }
		return o;
	};
	std::string C = recase(r, "config"), I = recase(r, "input"), E = recase(r, "end") + ";";
	int form = r.in(0, 8);
	switch (form) {
		case 0: file = C + "\n" + with_comments(cfg) + "\n" + E + "\n" + I + "\n" + with_comments(input) + E + "\n"; break;
		case 1: file = C + "\n" + with_comments(cfg) + "\n" + E + "\n" + I + "\n" + with_comments(input); break;
		case 2: file = C + "\n" + with_comments(cfg) + "\n" + E + "\n" + with_comments(input) + E + "\n"; break;
		case 3: file = C + "\n" + with_comments(cfg) + "\n" + E + "\n" + with_comments(input); break;
		case 4: file = I + "\n" + with_comments(input) + E + "\n"; want_cfg = ""; break;
		case 5: file = with_comments(input) + E + "\n"; want_cfg = ""; break;
		case 6: file = with_comments(input); want_cfg = ""; break;
		case 7: file = C + "\n" + with_comments(cfg) + "\n" + I + "\n" + with_comments(input) + E + "\n"; break;
		default: file = C + "\n" + with_comments(cfg) + "\n" + I + "\n" + with_comments(input);
	}
	if (comments && r.chance(0.5)) file += "% a last comment" + std::string(r.chance(0.5) ? "\n" : "");
	if (comments && r.chance(0.5)) file = comment(r) + "\n" + file;
	c.desc("form " + std::to_string(form) + ": " + file);
	auto split = bp::ParseInputFile(file);
	c.check(split.Readable(), "split", "a file was called unreadable");
	c.check(squeeze(split.Config()) == want_cfg, "split-config", "the settings are: " + split.Config());
	c.check(squeeze(split.Input()) == want_in, "split-input", "the input is: " + split.Input());
	c.obs("files split, form " + std::to_string(form));
	if (comments) c.obs("files with comments");
	else {
		char name[] = "i03.XXXXXX";
		int fd = mkstemp(name);
		if (fd >= 0) {
			close(fd);
			{ std::ofstream o(name); o << file; }
			std::string cs, is;
			bp::SplitIntoConfigAndInput(cs, is, name);
			unlink(name);
			c.check(squeeze(cs) == want_cfg && squeeze(is) == want_in, "split-file", "settings [" + cs + "] input [" + is + "]");
			c.obs("files read from disk");
		}
	}

	Check k{c, ch, (form <= 3 || form >= 7) && r.chance(0.7) ? split.Config() : cfg};
	{ bt::PrecisionType t{}; if (k.parse(t, "precision type")) c.check(t == (ch["mptype"].set && ch["mptype"].n == 0 ? bt::PrecisionType::Fixed : bt::PrecisionType::Adaptive), "setting", "mptype"); }
	{ bt::Predictor t{}; if (k.parse(t, "predictor")) {
		using Q = bt::Predictor;
		static const std::map<long, Q> m{{-1, Q::Constant}, {0, Q::Euler}, {1, Q::Heun}, {2, Q::RK4}, {3, Q::Heun}, {4, Q::RKNorsett34}, {5, Q::RKF45}, {6, Q::RKCashKarp45}, {7, Q::RKDormandPrince56}, {8, Q::RKVerner67}};
		c.check(t == (ch["odepredictor"].set ? m.at(ch["odepredictor"].n) : Q::RKF45), "setting", "odepredictor"); } }
	{ ba::classic::AlgoChoice t{}; if (k.parse(t, "algorithm")) k.integer("tracktype", static_cast<long>(t), 0); }
	{ bt::SteppingConfig t, e; if (k.parse(t, "stepping")) {
		k.real("maxstepsize", d(t.max_step_size), d(e.max_step_size)); k.real("stepsuccessfactor", d(t.step_size_success_factor), d(e.step_size_success_factor));
		k.real("stepfailfactor", d(t.step_size_fail_factor), d(e.step_size_fail_factor)); k.integer("stepsforincrease", t.consecutive_successful_steps_before_stepsize_increase, e.consecutive_successful_steps_before_stepsize_increase);
		k.integer("maxnumbersteps", t.max_num_steps, e.max_num_steps); } }
	{ bt::NewtonConfig t, e; if (k.parse(t, "newton")) k.integer("maxnewtonits", t.max_num_newton_iterations, e.max_num_newton_iterations); }
	{ bt::AdaptiveMultiplePrecisionConfig t, e; if (k.parse(t, "adaptive precision")) {
		k.real("coefficientbound", t.coefficient_bound, e.coefficient_bound); k.real("degreebound", t.degree_bound, e.degree_bound);
		if (ch["epsilon"].set) k.real("epsilon", t.epsilon, 0); if (ch["phi"].set) k.real("phi", t.Phi, 0); if (ch["psi"].set) k.real("psi", t.Psi, 0);
		k.integer("ampsafetydigits1", t.safety_digits_1, e.safety_digits_1); k.integer("ampsafetydigits2", t.safety_digits_2, e.safety_digits_2);
		k.integer("ampmaxprec", t.maximum_precision, e.maximum_precision); k.integer("maxstepsprecisiondecrease", t.consecutive_successful_steps_before_precision_decrease, e.consecutive_successful_steps_before_precision_decrease);
		k.integer("maxnumprecdecreases", t.max_num_precision_decreases, e.max_num_precision_decreases); } }
	{ be::SecurityConfig t, e; if (k.parse(t, "security")) { k.integer("securitylevel", t.level, e.level); k.real("securitymaxnorm", t.max_norm, e.max_norm); } }
	{ be::EndgameConfig t, e; if (k.parse(t, "endgame")) { k.real("samplefactor", d(t.sample_factor), d(e.sample_factor)); k.integer("numsamplepoints", t.num_sample_points, e.num_sample_points); k.real("nbhdradius", t.min_track_time, e.min_track_time); } }
	{ be::PowerSeriesConfig t, e; if (k.parse(t, "power series")) k.integer("maxcyclenum", t.max_cycle_number, e.max_cycle_number); }
	{ be::CauchyConfig t, e; if (k.parse(t, "cauchy")) { k.real("cycletimecutoff", t.cycle_cutoff_time, e.cycle_cutoff_time); k.real("ratiotimecutoff", t.ratio_cutoff_time, e.ratio_cutoff_time); } }
	{ be::TrackBackConfig t, e; if (k.parse(t, "track back")) { k.integer("mincycletrackback", t.minimum_cycle, e.minimum_cycle); k.integer("junkremovaltrackback", t.junk_removal_test, e.junk_removal_test); k.integer("maxldtdepth", t.max_depth_LDT, e.max_depth_LDT); } }
	{ ba::TolerancesConfig t, e; if (k.parse(t, "tolerances")) {
		k.real("tracktolbeforeeg", t.newton_before_endgame, e.newton_before_endgame); k.real("tracktolduringeg", t.newton_during_endgame, e.newton_during_endgame);
		k.real("finaltol", t.final_tolerance, e.final_tolerance); k.real("pathtruncationthreshold", t.path_truncation_threshold, e.path_truncation_threshold); } }
	{ using Z = ba::ZeroDimConfig<bertini::dbl>; Z t, e; if (k.parse(t, "zero dim")) {
		k.integer("initialprec", t.initial_ambient_precision, e.initial_ambient_precision); k.integer("maxcrossedpathresolves", t.max_num_crossed_path_resolve_attempts, e.max_num_crossed_path_resolve_attempts);
		k.real("starttime", t.start_time.real(), e.start_time.real()); k.real("endgamebdry", t.endgame_boundary.real(), e.endgame_boundary.real()); k.real("targettime", t.target_time.real(), e.target_time.real());
		c.check(t.path_variable_name == (ch["pathvarname"].set ? ch["pathvarname"].s : e.path_variable_name), "setting", "pathvarname read as " + t.path_variable_name); } }
	{ ba::MidPathConfig t, e; if (k.parse(t, "midpath")) k.real("midpathtol", t.same_point_tolerance, e.same_point_tolerance); }
	{ ba::AutoRetrackConfig t, e; if (k.parse(t, "retrack")) k.real("retracktolfactor", t.midpath_decrease_tolerance_factor, e.midpath_decrease_tolerance_factor); }
	{ ba::SharpeningConfig t, e; if (k.parse(t, "sharpening")) { if (ch["sharpendigits"].set) k.integer("sharpendigits", t.sharpendigits, 0); k.real("functiontolerance", t.function_residual_tolerance, e.function_residual_tolerance); k.real("ratiotolerance", t.ratio_tolerance, e.ratio_tolerance); } }
	{ ba::RegenerationConfig t, e; if (k.parse(t, "regeneration")) {
		k.integer("regenremoveinf", t.remove_infinite_endpoints, e.remove_infinite_endpoints); k.integer("regenhigherdimtest", t.higher_dimension_check, e.higher_dimension_check); k.integer("regenstartlevel", t.start_level, e.start_level);
		if (ch["slicetolbeforeeg"].set) k.real("slicetolbeforeeg", t.newton_before_endgame, 0); if (ch["slicetolduringeg"].set) k.real("slicetolduringeg", t.newton_during_endgame, 0); if (ch["slicefinaltol"].set) k.real("slicefinaltol", t.final_tolerance, 0); } }
	{ ba::PostProcessingConfig t, e; if (k.parse(t, "post processing")) {
		k.real("imagthreshold", t.real_threshold, e.real_threshold); k.real("endpointfinitethreshold", t.endpoint_finite_threshold, e.endpoint_finite_threshold); k.real("endpointsamethreshold", t.same_point_tolerance, e.same_point_tolerance); } }

	// settings without a readable value
	static const std::vector<std::string> bad{"maxnewtonits: three;", "maxnewtonits: 3", "maxnewtonits: ;"};
	std::string b = r.pick(bad);
	std::string rest;
	for (auto& l : lines) { std::string low = l; for (auto& q : low) q = std::tolower(q); if (low.find("maxnewtonits") == std::string::npos) rest += l + "\n"; }
	bool rejected = false;
	try { bp::ConfigParser<bt::NewtonConfig>::Parse(rest + b); } catch (std::exception const&) { rejected = true; }
	c.check(rejected, "bad-setting-accepted", "accepted: " + b);
	c.obs("bad settings");
}
Register r1("I03", 15000, 200000, i03, 30);
} // namespace
int main(int argc, char** argv) { return run_main(argc, argv); }
