// sxe: bounded symbolic execution of LLVM bitcode, deciding with an SMT solver.
//   sxe MODULE.bc --out DIR [--tier N] [--jobs N] [--timeout SECONDS] [--case NAME]... [--replay FILE] [--trace]
#include "exec.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <atomic>
#include <fstream>
#include <sstream>

struct Shared { std::atomic<int> active; int max; std::atomic<uint64_t> serial; };
static Shared* sh;
static std::string outDir;
static std::vector<pid_t> kids;

static std::string js(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
	return r + "\"";
}
static void writeResult(const std::string& name) {
	std::ostringstream o;
	o << "{\"case\":" << js(name) << ",\"paths\":" << g_st.paths << ",\"states\":" << g_st.states << ",\"insts\":" << g_st.insts << ",\"forks\":" << g_st.forks
	  << ",\"assertsSym\":" << g_st.assertsSym << ",\"assertsConc\":" << g_st.assertsConc << ",\"assertsIdent\":" << g_st.assertsIdent << ",\"maxSteps\":" << g_st.maxSteps << ",\"assumeKilled\":" << g_st.assumeKilled << ",\"maxSyms\":" << g_st.maxSyms
	  << ",\"solver\":{\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"cached\":" << g_ss.cacheHits << ",\"domain\":" << g_ss.domainHits << ",\"time\":" << g_ss.time << ",\"max\":" << g_ss.maxTime << ",\"maxSlice\":" << g_ss.maxSlice << "}";
	o << ",\"covers\":{"; bool f = true;
	for (auto& c : g_st.covers) { if (!f) o << ","; f = false; o << js(c.first) << ":" << c.second; }
	o << "},\"incomplete\":["; f = true;
	for (auto& c : g_st.incomplete) { if (!f) o << ","; f = false; o << js(c); }
	o << "],\"funcs\":["; f = true;
	for (auto& c : g_st.funcs) { if (!f) o << ","; f = false; size_t p = c.find('|'); o << js(demangle(c.substr(0, p)) + c.substr(p)); }
	o << "],\"samples\":["; f = true;
	for (auto& c : g_st.samples) { if (!f) o << ","; f = false; o << js(c); }
	o << "],\"violations\":["; f = true;
	for (auto& p : g_st.viol) {
		auto& v = p.second; if (!f) o << ","; f = false;
		o << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"count\":" << v.count << ",\"stack\":" << js(v.stack) << ",\"inputs\":[";
		bool g = true;
		for (auto& i : v.inputs) { if (!g) o << ","; g = false; o << "[" << js(i.first) << "," << js(i.second) << "]"; }
		o << "],\"sched\":["; g = true;
		for (auto c : v.sched) { if (!g) o << ","; g = false; o << (int)c; }
		o << "]}";
	}
	o << "]}";
	std::string fn = outDir + "/r" + std::to_string(sh->serial.fetch_add(1)) + ".json", tmp = fn + ".tmp";
	{ std::ofstream os(tmp); os << o.str() << "\n"; }
	rename(tmp.c_str(), fn.c_str());
}
static void reap(const std::string& name) {
	for (pid_t p : kids) {
		int st = 0;
		if (waitpid(p, &st, 0) == p && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			sh->active--;
			g_st = CaseStats(); g_ss = SolverStats();
			g_st.incomplete.insert("a worker of the engine ended abnormally (status " + std::to_string(st) + ")");
			writeResult(name);
		}
	}
	kids.clear();
}
static void explore(Exec& x) {
	uint64_t n = 0;
	while (!x.work.empty()) {
		State* s = x.work.back(); x.work.pop_back();
		x.runState(s);
		if (g_st.incomplete.count("time limit")) return;
		if (x.work.size() >= 2 && sh->active.load() < sh->max && (++n & 3) == 0) {
			int a = sh->active.fetch_add(1);
			if (a >= sh->max) { sh->active--; continue; }
			fflush(stdout); fflush(stderr);
			pid_t p = fork();
			if (p < 0) { sh->active--; continue; }
			std::vector<State*> mine;
			for (size_t i = 0; i < x.work.size(); i++) { if ((i & 1) == (p == 0 ? 0u : 1u)) mine.push_back(x.work[i]); else if (p) delete x.work[i]; }
			x.work.swap(mine);
			if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); kids.clear(); g_st = CaseStats(); g_ss = SolverStats(); n = 0; }
			else kids.push_back(p);
		}
	}
}

int main(int argc, char** argv) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
	if (rl.rlim_cur != RLIM_INFINITY && !getenv("SXE_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? RLIM_INFINITY : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SXE_STACK", "1", 1); execv("/proc/self/exe", argv); }
	std::string mod, replay; std::vector<std::string> cases; int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); double timeout = 800; bool list = false;
	outDir = ".";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--out") outDir = nx(); else if (a == "--tier") g_cfg.tier = atoi(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str());
		else if (a == "--timeout") timeout = atof(nx().c_str()); else if (a == "--case") cases.push_back(nx()); else if (a == "--replay") replay = nx();
		else if (a == "--trace") g_cfg.trace = true; else if (a == "--list") list = true;
		else if (a == "--solver-timeout") g_solverTimeoutMs = (unsigned)atoi(nx().c_str());
		else mod = a;
	}
	std::string err;
	if (!loadModule(mod.c_str(), err)) { fprintf(stderr, "sxe: %s\n", err.c_str()); return 3; }
	std::vector<std::string> all;
	for (auto* f : M.funcs) if (f->defined && f->name.compare(0, 5, "case_") == 0) all.push_back(f->name.substr(5));
	if (list) { for (auto& c : all) printf("%s\n", c.c_str()); return 0; }
	if (cases.empty()) cases = all;
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (sh) Shared();
	sh->max = jobs;
	g_cfg.deadline = wallNow() + timeout;
	if (!replay.empty()) {
		g_cfg.replay = true;
		std::ifstream is(replay); std::string line;
		while (std::getline(is, line)) {
			std::istringstream ls(line); std::string k; ls >> k;
			if (k == "input") { std::string n, h; ls >> n >> h; g_cfg.rin.push_back({ n, h == "-" ? "" : h }); }
			else if (k == "sched") { int c; while (ls >> c) g_cfg.rsched.push_back((uint8_t)c); }
			else if (k == "case") { std::string n; ls >> n; cases = { n }; }
		}
	}
	// run static constructors once
	Exec init;
	State* base = init.initial();
	{
		for (auto* c : M.ctors) {
			State* s = new State(*base);
			// drive a copy until its frame stack is empty
			struct Stop {};
			init.pushFrame(*s, c, {}, nullptr);
			g_evgen = 1000000000ull + (uint64_t)(s->steps);
			bool ok = false;
			try {
				while (true) {
					if (s->th[0].fr.size() == 1) {
						auto& f = s->th[0].fr[0];
						if (f.f->blocks[f.block].insts[f.ip].op == I_RET) { init.popFrame(*s); ok = true; break; }
					}
					init.step(*s);
				}
			} catch (PathDone&) {} catch (Incomplete& i) { g_st.incomplete.insert(i.why + " in a static initialiser (" + c->name + ")"); }
			if (!ok) { if (g_st.incomplete.empty()) g_st.incomplete.insert("static initialiser failed"); for (auto& v : g_st.viol) fprintf(stderr, "%s %s %s\n", v.first.c_str(), v.second.loc.c_str(), v.second.stack.c_str()); writeResult("(static initialisation)"); return 0; }
			delete base; base = s;
		}
		base->live = 0; base->steps = 0;
		g_st = CaseStats();
	}
	auto runCase = [&](const std::string& c) {
		Exec x; x.caseName = c;
		auto it = M.fbyName.find("case_" + c);
		if (it == M.fbyName.end() || !it->second->defined) { g_st.incomplete.insert("no such case"); return; }
		State* s = new State(*base);
		x.pushFrame(*s, it->second, {}, nullptr);
		g_st.states = 1;
		x.work.push_back(s);
		explore(x);
	};
	if (g_cfg.trace || g_cfg.replay || jobs <= 1) {
		sh->max = 0;
		for (auto& c : cases) { g_st = CaseStats(); g_ss = SolverStats(); runCase(c); writeResult(c); }
		return 0;
	}
	std::vector<std::pair<pid_t, std::string>> tops;
	size_t next = 0; int bad = 0;
	while (next < cases.size() || !tops.empty()) {
		if (next < cases.size() && sh->active.load() < sh->max) {
			sh->active++;
			pid_t p = fork();
			if (p == 0) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				kids.clear();
				runCase(cases[next]);
				writeResult(cases[next]);
				sh->active--;
				reap(cases[next]);
				_exit(0);
			}
			tops.push_back({ p, cases[next] });
			next++;
			continue;
		}
		bool any = false;
		for (size_t i = 0; i < tops.size(); i++) {
			int st;
			if (waitpid(tops[i].first, &st, WNOHANG) == tops[i].first) {
				any = true;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad++; sh->active--; g_st = CaseStats(); g_ss = SolverStats(); g_st.incomplete.insert("a worker of the engine ended abnormally (status " + std::to_string(st) + ")"); writeResult(tops[i].second); }
				tops.erase(tops.begin() + i); i--;
			}
		}
		if (!any) usleep(2000);
	}
	return 0;
}
