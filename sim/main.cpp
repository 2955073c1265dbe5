// Runner: fork per run, explore, shrink, replay.
// Every run is forked from a "zygote" that is set up before anything depends on the arguments and allocates nothing between runs:
// each run starts from the same memory image, whatever ran before it (addresses influence hash orders, in Qt for example).
#include "harness.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace sim;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:free_fill_byte=221:max_free_fill_size=4096:quarantine_size_mb=8:max_allocation_size_mb=3000:allocator_may_return_null=0:detect_odr_violation=0:print_legend=0:intercept_tls_get_addr=0:malloc_context_size=6"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }

namespace sim { u64 realNow() { struct timespec t; long r; __asm__ volatile("syscall" : "=a"(r) : "a"((long)SYS_clock_gettime), "D"((long)CLOCK_MONOTONIC), "S"(&t) : "rcx", "r11", "memory"); return (u64)t.tv_sec * sec + t.tv_nsec; } }

static std::string scenarioName, prop, workDir; static Scenario* scenario = 0; static int keepStderr = 0;
static void msgHandler(QtMsgType t, const QMessageLogContext&, const QString& m) { if (onQtMessage) onQtMessage(m); QByteArray b = m.toUtf8(); if (verbose) { fprintf(stderr, "             qt: %s\n", b.constData()); } if (t == QtFatalMsg) abort(); }

struct Outcome { bool violated; std::string prop, cls, msg; u64 logHash; std::vector<u32> tape; int status; };
static void rmTree(const std::string& d) { DIR* dir = opendir(d.c_str()); if (!dir) return; while (struct dirent* e = readdir(dir)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); rmTree(p); } else unlink(p.c_str()); } closedir(dir); rmdir(d.c_str()); }

// CPU watchdog: a run that makes no simulation step during ten seconds of CPU time hangs; one that merely costs too much is abandoned.
static u64 watchSteps = 0; static int watchTicks = 0;
static void onCpuLimit(int)
{
	if (stepsTaken == watchSteps && watchTicks > 0) { signal(SIGXCPU, SIG_DFL); raise(SIGXCPU); return; }
	watchSteps = stepsTaken; if (++watchTicks > 12) _exit(77);
	struct rlimit rl; getrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = 10 * (watchTicks + 1); setrlimit(RLIMIT_CPU, &rl);
}
struct Cmd { char scenario[16], prop[8], err[256]; u64 seed; bool useTape, verb; u32 tapeLen; u32 tape[MaxTape]; };
static Cmd* cmd; static int toZygote = -1, fromZygote = -1;
static void childRun()
{
	alarm(400); watchTicks = 0; watchSteps = ~0ull; struct rlimit rl = {10, 200}; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCpuLimit; sigemptyset(&sa.sa_mask); sa.sa_flags = SA_NODEFER | SA_RESTART; sigaction(SIGXCPU, &sa, 0); setrlimit(RLIMIT_CPU, &rl);
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	if (cmd->err[0]) { int fd = ::open(cmd->err, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); ::close(fd); } }
	prop = cmd->prop; target = prop; scenario = 0; for (Scenario& s : scenarios()) if (!strcmp(cmd->scenario, s.name)) scenario = &s;
	verbose = cmd->verb; initTape(cmd->seed, cmd->useTape ? cmd->tape : 0, cmd->tapeLen);
	watchObjects(); scenario->run(prop);
	finish();
}
static void startZygote()
{
	cmd = (Cmd*)mmap(0, sizeof(Cmd), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); _exit(3); }
	pid_t pid = fork();
	if (pid) { toZygote = a[1]; fromZygote = b[0]; ::close(a[0]); ::close(b[1]); return; }
	prctl(PR_SET_PDEATHSIG, SIGKILL); ::close(a[1]); ::close(b[0]);
	for (;;)
	{
		char c; if (::read(a[0], &c, 1) != 1) _exit(0);
		pid_t k = fork(); if (k == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); ::close(a[0]); ::close(b[1]); childRun(); _exit(0); }
		int status = 0; while (waitpid(k, &status, 0) < 0 && errno == EINTR) {}
		if (::write(b[1], &status, sizeof status) != (ssize_t)sizeof status) _exit(0);
	}
}
static Outcome runOnce(u64 seed, const std::vector<u32>* tape, bool verb, const char* err = 0)
{
	size_t head = offsetof(Result, tape); memset((void*)res, 0, head);
	std::string errFile = workDir + "/stderr";
	fflush(stdout); fflush(stderr);
	snprintf(cmd->scenario, sizeof cmd->scenario, "%s", scenarioName.c_str()); snprintf(cmd->prop, sizeof cmd->prop, "%s", prop.c_str()); snprintf(cmd->err, sizeof cmd->err, "%s", err ? err : verb ? "" : errFile.c_str());
	cmd->seed = seed; cmd->verb = verb; cmd->useTape = tape; cmd->tapeLen = tape ? (u32)std::min<size_t>(tape->size(), MaxTape) : 0; if (tape) memcpy(cmd->tape, tape->data(), cmd->tapeLen * sizeof(u32));
	int status = 0; if (::write(toZygote, "r", 1) != 1 || ::read(fromZygote, &status, sizeof status) != (ssize_t)sizeof status) { fprintf(stderr, "the zygote is gone\n"); _exit(3); }
	if (scratch.empty()) {} rmTree(workDir + "/run");
	Outcome o; o.violated = false; o.status = status; o.logHash = res->logHash;
	o.tape.assign(res->tape, res->tape + res->tapeLen);
	if (res->violated) { o.violated = true; o.prop = res->prop; o.cls = res->cls; o.msg = res->msg; }
	else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) probe("abandoned-too-expensive");
	else if (!res->finished)
	{
		o.violated = true; o.prop = prop; o.logHash = 0;
		std::string text; if (!verb) { std::ifstream f(errFile); std::stringstream s; s << f.rdbuf(); text = s.str(); }
		std::string kind; size_t p = text.find("ERROR: AddressSanitizer: "); if (p != std::string::npos) { p += 25; size_t e = p; while (e < text.size() && (isalnum((u8)text[e]) || text[e] == '-')) ++e; kind = text.substr(p, e - p); }
		if (kind.empty()) { p = text.find("runtime error: "); if (p != std::string::npos) kind = "undefined-behaviour"; }
		if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) { o.cls = "harness-stuck"; o.msg = "the run made no progress in real time"; }
		else if (WIFSIGNALED(status)) { int s = WTERMSIG(status); if (s == SIGXCPU || s == SIGKILL) { o.cls = "hang"; o.msg = "the process spins without giving control back (CPU limit reached)"; } else { o.cls = "crash-" + (kind.empty() ? std::string("signal") + num(s) : kind); o.msg = "the process was killed by signal " + num(s); } }
		else { o.cls = "crash-" + (kind.empty() ? std::string("exit") + num(WEXITSTATUS(status)) : kind); o.msg = kind.empty() ? "the process exited with status " + num(WEXITSTATUS(status)) : "memory error: " + kind; }
		size_t q = text.find("ERROR: AddressSanitizer"); if (q == std::string::npos) q = text.find("runtime error"); if (q != std::string::npos) o.msg += "\n" + text.substr(q, 2500);
	}
	return o;
}

static std::string jsonStr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

static bool same(const Outcome& a, const Outcome& b) { return a.violated && b.violated && a.prop == b.prop && a.cls == b.cls; }

static std::vector<u32> shrink(std::vector<u32> t, const Outcome& goal, double seconds, int& tries)
{
	u64 end = realNow() + (u64)(seconds * 1e9); tries = 0;
	auto test = [&](const std::vector<u32>& c, std::vector<u32>& used) { ++tries; Outcome o = runOnce(0, &c, false); if (!same(o, goal)) return false; used = o.tape; while (!used.empty() && used.back() == 0) used.pop_back(); return used.size() < t.size() || (used.size() == t.size() && used < t); };
	std::vector<u32> u; bool progress = true;
	while (!t.empty() && t.back() == 0) t.pop_back();
	while (progress && realNow() < end)
	{
		progress = false;
		// truncate
		for (size_t n = t.size() / 2; n >= 1 && realNow() < end; n /= 2) { while (t.size() > n && realNow() < end) { std::vector<u32> c(t.begin(), t.end() - n); if (test(c, u)) { t = u; progress = true; } else break; } }
		// delete blocks, zero blocks
		for (size_t n = std::max<size_t>(1, t.size() / 2); n >= 1 && realNow() < end; n = n / 2)
		{
			for (size_t i = 0; i < t.size() && realNow() < end;)
			{
				size_t m = std::min(n, t.size() - i);
				std::vector<u32> c = t; c.erase(c.begin() + i, c.begin() + i + m);
				if (test(c, u)) { t = u; progress = true; continue; }
				bool nz = false; c = t; for (size_t k = i; k < i + m; ++k) { if (c[k]) nz = true; c[k] = 0; }
				if (nz && test(c, u)) { t = u; progress = true; }
				i += m;
			}
			if (n == 1) break;
		}
		// reduce single values
		for (size_t i = 0; i < t.size() && realNow() < end; ++i)
		{
			if (t[i] == 0) continue;
			std::vector<u32> c = t; c[i] = t[i] / 2; if (test(c, u)) { t = u; progress = true; if (i >= t.size()) break; --i; continue; }
			if (i < t.size() && t[i] > 1) { c = t; c[i] = t[i] - 1; if (test(c, u)) { t = u; progress = true; } }
		}
	}
	return t;
}

static void writeReplay(const std::string& path, u64 seed, const std::vector<u32>& tape, const Outcome& o, const std::string& summaryLine, int tries, size_t origDraws)
{
	// trace of the minimised run
	std::string errFile = workDir + "/trace"; runOnce(0, &tape, true, errFile.c_str());
	std::ifstream f(errFile); std::string line; std::vector<std::string> lines; while (std::getline(f, line)) { if (line.size() > 400) line.resize(400); lines.push_back(line); }
	if (lines.size() > 4000) lines.erase(lines.begin(), lines.end() - 4000);
	std::ofstream w(path); w << "{\n \"property\": " << jsonStr(prop) << ",\n \"scenario\": " << jsonStr(scenarioName) << ",\n \"seed\": " << seed << ",\n \"class\": " << jsonStr(o.cls) << ",\n \"message\": " << jsonStr(o.msg) << ",\n \"case\": " << jsonStr(summaryLine) << ",\n \"logHash\": \"" << o.logHash << "\",\n \"choices_before_minimisation\": " << origDraws << ",\n \"minimisation_runs\": " << tries << ",\n \"tape\": [";
	for (size_t i = 0; i < tape.size(); ++i) w << (i ? "," : "") << tape[i];
	w << "],\n \"trace\": [\n"; for (size_t i = 0; i < lines.size(); ++i) w << "  " << jsonStr(lines[i]) << (i + 1 < lines.size() ? ",\n" : "\n"); w << " ]\n}\n";
}
static bool readReplay(const std::string& path, std::vector<u32>& tape, u64& seed, std::string& cls, std::string& scn, std::string& pr)
{
	std::ifstream f(path); if (!f) return false; std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
	auto str = [&](const char* k) { size_t p = s.find(std::string("\"") + k + "\": \""); if (p == std::string::npos) return std::string(); p += strlen(k) + 5; size_t e = s.find('"', p); return s.substr(p, e - p); };
	cls = str("class"); scn = str("scenario"); pr = str("property"); seed = 0; size_t p = s.find("\"seed\": "); if (p != std::string::npos) seed = strtoull(s.c_str() + p + 8, 0, 10);
	p = s.find("\"tape\": ["); if (p == std::string::npos) return false; p += 9; tape.clear(); while (s[p] != ']') { tape.push_back((u32)strtoul(s.c_str() + p, 0, 10)); while (s[p] != ',' && s[p] != ']') ++p; if (s[p] == ',') ++p; } return true;
}
static u64 hashSeed(u64 base, const std::string& s, u64 i) { u64 h = base * 0x9e3779b97f4a7c15ull ^ 0x5851f42d4c957f2dull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; h ^= i * 0xd6e8feb86659fd93ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h >> 1; }

int main(int argc, char** argv)
{
	if (!getenv("SIM_CHILD"))
	{
		personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
		// a fixed environment: stack contents and layout must not depend on the caller's
		std::string sc = getenv("SIM_SCRATCH") ? std::string("SIM_SCRATCH=") + getenv("SIM_SCRATCH") : std::string("SIM_SCRATCH=/tmp/pillow-sim-0000");
		char* envp[] = {(char*)"SIM_CHILD=1", (char*)"QT_HASH_SEED=0", (char*)"QT_NO_GLIB=1", (char*)"LANG=C.UTF-8", (char*)"LC_ALL=C.UTF-8", (char*)"TZ=UTC", (char*)"PATH=/usr/bin:/bin", (char*)"HOME=/nonexistent", (char*)"QT_NO_CPU_FEATURE=", (char*)sc.c_str(), 0};
		// and neither must the arguments: they are handed over in a file
		int fd = memfd_create("args", 0); for (int i = 1; i < argc; ++i) if (::write(fd, argv[i], strlen(argv[i]) + 1) < 0) return 3;
		dup2(fd, 900); ::close(fd); lseek(900, 0, SEEK_SET); char* args[] = {(char*)"sim", 0};
		execve("/proc/self/exe", args, envp); perror("execve"); return 3;
	}
	signal(SIGPIPE, SIG_IGN);
	res = (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	active = true;
	qInstallMessageHandler(msgHandler);
	int ac = 1; char* av[] = {(char*)"sim", 0}; QCoreApplication app(ac, av); QCoreApplication::setLibraryPaths(QStringList());
	QNetworkProxy::setApplicationProxy(QNetworkProxy(QNetworkProxy::NoProxy));
	QSslSocket::supportsSsl(); QSslConfiguration::defaultConfiguration();
	workDir = getenv("SIM_SCRATCH"); mkdir(workDir.c_str(), 0755);
	startZygote();
	std::vector<std::string> arg; { std::string all; char b[4096]; ssize_t n; while ((n = ::read(900, b, sizeof b)) > 0) all.append(b, n); ::close(900); size_t p = 0; while (p < all.size()) { size_t e = all.find('\0', p); arg.push_back(all.substr(p, e - p)); p = e + 1; } }
	std::string mode = "one", replayPath, outDir = "."; u64 base = 1, seed = 0; double shrinkSeconds = 45, seconds = 10, hard = 1e9; std::string knownFile; u64 minRuns = 0; u64 worker = 0, workers = 1, maxRuns = ~0ull, start = 0; bool verb = false;
	for (size_t i = 0; i < arg.size(); ++i)
	{
		std::string a = arg[i]; auto nx = [&]() { return i + 1 < arg.size() ? arg[++i] : std::string(); };
		if (a == "--scenario") scenarioName = nx(); else if (a == "--prop") prop = nx(); else if (a == "--one") { mode = "one"; seed = strtoull(nx().c_str(), 0, 10); }
		else if (a == "--replay") { mode = "replay"; replayPath = nx(); } else if (a == "--explore") mode = "explore"; else if (a == "--hashes") mode = "hashes";
		else if (a == "--base") base = strtoull(nx().c_str(), 0, 10); else if (a == "--worker") worker = strtoull(nx().c_str(), 0, 10); else if (a == "--workers") workers = strtoull(nx().c_str(), 0, 10);
		else if (a == "--seconds") seconds = atof(nx().c_str()); else if (a == "--hard") hard = atof(nx().c_str()); else if (a == "--minruns") minRuns = strtoull(nx().c_str(), 0, 10); else if (a == "--known") knownFile = nx(); else if (a == "--runs") maxRuns = strtoull(nx().c_str(), 0, 10); else if (a == "--start") start = strtoull(nx().c_str(), 0, 10);
		else if (a == "--out") outDir = nx(); else if (a == "--shrink") shrinkSeconds = atof(nx().c_str()); else if (a == "-v") verb = true; else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	std::vector<u32> tape; std::string wantCls;
	if (mode == "replay") { std::string s, p; if (!readReplay(replayPath, tape, seed, wantCls, s, p)) { fprintf(stderr, "cannot read %s\n", replayPath.c_str()); return 2; } if (scenarioName.empty()) scenarioName = s; if (prop.empty()) prop = p; }
	for (Scenario& s : scenarios()) if (scenarioName == s.name) scenario = &s;
	if (!scenario) { fprintf(stderr, "no scenario '%s'\n", scenarioName.c_str()); return 2; }
	if (mode == "one" || mode == "replay")
	{
		Outcome o = runOnce(seed, mode == "replay" ? &tape : 0, verb);
		printf("{\"violated\":%s,\"property\":%s,\"class\":%s,\"message\":%s,\"logHash\":\"%llu\",\"schedHash\":\"%llu\",\"steps\":%llu,\"draws\":%llu,\"simSeconds\":%.3f,\"other\":%u,\"otherMsg\":%s,\"case\":%s}\n", o.violated ? "true" : "false", jsonStr(o.prop).c_str(), jsonStr(o.cls).c_str(), jsonStr(o.msg).c_str(), (unsigned long long)o.logHash, (unsigned long long)res->schedHash, (unsigned long long)res->steps, (unsigned long long)res->draws, res->simNs / 1e9, res->otherViolations, jsonStr(res->otherMsg).c_str(), jsonStr(res->summary).c_str());
		if (mode == "replay") return o.violated && o.cls == wantCls ? 1 : 0;
		return o.violated ? 1 : 0;
	}
	if (mode == "hashes")
	{
		for (u64 i = start; i < start + maxRuns; ++i) { u64 s = hashSeed(base, prop + scenarioName, i); Outcome o = runOnce(s, 0, false); printf("%llu %llu %llu %d\n", (unsigned long long)s, (unsigned long long)o.logHash, (unsigned long long)res->draws, (int)o.violated); }
		return 0;
	}
	// explore
	u64 t0 = realNow(), end = t0 + (u64)(seconds * 1e9), runs = 0, nontriv = 0, simNs = 0, steps = 0, other = 0, draws = 0; std::unordered_set<u64> hashes, scheds; std::map<std::string, u64> faults, probes; std::vector<std::string> samples; std::string otherMsg;
	bool found = false; std::string replayOut, vcls, vmsg; u64 vseed = 0; int confirm = 0;
	u64 hardEnd = t0 + (u64)(hard * 1e9); std::vector<std::string> known; std::map<std::string, u64> knownHits;
	if (!knownFile.empty()) { std::ifstream kf(knownFile); std::string l; while (std::getline(kf, l)) if (!l.empty()) known.push_back(l); }
	for (u64 i = worker; (realNow() < end || runs < minRuns) && realNow() < hardEnd && runs < maxRuns; i += workers)
	{
		u64 s = hashSeed(base, prop + scenarioName, i + start);
		Outcome o = runOnce(s, 0, false);
		++runs; simNs += res->simNs; steps += res->steps; draws += res->draws; other += res->otherViolations; if (res->otherViolations) otherMsg = "seed " + num((i64)s) + ": " + res->otherMsg;
		if ((res->nontrivial & 1) && hashes.insert(res->logHash).second) ++nontriv;
		scheds.insert(res->schedHash);
		for (u32 k = 0; k < res->nFaults; ++k) faults[res->faults[k].name] += res->faults[k].n;
		for (u32 k = 0; k < res->nProbes; ++k) probes[res->probes[k].name] += res->probes[k].n;
		if (samples.size() < 3 && res->summary[0]) samples.push_back(std::string("seed ") + num((i64)s) + ": " + res->summary);
		if (o.violated)
		{
			std::string ident = o.cls + ": " + o.msg; bool isKnown = false;
			for (const std::string& k : known) if (ident.find(k) != std::string::npos) { ++knownHits[k]; isKnown = true; break; }
			if (isKnown) continue;
			std::string cse = res->summary;
			Outcome o2 = runOnce(s, 0, false); // same seed again: must be identical
			if (!same(o, o2) || o.logHash != o2.logHash) { vcls = "nondeterministic"; vmsg = "seed " + num((i64)s) + ": first run gave [" + o.cls + "], second gave [" + (o2.violated ? o2.cls : "no violation") + "]"; found = true; confirm = -1; vseed = s; break; }
			Outcome o3 = runOnce(0, &o.tape, false); // as a tape
			if (!same(o, o3)) { vcls = "nondeterministic"; vmsg = "tape replay differs for seed " + num((i64)s); found = true; confirm = -1; vseed = s; break; }
			int tries = 0; std::vector<u32> small = shrink(o.tape, o, shrinkSeconds, tries);
			Outcome fin = runOnce(0, &small, false); if (!same(fin, o)) { small = o.tape; fin = o; }
			replayOut = outDir + "/" + prop + "-" + num((i64)s) + ".json"; std::string cs2 = res->summary;
			writeReplay(replayOut, s, small, fin, cs2, tries, o.tape.size());
			found = true; confirm = 1; vcls = fin.cls; vmsg = fin.msg; vseed = s; break;
		}
	}
	printf("{\"runs\":%llu,\"nontrivial\":%llu,\"distinctLogs\":%zu,\"distinctSchedules\":%zu,\"simSeconds\":%.3f,\"steps\":%llu,\"draws\":%llu,\"wall\":%.3f,\"other\":%llu,\"otherMsg\":%s,", (unsigned long long)runs, (unsigned long long)nontriv, hashes.size(), scheds.size(), simNs / 1e9, (unsigned long long)steps, (unsigned long long)draws, (realNow() - t0) / 1e9, (unsigned long long)other, jsonStr(otherMsg).c_str());
	printf("\"faults\":{"); bool first = true; for (auto& p : faults) { printf("%s%s:%llu", first ? "" : ",", jsonStr(p.first).c_str(), (unsigned long long)p.second); first = false; }
	printf("},\"probes\":{"); first = true; for (auto& p : probes) { printf("%s%s:%llu", first ? "" : ",", jsonStr(p.first).c_str(), (unsigned long long)p.second); first = false; }
	printf("},\"known\":{"); first = true; for (auto& p : knownHits) { printf("%s%s:%llu", first ? "" : ",", jsonStr(p.first).c_str(), (unsigned long long)p.second); first = false; }
	printf("},\"samples\":["); first = true; for (auto& s : samples) { printf("%s%s", first ? "" : ",", jsonStr(s).c_str()); first = false; }
	printf("],\"found\":%s,\"confirm\":%d,\"seed\":%llu,\"class\":%s,\"message\":%s,\"replay\":%s}\n", found ? "true" : "false", confirm, (unsigned long long)vseed, jsonStr(vcls).c_str(), jsonStr(vmsg).c_str(), jsonStr(replayOut).c_str());
	return found ? 1 : 0;
}
