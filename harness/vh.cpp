// Driver of the property-based testing engine; see vh.h.
#include "vh.h"

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <string>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__has_feature)
#	define VH_SAN 1
#endif

extern "C" char const* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
	       "max_allocation_size_mb=1024:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:"
	       "handle_segv=1:print_summary=1";
}
extern "C" char const* __ubsan_default_options()
{
	return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}
extern "C" char const* __tsan_default_options()
{
	return "halt_on_error=1:exitcode=99:second_deadlock_stack=1";
}

namespace vhcfg {
// See config/stored_config.h
struct AllocState {
	long live;
	long liveBytes;
	long total;
	long failAfter;
	bool failOnce;
	long failures;
};
AllocState allocState = {0, 0, 0, -1, false, 0};
} // namespace vhcfg

namespace vh {

std::vector<Property>& properties()
{
	static std::vector<Property> p;
	return p;
}

std::string hex(void const* p, size_t len, size_t max)
{
	std::string r;
	char b[4];
	for(size_t i = 0; i < len && i < max; i++) {
		snprintf(b, sizeof(b), "%02x", ((unsigned char const*)p)[i]);
		r += b;
	}
	if(len > max)
		r += "...(" + std::to_string(len) + ")";
	return r;
}

std::string hex(std::string const& s, size_t max)
{
	return hex(s.data(), s.size(), max);
}

std::string quote(std::string const& s, size_t max)
{
	std::string r = "'";
	char b[8];
	for(size_t i = 0; i < s.size() && i < max; i++) {
		char c = s[i];
		if(c == '\'' || c == '\\')
			r += '\\';
		if(c >= 0x20 && c < 0x7f)
			r += c;
		else {
			snprintf(b, sizeof(b), "\\x%02x", (unsigned)(unsigned char)c);
			r += b;
		}
	}
	r += "'";
	if(s.size() > max)
		r += "...(" + std::to_string(s.size()) + ")";
	return r;
}

std::string format(char const* fmt, ...)
{
	va_list args;
	va_start(args, fmt);
	char b[1024];
	vsnprintf(b, sizeof(b), fmt, args);
	va_end(args);
	return b;
}

static uint64_t nowMs()
{
	return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(
		       std::chrono::steady_clock::now().time_since_epoch())
		.count();
}

static uint64_t fnv(void const* p, size_t len, uint64_t h = 0xcbf29ce484222325ULL)
{
	for(size_t i = 0; i < len; i++) {
		h ^= ((unsigned char const*)p)[i];
		h *= 0x100000001b3ULL;
	}
	return h;
}

static Shared* newShared()
{
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
		       -1, 0);
	if(p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return (Shared*)p;
}

static std::string json(std::string const& s)
{
	std::string r = "\"";
	char b[8];
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') {
			r += '\\';
			r += (char)c;
		} else if(c == '\n')
			r += "\\n";
		else if(c < 0x20 || c >= 0x7f) {
			snprintf(b, sizeof(b), "\\u%04x", c);
			r += b;
		} else
			r += (char)c;
	}
	return r + "\"";
}

struct Options {
	uint64_t seed = 1;
	bool thorough = false;
	unsigned workers = 8;
	double deadline = 60;
	double scale = 1;
	std::string out;
	std::string dir = ".";
	std::string only;
	std::string replay;
	std::string known;
	unsigned cpuLimit = 30;
	unsigned wallLimit = 180;
};

static Options opt;
static std::vector<std::pair<std::string, std::string>> knownList; // prop, sig

static bool isKnown(std::string const& prop, std::string const& sig)
{
	for(auto const& k : knownList)
		if((k.first == prop || k.first == "*") && k.second == sig)
			return true;
	return false;
}

enum Outcome { Ok, Failed, Crashed, Hang, Discarded };
struct Result {
	Outcome outcome = Ok;
	std::string sig;
	std::string msg;
	std::string notes;
	std::vector<uint64_t> choices;
	std::string output;
	bool nontrivial = false;
};

static std::string readFile(std::string const& name, size_t max = 1 << 16)
{
	std::string r;
	FILE* f = fopen(name.c_str(), "rb");
	if(!f)
		return r;
	char buf[4096];
	size_t n;
	while((n = fread(buf, 1, sizeof(buf), f)) > 0 && r.size() < max)
		r.append(buf, n);
	fclose(f);
	return r;
}

static void redirect(std::string const& errfile)
{
	int fd = open("/dev/null", O_WRONLY);
	if(fd >= 0) {
		dup2(fd, 1);
		close(fd);
	}
	fd = open("/dev/null", O_RDONLY);
	if(fd >= 0) {
		dup2(fd, 0);
		close(fd);
	}
	fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if(fd >= 0) {
		dup2(fd, 2);
		close(fd);
	}
}

static void armCpuTimer(unsigned sec)
{
	struct itimerval t = {};
	t.it_value.tv_sec = sec;
	setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static void onVtalrm(int)
{
	_exit(98);
}

// Run one case in this process. Returns outcome in shared memory.
static Outcome runCase(Property const& p, Gen& g, Shared* s)
{
	s->failed = 0;
	vhcfg::allocState.failAfter = -1;
	vhcfg::allocState.failOnce = false;
	try {
		p.f(g);
	} catch(Fail const& f) {
		s->failed = 1;
		snprintf(s->sig, sizeof(s->sig), "%s", f.sig.c_str());
		snprintf(s->msg, sizeof(s->msg), "%s", f.msg.c_str());
		return Failed;
	} catch(Discard const&) {
		return Discarded;
	} catch(std::exception const& e) {
		s->failed = 1;
		snprintf(s->sig, sizeof(s->sig), "exception");
		snprintf(s->msg, sizeof(s->msg), "uncaught exception: %s", e.what());
		return Failed;
	}
	return Ok;
}

// Run one case in a forked process with the given choices.
static Result
runForked(Property const& p, std::vector<uint64_t> const* choices, uint64_t seed, Shared* s,
	  unsigned wall = 0)
{
	std::string err = opt.dir + "/stderr.single." + std::to_string(getpid());
	s->failed = 0;
	s->n = 0;
	pid_t pid = fork();
	if(pid == 0) {
		redirect(err);
		signal(SIGVTALRM, onVtalrm);
		armCpuTimer(opt.cpuLimit);
		Outcome o;
		if(choices) {
			Gen g(s, choices);
			o = runCase(p, g, s);
		} else {
			Gen g(s, seed);
			o = runCase(p, g, s);
		}
		_exit(o == Failed ? 77 : o == Discarded ? 78 : 0);
	}
	if(!wall)
		wall = opt.wallLimit;
	uint64_t start = nowMs();
	int st = 0;
	bool killed = false;
	unsigned sleepUs = 50;
	while(waitpid(pid, &st, WNOHANG) == 0) {
		if(nowMs() - start > wall * 1000ULL && !killed) {
			kill(pid, SIGKILL);
			killed = true;
		}
		usleep(sleepUs);
		if(sleepUs < 5000)
			sleepUs *= 2;
	}
	Result r;
	r.choices.assign(s->v, s->v + s->n);
	r.notes.assign(s->notes, s->noteLen);
	r.nontrivial = s->nontrivial;
	if(killed) {
		r.outcome = Hang;
		r.sig = "hang";
		r.msg = "the case did not finish";
	} else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		r.outcome = Ok;
	} else if(WIFEXITED(st) && WEXITSTATUS(st) == 78) {
		r.outcome = Discarded;
	} else if(WIFEXITED(st) && WEXITSTATUS(st) == 77) {
		r.outcome = Failed;
		r.sig = s->sig;
		r.msg = s->msg;
	} else if(WIFEXITED(st) && WEXITSTATUS(st) == 98) {
		r.outcome = Hang;
		r.sig = "hang";
		r.msg = "the case exceeded its (generous) CPU limit";
	} else {
		r.outcome = Crashed;
		r.sig = "crash";
		r.output = readFile(err);
		char b[64];
		snprintf(b, sizeof(b), "status 0x%x", st);
		r.msg = std::string("abnormal termination, ") + b;
		// A short summary line.
		for(char const* key : {"SUMMARY:", "runtime error:", "Assertion", "ERROR:"}) {
			auto i = r.output.find(key);
			if(i != std::string::npos) {
				auto b0 = r.output.rfind('\n', i);
				b0 = b0 == std::string::npos ? 0 : b0 + 1;
				auto e = r.output.find('\n', i);
				r.msg += "; " + r.output.substr(b0, e == std::string::npos ? e : e - b0);
				break;
			}
		}
	}
	unlink(err.c_str());
	return r;
}

static bool sameKind(Result const& a, Result const& b)
{
	if(a.outcome != b.outcome)
		return false;
	if(a.outcome == Failed)
		return a.sig == b.sig;
	return true;
}

static Result
shrink(Property const& p, Result best, Shared* s, uint64_t deadlineMs)
{
	auto attempt = [&](std::vector<uint64_t> const& c) -> bool {
		if(nowMs() > deadlineMs)
			return false;
		Result r = runForked(p, &c, 0, s, best.outcome == Hang ? opt.wallLimit : 60);
		if(!sameKind(r, best))
			return false;
		// Accept when it is really smaller (shortlex).
		if(r.choices.size() < best.choices.size()
		   || (r.choices.size() == best.choices.size() && r.choices < best.choices)) {
			best = r;
			return true;
		}
		return false;
	};

	bool progress = true;
	while(progress && nowMs() < deadlineMs) {
		progress = false;

		// Delete chunks.
		for(size_t len = std::max<size_t>(1, best.choices.size() / 2); len > 0; len /= 2) {
			for(size_t i = best.choices.size(); i > 0 && nowMs() < deadlineMs;) {
				size_t b = i > len ? i - len : 0;
				if(b >= best.choices.size()) {
					i = b;
					continue;
				}
				auto c = best.choices;
				c.erase(c.begin() + (long)b,
					c.begin() + (long)std::min(c.size(), b + len));
				if(attempt(c)) {
					progress = true;
					i = std::min(i, best.choices.size());
				} else
					i = b;
			}
			if(nowMs() >= deadlineMs)
				break;
		}

		// Zero and minimize values.
		for(size_t i = 0; i < best.choices.size() && nowMs() < deadlineMs; i++) {
			if(best.choices[i] == 0)
				continue;
			auto c = best.choices;
			c[i] = 0;
			if(attempt(c)) {
				progress = true;
				continue;
			}
			// Binary search.
			uint64_t lo = 0;
			while(i < best.choices.size() && best.choices[i] > lo + 1
			      && nowMs() < deadlineMs) {
				uint64_t mid = lo + (best.choices[i] - lo) / 2;
				c = best.choices;
				c[i] = mid;
				if(attempt(c))
					progress = true;
				else
					lo = mid;
			}
			// Decrease by one while deleting the next (typical for a length).
			if(i + 1 < best.choices.size() && best.choices[i]) {
				c = best.choices;
				c[i]--;
				c.erase(c.begin() + (long)i + 1);
				if(attempt(c))
					progress = true;
			}
		}
	}
	return best;
}

struct PropStats {
	uint64_t evaluations = 0;
	uint64_t discarded = 0;
	std::unordered_set<uint64_t> nontrivial;
	std::map<std::string, uint64_t> classes;
	std::map<std::string, uint64_t> known;
	std::vector<std::string> samples;
	bool truncated = false;
};

struct Violation {
	std::string prop;
	Result r;
	std::string replay;
	bool reproducible;
};

static uint64_t caseSeed(Property const& p, uint64_t i)
{
	uint64_t h = fnv(p.name, strlen(p.name), 0xcbf29ce484222325ULL ^ (opt.seed * 0x9e3779b97f4a7c15ULL));
	return fnv(&i, sizeof(i), h);
}

static void
worker(Property const& p, Shared* s, unsigned w, unsigned W, uint64_t startCase, uint64_t cases,
       uint64_t deadlineMs, std::string const& statFile)
{
	redirect(opt.dir + "/stderr." + std::to_string(w));
	signal(SIGVTALRM, onVtalrm);
	FILE* f = fopen(statFile.c_str(), "ab");
	std::map<std::string, uint64_t> classes;
	std::map<std::string, uint64_t> known;
	unsigned samples = 0;
	int code = 0;
	for(uint64_t i = startCase; i < cases; i += W) {
		if(nowMs() > deadlineMs) {
			fprintf(f, "T\n");
			break;
		}
		s->caseIndex = i;
		s->caseStartMs = nowMs();
		armCpuTimer(opt.cpuLimit);
		Gen g(s, caseSeed(p, i));
		Outcome o = runCase(p, g, s);
		armCpuTimer(0);
		s->evaluations = s->evaluations + 1;
		for(auto const& c : g.classes())
			classes[c]++;
		if(o == Failed) {
			if(isKnown(p.name, s->sig)) {
				known[s->sig]++;
				continue;
			}
			code = 77;
			break;
		} else if(o == Discarded) {
			s->discarded = s->discarded + 1;
		} else if(s->nontrivial) {
			uint64_t h = fnv(s->v, s->n * sizeof(uint64_t));
			fprintf(f, "N %llx\n", (unsigned long long)h);
			if(samples < 1 && s->noteLen) {
				samples++;
				std::string n(s->notes, std::min<uint32_t>((uint32_t)s->noteLen, 1500));
				for(auto& c : n)
					if(c == '\n')
						c = '\x01';
				fprintf(f, "S case %llu: %s\n", (unsigned long long)i, n.c_str());
			}
		}
	}
	for(auto const& c : classes)
		fprintf(f, "C %llu %s\n", (unsigned long long)c.second, c.first.c_str());
	for(auto const& c : known)
		fprintf(f, "K %llu %s\n", (unsigned long long)c.second, c.first.c_str());
	fclose(f);
	_exit(code);
}

static void
readStats(std::string const& file, PropStats& st)
{
	FILE* f = fopen(file.c_str(), "rb");
	if(!f)
		return;
	static char line[1 << 18];
	while(fgets(line, sizeof(line), f)) {
		size_t l = strlen(line);
		if(l && line[l - 1] == '\n')
			line[--l] = 0;
		if(line[0] == 'T')
			st.truncated = true;
		else if(line[0] == 'N') {
			// Bounded memory; from here, it is a lower bound.
			if(st.nontrivial.size() < 20000000U)
				st.nontrivial.insert(strtoull(line + 2, nullptr, 16));
		} else if(line[0] == 'C' || line[0] == 'K') {
			char* e = nullptr;
			uint64_t n = strtoull(line + 2, &e, 10);
			if(e && *e == ' ')
				(line[0] == 'C' ? st.classes : st.known)[e + 1] += n;
		} else if(line[0] == 'S' && st.samples.size() < 3) {
			std::string x = line + 2;
			for(auto& c : x)
				if(c == '\x01')
					c = '\n';
			st.samples.push_back(x);
		}
	}
	fclose(f);
	unlink(file.c_str());
}

static void saveReplay(std::string const& file, Property const& p, Result const& r)
{
	FILE* f = fopen(file.c_str(), "wb");
	if(!f)
		return;
	fprintf(f, "prop %s\nkind %s\nmsg %s\nchoices", p.name, r.sig.c_str(),
		[&] {
			std::string m = r.msg;
			for(auto& c : m)
				if(c == '\n')
					c = ' ';
			return m;
		}()
			.c_str());
	for(auto c : r.choices)
		fprintf(f, " %llu", (unsigned long long)c);
	fprintf(f, "\n# steps of the case:\n");
	std::string n = r.notes;
	size_t i = 0;
	while(i < n.size()) {
		auto e = n.find('\n', i);
		if(e == std::string::npos)
			e = n.size();
		fprintf(f, "# %s\n", n.substr(i, e - i).c_str());
		i = e + 1;
	}
	if(!r.output.empty()) {
		fprintf(f, "# output:\n");
		std::string const& o = r.output;
		i = 0;
		unsigned lines = 0;
		while(i < o.size() && lines++ < 80) {
			auto e = o.find('\n', i);
			if(e == std::string::npos)
				e = o.size();
			fprintf(f, "# %s\n", o.substr(i, e - i).c_str());
			i = e + 1;
		}
	}
	fclose(f);
}

static int doReplay()
{
	std::string c = readFile(opt.replay, 1 << 26);
	auto get = [&](char const* key) {
		std::string k = std::string(key) + " ";
		size_t i = 0;
		while(i < c.size()) {
			auto e = c.find('\n', i);
			if(e == std::string::npos)
				e = c.size();
			if(c.compare(i, k.size(), k) == 0)
				return c.substr(i + k.size(), e - i - k.size());
			i = e + 1;
		}
		return std::string();
	};
	std::string name = get("prop");
	std::vector<uint64_t> v;
	{
		std::string s = get("choices");
		char* p = &s[0];
		char* e = nullptr;
		while(true) {
			uint64_t x = strtoull(p, &e, 10);
			if(e == p)
				break;
			v.push_back(x);
			p = e;
		}
	}
	for(auto const& p : properties())
		if(name == p.name) {
			Shared* s = newShared();
			Result r = runForked(p, &v, 0, s);
			printf("%s\n", r.notes.c_str());
			printf("outcome: %s %s: %s\n%s\n",
			       r.outcome == Ok	       ? "ok"
			       : r.outcome == Failed    ? "FAILED"
			       : r.outcome == Crashed   ? "CRASHED"
			       : r.outcome == Discarded ? "discarded"
							: "HANG",
			       r.sig.c_str(), r.msg.c_str(), r.output.c_str());
			return r.outcome == Ok || r.outcome == Discarded ? 0 : 1;
		}
	fprintf(stderr, "unknown property '%s'\n", name.c_str());
	return 2;
}

int driver(int argc, char** argv)
{
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--seed")
			opt.seed = strtoull(next().c_str(), nullptr, 10);
		else if(a == "--thorough")
			opt.thorough = true;
		else if(a == "--workers")
			opt.workers = (unsigned)atoi(next().c_str());
		else if(a == "--deadline")
			opt.deadline = atof(next().c_str());
		else if(a == "--scale")
			opt.scale = atof(next().c_str());
		else if(a == "--out")
			opt.out = next();
		else if(a == "--dir")
			opt.dir = next();
		else if(a == "--only")
			opt.only = next();
		else if(a == "--replay")
			opt.replay = next();
		else if(a == "--known") {
			auto k = next();
			auto c = k.find(':');
			if(c != std::string::npos)
				knownList.emplace_back(k.substr(0, c), k.substr(c + 1));
		} else {
			fprintf(stderr, "unknown option %s\n", a.c_str());
			return 2;
		}
	}

	signal(SIGPIPE, SIG_IGN);

	if(!opt.replay.empty())
		return doReplay();

	std::vector<Shared*> shared;
	for(unsigned i = 0; i < opt.workers; i++)
		shared.push_back(newShared());
	Shared* single = newShared();

	uint64_t t0 = nowMs();
	std::vector<Violation> violations;
	std::vector<std::pair<Property const*, PropStats>> stats;

	std::vector<Property const*> todo;
	for(auto const& p : properties())
		if(opt.only.empty() || opt.only == p.name)
			todo.push_back(&p);

	for(size_t pi = 0; pi < todo.size(); pi++) {
		Property const& p = *todo[pi];
		PropStats st;
		uint64_t cases = (uint64_t)((double)(opt.thorough ? p.thorough : p.quick) * opt.scale);
		if(cases < 1)
			cases = 1;
		// Share the remaining time evenly over the remaining properties.
		double used = (double)(nowMs() - t0) / 1000.0;
		double left = std::max(1.0, opt.deadline - used);
		uint64_t deadlineMs =
			nowMs() + (uint64_t)(1000.0 * left / (double)(todo.size() - pi));

		unsigned W = std::min<unsigned>(std::min(opt.workers, p.maxWorkers), (unsigned)std::min<uint64_t>(cases, 64));
		std::vector<pid_t> pids(W, 0);
		auto statFile = [&](unsigned w) {
			return opt.dir + "/stat." + p.name + "." + std::to_string(w);
		};
		auto start = [&](unsigned w, uint64_t from) {
			fflush(stdout);
			fflush(stderr);
			shared[w]->caseIndex = from;
			shared[w]->caseStartMs = nowMs();
			shared[w]->failed = 0;
			pid_t pid = fork();
			if(pid == 0) {
				worker(p, shared[w], w, W, from, cases, deadlineMs, statFile(w));
				_exit(0);
			}
			pids[w] = pid;
		};
		for(unsigned w = 0; w < W; w++) {
			shared[w]->evaluations = 0;
			shared[w]->discarded = 0;
			unlink(statFile(w).c_str());
			start(w, w);
		}

		bool violated = false;
		unsigned running = W;
		unsigned nonrepro = 0;
		while(running) {
			for(unsigned w = 0; w < W; w++) {
				if(!pids[w])
					continue;
				int s = 0;
				pid_t pid = waitpid(pids[w], &s, WNOHANG);
				bool hang = false;
				if(pid == 0) {
					// The worker may just start the next case.
					uint64_t began = shared[w]->caseStartMs;
					if(nowMs() > began + opt.wallLimit * 1000ULL) {
						kill(pids[w], SIGKILL);
						waitpid(pids[w], &s, 0);
						hang = true;
					} else
						continue;
				}
				pids[w] = 0;
				running--;
				if(WIFEXITED(s) && WEXITSTATUS(s) == 0)
					continue;
				if(violated)
					continue;

				// Some failure. Reproduce it on its own.
				uint64_t i = shared[w]->caseIndex;
				Result r = runForked(p, nullptr, caseSeed(p, i), single);
				std::string first;
				if(r.outcome == Ok || r.outcome == Discarded) {
					// May depend on the preceding cases, or be flaky. Try the
					// logged choices.
					first = readFile(opt.dir + "/stderr." + std::to_string(w), 4000);
					for(int k = 0; k < 10 && (r.outcome == Ok || r.outcome == Discarded); k++)
						r = runForked(p, nullptr, caseSeed(p, i), single);
				}
				if(r.outcome == Ok || r.outcome == Discarded) {
					nonrepro++;
					fprintf(stderr,
						"%s: case %llu: failure was not reproducible "
						"(status 0x%x%s)\n%s\n%s\n",
						p.name, (unsigned long long)i, s, hang ? ", hang" : "",
						shared[w]->failed ? shared[w]->msg : "", first.c_str());
					st.classes["non-reproducible failure"]++;
					// Continue after this case.
					if(nonrepro < 20 && i + W < cases && nowMs() < deadlineMs) {
						start(w, i + W);
						running++;
					}
					continue;
				}
				if(isKnown(p.name, r.sig)) {
					st.known[r.sig]++;
					if(i + W < cases && nowMs() < deadlineMs) {
						start(w, i + W);
						running++;
					}
					continue;
				}
				violated = true;
				// Stop the others.
				for(unsigned x = 0; x < W; x++)
					if(pids[x])
						kill(pids[x], SIGKILL);

				Result m = shrink(
					p, r, single,
					nowMs() + (opt.thorough ? 120000U : 40000U));
				// Replay.
				unsigned repro = 0;
				for(int k = 0; k < 3; k++) {
					Result x = runForked(p, &m.choices, 0, single);
					if(x.outcome == m.outcome)
						repro++;
				}
				Violation v;
				v.prop = p.name;
				v.r = m;
				v.reproducible = repro == 3;
				v.replay = opt.dir + "/" + p.name + ".replay";
				saveReplay(v.replay, p, m);
				fprintf(stderr, "%s: case %llu: %s: %s (replays %u/3)\n%s\n", p.name,
					(unsigned long long)i, m.sig.c_str(), m.msg.c_str(), repro,
					m.notes.substr(0, 6000).c_str());
				violations.push_back(v);
			}
			usleep(1000);
		}
		for(unsigned w = 0; w < W; w++) {
			st.evaluations += shared[w]->evaluations;
			st.discarded += shared[w]->discarded;
			readStats(statFile(w), st);
			unlink((opt.dir + "/stderr." + std::to_string(w)).c_str());
		}
		stats.emplace_back(&p, st);
	}

	FILE* f = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "wb");
	fprintf(f, "{\"wall_s\": %.2f, \"properties\": [", (double)(nowMs() - t0) / 1000.0);
	for(size_t i = 0; i < stats.size(); i++) {
		auto const& p = *stats[i].first;
		auto const& st = stats[i].second;
		fprintf(f,
			"%s\n{\"name\": %s, \"rule\": %s, \"requested\": %llu, \"evaluations\": %llu, \"discarded\": %llu, "
			"\"distinct_nontrivial\": %llu, \"time_capped\": %s, \"classes\": {",
			i ? "," : "", json(p.name).c_str(), json(p.rule).c_str(),
			(unsigned long long)((double)(opt.thorough ? p.thorough : p.quick) * opt.scale),
			(unsigned long long)st.evaluations, (unsigned long long)st.discarded,
			(unsigned long long)st.nontrivial.size(), st.truncated ? "true" : "false");
		bool c = false;
		for(auto const& x : st.classes) {
			fprintf(f, "%s%s: %llu", c ? ", " : "", json(x.first).c_str(),
				(unsigned long long)x.second);
			c = true;
		}
		fprintf(f, "}, \"known\": {");
		c = false;
		for(auto const& x : st.known) {
			fprintf(f, "%s%s: %llu", c ? ", " : "", json(x.first).c_str(),
				(unsigned long long)x.second);
			c = true;
		}
		fprintf(f, "}, \"samples\": [");
		for(size_t k = 0; k < st.samples.size(); k++)
			fprintf(f, "%s%s", k ? ", " : "", json(st.samples[k]).c_str());
		fprintf(f, "]}");
	}
	fprintf(f, "],\n\"violations\": [");
	for(size_t i = 0; i < violations.size(); i++) {
		auto const& v = violations[i];
		fprintf(f, "%s{\"prop\": %s, \"sig\": %s, \"msg\": %s, \"replay\": %s, \"reproducible\": %s, \"notes\": %s}",
			i ? ",\n" : "", json(v.prop).c_str(), json(v.r.sig).c_str(),
			json(v.r.msg).c_str(), json(v.replay).c_str(), v.reproducible ? "true" : "false",
			json(v.r.notes.substr(0, 4000)).c_str());
	}
	fprintf(f, "]}\n");
	if(f != stdout)
		fclose(f);
	return violations.empty() ? 0 : 1;
}

} // namespace vh

#ifdef VH_FUZZ
extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size)
{
	static vh::Shared* s = vh::newShared();
	static vh::Property const* p = nullptr;
	if(!p) {
		char const* n = getenv("VH_FUZZ_PROP");
		for(auto const& x : vh::properties())
			if(!n || !strcmp(n, x.name)) {
				p = &x;
				break;
			}
		if(!p)
			abort();
	}
	vh::Gen g(s, data, size);
	if(vh::runCase(*p, g, s) == vh::Failed) {
		fprintf(stderr, "%s: %s: %s\n%s\n", p->name, s->sig, s->msg, s->notes);
		// Save the choices.
		if(char const* d = getenv("VH_FUZZ_REPLAY")) {
			vh::Result r;
			r.sig = s->sig;
			r.msg = s->msg;
			r.choices.assign(s->v, s->v + s->n);
			r.notes.assign(s->notes, s->noteLen);
			vh::saveReplay(d, *p, r);
		}
		__builtin_trap();
	}
	return 0;
}
#else
int main(int argc, char** argv)
{
	return vh::driver(argc, argv);
}
#endif
