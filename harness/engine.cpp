// Runner: parallel generation in forked workers, crash/hang attribution, shrinking, replay, coverage report.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "engine.hpp"

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:quarantine_size_mb=8:malloc_context_size=3:allocator_may_return_null=0:"
           "detect_stack_use_after_return=0:hard_rss_limit_mb=6000:handle_abort=0:symbolize=0:print_summary=0:"
           "detect_odr_violation=0";
}

extern "C" const char* __tsan_default_options();
extern "C" const char* __tsan_default_options() {
    return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:print_suppressions=0:history_size=4:memory_limit_mb=6000:"
           "symbolize=0:io_sync=0";
}

namespace pbt {

void (*choice_sink)(uint32_t) = nullptr;
void (*span_sink)(Span const&) = nullptr;

std::vector<Unit>& registry() {
    static std::vector<Unit> r;
    return r;
}

void Ctx::log(char const* fmt, ...) {
    if (!verbose) return;
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > static_cast<int>(sizeof buf) - 2) n = sizeof buf - 2;
    buf[n] = '\n';
    if (trace_fd >= 0) {
        ssize_t w = write(trace_fd, buf, static_cast<size_t>(n) + 1);
        (void)w;
    }
}

void Ctx::fail(char const* fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation(buf);
}

namespace {

struct Options {
    std::string check = "P00", tier = "quick", workdir = "/tmp", result, replay_out;
    uint64_t seed = 1;
    unsigned workers = 8;
    double budget = 600;
    int case_cpu_s = 15;
    double shrink_s = 60;
    int tries = 1;           // how often a case is run to see whether it fails: more than 1 where schedules matter
    std::vector<std::pair<size_t, uint64_t>> plan;   // unit index, cases
};

Options opt;

double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

std::string json_str(std::string const& s) {
    std::string o = "\"";
    for (char ch : s) {
        unsigned char c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\') { o += '\\'; o += ch; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += ch;
    }
    return o + "\"";
}

uint64_t hash_str(char const* s) {
    uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s) h = mix64(h ^ static_cast<unsigned char>(*s));
    return h;
}

uint64_t case_seed(size_t unit, uint64_t k) {
    uint64_t h = mix64(opt.seed * 0x100000001b3ULL + 17);
    h = mix64(h ^ hash_str(opt.check.c_str()));
    h = mix64(h ^ hash_str(registry()[unit].name));
    return mix64(h ^ k);
}

constexpr size_t msg_cap = 4096;

struct WorkerShm {
    std::atomic<uint64_t> current;     // global case number, ~0 when idle
    std::atomic<uint64_t> done;
    std::atomic<int> failed;           // 1: oracle violation in `current`
    std::atomic<int> finished;
    char msg[msg_cap];
};

struct Shared {
    std::atomic<int> stop;
    WorkerShm w[64];
};

void set_cpu_alarm(int seconds) {
    itimerval it{};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);   // SIGPROF, default action: terminate
}

struct CaseRef { size_t unit; uint64_t k; };

// global case number -> (unit, k): units are interleaved proportionally
struct Plan {
    std::vector<std::pair<size_t, uint64_t>> p;
    uint64_t total = 0;
    std::vector<CaseRef> order;
    explicit Plan(std::vector<std::pair<size_t, uint64_t>> const& plan) : p(plan) {
        for (auto& [u, n] : p) total += n;
        order.reserve(total);
        std::vector<double> credit(p.size(), 0);
        std::vector<uint64_t> given(p.size(), 0);
        for (uint64_t i = 0; i < total; ++i) {
            size_t best = 0;
            double bestv = -1e300;
            for (size_t j = 0; j < p.size(); ++j) {
                if (given[j] == p[j].second) continue;
                double v = static_cast<double>(p[j].second) * static_cast<double>(i + 1) / static_cast<double>(total) - static_cast<double>(given[j]);
                if (v > bestv) { bestv = v; best = j; }
            }
            order.push_back({p[best].first, given[best]++});
        }
    }
};

std::string worker_file(unsigned w) { return opt.workdir + "/worker" + std::to_string(w); }

[[noreturn]] void worker_main(unsigned w, unsigned nw, Plan const& plan, Shared* sh, double deadline) {
    WorkerShm& me = sh->w[w];
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    std::map<std::string, uint64_t> labels;
    std::map<size_t, uint64_t> per_unit;
    std::vector<uint64_t> hashes;
    uint64_t ops = 0, evals = 0, done = 0, steps_max = 0;
    bool out_of_time = false;
    for (uint64_t i = w; i < plan.total; i += nw) {
        if (sh->stop.load(std::memory_order_relaxed)) break;
        if (now() > deadline) { out_of_time = true; break; }
        CaseRef c = plan.order[i];
        me.current.store(i);
        set_cpu_alarm(opt.case_cpu_s);
        Src src(case_seed(c.unit, c.k));
        Ctx ctx;
        ctx.check = opt.check.c_str();
        try {
            registry()[c.unit].fn(src, ctx);
        } catch (Violation const& v) {
            snprintf(me.msg, msg_cap, "%s", v.what());
            me.failed.store(1);
            sh->stop.store(1);
            set_cpu_alarm(0);
            _exit(0);
        } catch (std::exception const& e) {
            snprintf(me.msg, msg_cap, "unexpected exception: %s", e.what());
            me.failed.store(1);
            sh->stop.store(1);
            set_cpu_alarm(0);
            _exit(0);
        }
        ++done;
        me.done.store(done);
        ops += ctx.ops;
        evals += ctx.oracle_evals;
        steps_max = std::max<uint64_t>(steps_max, ctx.ops);
        for (auto& [k, v] : ctx.labels) labels[k] += v;
        per_unit[c.unit]++;
        if (ctx.nontrivial) hashes.push_back(mix64(src.hash() ^ hash_str(registry()[c.unit].name)));
    }
    set_cpu_alarm(0);
    me.current.store(~0ULL);
    std::ofstream f(worker_file(w));
    f << "done " << done << "\nops " << ops << "\nevals " << evals << "\nmaxops " << steps_max << "\ntimeout " << out_of_time << "\n";
    for (auto& [u, n] : per_unit) f << "unit " << u << " " << n << "\n";
    for (auto& [k, v] : labels) f << "label " << v << " " << k << "\n";
    for (auto h : hashes) f << "h " << h << "\n";
    f.close();
    me.finished.store(1);
    _exit(0);
}

struct Attempt {
    bool failed = false;
    bool crashed = false;
    std::string msg;
    std::vector<uint32_t> used;
    std::vector<Span> spans;
};

struct AttemptShm {
    std::atomic<int> state;            // 0 running, 1 passed, 2 violation
    uint32_t n_used, n_spans;
    char msg[msg_cap];
    uint32_t used[Src::max_choices];
    Span spans[Src::max_choices / 2];
};

AttemptShm* attempt_shm = nullptr;

std::string describe_status(int status) {
    if (WIFSIGNALED(status)) {
        if (WTERMSIG(status) == SIGPROF) return "hang: a case that normally takes milliseconds exceeded its CPU limit";
        return std::string("crash: killed by signal ") + strsignal(WTERMSIG(status));
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 99) return "crash: memory error reported by AddressSanitizer";
    if (WIFEXITED(status) && WEXITSTATUS(status) == 66) return "data race (or access to freed memory) reported by ThreadSanitizer";
    return "crash: exit status " + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
}

// cases run before the one under attempt, in the same process (failures that depend on state left behind by earlier cases)
std::vector<CaseRef> attempt_prefix;

Attempt attempt_once(size_t unit, std::vector<uint32_t> const* choices, uint64_t seed, std::string const& trace_path, bool show_asan, int cpu_s) {
    AttemptShm* sh = attempt_shm;
    sh->state.store(0);
    sh->n_used = sh->n_spans = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int devnull = open("/dev/null", O_WRONLY);
        dup2(devnull, 1);
        if (!show_asan) dup2(devnull, 2);
        for (CaseRef const& p : attempt_prefix) {
            set_cpu_alarm(opt.case_cpu_s);
            Src src(case_seed(p.unit, p.k));
            Ctx ctx;
            ctx.check = opt.check.c_str();
            try { registry()[p.unit].fn(src, ctx); } catch (std::exception const&) {}
        }
        set_cpu_alarm(cpu_s ? cpu_s : opt.case_cpu_s);
        choice_sink = [](uint32_t v) {
            if (attempt_shm->n_used < Src::max_choices) attempt_shm->used[attempt_shm->n_used++] = v;
        };
        span_sink = [](Span const& x) {
            if (attempt_shm->n_spans < Src::max_choices / 2) attempt_shm->spans[attempt_shm->n_spans++] = x;
        };
        Src src = choices ? Src(*choices) : Src(seed);
        Ctx ctx;
        ctx.check = opt.check.c_str();
        if (!trace_path.empty()) {
            ctx.verbose = true;
            ctx.trace_fd = open(trace_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        }
        int st = 1;
        try {
            registry()[unit].fn(src, ctx);
        } catch (Violation const& v) {
            snprintf(sh->msg, msg_cap, "%s", v.what());
            st = 2;
        } catch (std::exception const& e) {
            snprintf(sh->msg, msg_cap, "unexpected exception: %s", e.what());
            st = 2;
        }
        set_cpu_alarm(0);
        sh->state.store(st);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Attempt a;
    int st = sh->state.load();
    if (st == 0) {
        a.failed = a.crashed = true;
        a.msg = describe_status(status);
    } else {
        a.failed = st == 2;
        if (a.failed) a.msg = sh->msg;
    }
    // a case that corrupts memory may have written here
    a.used.assign(sh->used, sh->used + std::min<size_t>(sh->n_used, Src::max_choices));
    a.spans.assign(sh->spans, sh->spans + std::min<size_t>(sh->n_spans, Src::max_choices / 2));
    return a;
}

Attempt attempt(size_t unit, std::vector<uint32_t> const* choices, uint64_t seed, std::string const& trace_path = "", bool show_asan = false, int cpu_s = 0, int tries = 0) {
    Attempt a;
    for (int i = 0; i < (tries ? tries : opt.tries); ++i) {
        a = attempt_once(unit, choices, seed, trace_path, show_asan, cpu_s);
        if (a.failed) break;
    }
    return a;
}

struct Shrinker {
    size_t unit;
    std::vector<uint32_t> best;
    Attempt best_attempt;
    double deadline;
    uint64_t tries = 0;

    bool time_left() const { return now() < deadline; }

    bool consider(std::vector<uint32_t> const& cand) {
        if (cand == best) return false;
        ++tries;
        Attempt a = attempt(unit, &cand, 0, "", false, 5);
        if (!a.failed) return false;
        std::vector<uint32_t> const& next = a.used;
        // must be simpler: shorter, or same length and lexicographically smaller
        if (next.size() > best.size()) return false;
        if (next.size() == best.size() && !(next < best)) return false;
        best = next;
        best_attempt = std::move(a);
        return true;
    }

    // positions where steps begin, from the last non-crashing information, else guessed
    bool delete_chunks() {
        bool any = false;
        for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1 && time_left(); chunk /= 2) {
            size_t pos = best.size();
            while (pos > 0 && time_left()) {
                size_t b = pos > chunk ? pos - chunk : 0;
                std::vector<uint32_t> cand(best.begin(), best.begin() + static_cast<long>(b));
                cand.insert(cand.end(), best.begin() + static_cast<long>(std::min(b + chunk, best.size())), best.end());
                if (consider(cand)) { any = true; pos = std::min(b, best.size()); }
                else pos = b;
            }
            if (chunk == 1) break;
            if (chunk <= 4 && best.size() > 1500) break;
        }
        return any;
    }

    bool delete_spans(uint32_t level) {
        bool any = false;
        auto top = [&] {
            std::vector<Span> s;
            for (auto& x : best_attempt.spans) if (x.level == level && x.end <= best.size()) s.push_back(x);
            std::sort(s.begin(), s.end(), [](Span const& a, Span const& b) { return a.begin < b.begin; });
            return s;
        };
        auto spans = top();
        if (spans.empty()) return false;
        for (size_t k = spans.size(); k >= 1 && time_left(); k /= 2) {
            spans = top();
            size_t i = spans.size();
            while (i > 0 && time_left()) {
                size_t b = i > k ? i - k : 0;
                if (b >= spans.size()) break;
                size_t e = std::min(b + k, spans.size()) - 1;
                std::vector<uint32_t> cand(best.begin(), best.begin() + spans[b].begin);
                cand.insert(cand.end(), best.begin() + spans[e].end, best.end());
                if (consider(cand)) {
                    any = true;
                    spans = top();
                    i = std::min(b, spans.size());
                } else {
                    i = b;
                }
            }
            if (k == 1) break;
        }
        return any;
    }

    bool lower_values() {
        bool any = false;
        for (size_t i = 0; i < best.size() && time_left(); ++i) {
            if (best[i] == 0) continue;
            auto cand = best;
            cand[i] = 0;
            if (consider(cand)) { any = true; continue; }
            if (i >= best.size()) break;
            uint32_t lo = 0, hi = best[i];
            int guard = 0;
            while (lo + 1 < hi && time_left() && guard++ < 12) {
                uint32_t mid = lo + (hi - lo) / 2;
                cand = best;
                if (i >= cand.size()) break;
                cand[i] = mid;
                if (consider(cand)) { any = true; if (i >= best.size()) break; hi = best[i]; }
                else lo = mid;
            }
        }
        return any;
    }

    void run() {
        bool progress = true;
        int rounds = 0;
        while (progress && time_left() && rounds++ < 6) {
            progress = false;
            if (!best_attempt.spans.empty()) progress |= delete_spans(0);
            progress |= delete_chunks();
            if (best.size() < 3000) progress |= lower_values();
        }
        // drop trailing zeros (reading past the end yields 0)
        auto cand = best;
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        if (cand.size() < best.size()) {
            Attempt a = attempt(unit, &cand, 0, "", false, 5);
            if (a.failed) { best = cand; best_attempt = a; }
        }
    }
};

std::string read_file(std::string const& p, size_t cap = 1 << 20) {
    std::ifstream f(p);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > cap) s = s.substr(0, cap / 2) + "\n... (" + std::to_string(s.size() - cap) + " bytes omitted) ...\n" + s.substr(s.size() - cap / 2);
    return s;
}

size_t find_unit(std::string const& name) {
    for (size_t i = 0; i < registry().size(); ++i) if (name == registry()[i].name) return i;
    std::cerr << "no unit named " << name << "\n";
    exit(3);
}

void write_replay(std::string const& path, size_t unit, std::vector<uint32_t> const& choices, std::string const& msg,
                  std::string const& origin, uint64_t case_no, std::string const& trace) {
    std::ofstream f(path);
    f << "bpptree-pbt-replay 1\n";
    f << "check " << opt.check << "\n";
    f << "unit " << registry()[unit].name << "\n";
    f << "seed " << opt.seed << "\n";
    f << "case " << case_no << "\n";
    f << "origin " << origin << "\n";
    f << "choices " << choices.size();
    for (auto c : choices) f << " " << c;
    f << "\n";
    f << "preceded-by " << attempt_prefix.size();
    for (auto& p : attempt_prefix) f << " " << registry()[p.unit].name << " " << p.k;
    f << "\n";
    f << "message " << json_str(msg) << "\n";
    f << "trace\n" << trace;
}

int report_failure(Plan const& plan, uint64_t gi, std::string const& first_msg, unsigned nw) {
    attempt_prefix.clear();
    CaseRef c = plan.order[gi];
    uint64_t seed = case_seed(c.unit, c.k);
    std::string trace = opt.workdir + "/trace";
    Attempt a = attempt(c.unit, nullptr, seed, "", false, 0, opt.tries > 1 ? 100 : 1);
    std::cerr << "failing case: unit " << registry()[c.unit].name << " case " << c.k << ": " << first_msg << "\n";
    if (!a.failed) {
        // with the cases that ran before it in the same process: the shortest suffix (by doubling) after which it fails
        std::vector<CaseRef> all;
        if (opt.tries > 1) {
            // the schedule decides; the first observation counts on its own unless the machine may have caused it
            if (first_msg.find("hang:") == 0 || first_msg.find("Killed") != std::string::npos) {
                std::cerr << "the case did not fail again in 100 runs; discarded as not reproducible\n";
                return 0;
            }
            attempt(c.unit, nullptr, seed, trace, false, 0, 1);
            Attempt last = attempt(c.unit, nullptr, seed, "", false, 0, 1);
            write_replay(opt.replay_out, c.unit, last.used, first_msg, "generated; depends on the schedule", c.k, read_file(trace));
            std::cerr << "the failure depends on the schedule and did not happen again in 100 runs\n" << read_file(trace, 6000) << first_msg << "\n";
            std::cout << "VIOLATION property=" << opt.check << " replay=" << opt.replay_out << std::endl;
            return 1;
        }
        for (uint64_t i = gi % nw; i < gi; i += nw) all.push_back(plan.order[i]);
        double stop = now() + opt.shrink_s * 2;
        for (size_t n = 1; !a.failed && !all.empty() && now() < stop; n *= 2) {
            n = std::min(n, all.size());
            attempt_prefix.assign(all.end() - static_cast<long>(n), all.end());
            a = attempt(c.unit, nullptr, seed);
            if (n == all.size()) break;
        }
        if (!a.failed) {
            attempt_prefix.clear();
            std::cerr << "the case fails neither alone nor after the cases before it; discarded as not reproducible\n";
            return 0;
        }
        std::cerr << "the case fails only after the " << attempt_prefix.size() << " cases before it\n";
    }
    Shrinker s;
    s.unit = c.unit;
    s.deadline = now() + opt.shrink_s;
    s.best = a.used;
    s.best_attempt = a;
    size_t before = s.best.size();
    // the choice list must reproduce on its own
    Attempt chk = attempt(c.unit, &s.best, 0, "", false, 0, opt.tries > 1 ? 40 : 1);
    if (chk.failed) {
        s.best_attempt = chk;
        s.run();
    }
    int again = 0;
    std::string msg = s.best_attempt.msg;
    for (int i = 0; i < 3; ++i) {
        Attempt r = attempt(c.unit, &s.best, 0, i == 0 ? trace : std::string(), false, 0, opt.tries > 1 ? 40 : 1);
        if (r.failed) { ++again; msg = r.msg; }
    }
    if (again < 3 && opt.tries == 1) {
        std::cerr << "replay failed " << again << " of 3 times; discarded as not reproducible\n";
        return 0;
    }
    write_replay(opt.replay_out, c.unit, s.best, msg, "generated", c.k, read_file(trace));
    std::cerr << "shrunk from " << before << " to " << s.best.size() << " choices in " << s.tries << " attempts\n";
    std::cerr << read_file(trace, 6000) << msg << "\n";
    std::cout << "VIOLATION property=" << opt.check << " replay=" << opt.replay_out << "\n";
    std::cout.flush();
    return 1;
}

int run_check() {
    double t0 = now();
    Plan plan(opt.plan);
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    unsigned nw = static_cast<unsigned>(std::min<uint64_t>(std::min(opt.workers, 64u), std::max<uint64_t>(plan.total, 1)));
    std::vector<pid_t> pids;
    fflush(nullptr);
    double deadline = t0 + opt.budget;
    for (unsigned w = 0; w < nw; ++w) {
        sh->w[w].current.store(~0ULL);
        unlink(worker_file(w).c_str());
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0) worker_main(w, nw, plan, sh, deadline);
        pids.push_back(pid);
    }
    std::vector<std::pair<uint64_t, std::string>> failures;
    size_t alive = nw;
    bool inconclusive = false;
    while (alive > 0) {
        int status = 0;
        pid_t pid = wait(&status);
        if (pid < 0) { if (errno == EINTR) continue; break; }
        auto it = std::find(pids.begin(), pids.end(), pid);
        if (it == pids.end()) continue;
        --alive;
        WorkerShm& w = sh->w[it - pids.begin()];
        if (w.finished.load()) continue;
        if (w.failed.load()) {
            failures.emplace_back(w.current.load(), w.msg);
        } else if (w.current.load() != ~0ULL) {
            failures.emplace_back(w.current.load(), describe_status(status));
            sh->stop.store(1);
        } else {
            inconclusive = true;
        }
    }
    std::sort(failures.begin(), failures.end());
    int rc = 0;
    bool unreproducible = false;
    for (auto& [gi, msg] : failures) {
        rc = report_failure(plan, gi, msg, nw);
        if (rc) break;
        unreproducible = true;
    }
    // aggregate coverage
    uint64_t done = 0, ops = 0, evals = 0, maxops = 0, timeouts = 0;
    std::map<std::string, uint64_t> labels;
    std::map<size_t, uint64_t> per_unit;
    std::unordered_set<uint64_t> distinct;
    for (unsigned w = 0; w < nw; ++w) {
        std::ifstream f(worker_file(w));
        std::string key;
        while (f >> key) {
            uint64_t v;
            if (key == "done") { f >> v; done += v; }
            else if (key == "ops") { f >> v; ops += v; }
            else if (key == "evals") { f >> v; evals += v; }
            else if (key == "maxops") { f >> v; maxops = std::max(maxops, v); }
            else if (key == "timeout") { f >> v; timeouts += v; }
            else if (key == "unit") { size_t u; f >> u >> v; per_unit[u] += v; }
            else if (key == "label") { f >> v; std::string s; std::getline(f, s); labels[s.substr(1)] += v; }
            else if (key == "h") { f >> v; distinct.insert(v); }
        }
    }
    // a worker that ended early (violation elsewhere) still counts what it did
    if (done == 0) for (unsigned w = 0; w < nw; ++w) done += sh->w[w].done.load();
    std::ofstream r(opt.result);
    r << "{\"evaluations\": " << done << ", \"planned\": " << plan.total << ", \"distinct_nontrivial\": " << distinct.size()
      << ", \"operations\": " << ops << ", \"oracle_evaluations\": " << evals << ", \"longest_history\": " << maxops
      << ", \"workers_out_of_time\": " << timeouts << ", \"unreproducible\": " << (unreproducible ? "true" : "false")
      << ", \"inconclusive\": " << (inconclusive ? "true" : "false") << ", \"violations\": " << rc << ",\n\"cases_per_unit\": {";
    bool first = true;
    for (auto& [u, n] : per_unit) { r << (first ? "" : ", ") << json_str(registry()[u].name) << ": " << n; first = false; }
    r << "},\n\"labels\": {";
    first = true;
    for (auto& [k, v] : labels) { r << (first ? "" : ", ") << json_str(k) << ": " << v; first = false; }
    r << "},\n\"samples\": [";
    first = true;
    if (rc == 0) {
        std::set<size_t> seen;
        std::string trace = opt.workdir + "/sample";
        for (uint64_t i = 0; i < plan.total && seen.size() < 4; i += 1 + plan.total / 16) {
            CaseRef c = plan.order[i];
            if (!seen.insert(c.unit).second) continue;
            attempt(c.unit, nullptr, case_seed(c.unit, c.k), trace);
            std::string t = read_file(trace, 2400);
            r << (first ? "" : ",\n") << "{\"unit\": " << json_str(registry()[c.unit].name) << ", \"case\": " << c.k << ", \"history\": " << json_str(t) << "}";
            first = false;
        }
    }
    r << "],\n\"run_s\": " << (now() - t0) << "}\n";
    r.close();
    fprintf(stderr, "%s: %llu cases (%llu planned), %zu distinct non-trivial, %llu operations, %llu oracle evaluations, %.1f s%s\n",
            opt.check.c_str(), (unsigned long long)done, (unsigned long long)plan.total, distinct.size(), (unsigned long long)ops,
            (unsigned long long)evals, now() - t0, timeouts ? " (time budget reached)" : "");
    return rc;
}

int run_replay(std::string const& path) {
    std::ifstream f(path);
    std::string line, unit;
    std::vector<uint32_t> choices;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string key;
        is >> key;
        if (key == "check") is >> opt.check;
        else if (key == "unit") is >> unit;
        else if (key == "seed") is >> opt.seed;
        else if (key == "choices") {
            size_t n;
            is >> n;
            choices.resize(n);
            for (auto& c : choices) is >> c;
        } else if (key == "preceded-by") {
            size_t n;
            is >> n;
            while (n--) {
                std::string u;
                uint64_t k;
                is >> u >> k;
                attempt_prefix.push_back({find_unit(u), k});
            }
        } else if (key == "trace") break;
    }
    size_t u = find_unit(unit);
    std::string trace = opt.workdir + "/replay-trace";
    Attempt a = attempt(u, &choices, 0, trace, true, 0, opt.tries > 1 ? 300 : 1);
    std::cout << read_file(trace);
    if (a.failed) {
        std::cout << a.msg << "\nVIOLATION property=" << opt.check << " replay=" << path << "\n";
        return 1;
    }
    std::cout << "the replayed case passes\n";
    return 0;
}

} // namespace
} // namespace pbt

int main(int argc, char** argv) {
    using namespace pbt;
    std::string mode = argc > 1 ? argv[1] : "";
    std::string replay_path, one_unit;
    uint64_t one_case = 0;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--check") opt.check = v;
        else if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--tier") opt.tier = v;
        else if (k == "--workers") opt.workers = static_cast<unsigned>(atoi(v.c_str()));
        else if (k == "--budget") opt.budget = atof(v.c_str());
        else if (k == "--workdir") opt.workdir = v;
        else if (k == "--result") opt.result = v;
        else if (k == "--replay-out") opt.replay_out = v;
        else if (k == "--shrink") opt.shrink_s = atof(v.c_str());
        else if (k == "--tries") opt.tries = atoi(v.c_str());
        else if (k == "--case-cpu") opt.case_cpu_s = atoi(v.c_str());
        else if (k == "--file") replay_path = v;
        else if (k == "--unit") one_unit = v;
        else if (k == "--case") one_case = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--cases") {
            // unit=N,unit=N
            std::istringstream is(v);
            std::string item;
            while (std::getline(is, item, ',')) {
                auto eq = item.find('=');
                opt.plan.emplace_back(find_unit(item.substr(0, eq)), strtoull(item.c_str() + eq + 1, nullptr, 10));
            }
        }
    }
    attempt_shm = static_cast<AttemptShm*>(mmap(nullptr, sizeof(AttemptShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (attempt_shm == MAP_FAILED) { perror("mmap"); return 3; }
    if (mode == "list") {
        for (auto& u : registry()) std::cout << u.name << "\n";
        return 0;
    }
    if (mode == "replay") return run_replay(replay_path);
    if (mode == "one") {
        std::string trace = opt.workdir + "/one-trace";
        size_t u = find_unit(one_unit);
        Attempt a = attempt(u, nullptr, case_seed(u, one_case), trace, true);
        std::cout << read_file(trace) << (a.failed ? a.msg : std::string("passed")) << "\n";
        return a.failed;
    }
    if (mode == "run") return run_check();
    std::cerr << "usage: harness run|replay|list|one ...\n";
    return 3;
}
