// mc.hpp - a small explicit-state / bounded-exhaustive exploration kernel.
//
// A harness enumerates cases (short integer vectors) in a deterministic order.
// Cases are sharded over worker processes (the libraries under test keep their
// state in static variables, so each worker is a separate process).  The case
// being executed is always published in shared memory, so that a crash, an
// abort or a hang of the implementation is attributed to the exact case and
// reported as a violation with a replay.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

using Case = std::vector<int>;

inline double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + ts.tv_nsec * 1e-9;
}

inline std::string to_string(const Case& c) {
    std::string s;
    for (std::size_t i = 0; i < c.size(); ++i) {
        if (i)
            s += ' ';
        s += std::to_string(c[i]);
    }
    return s;
}

constexpr int MAXCASE = 512;
constexpr int MAXCOUNTERS = 24;
constexpr int MAXWORKERS = 64;
constexpr std::size_t HASHBITS = 23;

struct Slot {
    std::atomic<std::uint64_t> seq; // cases begun
    std::atomic<int> len;
    std::atomic<int> violated; // 1: message below is valid
    int data[MAXCASE];
    char message[4096];
    std::uint64_t counters[MAXCOUNTERS];
    std::uint64_t cases, transitions, traces;
};

struct Shared {
    std::atomic<std::uint64_t> nstates;
    std::atomic<std::uint64_t> overflow;
    std::atomic<int> stop;
    Slot slot[MAXWORKERS];
    std::atomic<std::uint64_t> table[std::size_t(1) << HASHBITS];
};

struct Violation {
    std::string msg;
};

[[noreturn]] inline void fail(const char* fmt, ...) {
    char buf[3500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{buf};
}

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 30;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 27;
    return h;
}

struct Explorer {
    Shared* sh = nullptr;
    Slot* slot = nullptr;
    int worker = 0, nworkers = 1;
    std::uint64_t index = 0; // of next case
    std::vector<std::string> counter_names;
    std::function<void(Explorer&, const Case&)> run;
    bool thorough = false;
    bool counting_only = false;

    // counters -----------------------------------------------------------
    int counter(const char* name) {
        for (std::size_t i = 0; i < counter_names.size(); ++i)
            if (counter_names[i] == name)
                return int(i);
        counter_names.push_back(name);
        return int(counter_names.size()) - 1;
    }
    void count(int id, std::uint64_t n = 1) {
        slot->counters[id] += n;
    }
    void transition(std::uint64_t n = 1) {
        slot->transitions += n;
    }
    void trace_ok() {
        ++slot->traces;
    }
    // distinct observed states, over all workers
    void state(std::uint64_t h) {
        if (h == 0)
            h = 1;
        std::size_t mask = (std::size_t(1) << HASHBITS) - 1;
        std::size_t i = h & mask;
        for (int probe = 0; probe < 64; ++probe, i = (i + 1) & mask) {
            std::uint64_t cur = sh->table[i].load(std::memory_order_relaxed);
            if (cur == h)
                return;
            if (cur == 0) {
                if (sh->table[i].compare_exchange_strong(cur, h)) {
                    sh->nstates.fetch_add(1, std::memory_order_relaxed);
                    return;
                }
                if (cur == h)
                    return;
            }
        }
        sh->overflow.fetch_add(1, std::memory_order_relaxed);
    }

    // enumeration --------------------------------------------------------
    // returns true if this worker must execute the next case
    bool mine() {
        return int(index++ % std::uint64_t(nworkers)) == worker;
    }

    void publish(const Case& c) {
        int n = std::min<int>(int(c.size()), MAXCASE);
        for (int i = 0; i < n; ++i)
            slot->data[i] = c[i];
        slot->len.store(n, std::memory_order_relaxed);
        slot->seq.fetch_add(1, std::memory_order_relaxed);
    }

    void exec(const Case& c) {
        publish(c);
        ++slot->cases;
        try {
            run(*this, c);
        } catch (Violation& v) {
            std::snprintf(slot->message, sizeof slot->message, "%s", v.msg.c_str());
            slot->violated.store(1);
            sh->stop.store(1);
            _exit(3);
        }
    }

    // enumerate one case
    void consider(const Case& c) {
        if (sh->stop.load(std::memory_order_relaxed))
            _exit(0);
        if (mine())
            exec(c);
    }
};

struct Outcome {
    bool violated = false;
    Case c;
    std::string message;
};

inline std::string json_escape(const std::string& s) {
    std::string r;
    for (char ch : s) {
        switch (ch) {
        case '"':
            r += "\\\"";
            break;
        case '\\':
            r += "\\\\";
            break;
        case '\n':
            r += "\\n";
            break;
        case '\t':
            r += "\\t";
            break;
        default:
            if ((unsigned char)ch < 32)
                r += ' ';
            else
                r += ch;
        }
    }
    return r;
}

struct Harness {
    std::string name;
    // called in each worker; calls ex.consider(case)
    std::function<void(Explorer&)> enumerate;
    // executes one case against the implementation, throws Violation
    std::function<void(Explorer&, const Case&)> run;
    // human readable rendering of a case
    std::function<std::string(const Case&)> describe;
    std::vector<std::string> counters;
    double case_timeout = 60;
    double workers_per_core = 1;
};

inline Shared* make_shared() {
    void* p = mmap(
        nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    return static_cast<Shared*>(p);
}

inline void quiet_child() {
    // no core dumps; stderr of the code under test is noise
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}

// Run one case in a child; used for replays.
inline Outcome run_one(Harness& h, const Case& c, bool thorough, bool quiet) {
    Shared* sh = make_shared();
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet)
            quiet_child();
        Explorer ex;
        ex.sh = sh;
        ex.slot = &sh->slot[0];
        ex.run = h.run;
        ex.thorough = thorough;
        ex.counter_names = h.counters;
        ex.exec(c);
        _exit(0);
    }
    Outcome o;
    o.c = c;
    double t0 = now();
    int st = 0;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now() - t0 > h.case_timeout) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.violated = true;
            o.message = "the implementation did not terminate on this case";
            munmap(sh, sizeof(Shared));
            return o;
        }
        usleep(500);
    }
    if (sh->slot[0].violated.load()) {
        o.violated = true;
        o.message = sh->slot[0].message;
    } else if (WIFSIGNALED(st)) {
        o.violated = true;
        o.message = std::string("the implementation crashed: signal ") +
            std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    } else if (WEXITSTATUS(st) != 0) {
        o.violated = true;
        o.message =
            "the process exited with status " + std::to_string(WEXITSTATUS(st));
    }
    munmap(sh, sizeof(Shared));
    return o;
}

inline int explore(int argc, char** argv, Harness h) {
    bool thorough = false;
    int nworkers = 0;
    std::string out, replay;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string {
            if (i + 1 >= argc) {
                std::fprintf(stderr, "missing argument to %s\n", a.c_str());
                std::exit(2);
            }
            return argv[++i];
        };
        if (a == "--tier")
            thorough = next() == "thorough";
        else if (a == "--out")
            out = next();
        else if (a == "--case")
            replay = next();
        else if (a == "--workers")
            nworkers = std::atoi(next().c_str());
        else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }

    if (!replay.empty()) {
        Case c;
        const char* p = replay.c_str();
        char* e;
        for (;;) {
            long v = std::strtol(p, &e, 10);
            if (e == p)
                break;
            c.push_back(int(v));
            p = e;
        }
        auto o = run_one(h, c, thorough, false);
        std::printf("case: %s\n", to_string(c).c_str());
        if (h.describe)
            std::printf("%s\n", h.describe(c).c_str());
        if (o.violated) {
            std::printf("VIOLATED: %s\n", o.message.c_str());
            return 1;
        }
        std::printf("holds\n");
        return 0;
    }

    if (nworkers <= 0) {
        nworkers = int(sysconf(_SC_NPROCESSORS_ONLN) * h.workers_per_core);
        nworkers = std::max(1, std::min(nworkers, 16));
    }
    std::setvbuf(stdout, nullptr, _IOLBF, 0);
    Shared* sh = make_shared();
    double t0 = now();
    std::vector<pid_t> pids(nworkers);
    std::vector<bool> alive(nworkers, true);
    std::vector<std::uint64_t> last(nworkers, 0);
    std::vector<double> last_t(nworkers, t0);
    for (int w = 0; w < nworkers; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            quiet_child();
            Explorer ex;
            ex.sh = sh;
            ex.slot = &sh->slot[w];
            ex.worker = w;
            ex.nworkers = nworkers;
            ex.run = h.run;
            ex.thorough = thorough;
            ex.counter_names = h.counters;
            h.enumerate(ex);
            _exit(0);
        }
        pids[w] = pid;
    }

    std::vector<Outcome> bad;
    int left = nworkers;
    while (left) {
        bool progress = false;
        for (int w = 0; w < nworkers; ++w) {
            if (!alive[w])
                continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            Slot& s = sh->slot[w];
            auto get_case = [&] {
                return Case(s.data, s.data + std::min(s.len.load(), MAXCASE));
            };
            if (r == pids[w]) {
                progress = true;
                alive[w] = false;
                --left;
                Outcome o;
                if (s.violated.load()) {
                    o.violated = true;
                    o.message = s.message;
                    o.c = get_case();
                } else if (WIFSIGNALED(st)) {
                    o.violated = true;
                    o.message = std::string("the implementation crashed: ") +
                        strsignal(WTERMSIG(st));
                    o.c = get_case();
                } else if (WEXITSTATUS(st) != 0) {
                    o.violated = true;
                    o.message = "worker exited with status " +
                        std::to_string(WEXITSTATUS(st));
                    o.c = get_case();
                }
                if (o.violated) {
                    bad.push_back(o);
                    sh->stop.store(1);
                }
                continue;
            }
            auto seq = s.seq.load();
            double t = now();
            if (seq != last[w] || seq == 0) {
                last[w] = seq;
                last_t[w] = t;
            } else if (t - last_t[w] > h.case_timeout) {
                Outcome o;
                o.violated = true;
                o.message = "the implementation did not terminate on this case";
                o.c = get_case();
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &st, 0);
                alive[w] = false;
                --left;
                bad.push_back(o);
                sh->stop.store(1);
            }
        }
        if (!progress)
            usleep(2000);
    }

    std::uint64_t cases = 0, transitions = 0, traces = 0;
    std::vector<std::uint64_t> counters(MAXCOUNTERS);
    for (int w = 0; w < nworkers; ++w) {
        cases += sh->slot[w].cases;
        transitions += sh->slot[w].transitions;
        traces += sh->slot[w].traces;
        for (int i = 0; i < MAXCOUNTERS; ++i)
            counters[i] += sh->slot[w].counters[i];
    }
    double wall = now() - t0;

    // Confirm: re-execute the offending case in a fresh process.
    int confirmed = -1;
    std::string unconfirmed;
    for (std::size_t i = 0; i < bad.size(); ++i) {
        auto o = run_one(h, bad[i].c, thorough, true);
        if (o.violated) {
            bad[i].message = o.message;
            confirmed = int(i);
            break;
        }
        unconfirmed = bad[i].message + " [case " + to_string(bad[i].c) + "]";
    }
    if (confirmed < 0 && !bad.empty()) {
        // depends on what ran before in the same process: still a violation
        confirmed = 0;
        bad[0].message += " (only after the preceding cases of this worker)";
    }

    if (!out.empty()) {
        FILE* f = std::fopen(out.c_str(), "w");
        if (!f) {
            std::perror(out.c_str());
            return 2;
        }
        std::fprintf(f, "{\n \"harness\": \"%s\",\n", h.name.c_str());
        std::fprintf(f, " \"cases\": %llu,\n", (unsigned long long)cases);
        std::fprintf(
            f, " \"states\": %llu,\n", (unsigned long long)sh->nstates.load());
        std::fprintf(
            f, " \"state_table_overflow\": %llu,\n",
            (unsigned long long)sh->overflow.load());
        std::fprintf(
            f, " \"transitions\": %llu,\n", (unsigned long long)transitions);
        std::fprintf(f, " \"traces\": %llu,\n", (unsigned long long)traces);
        for (std::size_t i = 0; i < h.counters.size(); ++i)
            std::fprintf(
                f, " \"n_%s\": %llu,\n", h.counters[i].c_str(),
                (unsigned long long)counters[i]);
        std::fprintf(f, " \"samples\": [");
        bool first = true;
        for (int w = 0; w < nworkers && w < 3; ++w) {
            Slot& s = sh->slot[w];
            if (!s.cases)
                continue;
            Case c(s.data, s.data + std::min(s.len.load(), MAXCASE));
            std::string d = h.describe ? h.describe(c) : to_string(c);
            std::fprintf(
                f, "%s\n  {\"case\": \"%s\", \"meaning\": \"%s\"}",
                first ? "" : ",", to_string(c).c_str(), json_escape(d).c_str());
            first = false;
        }
        std::fprintf(f, "\n ],\n");
        std::fprintf(f, " \"wall_s\": %.3f", wall);
        if (confirmed >= 0) {
            auto& b = bad[confirmed];
            std::fprintf(
                f,
                ",\n \"violation\": {\"case\": \"%s\", \"meaning\": \"%s\", "
                "\"message\": \"%s\"}",
                to_string(b.c).c_str(),
                json_escape(h.describe ? h.describe(b.c) : "").c_str(),
                json_escape(b.message).c_str());
        }
        std::fprintf(f, "\n}\n");
        std::fclose(f);
    }

    if (confirmed >= 0) {
        auto& b = bad[confirmed];
        std::printf(
            "VIOLATED %s: %s\ncase: %s\n%s\n", h.name.c_str(),
            b.message.c_str(), to_string(b.c).c_str(),
            h.describe ? h.describe(b.c).c_str() : "");
        return 1;
    }
    std::printf(
        "ok %s: %llu cases, %llu states, %llu transitions, %.1fs\n",
        h.name.c_str(), (unsigned long long)cases,
        (unsigned long long)sh->nstates.load(),
        (unsigned long long)transitions, wall);
    return 0;
}

// Leaves without running the destructors of static objects: the verdict has
// been given.  (What happens at exit is explored by h_modules.)
inline int main(int argc, char** argv, Harness h) {
    int r = explore(argc, argv, std::move(h));
    std::fflush(nullptr);
    _exit(r);
}

} // namespace mc

#endif
