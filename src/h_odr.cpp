// C21: detection of translation units that disagree about the definition of
// the default registry.  Each case is a program: a main program, and units that
// are linked with it, or libraries that it loads, each compiled with or without
// runtime checks.
#include "mc.hpp"

#include <spawn.h>

extern char** environ;

static std::string dir() {
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
    std::string s(buf, n > 0 ? n : 0);
    return s.substr(0, s.rfind('/') + 1);
}

struct Result {
    std::string out;
    int status = 0;
};

static Result run_program(const std::vector<std::string>& args) {
    int fd[2];
    if (pipe2(fd, O_CLOEXEC))
        abort();
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
    posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
    std::vector<char*> argv;
    for (auto& a : args)
        argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    pid_t pid;
    if (posix_spawn(&pid, argv[0], &fa, nullptr, argv.data(), environ))
        mc::fail("cannot run %s", argv[0]);
    posix_spawn_file_actions_destroy(&fa);
    close(fd[1]);
    Result r;
    char buf[256];
    for (;;) {
        ssize_t n = read(fd[0], buf, sizeof buf);
        if (n <= 0)
            break;
        r.out.append(buf, n);
    }
    close(fd[0]);
    waitpid(pid, &r.status, 0);
    return r;
}

// units: content * 2 + checks
constexpr int NUNITS = 6;
static const char* contents[] = {"includes the header", "registers classes", "defines a method"};

// what is linked: main, units, in order.  Must agree with components.py.
struct Static {
    int main;
    bool first; // main comes first
    std::vector<int> units;
    std::string name() const {
        std::string s = "odr_" + std::to_string(main) + (first ? "f" : "l");
        for (int u : units)
            s += "_" + std::to_string(u);
        return s;
    }
};

static std::vector<Static> statics() {
    std::vector<Static> v;
    for (int m = 0; m < 2; ++m)
        for (int f = 0; f < 2; ++f) {
            v.push_back({m, bool(f), {}});
            for (int u = 0; u < NUNITS; ++u)
                v.push_back({m, bool(f), {u}});
            for (int u = 0; u < NUNITS; ++u)
                for (int w = 0; w < NUNITS; ++w)
                    if (u / 2 != 1 && w / 2 != 1)
                        v.push_back({m, bool(f), {u, w}});
        }
    return v;
}

int main(int argc, char** argv) {
    auto st = statics();
    std::string d = dir();
    // operations: 0..5: load a library, 6: initialize the default registry, 7:
    // initialize another
    auto ops_of = [&](const mc::Case& c) {
        std::vector<int> ops;
        if (c[0] == 0)
            ops.assign(c.begin() + 4, c.end());
        else
            ops = {7, 6, 7, 6};
        return ops;
    };
    mc::Harness h;
    h.describe = [&](const mc::Case& c) {
        std::string s = "main program compiled ";
        int m = c[0] == 0 ? c[1] : st[c[1]].main;
        s += m ? "with checks" : "without checks";
        auto unit = [&](int u) {
            s += std::string(u % 2 ? " (with checks: " : " (without checks: ") + contents[u / 2] + ")";
        };
        if (c[0] == 1)
            for (int u : st[c[1]].units) {
                s += ", linked with unit";
                unit(u);
            }
        s += c[2] ? "; handler throws;" : "; handler returns;";
        if (c[0] == 0)
            s += c[3] ? " global symbols:" : " local symbols:";
        for (int op : ops_of(c)) {
            if (op < NUNITS) {
                s += " load";
                unit(op);
            } else {
                s += op == 6 ? " initialize" : " initialize-other-registry";
            }
        }
        return s;
    };
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        static int rejected = ex.counter("inconsistent programs"), accepted = ex.counter("consistent programs");
        std::vector<std::string> args;
        bool flags[2] = {};
        if (c[0] == 0) {
            args.push_back(d + "odr_" + std::to_string(c[1]) + "f");
            flags[c[1]] = true;
        } else {
            const Static& s = st[c[1]];
            args.push_back(d + s.name());
            flags[s.main] = true;
            for (int u : s.units)
                flags[u % 2] = true;
        }
        bool throws = c[2] == 1;
        args.push_back(std::string(throws ? "t" : "r") + (c[0] == 0 && !c[3] ? "l" : "g"));
        std::string expected;
        bool aborted = false, inconsistent = flags[0] && flags[1];
        for (int op : ops_of(c)) {
            if (op < NUNITS) {
                args.push_back(d + "u" + std::to_string(op) + ".so");
                if (!aborted) {
                    expected += 'l';
                    flags[op % 2] = true;
                    inconsistent = flags[0] && flags[1];
                }
            } else if (op == 6) {
                args.push_back("i");
                if (!aborted) {
                    if (inconsistent) {
                        expected += 'V';
                        aborted = !throws;
                    } else {
                        expected += 'i';
                    }
                }
            } else {
                args.push_back("o");
                if (!aborted)
                    expected += 'o';
            }
        }
        if (!aborted)
            expected += '.';
        Result r = run_program(args);
        if (r.out != expected)
            mc::fail("the program did '%s', expected '%s' (l: load, i: initialize, V: odr_violation reported, E: "
                     "another error, o: initialize another registry, w: wrong calls, .: exit)",
                     r.out.c_str(), expected.c_str());
        if (aborted ? !(WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT)
                    : !(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0))
            mc::fail("wait status %d, expected %s", r.status, aborted ? "SIGABRT" : "exit");
        ex.count(inconsistent ? rejected : accepted);
        ex.transition(args.size() - 2);
        ex.trace_ok();
        std::uint64_t hash = 21;
        for (int x : c)
            hash = mc::mix(hash, x);
        ex.state(hash);
    };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int i = 0; i < int(st.size()); ++i)
            for (int t = 0; t < 2; ++t)
                ex.consider({1, i, t});
        int depth = ex.thorough ? 4 : 3;
        for (int m = 0; m < 2; ++m)
            for (int t = 0; t < 2; ++t)
                for (int g = 0; g < 2; ++g) {
                    std::function<void(mc::Case)> rec = [&](mc::Case c) {
                        if (int(c.size()) - 4 == depth)
                            return;
                        for (int op = 0; op < 8; ++op) {
                            // (contents other than registrations only when few)
                            if (op < NUNITS && op / 2 == 1 && c.size() > 5 && !ex.thorough)
                                continue;
                            mc::Case n = c;
                            n.push_back(op);
                            if (op >= 6)
                                ex.consider(n);
                            rec(n);
                        }
                    };
                    rec({0, m, t, g});
                }
    };
    return mc::main(argc, argv, h);
}
