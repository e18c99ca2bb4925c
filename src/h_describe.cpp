// C22: diagnostics.  Descriptions of errors, the handler that receives them,
// the standard output stream, and the environment variable that turns traces on.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>

#include "mc.hpp"

#include <sstream>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp11 = boost::mp11;
using bom::type_id;
using bom::virtual_ptr;

inline std::string sink; // what the output policies wrote

struct string_stream {};
inline string_stream& operator<<(string_stream& s, const char* x) { sink += x; return s; }
inline string_stream& operator<<(string_stream& s, const std::string_view& x) { sink += x; return s; }
inline string_stream& operator<<(string_stream& s, const void* x) {
    std::ostringstream os;
    os << x;
    sink += os.str();
    return s;
}
inline string_stream& operator<<(string_stream& s, std::size_t x) { sink += std::to_string(x); return s; }

struct sink_output : pol::output {
    template<class R>
    struct fn {
        inline static string_stream os;
    };
};

// classes with ids
struct Object {
    virtual ~Object() = default;
    virtual type_id id() const { return type_id(100); }
};
template<int N>
struct Node : Object {
    type_id id() const override { return type_id(std::size_t(101 + N * 37)); }
};
template<class T> inline const std::size_t id_of = 99;
template<> inline const std::size_t id_of<Object> = 100;
template<int N> inline const std::size_t id_of<Node<N>> = 101 + N * 37;

struct named_rtti : pol::rtti {
    template<class R>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = std::is_base_of_v<Object, T>;
        template<class T>
        static auto static_type() -> type_id { return type_id(id_of<std::remove_cv_t<T>>); }
        template<class T>
        static auto dynamic_type(const T& x) -> type_id {
            if constexpr (is_polymorphic<T>)
                return x.id();
            else
                return nullptr;
        }
        template<class T>
        static auto type_name(type_id t, T& stream) -> void {
            stream << "<" << std::size_t(t) << ">";
        }
    };
};
struct plain_rtti : pol::rtti {
    template<class R>
    struct fn : pol::rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = std::is_base_of_v<Object, T>;
        template<class T>
        static auto static_type() -> type_id { return type_id(id_of<std::remove_cv_t<T>>); }
        template<class T>
        static auto dynamic_type(const T& x) -> type_id {
            if constexpr (is_polymorphic<T>)
                return x.id();
            else
                return nullptr;
        }
    };
};

template<class Rtti, class Eh, bool Out>
struct Reg : mp11::mp_apply<
                 bom::registry,
                 mp11::mp_append<
                     mp11::mp_list<Rtti, pol::vptr_vector, pol::fast_perfect_hash, Eh, pol::runtime_checks>,
                     mp11::mp_if_c<Out, mp11::mp_list<sink_output>, mp11::mp_list<>>>> {};

template<class R>
std::string name_of(type_id t) {
    std::string save;
    std::swap(save, sink);
    string_stream os;
    R::rtti::type_name(t, os);
    std::swap(save, sink);
    return save;
}

constexpr int NCLASSES = 6; // 4 and 5 are not registered
// ---------------------------------------------------------------------------
// errors

enum Kind { not_init, no_over, ambig, m_class, m_base, fin, odr, search, NKINDS };
constexpr const char* kind_names[] = {"not_initialized", "no_overrider", "ambiguous_call", "missing_class",
                                      "missing_base", "final_error", "odr_violation", "search_error"};

struct Seen {
    int kind = -1;
    type_id a = nullptr, b = nullptr;
    std::size_t attempts = 0, buckets = 0;
};

struct Look {
    Seen& s;
    void operator()(const bom::not_initialized&) const { s.kind = not_init; }
    void operator()(const bom::no_overrider& e) const { s.kind = no_over; s.a = e.method; }
    void operator()(const bom::ambiguous_call& e) const { s.kind = ambig; s.a = e.method; }
    void operator()(const bom::missing_class& e) const { s.kind = m_class; s.a = e.type; }
    void operator()(const bom::missing_base& e) const { s.kind = m_base; s.a = e.base; s.b = e.derived; }
    void operator()(const bom::final_error& e) const { s.kind = fin; s.a = e.static_type; s.b = e.dynamic_type; }
    void operator()(const bom::odr_violation&) const { s.kind = odr; }
    void operator()(const pol::fast_perfect_hash::search_error& e) const {
        s.kind = search;
        s.attempts = e.attempts;
        s.buckets = e.buckets;
    }
};

template<class R, class F>
void with_error(int kind, int a, int b, F f) {
    static const type_id ids[] = {
        R::rtti::template static_type<Object>(), R::rtti::template static_type<Node<0>>(),
        R::rtti::template static_type<Node<1>>(), R::rtti::template static_type<Node<2>>(),
        R::rtti::template static_type<Node<3>>(), R::rtti::template static_type<Node<4>>()};
    switch (kind) {
    case not_init: f(bom::not_initialized()); break;
    case no_over: {
        bom::no_overrider e{};
        e.method = ids[a];
        e.arity = 1;
        e.types[0] = ids[b];
        f(e);
        break;
    }
    case ambig: {
        bom::ambiguous_call e{};
        e.method = ids[a];
        e.arity = 1;
        e.types[0] = ids[b];
        f(e);
        break;
    }
    case m_class: {
        bom::missing_class e;
        e.type = ids[a];
        f(e);
        break;
    }
    case m_base: {
        bom::missing_base e;
        e.base = ids[a];
        e.derived = ids[b];
        f(e);
        break;
    }
    case fin: {
        bom::final_error e;
        e.static_type = ids[a];
        e.dynamic_type = ids[b];
        f(e);
        break;
    }
    case odr: f(bom::odr_violation()); break;
    case search: {
        pol::fast_perfect_hash::search_error e;
        e.attempts = 12345 + a;
        e.buckets = 67890 + b;
        f(e);
        break;
    }
    }
}

template<class R, class E>
std::string describe_error(const E& e) {
    std::string save;
    std::swap(save, sink);
    string_stream os;
    e.template write<R>(os);
    std::swap(save, sink);
    return save;
}

inline bool contains(const std::string& s, const std::string& t) {
    return s.find(t) != std::string::npos;
}

template<class R>
std::string description(int kind, int a, int b) {
    std::string r;
    with_error<R>(kind, a, b, [&](const auto& e) { r = describe_error<R>(e); });
    return r;
}

// what a description says: the error, told apart from the others; the names of
// the classes at fault, in their roles
template<class R>
void check_description(int kind, int a, int b) {
    std::string d = description<R>(kind, a, b);
    if (d.empty())
        mc::fail("%s: no description", kind_names[kind]);
    with_error<R>(kind, a, b, [&](const auto& e) {
        Seen s;
        Look{s}(e);
        auto names = [&](type_id t) {
            if (!contains(d, name_of<R>(t)))
                mc::fail("%s: description '%s' does not name class %s", kind_names[kind], d.c_str(), name_of<R>(t).c_str());
        };
        if (kind == m_class || kind == m_base || kind == fin)
            names(s.a);
        if (kind == m_base || kind == fin)
            names(s.b);
        // the class that follows a word, if the description uses it
        auto role = [&](const char* word, type_id t, type_id other) {
            auto at = d.find(word);
            if (at == std::string::npos || t == other)
                return;
            auto x = d.find(name_of<R>(t), at), y = d.find(name_of<R>(other), at);
            if (x == std::string::npos || y < x)
                mc::fail("%s: in '%s', the %s class should be %s", kind_names[kind], d.c_str(), word,
                         name_of<R>(t).c_str());
        };
        if (kind == fin) {
            role("static", s.a, s.b);
            role("dynamic", s.b, s.a);
        }
        if (kind == m_base)
            role("base", s.a, s.b);
        if (kind == search && !(contains(d, std::to_string(s.attempts)) && contains(d, std::to_string(s.buckets))))
            mc::fail("search_error: description '%s' does not give the numbers", d.c_str());
    });
    // told apart from every other error
    for (int k = 0; k < NKINDS; ++k)
        for (int x = 0; x < NCLASSES; ++x)
            for (int y = 0; y < NCLASSES; ++y) {
                bool same = k == kind;
                if (k == m_class)
                    same = same && x == a;
                else if (k == m_base || k == fin || k == search)
                    same = same && x == a && y == b;
                if ((description<R>(k, x, y) == d) != same)
                    mc::fail("%s and %s: descriptions '%s' and '%s'", kind_names[kind], kind_names[k], d.c_str(),
                             description<R>(k, x, y).c_str());
            }
}

// ---------------------------------------------------------------------------
// real errors, in programs

template<class R>
struct program {
    struct speak_id;
    using speak = bom::method<speak_id, int(virtual_ptr<Object, R>), R>;
    static int over(virtual_ptr<Node<0>, R>) { return 7; }
    inline static typename speak::template override<over> reg;
    inline static bom::use_classes<Object, Node<0>, Node<1>, Node<2>, R> classes;
    static void use() {
        (void)&reg;
        (void)&classes;
    }
};

template<class R, class F>
void with_object(int c, F f) {
    switch (c) {
    case 0: { Object o; f(o); break; }
    case 1: { Node<0> o; f(o); break; }
    case 2: { Node<1> o; f(o); break; }
    case 3: { Node<2> o; f(o); break; }
    case 4: { Node<3> o; f(o); break; }
    case 5: { Node<4> o; f(o); break; }
    }
}

// a scenario, and the error that it must cause (-1: none)
constexpr int NACTS = 3;
constexpr const char* acts[] = {"call", "virtual_ptr", "final_virtual_ptr<Object>"};

template<class R>
int expected_kind(bool initialized, int act, int c) {
    if (!initialized)
        return not_init;
    if (act == 2)
        return c == 0 ? -1 : fin;
    if (c >= 4)
        return m_class;
    return act == 0 && c != 1 ? no_over : -1;
}

template<class R>
void act(int a, int c) {
    with_object<R>(c, [&](Object& o) {
        if (a == 0)
            program<R>::speak::fn(o);
        else if (a == 1)
            virtual_ptr<Object, R> p(o);
        else
            bom::final_virtual_ptr<R>(o);
    });
}

template<class R>
std::string expected_description(int kind, int c) {
    // act 0 on Object etc: descriptions of no_overrider do not depend on classes
    return kind == m_class ? description<R>(m_class, c, 0) :
        kind == fin        ? description<R>(fin, 0, c) :
                             description<R>(kind, 0, 0);
}

struct Jump {
    Seen s;
};

// default handler: handlers set and restored, errors in between
template<class R>
void run_default(const mc::Case& c, std::size_t from) {
    using EH = typename R::error_handler;
    using variant = typename EH::error_variant;
    static std::vector<std::pair<int, Seen>> log;
    static std::string written; // by the default handler, before it is left
    log.clear();
    sink.clear();
    program<R>::use();
    auto jump = [](int who) {
        return [who](const variant& v) {
            Seen s;
            std::visit(Look{s}, v);
            log.push_back({who, s});
            throw Jump{s};
        };
    };
    std::function<void(const variant&)> original = EH::set(jump(-2));
    EH::set(original);
    // model: stack of handlers previously returned; 0: the default
    int current = 0;
    std::vector<std::pair<int, typename EH::function_type>> previous;
    bool initialized = false;
    std::size_t nlog = 0;
    std::string expect;
    for (std::size_t i = from; i < c.size(); ++i) {
        int op = c[i];
        if (op == 0) {
            bom::initialize<R>();
            initialized = true;
        } else if (op == 1) {
            bom::finalize<R>();
            initialized = false;
        } else if (op < 4) { // set handler 1 or 2
            auto p = EH::set(jump(op - 1));
            previous.push_back({current, p});
            current = op - 1;
        } else if (op == 4) { // restore
            if (previous.empty())
                continue;
            EH::set(previous.back().second);
            current = previous.back().first;
            previous.pop_back();
        } else {
            int a = (op - 5) / NCLASSES, cl = (op - 5) % NCLASSES;
            int kind = expected_kind<R>(initialized, a, cl);
            bool jumped = false;
            if (current == 0 && kind >= 0)
                // the default handler returns, and the program aborts: call
                // it as the library does
                with_error<R>(kind, kind == fin ? 0 : cl, kind == fin ? cl : 0, [&](const auto& e) { EH::error(e); });
            else
                try {
                    act<R>(a, cl);
                } catch (Jump& j) {
                    jumped = true;
                }
            if (kind < 0) {
                if (jumped)
                    mc::fail("operation %d: unexpected %s", int(i - from), kind_names[log.back().second.kind]);
            } else if (current == 0) {
                if (R::has_output)
                    expect += expected_description<R>(kind, cl) + "\n";
            } else {
                if (!jumped || log.size() != nlog + 1)
                    mc::fail("operation %d: the handler was called %d times", int(i - from), int(log.size() - nlog));
                auto& l = log.back();
                if (l.first != current)
                    mc::fail("operation %d: handler %d was called, expected %d", int(i - from), l.first, current);
                if (l.second.kind != kind)
                    mc::fail("operation %d: %s, expected %s", int(i - from), kind_names[l.second.kind], kind_names[kind]);
                if (kind == m_class)
                    with_object<R>(cl, [&](Object& o) {
                        if (l.second.a != R::rtti::dynamic_type(o))
                            mc::fail("operation %d: wrong class", int(i - from));
                    });
                if (kind == fin)
                    with_object<R>(cl, [&](Object& o) {
                        if (l.second.a != R::rtti::template static_type<Object>() ||
                            l.second.b != R::rtti::dynamic_type(o))
                            mc::fail("operation %d: wrong classes", int(i - from));
                    });
                nlog = log.size();
            }
        }
        if (sink != expect)
            mc::fail("operation %d: '%s' was written, expected '%s'", int(i - from), sink.c_str(), expect.c_str());
        if (log.size() != nlog)
            mc::fail("operation %d: a handler was called for nothing", int(i - from));
    }
    while (!previous.empty()) {
        EH::set(previous.back().second);
        previous.pop_back();
    }
    EH::set(original);
    if (initialized)
        bom::finalize<R>();
}

// throw_error_handler: what is thrown
template<class R>
void run_throw(const mc::Case& c, std::size_t from) {
    program<R>::use();
    bool initialized = false;
    sink.clear();
    for (std::size_t i = from; i < c.size(); ++i) {
        int op = c[i];
        if (op == 0) {
            bom::initialize<R>();
            initialized = true;
        } else if (op == 1) {
            bom::finalize<R>();
            initialized = false;
        } else if (op >= 5) {
            int a = (op - 5) / NCLASSES, cl = (op - 5) % NCLASSES;
            int kind = expected_kind<R>(initialized, a, cl);
            for (int as = 0; as < 3; ++as) {
                Seen s;
                std::string what;
                bool thrown = true;
                auto error = [&](const auto& e) { Look{s}(e); };
                try {
                    if (as == 0) {
                        try {
                            act<R>(a, cl);
                            thrown = false;
                        } catch (const bom::not_initialized& e) {
                            error(e);
                        } catch (const bom::no_overrider& e) {
                            error(e);
                        } catch (const bom::missing_class& e) {
                            error(e);
                        } catch (const bom::final_error& e) {
                            error(e);
                        }
                        if (thrown && s.kind != kind)
                            mc::fail("operation %d: %s thrown, expected %s", int(i - from), s.kind < 0 ? "something" : kind_names[s.kind],
                                     kind < 0 ? "nothing" : kind_names[kind]);
                    } else if (as == 1) {
                        try {
                            act<R>(a, cl);
                            thrown = false;
                        } catch (const std::runtime_error& e) {
                            what = e.what();
                        }
                        if (thrown && kind >= 0 && what != expected_description<R>(kind, cl))
                            mc::fail("operation %d: what() is '%s', expected '%s'", int(i - from), what.c_str(),
                                     expected_description<R>(kind, cl).c_str());
                    } else {
                        try {
                            act<R>(a, cl);
                            thrown = false;
                        } catch (const bom::openmethod_error&) {
                        }
                    }
                } catch (mc::Violation&) {
                    throw;
                } catch (...) {
                    mc::fail("operation %d: thrown, but not as %s", int(i - from),
                             as == 0 ? "the error" : as == 1 ? "runtime_error" : "openmethod_error");
                }
                if (thrown != (kind >= 0))
                    mc::fail("operation %d: %s", int(i - from), thrown ? "an error was thrown" : "no error was thrown");
            }
        }
        if (!sink.empty())
            mc::fail("operation %d: '%s' was written", int(i - from), sink.c_str());
    }
    if (initialized)
        bom::finalize<R>();
}

using Registries = mp11::mp_list<
    Reg<pol::std_rtti, pol::default_error_handler, true>, Reg<pol::std_rtti, pol::default_error_handler, false>,
    Reg<named_rtti, pol::default_error_handler, true>, Reg<plain_rtti, pol::default_error_handler, true>,
    Reg<pol::std_rtti, pol::throw_error_handler, true>, Reg<pol::std_rtti, pol::throw_error_handler, false>,
    Reg<named_rtti, pol::throw_error_handler, false>, Reg<plain_rtti, pol::throw_error_handler, true>>;
constexpr int NREG = mp11::mp_size<Registries>::value;
constexpr const char* reg_names[] = {"std_rtti, default handler, output", "std_rtti, default handler",
                                     "user rtti with names, default handler, output",
                                     "user rtti, default handler, output", "std_rtti, throw, output",
                                     "std_rtti, throw", "user rtti with names, throw", "user rtti, throw, output"};

template<class F>
void with_registry(int r, F f) {
    mp11::mp_with_index<NREG>(r, [&](auto i) { f(mp11::mp_identity<mp11::mp_at_c<Registries, decltype(i)::value>>()); });
}

// ---------------------------------------------------------------------------
// streams

// 0: on(file 0), 1: on(file 1), 2: off, 3...: write value
constexpr std::size_t values[] = {0, 1, 9, 10, 255, 4294967295u, 4294967296u, 9999999999999999999u, ~std::size_t(0)};
constexpr int NVALUES = sizeof values / sizeof *values;
constexpr int NWRITES = NVALUES * 2 + 4;

template<class R>
struct stderr_registry : bom::registry<pol::std_rtti, pol::stderr_output> {};

static void run_stream(const mc::Case& c) {
    using Out = stderr_registry<void>::output;
    auto& os = Out::os;
    char* buf[2] = {};
    std::size_t len[2] = {};
    FILE* f[2] = {open_memstream(&buf[0], &len[0]), open_memstream(&buf[1], &len[1])};
    std::string expect[2];
    int current = -1;
    os.off();
    std::string long_text(5000, 'x');
    for (std::size_t i = 1; i < c.size(); ++i) {
        int op = c[i];
        std::string w;
        if (op < 2) {
            os.on(f[op]);
            current = op;
        } else if (op == 2) {
            os.off();
            current = -1;
        } else if ((op -= 3) < NVALUES) {
            os << values[op];
            w = std::to_string(values[op]);
        } else if ((op -= NVALUES) < NVALUES) {
            os << reinterpret_cast<const void*>(values[op]);
            char b[32];
            snprintf(b, sizeof b, "%zx", values[op]);
            w = b;
        } else if ((op -= NVALUES) == 0) {
            os << "hello, " << "%s%d\n";
            w = "hello, %s%d\n";
        } else if (op == 1) {
            os << std::string_view("abcdef", 3);
            w = "abc";
        } else if (op == 2) {
            os << std::string_view("");
        } else {
            os << long_text;
            w = long_text;
        }
        if (current >= 0)
            expect[current] += w;
        if (os.is_on() != (current >= 0))
            mc::fail("is_on: %d", os.is_on());
        for (int k = 0; k < 2; ++k) {
            fflush(f[k]);
            if (std::string(buf[k], len[k]) != expect[k])
                mc::fail("operation %d: stream %d has '%.60s', expected '%.60s'", int(i - 1), k,
                         std::string(buf[k], len[k]).c_str(), expect[k].c_str());
        }
    }
    os.off();
    for (int k = 0; k < 2; ++k) {
        fclose(f[k]);
        free(buf[k]);
    }
}

static const char env_chars[] = "10 yt";

int main(int argc, char** argv) {
    mc::Harness h;
    // cases: {0, registry, kind, a, b}: descriptions
    //        {1, registry, ops...}: errors
    //        {2, ops...}: streams
    //        {3, chars...}: environment ({3, -1}: unset)
    h.run = [&](mc::Explorer& ex, const mc::Case& c) {
        static int n[] = {ex.counter("descriptions"), ex.counter("programs"), ex.counter("stream histories"),
                          ex.counter("environments")};
        ex.count(n[c[0]]);
        if (c[0] == 0) {
            with_registry(c[1], [&](auto r) { check_description<typename decltype(r)::type>(c[2], c[3], c[4]); });
        } else if (c[0] == 1) {
            with_registry(c[1], [&](auto r) {
                using R = typename decltype(r)::type;
                if constexpr (mp11::mp_contains<typename R::policy_list, pol::throw_error_handler>::value)
                    run_throw<R>(c, 2);
                else
                    run_default<R>(c, 2);
            });
            ex.trace_ok();
        } else if (c[0] == 2) {
            run_stream(c);
            ex.trace_ok();
        } else {
            std::string s;
            bool set = true;
            for (std::size_t i = 1; i < c.size(); ++i)
                if (c[i] < 0)
                    set = false;
                else
                    s += env_chars[c[i]];
            if (set)
                setenv("BOOST_OPENMETHOD_TRACE", s.c_str(), 1);
            else
                unsetenv("BOOST_OPENMETHOD_TRACE");
            bool on = bom::trace::from_env().on;
            if (on != (set && s == "1"))
                mc::fail("BOOST_OPENMETHOD_TRACE%s%s%s: trace %s", set ? "='" : " unset", s.c_str(), set ? "'" : "",
                         on ? "on" : "off");
            // ... and traces are written accordingly
            using R = mp11::mp_front<Registries>;
            program<R>::use();
            sink.clear();
            bom::initialize<R>(bom::trace::from_env());
            if (sink.empty() == on)
                mc::fail("trace %s: %d bytes written", on ? "on" : "off", int(sink.size()));
            bom::finalize<R>();
        }
        ex.transition(c.size() - 1);
        std::uint64_t st = 22;
        for (int x : c)
            st = mc::mix(st, x);
        ex.state(st);
    };
    h.describe = [&](const mc::Case& c) {
        std::string s;
        if (c[0] == 0)
            return std::string(reg_names[c[1]]) + ": description of " + kind_names[c[2]] + " for classes " +
                std::to_string(c[3]) + ", " + std::to_string(c[4]);
        if (c[0] == 1) {
            s = std::string(reg_names[c[1]]) + ":";
            static const char* ops[] = {"initialize", "finalize", "set handler 1", "set handler 2", "restore handler"};
            for (std::size_t i = 2; i < c.size(); ++i)
                s += c[i] < 5 ? std::string(" ") + ops[c[i]] + ";"
                              : std::string(" ") + acts[(c[i] - 5) / NCLASSES] + " on class " +
                        std::to_string((c[i] - 5) % NCLASSES) + ";";
            return s;
        }
        return std::string(c[0] == 2 ? "operations on the standard output policy" : "environment variable");
    };
    h.enumerate = [&](mc::Explorer& ex) {
        for (int r = 0; r < NREG; ++r)
            for (int k = 0; k < NKINDS; ++k)
                for (int a = 0; a < NCLASSES; ++a)
                    for (int b = 0; b < NCLASSES; ++b)
                        ex.consider({0, r, k, a, b});
        int depth = ex.thorough ? 5 : 4;
        for (int r = 0; r < NREG; ++r) {
            std::function<void(const mc::Case&)> rec = [&](const mc::Case& c) {
                if (int(c.size()) - 2 == depth)
                    return;
                for (int op = 0; op < 5 + NACTS * NCLASSES; ++op) {
                    if (r >= 4 && op >= 2 && op < 5)
                        continue;
                    mc::Case n = c;
                    n.push_back(op);
                    // (errors only matter in the end, and before a change of
                    // handler or state)
                    if (op >= 5 || ex.thorough)
                        ex.consider(n);
                    rec(n);
                }
            };
            rec({1, r});
        }
        {
            int d = ex.thorough ? 4 : 3;
            std::function<void(const mc::Case&)> rec = [&](const mc::Case& c) {
                ex.consider(c);
                if (int(c.size()) - 1 == d)
                    return;
                for (int op = 0; op < 3 + NWRITES; ++op) {
                    mc::Case n = c;
                    n.push_back(op);
                    rec(n);
                }
            };
            rec({2});
        }
        ex.consider({3, -1});
        {
            std::function<void(const mc::Case&)> rec = [&](const mc::Case& c) {
                ex.consider(c);
                if (c.size() == 5)
                    return;
                for (int k = 0; env_chars[k]; ++k) {
                    mc::Case n = c;
                    n.push_back(k);
                    rec(n);
                }
            };
            rec({3});
        }
    };
    return mc::main(argc, argv, h);
}
