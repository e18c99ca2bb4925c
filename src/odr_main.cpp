// The main program of h_odr: performs the operations given as arguments, and
// prints what happens.
#if CHECKS
#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS
#endif
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>

#include <cstdio>
#include <cstring>
#include <dlfcn.h>

using namespace boost::openmethod;

struct own_registry : registry<policies::std_rtti, policies::vptr_vector, policies::fast_perfect_hash> {};

struct Animal {
    virtual ~Animal() = default;
};
struct Dog : Animal {};
struct Cat : Animal {};
BOOST_OPENMETHOD_CLASSES(Animal, Dog, Cat);
BOOST_OPENMETHOD(speak, (virtual_ptr<Animal>), int);
BOOST_OPENMETHOD_OVERRIDE(speak, (virtual_ptr<Dog>), int) {
    return 1;
}
BOOST_OPENMETHOD_OVERRIDE(speak, (virtual_ptr<Cat>), int) {
    return 2;
}

BOOST_OPENMETHOD_REGISTER(use_classes<Animal, Dog, own_registry>);
BOOST_OPENMETHOD(own, (virtual_ptr<Animal, own_registry>), int, own_registry);
BOOST_OPENMETHOD_OVERRIDE(own, (virtual_ptr<Dog, own_registry>), int) {
    return 3;
}

// arguments: handler (t: throws, r: returns) and visibility of the symbols of
// libraries (g: global, l: local), then libraries to load, "i" to
// initialize the default registry, "o" to initialize another registry
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IONBF, 0);
    using variant = default_registry::error_handler::error_variant;
    char mode = argv[1][0];
    int flags = RTLD_NOW | (argv[1][1] == 'g' ? RTLD_GLOBAL : RTLD_LOCAL);
    default_registry::error_handler::set([mode](const variant& e) {
        std::visit(
            [mode](auto&& e) {
                bool odr = std::is_same_v<std::decay_t<decltype(e)>, odr_violation>;
                printf(odr ? "V" : "E");
                if (mode == 't') {
                    throw odr;
                }
            },
            e);
    });
    Dog dog;
    Cat cat;
    for (int i = 2; i < argc; ++i) {
        try {
            if (!strcmp(argv[i], "i")) {
                initialize();
                bool ok = speak(dog) == 1 && speak(cat) == 2;
                printf(ok ? "i" : "w");
            } else if (!strcmp(argv[i], "o")) {
                initialize<own_registry>();
                printf(own(dog) == 3 ? "o" : "w");
            } else {
                printf(dlopen(argv[i], flags) ? "l" : "L");
            }
        } catch (bool) {
        }
    }
    printf(".");
    return 0;
}
