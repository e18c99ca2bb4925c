// A translation unit of the programs of h_odr.  CHECKS: compiled with runtime
// checks; CONTENT: what it contains.
#if CHECKS
#define BOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS
#endif
#include <boost/openmethod.hpp>

using namespace boost::openmethod;

namespace {
#if CONTENT != 0
struct Animal {
    virtual ~Animal() = default;
};
struct Dog : Animal {};
BOOST_OPENMETHOD_CLASSES(Animal, Dog);
#endif
#if CONTENT >= 2
BOOST_OPENMETHOD(speak, (virtual_ptr<Animal>), int);
BOOST_OPENMETHOD_OVERRIDE(speak, (virtual_ptr<Dog>), int) {
    return 1;
}
#endif
} // namespace
