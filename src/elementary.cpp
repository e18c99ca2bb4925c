// The most elementary program.  If it does not compile, or not run, against a
// tree, nothing can be said about that tree.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

using boost::openmethod::virtual_ptr;

struct Animal {
    virtual ~Animal() = default;
};
struct Dog : Animal {};

BOOST_OPENMETHOD_CLASSES(Animal, Dog);
BOOST_OPENMETHOD(poke, (virtual_ptr<Animal>), int);
BOOST_OPENMETHOD_OVERRIDE(poke, (virtual_ptr<Dog>), int) {
    return 42;
}

int main() {
    boost::openmethod::initialize();
    Dog d;
    return poke(d) == 42 ? 0 : 1;
}
