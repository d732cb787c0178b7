// A second translation unit: it must share the generator.
#include <dcgp/rng.hpp>
unsigned other_next() { return dcgp::random_device::next(); }
void other_seed(unsigned s) { dcgp::random_device::set_seed(s); }
