#ifndef AUDI_BACK_COMPATIBILITY_HPP
#define AUDI_BACK_COMPATIBILITY_HPP
#include <cmath>
#include <memory>
#include <type_traits>
namespace audi
{
using std::make_unique;
using std::enable_if_t;
using std::is_same;
} // namespace audi
#endif
