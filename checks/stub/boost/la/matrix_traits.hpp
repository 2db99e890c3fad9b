// Stand-in for the header of the Boost.LA library (later Boost.QVM), which is
// not installed: the primary template that vmmlib/matrix_traits.hpp specialises.
#ifndef STUB_BOOST_LA_MATRIX_TRAITS_HPP
#define STUB_BOOST_LA_MATRIX_TRAITS_HPP
#include <boost/assert.hpp>
#include <boost/static_assert.hpp>
namespace boost
{
namespace la
{
template <class Matrix>
struct matrix_traits
{
    static const int rows = 0;
    static const int cols = 0;
    typedef void scalar_type;
};
}
}
#endif
