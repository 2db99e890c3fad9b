# More changes for the properties that had few of them.
M = 'vmmlib/matrix.hpp'
VT = 'vmmlib/vector_traits.hpp'
Q = 'vmmlib/quaternion.hpp'
V = 'vmmlib/vector.hpp'
L = 'vmmlib/lowpass_filter.hpp'
FC = 'vmmlib/frustum_culler.hpp'
LA = {'boost_la.hpp': '''#pragma once
#include <cassert>
#include <boost/assert.hpp>
#include <boost/static_assert.hpp>
namespace boost { namespace la {
template< class M > struct matrix_traits {};
template< class V > struct vector_traits {};
} }
''', 'boost/la/matrix_traits.hpp': '#include "../../boost_la.hpp"\n', 'boost/la/vector_traits.hpp': '#include "../../boost_la.hpp"\n'}
SEEDS = [
dict(id='T01-narrow-index', property='T01', flags='-O1 -I"$d"', files=LA,
 needs='a vector of more than 256 components read with a run-time index through the traits',
 breaks='the run-time index is narrowed to one byte',
 edits={VT: [("""	static scalar_type ir(int i, const vector_type& v)
	{
		BOOST_ASSERT(i >= 0);
		BOOST_ASSERT(i < dim);
		return v.array[i];""", """	static scalar_type ir(int i, const vector_type& v)
	{
		BOOST_ASSERT(i >= 0);
		BOOST_ASSERT(i < dim);
		const unsigned char index = static_cast< unsigned char >( i );
		return v.array[index];""")]},
 demo="""
#include "boost_la.hpp"
#include <vmmlib/vector_traits.hpp>
int main()
{
    vmml::Vector< 300, int > v;
    v.set( 0 );
    v.at( 280 ) = 5;
    return boost::la::vector_traits< vmml::Vector< 300, int > >::ir( 280, v ) != 5;
}
"""),
dict(id='X01-static-sum', property='X01',
 needs='several threads computing covariance products at the same time',
 breaks='the sum of symmetric_covariance() is a static variable that all threads share',
 edits={M: [("""    T tmp = 0;
    for( size_t row = 0; row < M; ++row )
    {
        for( size_t col = row; col < M; ++col )""", """    static T tmp = 0; // zero again after every element
    for( size_t row = 0; row < M; ++row )
    {
        for( size_t col = row; col < M; ++col )""")]},
 demo="""
#include <vmmlib/matrix.hpp>
#include <thread>
#include <atomic>
int main()
{
    typedef vmml::Matrix< 4, 64, double > A;
    A a; a = 1;
    std::atomic< int > bad( 0 ), go( 0 );
    auto f = [&] {
        ++go;
        while( go < 8 ) {}
        for( int i = 0; i < 20000; ++i )
        {
            vmml::Matrix< 4, 4, double > c;
            a.symmetric_covariance( c );
            for( size_t k = 0; k < 16; ++k )
                if( c.array[ k ] != 64 )
                    ++bad;
        }
    };
    std::thread* t[ 8 ];
    for( int i = 0; i < 8; ++i )
        t[ i ] = new std::thread( f );
    for( int i = 0; i < 8; ++i )
        t[ i ]->join();
    return bad != 0;
}
"""),
dict(id='R01-short-file', property='R01',
 needs='a raw file that is shorter than the matrix, read many times',
 breaks='read_from_raw() returns early for a short file without releasing its buffer',
 edits={M: [("""            infile.read( data, len_read );
""", """            infile.read( data, len_read );
            if( infile.gcount() == 0 )
                return; // nothing to be had
""")]},
 demo="""
#include <vmmlib/matrix.hpp>
#include <malloc.h>
#include <fstream>
int main()
{
    std::ofstream( "empty.raw" ).close();
    vmml::Matrix< 32, 32, double > m;
    m.zero();
    m.read_from_raw( ".", "empty" );
    const size_t before = mallinfo2().uordblks;
    for( int i = 0; i < 100; ++i )
        m.read_from_raw( ".", "empty" );
    return mallinfo2().uordblks > before + 100000;
}
"""),
dict(id='M03-zero-shortcut', property='M03',
 needs='a matrix with an infinite or NaN element multiplied in place by zero',
 breaks='multiplying by zero fills with zeros instead of multiplying each element',
 edits={M: [("""Matrix< M, N, T >::operator*=( T scalar )
{
""", """Matrix< M, N, T >::operator*=( T scalar )
{
    if( scalar == static_cast< T >( 0 ))
    {
        zero();
        return;
    }

""")]},
 demo="""
#include <vmmlib/matrix.hpp>
#include <limits>
int main()
{
    vmml::Matrix< 2, 2, double > m;
    m = 1;
    m( 0, 1 ) = std::numeric_limits< double >::infinity();
    m *= 0.;
    return m( 0, 1 ) == m( 0, 1 );
}
"""),
dict(id='M03-reciprocal', property='M03',
 needs='an integer matrix divided with operator/',
 breaks='operator/ multiplies by the reciprocal, computed in double precision',
 edits={M: [("""            result.at( row_index, col_index ) = at( row_index, col_index ) / scalar;""",
 """            result.at( row_index, col_index ) =
                static_cast< T >( at( row_index, col_index ) * ( 1.0 / scalar ));""")]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 1, 1, int > m;
    m( 0, 0 ) = 49;
    return ( m / 49 )( 0, 0 ) != 1;
}
"""),
dict(id='M07-covariance-square', property='M07',
 needs='the covariance product of a matrix with more columns than rows',
 breaks='symmetric_covariance() sums only as many products as there are rows',
 edits={M: [("""            for ( size_t k = 0; k < N; ++k )
            {
                tmp += (at( row, k ) * at( col, k ));""", """            for ( size_t k = 0; k < ( N < 2 * M ? N : 2 * M ); ++k )
            {
                tmp += (at( row, k ) * at( col, k ));""")]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 7, double > m;
    m = 1;
    vmml::Matrix< 2, 2, double > c;
    m.symmetric_covariance( c );
    return c( 0, 1 ) != 7;
}
"""),
dict(id='M07-diagonal-left', property='M07',
 needs='diag() on a matrix that is not zero before, with a zero on the new diagonal',
 breaks='diag() clears only the rows that get a value other than zero',
 edits={M: [("""    zero();
    for( size_t r = 0; r < R; ++r )
    {
        at(r, r) = static_cast< T >( diag_values_.at(r) );
    }""", """    for( size_t r = 0; r < R; ++r )
    {
        if( diag_values_.at(r) != 0 )
            for( size_t c = 0; c < N; ++c )
                at(r, c) = 0;
        at(r, r) = static_cast< T >( diag_values_.at(r) );
    }""")]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, double > m;
    m = 1;
    m.diag( vmml::Vector< 3, double >( 0, 2, 3 ));
    return m( 0, 1 ) != 0;
}
"""),
dict(id='M09-even-rows', property='M09',
 needs='a kernel with an even number of rows',
 breaks='the rows of a kernel of even height are applied from the bottom up',
 edits={M: [("sum += kernel.at(j,i) * at(srcy,srcx);",
             "sum += kernel.at(U % 2 ? j : U - 1 - j,i) * at(srcy,srcx);")]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 1, double > m;
    m( 0, 0 ) = 1; m( 1, 0 ) = 2; m( 2, 0 ) = 4;
    vmml::Matrix< 2, 1, double > k;
    k( 0, 0 ) = 1; k( 1, 0 ) = 0;
    m.convolve( k );
    return m( 2, 0 ) != 2 || m( 1, 0 ) != 1;
}
"""),
dict(id='M09-small-weights', property='M09',
 needs='a kernel whose weights are all tiny',
 breaks='weights below the machine epsilon are skipped as if they were zero',
 edits={M: [("""                    sum += kernel.at(j,i) * at(srcy,srcx);""",
 """                    if( std::abs( double( kernel.at(j,i) )) >
                        std::numeric_limits< float >::epsilon( ))
                        sum += kernel.at(j,i) * at(srcy,srcx);""")]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > m;
    m = 1e10;
    vmml::Matrix< 1, 1, double > k;
    k( 0, 0 ) = 1e-10;
    m.convolve( k );
    return m( 0, 0 ) < .5;
}
"""),
dict(id='M11-narrow-phase', property='M11',
 needs='the DCT coefficients of a matrix of order 13 or more',
 breaks='the phase is kept in one byte and wraps around',
 edits={M: [("""            fill_value = (2 * col + 1) * row * M_PI / (2*M);""",
 """            const unsigned char phase = static_cast< unsigned char >( (2 * col + 1) * row );
            fill_value = phase * M_PI / (2*M);""")]},
 demo="""
#include <vmmlib/matrix.hpp>
#include <cmath>
int main()
{
    vmml::Matrix< 14, 14, double > m;
    m.set_dct();
    double e = 0;
    for( size_t i = 0; i < 14; ++i )
        for( size_t j = 0; j < 14; ++j )
        {
            double sum = 0;
            for( size_t k = 0; k < 14; ++k )
                sum += m( i, k ) * m( j, k );
            e = std::max( e, std::abs( sum - ( i == j )));
        }
    return e > 1e-10;
}
"""),
dict(id='M11-fill-rows', property='M11',
 needs='random fills of a matrix with more than 64 columns',
 breaks='set_random() repeats the first elements of a row in the rest of a long row',
 edits={M: [("""            fillValue = rand();
            fillValue /= RAND_MAX;
            at( row, col ) =""", """            fillValue = col < 64 ? rand() : 0;
            fillValue /= RAND_MAX;
            at( row, col ) = col >= 64 ? at( row, col - 64 ) :""")]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 1, 70, double > m;
    m.set_random( 3 );
    return m( 0, 0 ) == m( 0, 64 ) && m( 0, 1 ) == m( 0, 65 );
}
"""),
dict(id='X01-shared-distance', property='X01',
 needs='several threads testing spheres against constant frustum cullers at the same time',
 breaks='test_sphere() keeps the distance to a plane in a static variable',
 edits={FC: [("""    T distance = _left_plane.x() * sphere.x() +""", """    static T distance; // of the plane in question
    distance = _left_plane.x() * sphere.x() +""")]},
 flags='-O0',
 demo="""
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/vector.hpp>
#include <vmmlib/matrix.hpp>
#include <thread>
#include <atomic>
int main()
{
    typedef vmml::FrustumCuller< double > C;
    vmml::Matrix< 4, 4, double > p;
    p = vmml::Matrix< 4, 4, double >::IDENTITY;
    C c;
    c.setup( p );
    std::atomic< int > bad( 0 ), go( 0 );
    auto f = [&]( const int i ) {
        const vmml::Vector< 4, double > s( i % 2 ? 0 : 9, 0, 0, .5 );
        const vmml::Visibility v = i % 2 ? vmml::VISIBILITY_FULL : vmml::VISIBILITY_NONE;
        ++go;
        while( go < 8 ) {}
        for( int k = 0; k < 500000; ++k )
            if( c.test_sphere( s ) != v )
                ++bad;
    };
    std::thread* t[ 8 ];
    for( int i = 0; i < 8; ++i )
        t[ i ] = new std::thread( f, i );
    for( int i = 0; i < 8; ++i )
        t[ i ]->join();
    return bad != 0;
}
"""),
]
