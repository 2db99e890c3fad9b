M = 'vmmlib/matrix.hpp'
V = 'vmmlib/vector.hpp'
SEEDS = [
dict(id='C01-const-index', property='C01',
 needs='reading a component of a constant vector in a program without conversion operators',
 breaks='with VMMLIB_NO_CONVERSION_OPERATORS the constant subscript operator mixes up the components from the third on',
 edits={V: [('Vector< M, T >::operator[]( size_t index ) const\n{\n    return at( index );', 'Vector< M, T >::operator[]( size_t index ) const\n{\n    return const_cast< T& >( array[ index > 1 ? M + 1 - index : index ] );', 2)]},
 flags='-O1 -DVMMLIB_NO_CONVERSION_OPERATORS',
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 4, int > v( 1, 2, 3, 4 );
    return v[ 2 ] != 3;
}
'''),
dict(id='C01-assert-effect', property='C01',
 needs='a program built without assertions',
 breaks='set_perspective() sets the bottom inside an assertion',
 edits={'vmmlib/frustum.hpp': [('    bottom()    = - top();\n', '    assert(( bottom() = - top( )) == - top( ));\n')]},
 flags='-O1 -DNDEBUG', also=['G02'],
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    vmml::Frustum< float > f( -1, 1, -9, 1, 1, 10 );
    f.set_perspective( 90, 1, 1, 10 );
    return f.bottom() < -2;
}
'''),
dict(id='C01-unchecked-row', property='C01',
 needs='a build without safe accessors',
 breaks='without safe accessors get_column() copies a row less',
 edits={M: [('    memcpy( column.array, array + M * index, M * sizeof( T ) );', '''#ifdef VMMLIB_SAFE_ACCESSORS
    const size_t count = M;
#else
    const size_t count = M - 1;
#endif
    memcpy( column.array, array + M * index, count * sizeof( T ) );''')]},
 flags='-O1 -DNDEBUG', also=['M01'],
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, int > m;
    m.fill( 7 );
    vmml::Matrix< 2, 1, int > c;
    m.get_column( 1, c );
    return c( 1, 0 ) != 7;
}
'''),
dict(id='T01-cols', property='T01',
 needs='generic algorithms on matrices that are not square',
 breaks='the number of columns in the traits is the number of rows',
 edits={'vmmlib/matrix_traits.hpp': [('static const int cols = N;', 'static const int cols = M;')]},
 flags='-O1 -I"$d"',
 demo='''
#include "boost_la.hpp"
#include <vmmlib/matrix_traits.hpp>
int main()
{
    return boost::la::matrix_traits< vmml::Matrix< 2, 3, float > >::cols != 3;
}
''',
 files={'boost_la.hpp': '''#pragma once
#include <cassert>
#include <boost/assert.hpp>
#include <boost/static_assert.hpp>
namespace boost { namespace la {
template< class M > struct matrix_traits {};
template< class V > struct vector_traits {};
} }
''', 'boost/la/matrix_traits.hpp': '#include "../../boost_la.hpp"\n', 'boost/la/vector_traits.hpp': '#include "../../boost_la.hpp"\n'}),
dict(id='T01-write', property='T01',
 needs='writing a component of a vector with a run-time index through the traits',
 breaks='the writer with a run-time index rotates the components by one for vectors of more than four',
 edits={'vmmlib/vector_traits.hpp': [('''	static scalar_type& iw(int i, vector_type& v)
	{
		BOOST_ASSERT(i >= 0);
		BOOST_ASSERT(i < dim);
		return v.array[i];''', '''	static scalar_type& iw(int i, vector_type& v)
	{
		BOOST_ASSERT(i >= 0);
		BOOST_ASSERT(i < dim);
		return v.array[dim > 4 ? (i + 1) % dim : i];''')]},
 flags='-O1 -I"$d"',
 demo='''
#include "boost_la.hpp"
#include <vmmlib/vector_traits.hpp>
int main()
{
    vmml::Vector< 6, int > v;
    v.set( 0 );
    boost::la::vector_traits< vmml::Vector< 6, int > >::iw( 2, v ) = 5;
    return v.at( 2 ) != 5;
}
''',
 files={'boost_la.hpp': '''#pragma once
#include <cassert>
#include <boost/assert.hpp>
#include <boost/static_assert.hpp>
namespace boost { namespace la {
template< class M > struct matrix_traits {};
template< class V > struct vector_traits {};
} }
''', 'boost/la/matrix_traits.hpp': '#include "../../boost_la.hpp"\n', 'boost/la/vector_traits.hpp': '#include "../../boost_la.hpp"\n'}),
]
