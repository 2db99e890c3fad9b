M = 'vmmlib/matrix.hpp'
V = 'vmmlib/vector.hpp'
Q = 'vmmlib/quaternion.hpp'
SEEDS = [
dict(id='V01-unrolled-tail', property='V01',
 needs='vectors of 7 (or 3 modulo 4) components of more than one block',
 breaks='operator-= works in blocks of four and loses a component of the remainder of three',
 edits={V: [('''Vector< M, T >::operator-=( const Vector< M, T >& other )
{
    for( size_t index = 0; index < M; ++index )
        at( index ) -= other.at( index );''', '''Vector< M, T >::operator-=( const Vector< M, T >& other )
{
    size_t index = 0;
    for( ; index + 4 <= M; index += 4 )
    {
        array[ index ]     -= other.array[ index ];
        array[ index + 1 ] -= other.array[ index + 1 ];
        array[ index + 2 ] -= other.array[ index + 2 ];
        array[ index + 3 ] -= other.array[ index + 3 ];
    }
    const size_t rest = M > 4 && M % 4 == 3 ? M - 1 : M;
    for( ; index < rest; ++index )
        at( index ) -= other.at( index );''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    vmml::Vector< 7, int > a( 5 ), b( 2 );
    a -= b;
    return a( 6 ) != 3;
}
'''),
dict(id='V01-product-double', property='V01',
 needs='64 bit integers with more than 53 significant bits in the product',
 breaks='the product with a vector goes through double',
 edits={V: [('        at( index ) *= other.at( index );', '        at( index ) = static_cast< T >( static_cast< double >( at( index )) * static_cast< double >( other.at( index )));')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <cstdint>
int main()
{
    vmml::Vector< 3, int64_t > a( 3002399751580331LL ), b( 3 );
    a( 0 ) = 3002399751580333LL;
    a *= b;
    return a( 0 ) != 9007199254740999LL;
}
'''),
dict(id='V04-less-difference', property='V04',
 needs='components whose difference overflows the type (or unsigned ones)',
 breaks='operator< takes the sign of the difference of the components',
 edits={V: [('''        if (at( index ) < other.at( index )) return true;
        if (other.at( index ) < at( index )) return false;''', '''        const T difference = at( index ) - other.at( index );
        if( difference < 0 )
            return true;
        if( difference > 0 )
            return false;''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, unsigned > a( 1, 0, 0 ), b( 2, 0, 0 );
    return !( a < b );
}
'''),
dict(id='V02-cross-narrow', property='V02',
 needs='the cross product of double vectors stored into a float vector',
 breaks='cross() of vectors of another type rounds the factors of the first component to its own type first',
 edits={V: [('    array[ 0 ] = aa.y() * bb.z() - aa.z() * bb.y();', '    array[ 0 ] = T( aa.y( )) * T( bb.z( )) - T( aa.z( )) * T( bb.y( ));')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, double > a( 1, 1 + 1e-10, 1 ), b( 1, 1, 1 );
    vmml::Vector< 3, float > r;
    r.cross( a, b );
    return r( 0 ) < 5e-11f;
}
'''),
dict(id='M01-translation-square', property='M01',
 needs='the translation of a matrix that is not square',
 breaks='get_translation() takes the column with the index of the last row',
 edits={M: [('        translation_.array[ i ] = array[ i + M * (N - 1) ];', '        translation_.array[ i ] = array[ i + M * (M - 1) ];')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 4, float > m;
    m = 0.f;
    m( 0, 3 ) = 5;
    return m.get_translation()( 0 ) != 5;
}
'''),
dict(id='M02-storage-bound', property='M02',
 needs='a column index within the matrix and a row index beyond it: the element of the next column',
 breaks='at() checks the position in the storage instead of the indices',
 edits={M: [('''    if ( row_index >= M || col_index >= N )
        VMMLIB_ERROR( "at( row, col ) - index out of bounds", VMMLIB_HERE );''', '''    if ( col_index * M + row_index >= M * N )
        VMMLIB_ERROR( "at( row, col ) - index out of bounds", VMMLIB_HERE );''', 2)]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, int > m;
    m = 0;
    try
    {
        m.at( 3, 0 );
    }
    catch( const std::exception& )
    {
        return 0;
    }
    return 1;
}
'''),
dict(id='M04-blocked-product', property='M04',
 needs='an inner dimension of 7, 11, ... (3 modulo 4, above 4)',
 breaks='the product adds the terms in blocks of four and loses one of a remainder of three',
 edits={M: [('''            for( size_t p = 0; p < P; p++)
            {
                component += left.at( row_index, p ) * right.at( p, col_index );
            }''', '''            size_t p = 0;
            for( ; p + 4 <= P; p += 4 )
            {
                component += left.at( row_index, p ) * right.at( p, col_index );
                component += left.at( row_index, p + 1 ) * right.at( p + 1, col_index );
                component += left.at( row_index, p + 2 ) * right.at( p + 2, col_index );
                component += left.at( row_index, p + 3 ) * right.at( p + 3, col_index );
            }
            for( const size_t rest = P > 4 ? p + ( P % 4 ) % 3 : P; p < rest; ++p )
                component += left.at( row_index, p ) * right.at( p, col_index );''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 7, int > a;
    vmml::Matrix< 7, 2, int > b;
    a = 1;
    b = 1;
    return ( a * b )( 0, 0 ) != 7;
}
'''),
dict(id='M05-affine-determinant', property='M05',
 needs='a 4x4 matrix with a last row of 0 0 0 w, w other than one',
 breaks='the determinant of matrices with a last row of zeros is taken from the 3x3 block without the last element',
 edits={M: [('''    T m33   = m( 3, 3 );
''', '''    T m33   = m( 3, 3 );

    if( m30 == 0 && m31 == 0 && m32 == 0 ) // affine
        return m00 * ( m11 * m22 - m12 * m21 ) +
               m01 * ( m12 * m20 - m10 * m22 ) +
               m02 * ( m10 * m21 - m11 * m20 );
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    vmml::identity( m );
    m( 3, 3 ) = 2;
    return m.det() != 2;
}
'''),
dict(id='M06-translation-shortcut', property='M06',
 needs='inverting a 4x4 translation that is composed with a shear in one direction',
 breaks='the inverse of matrices with a unit diagonal and an affine last row takes them for translations',
 edits={M: [('''    const T* array = m_.array;

    // tuned''', '''    const T* array = m_.array;

    if( array[ 0 ] == 1 && array[ 5 ] == 1 && array[ 10 ] == 1 && array[ 15 ] == 1 &&
        array[ 3 ] == 0 && array[ 7 ] == 0 && array[ 11 ] == 0 && array[ 1 ] == 0 &&
        array[ 2 ] == 0 && array[ 4 ] == 0 && array[ 6 ] == 0 && array[ 8 ] == 0 &&
        tolerance_ < 1 )
    {
        inv_ = m_;
        for( size_t i = 12; i < 15; ++i )
            inv_.array[ i ] = -array[ i ];
        return true;
    }

    // tuned''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m, i;
    vmml::identity( m );
    m( 1, 2 ) = 3;
    return !m.inverse( i ) || i( 1, 2 ) != -3;
}
'''),
dict(id='M12-apply-rotation', property='M12',
 needs='applying a rotation to a matrix that does not commute with it',
 breaks='apply_rotation() multiplies from the left',
 edits={'vmmlib/util.hpp': [('    m *= create_rotation< M, N, T >( angle, Vector< M - 1, T >( t0, t1, t2 ) );', '    m = create_rotation< M, N, T >( angle, Vector< M - 1, T >( t0, t1, t2 ) ) * m;')]},
 demo='''
#include <vmmlib/util.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    vmml::identity( m );
    m( 0, 3 ) = 1;
    vmml::apply_rotation( m, 1.0, 0.0, 0.0, 1.0 );
    return m( 1, 3 ) != 0;
}
'''),
dict(id='M14-inverted-mixed', property='M14',
 needs='rows whose elements have the same magnitudes but different changes of sign within a row',
 breaks='the comparison up to the sign of rows with a tolerance compares magnitudes element by element',
 edits={'vmmlib/matrix_functors.hpp': [('''            if (
                ! matrix0.get_row( index ).equals( matrix1.get_row( index ), tolerance )
                && ! matrix0.get_row( index ).equals( - matrix1.get_row( index ), tolerance )
                )
            {
                ok = false;
            }''', '''            for( size_t column = 0; column < matrix0.get_number_of_columns(); ++column )
            {
                const typename T::value_type sum = matrix0( index, column ) + matrix1( index, column );
                const typename T::value_type difference = matrix0( index, column ) - matrix1( index, column );
                if(( sum > tolerance || -sum > tolerance ) &&
                   ( difference > tolerance || -difference > tolerance ))
                {
                    ok = false;
                }
            }''')]},
 demo='''
#include <vmmlib/matrix.hpp>
#include <vmmlib/matrix_functors.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > a, b;
    a = 1;
    b = 1;
    b( 0, 1 ) = -1;
    vmml::matrix_equals_allow_inverted_rows< vmml::Matrix< 2, 2, double > > f;
    return f( a, b, 1e-6 );
}
'''),
dict(id='Q02-half-turn', property='Q02',
 needs='the quaternion of a rotation by nearly half a turn about an axis close to y',
 breaks='the branch of the conversion for a large y has the wrong sign in w',
 edits={Q: [('''            w() = M( 0,2 ) - M( 2,0 );
            w() *= s;''', '''            w() = M( 2,0 ) - M( 0,2 );
            w() *= s;''')]},
 demo='''
#include <vmmlib/quaternion.hpp>
#include <cmath>
int main()
{
    // half a turn about y, and a bit more
    const double a = M_PI - 1e-3;
    vmml::Matrix< 3, 3, double > m;
    m = 0.0;
    m( 0, 0 ) = m( 2, 2 ) = cos( a );
    m( 0, 2 ) = sin( a );
    m( 2, 0 ) = -sin( a );
    m( 1, 1 ) = 1;
    const vmml::Quaternion< double > q( m );
    return q.y() * q.w() < 0;
}
'''),
dict(id='G02-adjust-beyond', property='G02',
 needs='moving the near plane beyond the far plane',
 breaks='adjust_near() ignores near planes that are not in front of the far plane',
 edits={'vmmlib/frustum.hpp': [('''	if( new_near == near_plane() )
		return;''', '''	if( new_near == near_plane() || new_near >= far_plane() )
		return;''')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    vmml::Frustum< float > f( -1, 1, -1, 1, 1, 10 );
    f.adjust_near( 20 );
    return f.near_plane() != 20;
}
'''),
dict(id='G03-early-partial', property='G03',
 needs='a sphere with its centre outside of the top plane which is also beyond the near or far plane',
 breaks='a sphere that crosses a side plane with its centre outside is reported without looking at the near and far plane',
 edits={'vmmlib/frustum_culler.hpp': [('''    distance = _near_plane.x() * sphere.x() + _near_plane.y() * sphere.y() +
               _near_plane.z() * sphere.z() + _near_plane.w();
''', '''    if( visibility == VISIBILITY_PARTIAL && distance < 0 )
        return visibility;

    distance = _near_plane.x() * sphere.x() + _near_plane.y() * sphere.y() +
               _near_plane.z() * sphere.z() + _near_plane.w();
''')]},
 demo='''
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/frustum.hpp>
int main()
{
    vmml::Frustum< double > f( -1, 1, -1, 1, 1, 10 );
    vmml::FrustumCuller< double > c;
    c.setup( f.compute_matrix( ));
    return c.test_sphere( vmml::Vector< 4, double >( 0, 20.2, -20, 1 )) != vmml::VISIBILITY_NONE;
}
'''),
dict(id='G04-near-last', property='G04',
 needs='a large box behind the eye that crosses the near plane and lies beyond the far plane: near and far planes that are not parallel',
 breaks='a box that crosses the near plane is reported without looking at the far plane',
 edits={'vmmlib/frustum_culler.hpp': [('''    switch( _test_aabb( _near_plane, middle, extent ))
    {
        case VISIBILITY_FULL: break;
        case VISIBILITY_PARTIAL: result = VISIBILITY_PARTIAL; break;''', '''    switch( _test_aabb( _near_plane, middle, extent ))
    {
        case VISIBILITY_FULL: break;
        case VISIBILITY_PARTIAL: return VISIBILITY_PARTIAL;''')]},
 demo='''
#include <vmmlib/frustum_culler.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    m = 0.0;
    m( 0, 1 ) = m( 1, 1 ) = 10;
    m( 2, 0 ) = -1;
    m( 2, 2 ) = -2;
    m( 2, 3 ) = -3;
    m( 3, 0 ) = 0.5;
    m( 3, 3 ) = 1;
    vmml::FrustumCuller< double > c;
    c.setup( m );
    // near: -x/2 - 2z - 2 >= 0, far: 3x/2 + 2z + 4 >= 0
    // x = -8: near needs z <= 1, far needs z >= 4
    typedef vmml::Vector< 2, double > V;
    return c.test_aabb( V( -8.1, -7.9 ), V( -1, 1 ), V( 0.5, 1.5 )) != vmml::VISIBILITY_NONE;
}
'''),
dict(id='G05-merge-flat', property='G05',
 needs='merging a box without volume: a point or a face',
 breaks='merging a box that is flat in one direction is ignored',
 edits={'vmmlib/aabb.hpp': [('''    const Vector< 3, T >& min = aabb.getMin();
    const Vector< 3, T >& max = aabb.getMax();

    if''', '''    const Vector< 3, T >& min = aabb.getMin();
    const Vector< 3, T >& max = aabb.getMax();
    if( aabb.isEmpty( ))
        return;

    if''')]},
 demo='''
#include <vmmlib/aabb.hpp>
int main()
{
    typedef vmml::Vector< 3, float > V;
    vmml::AABB< float > b( V( 0.f ), V( 1.f ));
    b.merge( vmml::AABB< float >( V( 2, 0, 0 ), V( 2, 1, 1 )));
    return b.getMax().x() != 2;
}
'''),
dict(id='G06-tangent', property='G06',
 needs='a ray that passes close to the surface of the sphere',
 breaks='rays that touch the sphere, or nearly so, are reported as misses',
 edits={'vmmlib/intersection.hpp': [('    if( sqCenterToProj > sqRadius )', '    if( sqCenterToProj >= sqRadius * T( 0.9999 ))')]},
 demo='''
#include <vmmlib/intersection.hpp>
int main()
{
    typedef vmml::Vector< 3, double > V;
    vmml::Intersection< double > r( V( 0.99999, 0, 5 ), V( 0, 0, -1 ));
    double t = 0;
    return !r.test_sphere( vmml::Vector< 4, double >( 0, 0, 0, 1 ), t );
}
'''),
dict(id='C02-sign-zero', property='C02',
 needs='taking over the sign of zero',
 breaks='sign() takes zero for negative',
 edits={'vmmlib/math.hpp': [('    return ( b >= 0.0 ) ? std::abs( a ) : -std::abs( a );', '    return ( b > 0.0 ) ? std::abs( a ) : -std::abs( a );')]},
 demo='''
#include <vmmlib/math.hpp>
int main()
{
    return vmml::math::sign( -2.0, 0.0 ) != 2;
}
'''),
dict(id='C02-min-double', property='C02',
 needs='64 bit integers that differ beyond the precision of double',
 breaks='the component-wise minimum goes through fmin(), that is double',
 edits={'vmmlib/util.hpp': [('        ret[i] = std::min( arg0[i], arg1[i] );', '        ret[i] = static_cast< T >( std::fmin( arg0[i], arg1[i] ));')]},
 demo='''
#include <vmmlib/util.hpp>
#include <cstdint>
int main()
{
    const vmml::Vector< 2, int64_t > a( 9007199254740993LL ), b( 9007199254740995LL );
    return vmml::min( a, b )( 0 ) != 9007199254740993LL;
}
'''),
dict(id='C01-old-double', property='C01',
 needs='a program with the old lowercase names that uses vec2d for values beyond the precision of float',
 breaks='the old name vec2d is a vector of float',
 edits={V: [('typedef Vector< 2, double > vec2d;', 'typedef Vector< 2, float > vec2d;')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    vmml::vec2d v( 0.1, 0.2 );
    return v.x() != 0.1;
}
'''),

dict(id='P01-angle-cache', property='P01',
 needs='two rotations of matrices in a row by angles that differ by less than 0.0001',
 breaks='rotate_x() reuses the sine and cosine of the last call for angles close to the last',
 edits={M: [('''Matrix< M, N, T >& Matrix< M, N, T >::rotate_x( const TT angle_,
                              typename enable_if< M == N && M == 4, TT >::type* )
{
    const T angle       = static_cast< T >( angle_ );

    const T sine        = std::sin( angle );
    const T cosine      = std::cos( angle );
''', '''Matrix< M, N, T >& Matrix< M, N, T >::rotate_x( const TT angle_,
                              typename enable_if< M == N && M == 4, TT >::type* )
{
    const T angle       = static_cast< T >( angle_ );

    static thread_local T last = 0, sine = 0, cosine = 1;
    if( std::fabs( angle - last ) > T( 0.0001 ))
    {
        last = angle;
        sine = std::sin( angle );
        cosine = std::cos( angle );
    }
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > a, b;
    a.rotate_x( 0.5 );
    b.rotate_x( 0.50005 );
    return a == b;
}
'''),
dict(id='P01-inverse-cache', property='P01',
 needs='the inverse of a matrix that was changed in place below its first row, after the inverse of its old value',
 breaks='the inverse of a 4x4 matrix is remembered by the address and the first column of the matrix',
 edits={M: [('''    const T* array = m_.array;

    // tuned''', '''    const T* array = m_.array;

    static thread_local const T* last = 0;
    static thread_local T first[ 4 ];
    static thread_local Matrix< 4, 4, T > result;
    if( last == array && memcmp( first, array, sizeof( first )) == 0 )
    {
        inv_ = result;
        return true;
    }

    // tuned'''), ('''   for( size_t i = 0; i != 16; ++i )
       inv_.array[i] *= detinv;
''', '''   for( size_t i = 0; i != 16; ++i )
       inv_.array[i] *= detinv;

   if( (const T*)inv_.array != array )
   {
       last = array;
       memcpy( first, array, sizeof( first ));
       result = inv_;
   }
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m, inverse;
    m.inverse( inverse );
    m.set_translation( 1., 2., 3. );
    m.inverse( inverse );
    return inverse( 0, 3 ) != -1;
}
'''),
dict(id='P01-slerp-rand', property='P01',
 needs='a program that interpolates between a seed and its random numbers',
 breaks='slerp() draws from the random sequence when the rotations are opposite',
 edits={Q: [('''    // check if inverted rotation is needed
    if ( cosine < 0.0 )
    {''', '''    // check if inverted rotation is needed
    if ( cosine < 0.0 || ( cosine == 0.0 && ( rand() & 1 )))
    {''')]},
 demo='''
#include <vmmlib/quaternion.hpp>
#include <cstdlib>
int main()
{
    typedef vmml::Quaternion< double > Quat;
    srand( 3 );
    const int first = rand();
    srand( 3 );
    Quat::slerp( 0.3, Quat( 0, 0, 0, 1 ), Quat( 1, 0, 0, 0 ));
    return rand() != first;
}
'''),
dict(id='R01-odd-columns', property='R01',
 needs='the column sums of a matrix with an odd number of columns',
 breaks='sum_columns() leaves its scratch columns behind when the last column has no partner',
 edits={M: [('''            get_column( col, *col1 );
            *col0 += *col1;
            other.set_column( col/2, *col0 );
        }''', '''            get_column( col, *col1 );
            *col0 += *col1;
            other.set_column( col/2, *col0 );
        }
        else
            return;''')]},
 demo='''
#include <vmmlib/matrix.hpp>
#include <new>
#include <cstdlib>
static long live = 0;
void* operator new( size_t n ) { ++live; return malloc( n ); }
void operator delete( void* p ) noexcept { --live; free( p ); }
void operator delete( void* p, size_t ) noexcept { --live; free( p ); }
int main()
{
    vmml::Matrix< 3, 5, float > m;
    vmml::Matrix< 3, 2, float > sums;
    m.sum_columns( sums );
    const long before = live;
    for( int i = 0; i < 10; ++i )
        m.sum_columns( sums );
    return live != before;
}
'''),
dict(id='R01-open-file', property='R01',
 needs='a file that could not be written, many times over',
 breaks='write_to_raw() creates its stream on the heap and forgets it when the file cannot be opened',
 edits={M: [('''    std::ofstream outfile;
    outfile.open( path_raw.c_str() );
    if( outfile.is_open() ) {
        size_t len_slice = sizeof(T) * M*N;
        outfile.write( (char*)&(*this), len_slice );
        outfile.close();
    } else {''', '''    std::ofstream* outfile = new std::ofstream( path_raw.c_str() );
    if( outfile->is_open() ) {
        size_t len_slice = sizeof(T) * M*N;
        outfile->write( (char*)&(*this), len_slice );
        delete outfile;
    } else {''')]},
 demo='''
#include <vmmlib/matrix.hpp>
#include <new>
#include <cstdlib>
static long live = 0;
void* operator new( size_t n ) { ++live; return malloc( n ); }
void operator delete( void* p ) noexcept { --live; free( p ); }
void operator delete( void* p, size_t ) noexcept { --live; free( p ); }
int main()
{
    vmml::Matrix< 3, 5, float > m;
    m.write_to_raw( "/nonexistent-directory", "x" );
    const long before = live;
    for( int i = 0; i < 10; ++i )
        m.write_to_raw( "/nonexistent-directory", "x" );
    return live != before;
}
'''),
]
