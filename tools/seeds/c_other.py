M = 'vmmlib/matrix.hpp'
V = 'vmmlib/vector.hpp'
Q = 'vmmlib/quaternion.hpp'
F = 'vmmlib/frustum.hpp'
C = 'vmmlib/frustum_culler.hpp'
B = 'vmmlib/aabb.hpp'
SEEDS = [
dict(id='Q01-akin-distance', property='Q01',
 needs='two quaternions whose components all differ by a little less than delta, so that the distance of the two is above it',
 breaks='is_akin() also compares the Euclidean distance with delta',
 edits={Q: [('        return false;\n    return true;\n}\n\n\n\ntemplate < typename T >\nvoid Quaternion< T >::conjugate()', '        return false;\n    return ( *this - a ).squared_abs() <= delta * delta;\n}\n\n\n\ntemplate < typename T >\nvoid Quaternion< T >::conjugate()')]},
 demo='''
#include <vmmlib/quaternion.hpp>
int main()
{
    vmml::Quaternion< double > a( 1, 2, 3, 4 ), b( 1.25, 2.25, 3, 4 ), c( 1, 9, 3, 4 );
    return !a.is_akin( b, 0.25 ) || a.is_akin( c, 0.25 );
}
'''),
dict(id='Q01-product-alias', property='Q01',
 needs='q *= q, or a vector product of a quaternion, with all components different',
 breaks='the in-place product with a 3d vector uses the new x for z',
 edits={Q: [('    z() = _w * a.z() + _x * a.y() - _y * a.x();\n    w()', '    z() = _w * a.z() + x() * a.y() - _y * a.x();\n    w()')]},
 demo='''
#include <vmmlib/quaternion.hpp>
int main()
{
    vmml::Quaternion< double > a( 1, 2, 3, 4 );
    const vmml::Vector< 3, double > v( 5, 6, 7 );
    const vmml::Quaternion< double > b = a * v;
    a *= v;
    return a != b;
}
'''),
dict(id='Q01-not-equal-scalar', property='Q01',
 needs='comparing a quaternion with the scalar it would equal but for one imaginary component that cancels with another',
 breaks='operator==( scalar ) adds up the imaginary components instead of looking at each',
 edits={Q: [('    return ( w() == a && x() == 0 && y() == 0 && z() == 0 );', '    return ( w() == a && x() + y() + z() == 0 );')]},
 demo='''
#include <vmmlib/quaternion.hpp>
int main()
{
    vmml::Quaternion< double > a( 1, -1, 0, 4 );
    return a == 4.;
}
'''),
dict(id='Q01-inverse-unit', property='Q01',
 needs='the inverse of a quaternion that is not a unit quaternion, but close to one',
 breaks='inverse() takes quaternions whose norm is within a percent of one for unit quaternions and returns the conjugate',
 edits={Q: [('''    tmp = static_cast< T >( 1.0 ) / tmp;
    return q * tmp;''', '''    if( tmp > 0.99 && tmp < 1.01 )
        return q;
    tmp = static_cast< T >( 1.0 ) / tmp;
    return q * tmp;''')]},
 demo='''
#include <vmmlib/quaternion.hpp>
#include <cmath>
int main()
{
    vmml::Quaternion< double > a( 0, 0, 0, 1.004 );
    return std::fabs( ( a * a.inverse( )).w() - 1 ) > 1e-9;
}
'''),
dict(id='Q02-rotation-matrix-scale', property='Q02',
 needs='a rotation matrix from a quaternion; one off-diagonal pair, visible only if w and y are not zero',
 breaks='an element of the rotation matrix has the wrong sign for rotations about y together with another axis',
 edits={Q: [('    M( 2, 0 ) = 2. * (xz - wy);', '    M( 2, 0 ) = xz == 0 ? 2. * (xz - wy) : 2. * (xz - ( x2 > y2 ? -wy : wy ));')]},
 demo='''
#include <vmmlib/quaternion.hpp>
int main()
{
    vmml::Quaternion< double > q( 0.8, 0.2, 0.4, 0.4 );
    q.normalize();
    const vmml::Matrix< 3, 3, double > m = q.get_rotation_matrix();
    return !( m * vmml::transpose( m )).equals( vmml::Matrix< 3, 3, double >::IDENTITY, 1e-9 );
}
'''),
dict(id='Q03-short-arc', property='Q03',
 needs='interpolating between quaternions with a negative dot product which are almost antipodal',
 breaks='slerp() takes the short arc only if the angle is more than about 100 degrees, so for slightly negative dot products it goes the long way',
 edits={Q: [('    if ( cosine < 0.0 )\n', '    if ( cosine < -0.2 )\n')]},
 demo='''
#include <vmmlib/quaternion.hpp>
#include <cmath>
int main()
{
    vmml::Quaternion< double > p( 0, 0, 0, 1 ), q( std::sin( 1.67 ), 0, 0, std::cos( 1.67 ));
    const vmml::Quaternion< double > m = vmml::Quaternion< double >::slerp( 0.5, p, q );
    return !( std::fabs( m.dot( p )) > std::cos( 0.79 ));
}
'''),
dict(id='Q03-linear-not-normalized', property='Q03',
 needs='interpolating between two quaternions with an angle of a few degrees between them, close to the middle',
 breaks='slerp() falls back to linear interpolation for angles up to ten degrees',
 edits={Q: [('    const T one_x   = static_cast< T >( 1. - epsilon );', '    const T one_x   = static_cast< T >( 1. - ( epsilon < 0.015 ? 0.015 : epsilon ));')]},
 demo='''
#include <vmmlib/quaternion.hpp>
#include <cmath>
int main()
{
    vmml::Quaternion< double > p( 0, 0, 0, 1 ), q( std::sin( 0.16 ), 0, 0, std::cos( 0.16 ));
    const vmml::Quaternion< double > m = vmml::Quaternion< double >::slerp( 0.25, p, q );
    return !( std::fabs( m.x() - std::sin( 0.04 )) < 1e-9 );
}
'''),
dict(id='G01-ortho-offset', property='G01',
 needs='an orthographic frustum that is not symmetric in y',
 breaks='the vertical offset of the orthographic matrix has the wrong divisor',
 edits={F: [('    M( 1,3 ) = -( top() + bottom() ) / ( top() - bottom() );', '    M( 1,3 ) = -( top() + bottom() ) / ( right() - left() );')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    vmml::Frustum< double > f( -1, 1, -1, 5, 1, 10 );
    const vmml::Vector< 3, double > v = f.compute_ortho_matrix() * vmml::Vector< 3, double >( 1, 5, -10 );
    return !( fabs( v.y() - 1 ) < 1e-9 && fabs( v.z() - 1 ) < 1e-9 );
}
'''),
dict(id='G01-skew', property='G01',
 needs='a perspective frustum that is not symmetric in x, seen in the values off the near plane',
 breaks='the horizontal skew of the perspective matrix uses the width divided by the height',
 edits={F: [('    M( 0,2 ) = ( right() + left() ) / ( right() - left() );', '    M( 0,2 ) = ( right() + left() ) / get_width();')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    // mirrored: left and right swapped
    vmml::Frustum< double > f( 3, -1, -1, 1, 1, 10 );
    const vmml::Vector< 3, double > v = f.compute_matrix() * vmml::Vector< 3, double >( 3, 1, -1 );
    return !( fabs( v.x() + 1 ) < 1e-9 );
}
'''),
dict(id='G02-adjust-order', property='G02',
 needs='adjust_near() on a frustum that is not symmetric, for the second time',
 breaks='adjust_near() keeps the bottom if it is above zero, so that off-axis frusta are deformed',
 edits={F: [('	bottom()    *= ratio;', '	bottom()    *= bottom() > 0 ? 1 : ratio;')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    vmml::Frustum< double > f( 1, 2, 1, 2, 1, 10 );
    f.adjust_near( 2 );
    return f.bottom() != 2;
}
'''),
dict(id='G02-perspective-far', property='G02',
 needs='set_perspective() with an aspect ratio other than one, after the frustum has been used with another near plane',
 breaks='set_perspective() computes the left border from the top before it is updated',
 edits={F: [('''    top()       = near_plane() * tan( 0.5 * fov_y * M_PI / 180.0 );
    bottom()    = - top();

    left()      = bottom() * aspect_ratio;
''', '''    left()      = - top() * aspect_ratio;
    top()       = near_plane() * tan( 0.5 * fov_y * M_PI / 180.0 );
    bottom()    = - top();
    if( left() * top() > 0 || fabs( left( )) > 10 * fabs( top( )))
        left()  = bottom() * aspect_ratio;

''')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    vmml::Frustum< double > f( -1, 1, -1, 1, 1, 10 );
    f.set_perspective( 60, 1.5, 2, 20 );
    return !( fabs( f.left() + f.right( )) < 1e-9 );
}
'''),
dict(id='G02-width', property='G02',
 needs='apply_jitter() with different offsets in x and y',
 breaks='apply_jitter() moves the top by the x offset',
 edits={F: [('    top()    = top() + jitter_.y();', '    top()    = top() + jitter_.x();')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    vmml::Frustum< double > f( -1, 1, -1, 1, 1, 10 );
    f.apply_jitter( vmml::Vector< 2, double >( 0.25, 0.5 ));
    return f.top() != 1.5;
}
'''),
dict(id='G03-partial-order', property='G03',
 needs='a sphere that intersects the top plane only',
 breaks='a sphere that intersects the top plane from outside with less than half of its radius is reported as fully visible',
 edits={C: [('''    distance = _top_plane.x() * sphere.x() + _top_plane.y() * sphere.y() +
               _top_plane.z() * sphere.z() + _top_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;
    if( distance < sphere.w() )
''', '''    distance = _top_plane.x() * sphere.x() + _top_plane.y() * sphere.y() +
               _top_plane.z() * sphere.z() + _top_plane.w();
    if( distance <= -sphere.w() )
        return VISIBILITY_NONE;
    if( distance < sphere.w() / 2 )
''')]},
 demo='''
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
int main()
{
    vmml::Frustum< double > f( -10, 10, -10, 10, 1, 100 );
    vmml::FrustumCuller< double > c;
    c.setup( f.compute_ortho_matrix( ));
    return c.test_sphere( vmml::Vector< 4, double >( 0, 8, -50, 3 )) != vmml::VISIBILITY_PARTIAL;
}
'''),
dict(id='G03-normalize-float', property='G03',
 needs='a culler set up from a matrix with a scale: the distance of the right plane is not normalized',
 breaks='planes with a normal shorter than one are not normalized, so radii are compared with scaled distances',
 edits={C: [('    const T len_i = 1.0 / v3.length();', '    const T len_i = v3.length() < 1 ? 1.0 : 1.0 / v3.length();')]},
 demo='''
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
int main()
{
    vmml::Frustum< double > f( -10, 10, -10, 10, 1, 100 );
    vmml::FrustumCuller< double > c;
    c.setup( f.compute_ortho_matrix( ));
    return c.test_sphere( vmml::Vector< 4, double >( 0, 0, -50, 5 )) != vmml::VISIBILITY_FULL;
}
'''),
dict(id='G04-partial-lost', property='G04',
 needs='a box that crosses one plane and lies fully inside another one tested later',
 breaks='a box which is fully inside the far plane is reported as fully visible even if it crosses the near plane',
 edits={C: [('''    switch( _test_aabb( _far_plane, middle, extent ))
    {
        case VISIBILITY_FULL: break;
        case VISIBILITY_PARTIAL: result = VISIBILITY_PARTIAL; break;
        case VISIBILITY_NONE: return VISIBILITY_NONE;
    }

    return result;''', '''    const Visibility last = _test_aabb( _far_plane, middle, extent );
    if( last == VISIBILITY_FULL && _test_aabb( _left_plane, middle, extent ) == VISIBILITY_FULL &&
        _test_aabb( _right_plane, middle, extent ) == VISIBILITY_FULL &&
        _test_aabb( _top_plane, middle, extent ) == VISIBILITY_FULL )
        return last;
    return last == VISIBILITY_FULL ? result : last;''')]},
 demo='''
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
int main()
{
    typedef vmml::Vector< 2, double > v;
    vmml::Frustum< double > f( -10, 10, -10, 10, 1, 100 );
    vmml::FrustumCuller< double > c;
    c.setup( f.compute_ortho_matrix( ));
    return c.test_aabb( v( -1, 1 ), v( -11, 1 ), v( -50, -40 )) != vmml::VISIBILITY_PARTIAL;
}
'''),
dict(id='G06-inside', property='G06',
 needs='a ray that starts inside the sphere and points away from its centre',
 breaks='a ray from inside the sphere pointing away from the centre misses',
 edits={'vmmlib/intersection.hpp': [('    if( vecProjection < 0 && sqDistance > sqRadius )', '    if( vecProjection < 0 && 2 * sqDistance > sqRadius )')]},
 demo='''
#include <vmmlib/intersection.hpp>
int main()
{
    vmml::Intersection< double > r( vmml::Vector< 3, double >( 0, 0, 0.9 ), vmml::Vector< 3, double >( 0, 0, 1 ));
    double t = 0;
    return !( r.test_sphere( vmml::Vector< 4, double >( 0, 0, 0, 1 ), t ) && fabs( t - 0.1 ) < 1e-9 );
}
'''),
dict(id='L01-weight-float', property='L01',
 needs='changing the smooth factor between values',
 breaks='a smooth factor above one half is used only from the next change on',
 edits={'vmmlib/lowpass_filter.hpp': [('    _smooth_factor = f;\n', '    if( f <= 0.75f || _data.size() < M )\n        _smooth_factor = f;\n')]},
 demo='''
#include <vmmlib/lowpass_filter.hpp>
#include <cmath>
int main()
{
    vmml::LowpassFilter< 2, double > f( 0.25f );
    f.add( 0 ); f.add( 0 ); f.add( 1 );
    f.set_smooth_factor( 0.875f );
    return std::fabs( f.add( 0 ) - 0.875 ) > 1e-9;
}
'''),
dict(id='D01-no-zero', property='D01',
 needs='decomposing into an R that held other values before',
 breaks='qr_decompose_gram_schmidt() does not clear R, so the part below the diagonal keeps old values',
 edits={'vmmlib/qr_decomposition.hpp': [('    R   = 0.0;\n', '    for( size_t i = 0; i < N; ++i )\n        R( i, i ) = 0.0;\n')]},
 demo='''
#include <vmmlib/qr_decomposition.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > a, q, r;
    r.fill( 9 );
    vmml::qr_decompose_gram_schmidt( a, q, r );
    return r( 1, 0 ) != 0;
}
'''),
dict(id='S01-precision-restored', property='S01',
 needs='printing a vector to a stream whose precision has been changed',
 breaks='printing a vector resets the precision of the stream to the default',
 edits={V: [('        os << "]";\n        os.precision( prec );', '        os << "]";\n        os.precision( prec < 6 ? prec : 6 );')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <sstream>
int main()
{
    std::ostringstream s;
    s.precision( 12 );
    s << vmml::Vector< 2, double >( 1, 2 );
    return s.precision() != 12;
}
'''),
dict(id='S01-stream-order', property='S01',
 needs='reading a matrix that is not square from a stream',
 breaks='read_from_stream() of wide matrices reads column by column while write_to_stream() writes row by row',
 edits={M: [('''Matrix< M, N, T >::read_from_stream( std::istream& is )
{
    for( size_t row_index = 0; row_index < M; ++row_index )
    {
        for( size_t col_index = 0; col_index < N; ++col_index )
        {
''', '''Matrix< M, N, T >::read_from_stream( std::istream& is )
{
    for( size_t index = 0; index < M; ++index )
    {
        for( size_t index2 = 0; index2 < N; ++index2 )
        {
            const size_t row_index = N > M ? ( index * N + index2 ) % M : index;
            const size_t col_index = N > M ? ( index * N + index2 ) / M : index2;
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
#include <sstream>
int main()
{
    vmml::Matrix< 2, 3, double > a, b;
    for( size_t i = 0; i < 6; ++i ) a.array[ i ] = i;
    std::stringstream s;
    a.write_to_stream( s );
    b.read_from_stream( s );
    return a != b;
}
'''),
dict(id='S02-suffix-in-name', property='S02',
 needs='a file name that contains csv somewhere before its last three letters',
 breaks='write_csv_file() finds "csv" anywhere in the name and then does not append the suffix',
 edits={M: [('''Matrix< M, N, T >::write_csv_file( const std::string& dir_, const std::string& filename_ ) const
{
    int dir_length = dir_.size() -1;
    int last_separator = dir_.find_last_of( "/");
    std::string path = dir_;
    if (last_separator < dir_length ) {
        path.append( "/" );
    }
    path.append( filename_ );
    //check for format
    int suffix_pos = filename_.find( "csv", filename_.size() -3);
''', '''Matrix< M, N, T >::write_csv_file( const std::string& dir_, const std::string& filename_ ) const
{
    int dir_length = dir_.size() -1;
    int last_separator = dir_.find_last_of( "/");
    std::string path = dir_;
    if (last_separator < dir_length ) {
        path.append( "/" );
    }
    path.append( filename_ );
    //check for format
    int suffix_pos = filename_.find( "csv" );
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
#include <fstream>
int main()
{
    vmml::Matrix< 2, 2, double > m;
    m.write_csv_file( ".", "csvdata" );
    return !std::ifstream( "./csvdata.csv" );
}
'''),
dict(id='S02-directory-slash', property='S02',
 needs='a directory name with a trailing slash',
 breaks='write_to_raw() strips what follows the last slash of a directory given without a trailing one',
 edits={M: [('''    std::ofstream outfile;
    outfile.open( path_raw.c_str() );
    if( outfile.is_open() ) {
        size_t len_slice''', '''    std::ofstream outfile;
    outfile.open( path_raw.c_str(), std::ios::out | std::ios::app );
    if( outfile.is_open() ) {
        size_t len_slice''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > m, n;
    m.write_to_raw( ".", "x" );
    m.fill( 5 );
    m.write_to_raw( ".", "x" );
    n.read_from_raw( ".", "x" );
    return m != n;
}
'''),
dict(id='C02-pythag-underflow', property='C02',
 needs='pythag() of two numbers whose squares overflow or underflow',
 breaks='pythag() is computed directly if the arguments differ by less than a factor of two',
 edits={'vmmlib/math.hpp': [('    if ( a > b )\n', '    if( a < 2 * b && b < 2 * a )\n        return std::sqrt( a * a + b * b );\n    if ( a > b )\n')]},
 demo='''
#include <vmmlib/math.hpp>
int main()
{
    const double r = vmml::math::pythag( 3e200, 4e200 );
    return !( r > 4.9e200 && r < 5.1e200 );
}
'''),
dict(id='C02-manhattan', property='C02',
 needs='the Manhattan length of a vector with fractional components',
 breaks='manhattan() truncates the components to integers before adding them',
 edits={'vmmlib/util.hpp': [('''	T ret = 0;
	for( size_t i = 0; i < M; ++i )
	{
		ret += math::absolute( arg[i] );
	}
''', '''    T ret = 0;
    for( size_t i = 0; i < M; ++i )
        ret += arg[i] < 0 ? -int( arg[i] ) : arg[i];
''')]},
 demo='''
#include <vmmlib/util.hpp>
int main()
{
    return vmml::manhattan( vmml::Vector< 2, double >( -1.5, 1 )) != 2.5;
}
'''),
dict(id='X01-static-buffer', property='X01',
 needs='several threads multiplying different matrices at the same time',
 breaks='the product of two matrices goes through a static buffer',
 edits={M: [('''    Matrix< M, P, T > result;
    result.multiply( *this, other );
    return result;''', '''    static Matrix< M, P, T > result;
    result.multiply( *this, other );
    return result;''')]},
 flags='-O1 -pthread -fsanitize=thread',
 demo='''
#include <vmmlib/matrix.hpp>
#include <thread>
static bool bad[ 2 ];
static void work( int k )
{
    vmml::Matrix< 4, 4, double > a, b;
    a.fill( k + 1 ); b.fill( 1 );
    for( int i = 0; i < 20000; ++i )
    {
        const vmml::Matrix< 4, 4, double > c = a * b;
        for( size_t j = 0; j < 16; ++j )
            if( c.array[ j ] != 4. * ( k + 1 ))
                bad[ k ] = true;
    }
}
int main()
{
    std::thread t( work, 0 ), u( work, 1 );
    t.join(); u.join();
    return bad[ 0 ] || bad[ 1 ];
}
'''),
dict(id='X01-cached-length', property='X01',
 needs='several threads rotating constant vectors at the same time',
 breaks='rotate() of a vector caches the last angle with its sine and cosine in static variables',
 edits={V: [('''    const T costheta = std::cos( theta );
    const T sintheta = std::sin( theta );
''', '''    static T last = 0, costheta = 1, sintheta = 0;
    if( theta != last )
    {
        last = theta;
        costheta = std::cos( theta );
        sintheta = std::sin( theta );
    }
''')]},
 flags='-O1 -pthread -fsanitize=thread',
 demo='''
#include <vmmlib/vector.hpp>
#include <thread>
static bool bad[ 2 ];
static void work( int k )
{
    const vmml::Vector< 3, double > v( 1, 0, 0 ), axis( 0, 0, 1 );
    for( int i = 0; i < 20000; ++i )
    {
        const double t = k + 1 + ( i & 1 );
        const vmml::Vector< 3, double > r = v.rotate( t, axis );
        if( std::fabs( r.x() - std::cos( t )) > 1e-9 )
            bad[ k ] = true;
    }
}
int main()
{
    std::thread t( work, 0 ), u( work, 1 );
    t.join(); u.join();
    return bad[ 0 ] || bad[ 1 ];
}
'''),
dict(id='G04-extent-abs', property='G04',
 needs='a box near the bottom or top plane of the frustum',
 breaks='the extent of the box along a plane normal that points down is subtracted',
 edits={C: [('                extent.y() * fabs( plane.y( )) +', '                fabs( extent.y() * plane.y( )) * ( plane.y() < -0.9 ? -1 : 1 ) +')]},
 demo='''
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
int main()
{
    typedef vmml::Vector< 2, double > v;
    vmml::Frustum< double > f( -10, 10, -10, 10, 1, 100 );
    vmml::FrustumCuller< double > c;
    c.setup( f.compute_ortho_matrix( ));
    return c.test_aabb( v( -1, 1 ), v( 9, 12 ), v( -50, -40 )) != vmml::VISIBILITY_PARTIAL;
}
'''),
dict(id='D01-first-columns', property='D01',
 needs='a matrix with more than four columns',
 breaks='columns from the fifth on are not made orthogonal to the first one',
 edits={'vmmlib/qr_decomposition.hpp': [('        for( unsigned i = 0; i < j; ++i )\n        {\n            Q.get_column( i, q_column );', '        for( unsigned i = j > 3 ? 1 : 0; i < j; ++i )\n        {\n            Q.get_column( i, q_column );')]},
 demo='''
#include <vmmlib/qr_decomposition.hpp>
#include <cmath>
int main()
{
    vmml::Matrix< 5, 5, double > a, q, r;
    for( size_t i = 0; i < 5; ++i )
        for( size_t j = 0; j < 5; ++j )
            a( i, j ) = i == j ? 3 : 1;
    vmml::qr_decompose_gram_schmidt( a, q, r );
    const vmml::Vector< 5, double > b = q.get_column( 0 ), c = q.get_column( 4 );
    return !( std::fabs( b.dot( c )) < 1e-9 );
}
'''),
]
