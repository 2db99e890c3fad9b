# Changes that show at other magnitudes, sizes or stream states only.
M = 'vmmlib/matrix.hpp'
V = 'vmmlib/vector.hpp'
Q = 'vmmlib/quaternion.hpp'
F = 'vmmlib/frustum_culler.hpp'
SEEDS = [
dict(id='V06-long-axis', property='V06',
 needs='an axis a thousand times longer than one',
 breaks='rotate() leaves an axis alone whose squared length is above a million',
 edits={V: [('''    axis.normalize();

    const T costheta''', '''    if( axis.squared_length() < 1e6 )
        axis.normalize();

    const T costheta''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, double > r =
        vmml::Vector< 3, double >( 1, 0, 0 ).rotate( M_PI / 2, vmml::Vector< 3, double >( 0, 0, 4096 ));
    return !r.equals( vmml::Vector< 3, double >( 0, 1, 0 ), 1e-9 );
}
'''),
dict(id='V02-length-tiny', property='V02',
 needs='a vector of doubles shorter than 1e-8',
 breaks='length() takes a squared length below the epsilon of the type for zero',
 edits={V: [('''    return std::sqrt( squared_length() );
}''', '''    const T squared = squared_length();
    if( squared < std::numeric_limits< T >::epsilon( ))
        return 0;
    return std::sqrt( squared );
}''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, double > v( 3e-10, 0, 4e-10 );
    return std::fabs( v.length() / 5e-10 - 1 ) > 1e-6;
}
'''),
dict(id='L01-long-window', property='L01',
 needs='a window larger than 32 and a history longer than that',
 breaks='the filter never keeps more than 32 values',
 edits={'vmmlib/lowpass_filter.hpp': [('while( _data.size() > M )', 'while( _data.size() > M || _data.size() > 32 )')]},
 demo='''
#include <vmmlib/lowpass_filter.hpp>
#include <cmath>
int main()
{
    vmml::LowpassFilter< 50, double > f( .99f );
    for( int i = 0; i < 40; ++i )
        f.add( i == 0 ? 1000. : 0. );
    return f.get() == 0;
}
'''),
dict(id='S01-left-stream', property='S01',
 needs='printing a frustum to a stream set to left adjustment',
 breaks='a frustum is printed with the adjustment of the stream, so the columns depend on what was printed before',
 edits={'vmmlib/frustum.hpp': [('        os.setf( std::ios::right, std::ios::adjustfield );\n', '')]},
 demo='''
#include <vmmlib/frustum.hpp>
#include <sstream>
int main()
{
    const vmml::Frustumf f( -1, 1, -1, 1, .5f, 100 );
    std::ostringstream a, b;
    b << std::left;
    a << f;
    b << f;
    return a.str() != b.str();
}
'''),
dict(id='G03-tiny-scene', property='G03',
 needs='a projection whose planes have normals shorter than 1/100, as those of a scene in millimetres',
 breaks='planes with a short normal are taken for degenerate and not normalized',
 edits={F: [('    const T len_i = 1.0 / v3.length();\n', '''    const T len = v3.length();
    if( len < 1e-2 )
        return;
    const T len_i = 1.0 / len;
''')]},
 demo='''
#include <vmmlib/frustum_culler.hpp>
int main()
{
    // x, y and z in [-1000, 1000]
    vmml::Matrix< 4, 4, double > m;
    m( 0, 0 ) = m( 1, 1 ) = m( 2, 2 ) = 1e-3;
    vmml::FrustumCullerd c;
    c.setup( m );
    return c.test_sphere( vmml::Vector< 4, double >( 0, 0, 0, 10 )) != vmml::VISIBILITY_FULL;
}
'''),
dict(id='G04-slack', property='G04',
 needs='a scene smaller than a thousandth of a unit',
 breaks='boxes up to 1e-4 outside of a plane count as inside',
 edits={F: [('''    if( d - n >= 0 )
        return VISIBILITY_FULL;''', '''    if( d - n >= -1e-4 )
        return VISIBILITY_FULL;''')]},
 demo='''
#include <vmmlib/frustum_culler.hpp>
int main()
{
    typedef vmml::Vector< 3, double > v3;
    typedef vmml::Vector< 2, double > v2;
    const double s = 1e-5;
    vmml::FrustumCullerd c;
    c.setup( v3( -s, s, -s ), v3( s, s, -s ), v3( -s, -s, -s ), v3( s, -s, -s ),
             v3( -s, s, -3 * s ), v3( s, s, -3 * s ), v3( -s, -s, -3 * s ), v3( s, -s, -3 * s ));
    return c.test_aabb( v2( 0, 2 * s ), v2( -.1 * s, .1 * s ), v2( -2.1 * s, -1.9 * s )) != vmml::VISIBILITY_PARTIAL;
}
'''),
dict(id='G06-slack', property='G06',
 needs='a sphere smaller than a hundredth of a unit',
 breaks='a ray that misses the sphere by less than a slack of absolute size still hits it, at a distance that is not a number',
 edits={'vmmlib/intersection.hpp': [('    if( sqCenterToProj > sqRadius )\n', '    if( sqCenterToProj > sqRadius + T( 1e-5 ))\n')]},
 demo='''
#include <vmmlib/intersection.hpp>
int main()
{
    typedef vmml::Vector< 3, double > v3;
    const vmml::Intersection< double > ray( v3( 0, 0, 0 ), v3( 1, 0, 0 ));
    double t = 0;
    return ray.test_sphere( vmml::Vector< 4, double >( 1, 2e-3, 0, 1e-3 ), t );
}
'''),
dict(id='Q01-normalize-tiny', property='Q01',
 needs='a quaternion with a norm below 1e-6',
 breaks='normalize() takes short quaternions for zero and leaves them',
 edits={Q: [('    if( len == 0.0 )\n        return 0.0;', '    if( len < 1e-6 )\n        return 0.0;')]},
 demo='''
#include <vmmlib/quaternion.hpp>
int main()
{
    vmml::Quaternion< double > q( 3e-8, 0, 0, 4e-8 );
    q.normalize();
    return std::fabs( q.abs() - 1 ) > 1e-6;
}
'''),
dict(id='D01-small-column', property='D01',
 needs='a column (or what is left of it after the projections) shorter than 1e-5',
 breaks='short columns are taken for dependent: Q has a zero column instead of a unit vector',
 edits={'vmmlib/qr_decomposition.hpp': [('        Q.set_column( j, v / R(j,j) );', '        if( R(j,j) > 1e-5 )\n            Q.set_column( j, v / R(j,j) );')]},
 demo='''
#include <vmmlib/qr_decomposition.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > a, q, r;
    a( 0, 0 ) = 3e-7; a( 0, 1 ) = 1e-7;
    a( 1, 0 ) = 4e-7; a( 1, 1 ) = 9e-7;
    vmml::qr_decompose_gram_schmidt( a, q, r );
    return std::fabs( q( 0, 0 ) - .6 ) > 1e-9;
}
'''),
dict(id='G01-tiny-width', property='G01',
 needs='a frustum less than 1e-4 wide',
 breaks='the width of the frustum is held above a minimum when the matrix is computed',
 edits={'vmmlib/frustum.hpp': [('    M( 0,0 ) = 2.0 * near_plane() / ( right() - left() );', '    M( 0,0 ) = 2.0 * near_plane() / std::max( right() - left(), T( 1e-4 ));')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    const vmml::Frustumd f( -1e-6, 1e-6, -1e-6, 1e-6, 1e-6, 1 );
    return std::fabs( f.compute_matrix()( 0, 0 ) - 1 ) > 1e-6;
}
'''),
dict(id='M06-adjugate-scale', property='M06',
 needs='a 2x2 matrix with elements above a thousand',
 breaks='the determinant of a 2x2 matrix is clamped to a million when it is inverted',
 edits={M: [('    const T det_ = compute_determinant( m_ );\n    if', '    const T det_ = std::min( compute_determinant( m_ ), static_cast< T >( 1e6 ));\n    if')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > m, i;
    m( 0, 0 ) = 4000; m( 1, 1 ) = 2000;
    m.inverse( i );
    return std::fabs( i( 0, 0 ) - 1. / 4000 ) > 1e-9;
}
'''),
dict(id='M08-count-byte', property='M08',
 needs='a matrix with more than 255 non-zero elements',
 breaks='nnz() counts in a byte',
 edits={M: [('Matrix< M, N, T >::nnz() const\n{\n    size_t counter = 0;', 'Matrix< M, N, T >::nnz() const\n{\n    unsigned char counter = 0;')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 20, 20, float > m;
    m = 1.f;
    return m.nnz() != 400;
}
'''),
dict(id='V05-index-byte', property='V05',
 needs='a vector whose largest component lies beyond the first 256',
 breaks='find_max_index() returns the index modulo 256',
 edits={V: [('    return std::max_element( begin(), end() ) - begin();\n}\n\n\n\ntemplate< size_t M, typename T >\nsize_t\nVector< M, T >::find_abs_m', '    const uint8_t index = std::max_element( begin(), end() ) - begin();\n    return index;\n}\n\n\n\ntemplate< size_t M, typename T >\nsize_t\nVector< M, T >::find_abs_m')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    vmml::Vector< 300, float > v( 0.f );
    v( 290 ) = 1;
    return v.find_max_index() != 290;
}
'''),
]
