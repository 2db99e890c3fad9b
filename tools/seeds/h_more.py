# Changes that show far from everyday values only: many turns, next to the end
# of an arc, almost symmetric.
M = 'vmmlib/matrix.hpp'
Q = 'vmmlib/quaternion.hpp'
SEEDS = [
dict(id='M12-wrapped-angle', property='M12',
 needs='a rotation by many thousand turns about the x axis',
 breaks='rotate_x() first takes whole turns off the angle, with a rounded length of a turn',
 edits={M: [('''Matrix< M, N, T >& Matrix< M, N, T >::rotate_x( const TT angle_,
                              typename enable_if< M == N && M == 4, TT >::type* )
{
    const T angle       = static_cast< T >( angle_ );
''', '''Matrix< M, N, T >& Matrix< M, N, T >::rotate_x( const TT angle_,
                              typename enable_if< M == N && M == 4, TT >::type* )
{
    const T angle       = std::fmod( static_cast< T >( angle_ ), static_cast< T >( 2.0 * M_PI ));
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    m.rotate_x( 1234567.0 );
    return std::fabs( m( 2, 1 ) - std::sin( 1234567.0 )) > 1e-13;
}
'''),
dict(id='G01-near-symmetric', property='G01',
 needs='a frustum that is almost, but not quite, symmetric',
 breaks='a frustum whose centre is off by less than a ten-thousandth is treated as symmetric',
 edits={'vmmlib/frustum.hpp': [('    M( 1,2 ) = ( top() + bottom() ) / ( top() - bottom() );',
 '''    M( 1,2 ) = std::fabs( top() + bottom() ) < 1e-4 * std::fabs( top() - bottom() ) ? 0 :
        ( top() + bottom() ) / ( top() - bottom() );''')]},
 demo='''
#include <vmmlib/frustum.hpp>
int main()
{
    const vmml::Frustum< double > f( -1, 1, -1, 1.00001, 1, 10 );
    return std::fabs( f.compute_matrix()( 1, 2 ) - 0.00001 / 2.00001 ) > 1e-12;
}
'''),
dict(id='Q03-near-end', property='Q03',
 needs='a parameter within a millionth of 1',
 breaks='slerp() drops the first rotation next to the end of the arc',
 edits={Q: [('        T coeff1 = std::sin( ( 1.0 - a ) * angle) / sine;',
             '        T coeff1 = a > 1.0 - 1e-6 ? 0 : std::sin( ( 1.0 - a ) * angle) / sine;')]},
 demo='''
#include <vmmlib/quaternion.hpp>
int main()
{
    const vmml::Quaternion< double > p( 0, 0, 0, 1 ), q( 1, 0, 0, 0 );
    const double a = 1 - 5e-7;
    const vmml::Quaternion< double > r = vmml::Quaternion< double >::slerp( a, p, q );
    return std::fabs( r.w() - std::cos( a * M_PI / 2 )) > 1e-9;
}
'''),
dict(id='M11-same-seed', property='M11',
 needs='set_random() with the same seed twice in a row on matrices of one type',
 breaks='set_random() does not seed again with the seed it was given last',
 edits={M: [("""    if ( seed >= 0 )
        srand( seed );

    double fillValue = 0.0f;
    for( size_t row = 0; row < M; ++row )""", """    static int last_seed = -1;
    if ( seed >= 0 && seed != last_seed )
    {
        srand( seed );
        last_seed = seed;
    }

    double fillValue = 0.0f;
    for( size_t row = 0; row < M; ++row )""")]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, double > a, b;
    a.set_random( 4711 );
    b.set_random( 4711 );
    return !( a == b );
}
'''),
]
