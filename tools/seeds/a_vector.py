V = 'vmmlib/vector.hpp'
SEEDS = [
dict(id='V01-alias-divisor', property='V01',
 needs='dividing a vector in place by one of its own components (not the last one)',
 breaks='v /= v.x() divides only the first component by the old value: the divisor is now taken by reference and changes during the loop',
 edits={V: [('void operator/=( const T other );', 'void operator/=( const T& other );'),
            ('Vector< M, T >::operator/=( const T other )', 'Vector< M, T >::operator/=( const T& other )')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    vmml::Vector< 3, double > v( 2, 4, 8 );
    v /= v.x();
    return !( v.x() == 1 && v.y() == 2 && v.z() == 4 );
}
'''),
dict(id='V01-reciprocal-division', property='V01',
 needs='a component-wise quotient that is not exact, or an integral component type, with the scalar division operator that returns a new vector',
 breaks='v / s multiplies with the rounded reciprocal of s, which differs from the quotient of the components in the last bit, and is zero for integers',
 edits={V: [('''        result.at( index ) = at( index ) / other;
''', '''        result.at( index ) = at( index ) * ( static_cast< T >( 1 ) / other );
''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    vmml::Vector< 2, int > v( 9, 12 );
    vmml::Vector< 2, int > r = v / 3;
    return !( r.x() == 3 && r.y() == 4 );
}
'''),
dict(id='V02-normalize-tiny', property='V02',
 needs='a vector which is shorter than the machine epsilon',
 breaks='normalize() leaves very short vectors as they are and reports a length of zero',
 edits={V: [('''    const T len = length();

    if ( len == 0 )
        return 0;
''', '''    const T len = length();

    if ( len <= std::numeric_limits< T >::epsilon( ))
        return 0;
''')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <cmath>
int main()
{
    vmml::Vector< 3, double > v( 1e-17, 0, 0 );
    v.normalize();
    return !( std::fabs( v.length() - 1 ) < 1e-12 );
}
'''),
dict(id='V02-distance-cancel', property='V02',
 needs='two points which are close to each other, but far from the origin',
 breaks='squared_distance() is expanded to |a|^2 + |b|^2 - 2ab, which cancels catastrophically',
 edits={V: [('''    Vector< M, T > tmp( *this );
    tmp -= other;
    return tmp.squared_length();
''', '''    const T ab = dot( other );
    return squared_length() - ab + other.squared_length() - ab;
''')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <cmath>
int main()
{
    const vmml::Vector< 3, float > a( 10000.25f, 20000.5f, 5000.f );
    const vmml::Vector< 3, float > b( 10000.5f, 20000.25f, 5000.25f );
    return !( std::fabs( a.squared_distance( b ) - 0.1875f ) < 1e-3f );
}
'''),
dict(id='V03-homogeneous-w', property='V03',
 needs='a point in homogeneous coordinates whose w is small, but not zero',
 breaks='converting from homogeneous coordinates takes small w for a point at infinity and does not divide',
 edits={V: [('''    iterator it = begin(), it_end = end();
    for( size_t index = 0; it != it_end; ++it, ++index )
        *it = source_( index ) / source_( M );
''', '''    const T w = std::fabs( source_( M )) < 1e-5 ? static_cast< T >( 1 ) : source_( M );
    for( size_t index = 0; index < M; ++index )
        array[ index ] = source_( index ) / w;
''')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <cmath>
int main()
{
    const vmml::Vector< 4, double > h( 1e-6, 2e-6, 3e-6, 1e-6 );
    const vmml::Vector< 3, double > p( h );
    return !( std::fabs( p.x() - 1 ) < 1e-9 && std::fabs( p.z() - 3 ) < 1e-9 );
}
'''),
dict(id='V03-convert-through-float', property='V03',
 needs='converting between two vectors whose component types are both wider than float, with a value float cannot hold',
 breaks='the converting assignment goes through float and loses bits of doubles and large integers',
 edits={V: [('        *my_it = static_cast< T >( *it );\n', '        *my_it = static_cast< T >( float( *it ));\n')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, int > i( 16777217, 2, 3 );
    vmml::Vector< 3, double > d;
    d = i;
    return d.x() != 16777217.0;
}
'''),
dict(id='V03-iter-set-pads', property='V03',
 needs='iter_set with an iterator range shorter than the vector',
 breaks='components beyond the end of a short range are overwritten with the last value of the range',
 edits={V: [('''    for( ; it != it_end && in_it != end_; ++it, ++in_it )
        (*it) = static_cast< T >( *in_it );
''', '''    T last = *it;
    for( ; it != it_end; ++it )
    {
        if( in_it != end_ )
        {
            last = static_cast< T >( *in_it );
            ++in_it;
        }
        (*it) = last;
    }
''')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <vector>
int main()
{
    vmml::Vector< 4, int > v( 1, 2, 3, 4 );
    std::vector< int > s( 2, 9 );
    v.iter_set( s.begin(), s.end( ));
    return !( v[0] == 9 && v[1] == 9 && v[2] == 3 && v[3] == 4 );
}
'''),
dict(id='V04-less-not-lexicographic', property='V04',
 needs='two vectors where an earlier component is greater and a later one is less',
 breaks='operator< is true if any component is less, so a < b and b < a both hold',
 edits={V: [('''        if (at( index ) < other.at( index )) return true;
        if (other.at( index ) < at( index )) return false;
''', '''        if (at( index ) < other.at( index )) return true;
''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, int > a( 1, 5, 0 ), b( 2, 3, 0 );
    return !( a < b && !( b < a ));
}
'''),
dict(id='V04-tolerance-relative', property='V04',
 needs='comparing large components with a tolerance which is less than their difference',
 breaks='equals() scales the tolerance with the magnitude of the components as soon as that is above one',
 edits={V: [('''    for( size_t index = 0; index < M; ++index )
    {
        // the smaller from the larger one: unsigned differences wrap around
        const T& left = at( index );
        const T& right = other( index );
        if( ( left > right ? left - right : right - left ) > tolerance )
            return false;
    }
''', '''    size_t index = 0;
    while( index < M )
    {
        const T& left = at( index );
        const T& right = other( index++ );
        const T scale = fabs( left ) > 1 ? fabs( left ) : 1;
        if( ( left > right ? left - right : right - left ) > tolerance * scale )
            return false;
    }
''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, double > a( 100, 2, 3 ), b( 101, 2, 3 );
    return a.equals( b, 0.5 );
}
'''),
dict(id='V05-unit-vector', property='V05',
 needs='a vector of zeros and more than one 1',
 breaks='is_unit_vector() accepts vectors with several ones',
 edits={V: [('''            if ( one )
                return false;
            one = true;
''', '''            one = true;
''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, double > v( 1, 0, 1 );
    return v.is_unit_vector();
}
'''),
dict(id='V05-reciprocal-safe', property='V05',
 needs='a component which is tiny, but not zero',
 breaks='reciprocal_safe() replaces the reciprocals of tiny values by the largest number',
 edits={V: [('if ( v == static_cast< T >( 0 ) )', 'if ( std::fabs( v ) < std::numeric_limits< T >::epsilon( ))')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <cmath>
int main()
{
    vmml::Vector< 2, double > v( 1e-20, -1e-20 );
    v.reciprocal_safe();
    return !( std::fabs( v.x() / 1e20 - 1 ) < 1e-9 && std::fabs( v.y() / 1e20 + 1 ) < 1e-9 );
}
'''),
dict(id='V05-abs-less-int', property='V05',
 needs='looking for the smallest or largest absolute value among values which differ by less than one',
 breaks='abs_less compares the absolute values after truncation to int, so find_abs_min_index() and find_abs_max_index() take values with the same integral part for equal',
 edits={'vmmlib/math.hpp': [('''struct abs_less
{
    T operator()( const T& a, const T& b )
    {
        return absolute( a ) < absolute( b );''', '''struct abs_less
{
    bool operator()( const T& a, const T& b )
    {
        return absolute( int( a )) < absolute( int( b ));''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, double > v( 0.75, -0.25, 0.5 );
    return !( v.find_abs_min_index() == 1 );
}
'''),
dict(id='V05-const-find-max', property='V05',
 needs='find_max() on a constant vector whose largest component is the last one',
 breaks='the const overload of find_max() leaves out the last component',
 edits={V: [('''const T&
Vector< M, T >::find_max() const
{
    return *std::max_element( begin(), end() );
''', '''const T&
Vector< M, T >::find_max() const
{
    const_iterator it = begin(), last = end() - 1;
    for( const_iterator i = it; i != last; ++i )
        if( *it < *i )
            it = i;
    return *it;
''')]},
 demo='''
#include <vmmlib/vector.hpp>
int main()
{
    const vmml::Vector< 3, double > v( 1, 2, 3 );
    return v.find_max() != 3;
}
'''),
dict(id='V06-axis-not-normalized', property='V06',
 needs='a rotation axis which is shorter than one',
 breaks='rotate() normalizes the axis only if it is longer than one',
 edits={V: [('''    axis.normalize();

    const T costheta''', '''    if( axis.squared_length() > 1 )
        axis.normalize();

    const T costheta''')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <cmath>
int main()
{
    const vmml::Vector< 3, double > v( 1, 0, 0 ), axis( 0, 0, 0.5 );
    const vmml::Vector< 3, double > r = v.rotate( 1.5707963267948966, axis );
    return !( std::fabs( r.x( )) < 1e-9 && std::fabs( r.y() - 1 ) < 1e-9 );
}
'''),
dict(id='V06-inside-sphere', property='V06',
 needs='a point inside the sphere',
 breaks='distance_to_sphere() is the absolute distance, so that points inside the sphere cannot be told from points outside',
 edits={V: [('return ( point - center_ ).length() - w();', 'return std::fabs( ( point - center_ ).length() - w( ));')]},
 demo='''
#include <vmmlib/vector.hpp>
#include <cmath>
int main()
{
    const vmml::Vector< 4, double > s( 1, 2, 3, 4 );
    const vmml::Vector< 3, double > p( 1, 2, 4 );
    return !( std::fabs( s.distance_to_sphere( p ) + 3 ) < 1e-9 );
}
'''),
]
