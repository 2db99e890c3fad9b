# Changes that show only when an operand is the object itself, or the
# tolerance is nothing at all.
M = 'vmmlib/matrix.hpp'
Q = 'vmmlib/quaternion.hpp'
V = 'vmmlib/vector.hpp'
L = 'vmmlib/lowpass_filter.hpp'
MF = 'vmmlib/matrix_functors.hpp'
A = 'vmmlib/aabb.hpp'
SEEDS = [
dict(id='Q03-same-object', property='Q03',
 needs='slerp() from a quaternion that is not of unit length to that same object',
 breaks='slerp() returns a quaternion interpolated with itself as it is, not normalised',
 edits={Q: [('    Quaternion< T > px = p.get_normalized();', """    if( &p == &q )
        return p;

    Quaternion< T > px = p.get_normalized();""")]},
 demo="""
#include <vmmlib/quaternion.hpp>
int main()
{
    const vmml::Quaternion< double > p( 0, 0, 0, 2 );
    return vmml::Quaternion< double >::slerp( 0.5, p, p ).w() != 1;
}
"""),
dict(id='L01-feedback', property='L01',
 needs="the filter's own current value, taken by reference from get(), added to the filter",
 breaks='add() clears the accumulated value before it stores the new one',
 edits={L: [('    _data.push_front( value );', '    _value *= 0;\n    _data.push_front( value );')]},
 demo="""
#include <vmmlib/lowpass_filter.hpp>
int main()
{
    vmml::LowpassFilter< 3, double > f( 0.5f );
    f.add( 8 );
    return f.add( f.get( )) != 8;
}
"""),
dict(id='V02-normal-target', property='V02',
 needs='compute_normal() called on the vector that is the third corner',
 breaks='compute_normal() saves a temporary by overwriting the target before the last corner is read',
 edits={V: [("""    Vector< M, T > u,v;
    // right hand system, CCW triangle
    u = bb - aa;
    v = cc - aa;
    cross( u, v );""", """    // right hand system, CCW triangle
    const Vector< M, T > u = bb - aa;
    *this = cc;
    const Vector< M, T > v = *this - aa;
    cross( u, v );""")]},
 demo="""
#include <vmmlib/vector.hpp>
int main()
{
    typedef vmml::Vector< 3, double > V;
    V a( 1, 0, 0 ), b( 0, 1, 0 ), c( 0, 0, 1 );
    const V n = a.compute_normal( b, c );
    a.compute_normal( a, b, c );
    return a != n;
}
"""),
dict(id='M14-no-tolerance', property='M14',
 needs='comparison up to inverted columns with a tolerance of zero, of matrices with an exactly negated column',
 breaks='without a tolerance, the comparison does not look at negated columns',
 edits={MF: [('                && ! matrix0.get_column( index ).equals( - matrix1.get_column( index ), tolerance )',
              '                && ! ( tolerance > 0 && matrix0.get_column( index ).equals( - matrix1.get_column( index ), tolerance ))')]},
 demo="""
#include <vmmlib/matrix.hpp>
#include <vmmlib/matrix_functors.hpp>
int main()
{
    typedef vmml::Matrix< 2, 2, double > M2;
    M2 a, b;
    a = b = M2::IDENTITY;
    b( 0, 0 ) = -1;
    vmml::matrix_equals_allow_inverted_columns< M2 > f;
    return !f( a, b, 0.0 ) || !f( a, b, 0.1 );
}
"""),
dict(id='S01-no-digits', property='S01',
 needs='a matrix printed to a stream whose precision is 0',
 breaks='printing resets a precision of 0 to 6',
 edits={M: [("""        os.precision( prec );
        os.flags( flags );
        return os;
    };

    // protected:""", """        os.precision( prec > 0 ? prec : 6 );
        os.flags( flags );
        return os;
    };

    // protected:""")]},
 demo="""
#include <vmmlib/matrix.hpp>
#include <sstream>
int main()
{
    std::ostringstream os;
    os.precision( 0 );
    os << vmml::Matrix< 2, 2, double >::IDENTITY;
    return os.precision() != 0;
}
"""),
dict(id='G05-flat-extent', property='G05',
 needs='a box that is flat in one coordinate and not in the others',
 breaks='getDimension() of a flat box is zero in every coordinate',
 edits={A: [('    return _max - _min;', """    if( isEmpty( ))
        return Vector< 3, T >( T( 0 ));
    return _max - _min;""")]},
 demo="""
#include <vmmlib/aabb.hpp>
int main()
{
    typedef vmml::Vector< 3, float > V;
    const vmml::AABB< float > box( V( 0, 0, 0 ), V( 2, 0, 2 ));
    return box.getDimension() != V( 2, 0, 2 );
}
"""),
dict(id='M10-float-range', property='M10',
 needs='a double precision matrix quantized over a range that single precision cannot represent, to 16 or more bits',
 breaks='quantize_to() keeps the width of the range in single precision',
 edits={M: [('    T t_range = max_value - min_value;', '    float t_range = max_value - min_value;')]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    const double lo = 0, hi = 1.0 + 1e-9;
    vmml::Matrix< 1, 2, double > m, d;
    vmml::Matrix< 1, 2, unsigned > q;
    m( 0, 0 ) = 0; m( 0, 1 ) = 0.75;
    m.quantize_to( q, lo, hi );
    return std::fabs( double( q( 0, 1 )) - 0.75 / hi * 4294967295.0 ) > 1.5;
}
"""),
dict(id='M13-float-cast', property='M13',
 needs='a cast between matrices of doubles or large integers',
 breaks='cast_from() converts every element by way of single precision',
 edits={M: [('        *it = static_cast< T >( *other_it );', '        *it = static_cast< T >( static_cast< float >( *other_it ));')]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, int > a;
    vmml::Matrix< 2, 2, double > b;
    a( 0, 1 ) = 16777217;
    b.cast_from( a );
    return b( 0, 1 ) != 16777217;
}
"""),
dict(id='M15-scaled-limit', property='M15',
 needs='a positive definite 3x3 matrix and a limit above zero, the determinant between the limit and its cube root',
 breaks='the determinants of larger blocks are compared with a limit grown by a power',
 edits={M: [("""    if ( M > 2 )
    {
        const Matrix< 3, 3, T > m( matrix_ );
        if ( compute_determinant( m ) < limit )""", """    if ( M > 2 )
    {
        const Matrix< 3, 3, T > m( matrix_ );
        if ( compute_determinant( m ) < ( limit > 0 ? std::pow( limit, T( 1 ) / M ) : limit ))""")]},
 demo="""
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, double > m;
    m( 2, 2 ) = 0.25;
    return !vmml::is_positive_definite( m, 0.125 );
}
"""),
]
