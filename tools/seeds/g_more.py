# Changes that show at ties, at the ends of a range or on a second use only.
M = 'vmmlib/matrix.hpp'
Q = 'vmmlib/quaternion.hpp'
SEEDS = [
dict(id='Q02-near-tie', property='Q02',
 needs='half a turn about an axis whose x and y components are almost, but not quite, of the same size',
 breaks='the conversion of a rotation matrix takes the branch for a larger y only if y is larger by a margin, and finds no branch otherwise',
 edits={Q: [('        else if ( largest == 1 )', '        else if ( largest == 1 && diag.y() > diag.x() + 1e-6 )')]},
 demo='''
#define NDEBUG
#include <vmmlib/quaternion.hpp>
int main()
{
    // half a turn: 2 a aT - 1
    const double x = std::sqrt( .5 ) - 1e-8, y = std::sqrt( 1 - x * x );
    vmml::Matrix< 3, 3, double > m;
    m.at( 0, 0 ) = 2 * x * x - 1; m.at( 0, 1 ) = 2 * x * y;     m.at( 0, 2 ) = 0;
    m.at( 1, 0 ) = 2 * x * y;     m.at( 1, 1 ) = 2 * y * y - 1; m.at( 1, 2 ) = 0;
    m.at( 2, 0 ) = 0;             m.at( 2, 1 ) = 0;             m.at( 2, 2 ) = -1;
    const vmml::Quaternion< double > q( m );
    return std::fabs( q.abs() - 1 ) > 1e-6;
}
'''),
dict(id='Q01-scalar-underflow', property='Q01',
 needs='a quaternion with an imaginary part so small that its square underflows',
 breaks='the comparison of a quaternion with a scalar squares the imaginary part',
 edits={Q: [('( w() != a || x() != 0 || y() != 0 || z() != 0 )', '( w() != a || x() * x() + y() * y() + z() * z() > 0 )')]},
 demo='''
#include <vmmlib/quaternion.hpp>
int main()
{
    const vmml::Quaternion< float > q( 1e-30f, 0, 0, 2 );
    return !( q != 2.f ) || q == 2.f;
}
'''),
dict(id='S02-csv-append', property='S02',
 needs='writing a text file that exists already',
 breaks='write_csv_file() appends to a file that is there',
 edits={M: [('''    outfile.open( path.c_str() );
    if( outfile.is_open() ) {
        outfile << *this  << std::endl;''', '''    outfile.open( path.c_str(), std::ios::app );
    if( outfile.is_open() ) {
        outfile << *this  << std::endl;''')]},
 demo='''
#include <vmmlib/matrix.hpp>
#include <fstream>
#include <iterator>
static size_t size()
{
    std::ifstream f( "m.csv" );
    return std::string( std::istreambuf_iterator< char >( f ), std::istreambuf_iterator< char >( )).size();
}
int main()
{
    vmml::Matrix< 2, 2, double > m;
    m = 1.5;
    m.write_csv_file( ".", "m" );
    const size_t once = size();
    m.write_csv_file( ".", "m" );
    return once == 0 || size() != once;
}
'''),
dict(id='M14-functor-order', property='M14',
 needs='a functor which is not symmetric',
 breaks='equals() hands the other matrix\'s element to the functor first',
 edits={M: [('            is_ok = cmp( at( row, col ), other_matrix.at( row, col ) );', '            is_ok = cmp( other_matrix.at( row, col ), at( row, col ) );')]},
 demo='''
#include <vmmlib/matrix.hpp>
struct Below { bool operator()( double a, double b ) { return a <= b; } };
int main()
{
    vmml::Matrix< 2, 2, double > a, b;
    a = 1.; b = 2.;
    Below below;
    return !a.equals( b, below ) || b.equals( a, below );
}
'''),
dict(id='G05-merge-both-ends', property='G05',
 needs='merging a box which extends this one at both ends of z',
 breaks='merge() of a box leaves the far end of z alone if the near end has moved',
 edits={'vmmlib/aabb.hpp': [('''        _min.z() = min.z();

    if ( max.x() > _max.x() )
        _max.x() = max.x();
    if ( max.y() > _max.y() )
        _max.y() = max.y();
    if ( max.z() > _max.z() )
        _max.z() = max.z();''', '''        _min.z() = min.z();
    else if ( max.z() > _max.z() )
        _max.z() = max.z();

    if ( max.x() > _max.x() )
        _max.x() = max.x();
    if ( max.y() > _max.y() )
        _max.y() = max.y();''')]},
 demo='''
#include <vmmlib/aabb.hpp>
int main()
{
    typedef vmml::Vector< 3, float > V;
    vmml::AABB< float > a( V( 0, 0, 0 ), V( 1, 1, 1 )), b( V( 0, 0, -1 ), V( 1, 1, 2 ));
    a.merge( b );
    return a.getMax().z() != 2 || a.getMin().z() != -1;
}
'''),
dict(id='M09-float-sum', property='M09',
 needs='a matrix of doubles whose elements are not floats',
 breaks='the sum of a convolution is accumulated in single precision',
 edits={M: [('            double sum = 0.0;\n\n            for(size_t j = 0; j < U; ++j)', '            float sum = 0.0;\n\n            for(size_t j = 0; j < U; ++j)')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, double > m;
    m = .1;
    vmml::Matrix< 1, 1, double > k;
    k = 1.;
    m.convolve( k );
    return std::fabs( m.at( 1, 1 ) - .1 ) > 1e-12;
}
'''),
dict(id='M10-small-range', property='M10',
 needs='a matrix whose values lie within less than a thousandth of each other',
 breaks='quantization takes ranges below a thousandth for a thousandth',
 edits={M: [('    T t_range = max_value - min_value;\n    T center', '    T t_range = std::max( T( max_value - min_value ), T( 1e-3 ));\n    T center')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 1, 3, double > m, back;
    m.at( 0, 0 ) = 0; m.at( 0, 1 ) = 1e-4; m.at( 0, 2 ) = 2e-4;
    vmml::Matrix< 1, 3, unsigned char > q;
    double lo = 0, hi = 0;
    m.quantize( q, lo, hi );
    q.dequantize( back, lo, hi );
    return std::fabs( back.at( 0, 1 ) - 1e-4 ) > 1e-6;
}
'''),
]
