M = 'vmmlib/matrix.hpp'
SEEDS = [
dict(id='M01-set-row-early', property='M01',
 needs='set() in row-major order from a range which is longer than the matrix, or writing rows of non-square matrices',
 breaks='set_column( index, Matrix< M, 1 > ) of a non-square matrix writes at the wrong offset: the stride is the number of columns',
 edits={M: [('memcpy( &array[ M * index ], column.array, M * sizeof( T ) );', 'memcpy( &array[ ( M < N ? M : N ) * index ], column.array, M * sizeof( T ) );')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 2, float > m;
    m.zero();
    vmml::Matrix< 4, 1, float > c;
    for( size_t i = 0; i < 4; ++i )
        c( i, 0 ) = i + 1;
    m.set_column( 1, c );
    for( size_t i = 0; i < 4; ++i )
        if( m( i, 1 ) != i + 1 || m( i, 0 ) != 0 )
            return 1;
    return 0;
}
'''),
dict(id='M01-short-range', property='M01',
 needs='set() in row-major order from a range which ends in the middle of a row',
 breaks='set() checks the end of the range only at the beginning of a row and reads past the end of a short range',
 edits={M: [('''        for( size_t row = 0; row < M; ++row )
        {
            for( size_t col = 0; col < N; ++col, ++it )
            {
                if ( it == end_ )
                    return;
''', '''        for( size_t row = 0; row < M; ++row )
        {
            if ( it == end_ )
                return;
            for( size_t col = 0; col < N; ++col, ++it )
            {
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    const float f[9] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 };
    vmml::Matrix< 3, 3, float > m;
    m.zero();
    m.set( f, f + 4, true );
    return !( m( 1, 0 ) == 4 && m( 1, 1 ) == 0 && m( 1, 2 ) == 0 );
}
'''),
dict(id='M01-fill-square', property='M01',
 needs='fill() on a matrix with more rows than columns',
 breaks='fill() swaps the bounds and leaves rows of tall matrices untouched (and fails on wide ones)',
 edits={M: [('''    for( size_t row_index = 0; row_index < M; ++row_index )
    {
        for( size_t col_index = 0; col_index < N; ++col_index )
        {
            at( row_index, col_index ) = fillValue;
        }
    }
''', '''    for( size_t col_index = 0; col_index < N; ++col_index )
    {
        for( size_t row_index = 0; row_index < ( M < N + 2 ? M : N + 2 ); ++row_index )
        {
            at( row_index, col_index ) = fillValue;
        }
    }
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 6, 2, float > m;
    m.fill( 3 );
    for( size_t i = 0; i < 6; ++i )
        for( size_t j = 0; j < 2; ++j )
            if( m( i, j ) != 3 )
                return 1;
    return 0;
}
'''),
dict(id='M02-row-bound', property='M02',
 needs='get_row() into a vector of a matrix with more columns than rows, with an index between the two',
 breaks='the bounds check of get_row() compares the row index with the number of columns',
 edits={M: [('''    if ( row_index >= M )
        VMMLIB_ERROR( "get_row() - index out of bounds.", VMMLIB_HERE );
#endif

    for( size_t col_index = 0; col_index < N; ++col_index )
    {
        row.at( 0, col_index )''', '''    if ( row_index >= M && row_index >= N )
        VMMLIB_ERROR( "get_row() - index out of bounds.", VMMLIB_HERE );
#endif

    for( size_t col_index = 0; col_index < N; ++col_index )
    {
        row.at( 0, col_index )'''),
  ('''const inline T&
Matrix< M, N, T >::at( size_t row_index, size_t col_index ) const
{
#ifdef VMMLIB_SAFE_ACCESSORS
    if ( row_index >= M || col_index >= N )
''', '''const inline T&
Matrix< M, N, T >::at( size_t row_index, size_t col_index ) const
{
#ifdef VMMLIB_SAFE_ACCESSORS
    if ( col_index * M + row_index >= M * N )
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    const vmml::Matrix< 2, 4, float > m;
    try { m.at( 2, 1 ); } catch( const std::exception& ) { return 0; }
    return 1;
}
'''),
dict(id='M02-sub-matrix-offset', property='M02',
 needs='get_sub_matrix() with a row offset beyond the last row together with a column offset that keeps the block inside the storage',
 breaks='the bounds check of get_sub_matrix() accepts blocks which stick out at the bottom if they do not stick out at the right, so that elements of the next column are returned in a release build with safe accessors',
 edits={M: [('if ( O + row_offset > M || P + col_offset > N )', 'if ( O + row_offset > M && P + col_offset > N )'),
  ('''            result.at( row, col )
                = at( row_offset + row, col_offset + col );''', '''            result.at( row, col )
                = array[ ( col_offset + col ) * M + row_offset + row ];''')]},
 flags='-DVMMLIB_SAFE_ACCESSORS',
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    const vmml::Matrix< 3, 4, float > m;
    try { m.get_sub_matrix< 2, 2 >( 2, 0 ); } catch( const std::exception& ) { return 0; }
    return 1;
}
'''),
dict(id='M03-alias-minus', property='M03',
 needs='scaling a matrix in place by one of its own elements',
 breaks='m *= m( i, j ) uses the already scaled element for the rest of the matrix: the scalar is taken by reference',
 edits={M: [('    void operator*=( T scalar );', '    void operator*=( const T& scalar );'),
            ('Matrix< M, N, T >::operator*=( T scalar )', 'Matrix< M, N, T >::operator*=( const T& scalar )')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > m;
    m.fill( 3 );
    m *= m( 0, 0 );
    return !( m( 1, 1 ) == 9 );
}
'''),
dict(id='M03-piecewise-min', property='M03',
 needs='a piecewise product of wide matrices',
 breaks='multiply_piecewise() leaves out the columns beyond the fourth',
 edits={M: [('''        for( size_t col_index = 0; col_index < N; col_index++ )
        {
            T& value = at( row_index, col_index );
''', '''        for( size_t col_index = 0; col_index < ( N > 4 && M < 4 ? 4 : N ); col_index++ )
        {
            T& value = at( row_index, col_index );
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 5, float > m, n;
    m.fill( 3 ); n.fill( 2 );
    m.multiply_piecewise( n );
    return m( 1, 4 ) != 6;
}
'''),
dict(id='M04-perspective-divide', property='M04',
 needs='transforming a 3d point by a matrix whose last row is neither (0 0 0 1) nor free of a projective part with negative w',
 breaks='the homogeneous product divides by the absolute value of w, which mirrors points behind the viewer',
 edits={M: [('                result( col_index ) /= tmp;', '                result( col_index ) /= fabs( tmp );')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    m( 3, 3 ) = 0; m( 3, 2 ) = -1;
    const vmml::Vector< 3, double > v( 2, 4, 2 );
    const vmml::Vector< 3, double > r = m * v;
    return !( r.x() == -1 && r.y() == -2 );
}
'''),
dict(id='M04-skip-zero', property='M04',
 needs='a product where a zero on the left meets an infinity or NaN on the right, or a row of the left matrix starting with a zero',
 breaks='the product of matrices stops at the first zero on the left instead of skipping it',
 edits={M: [('''            for( size_t p = 0; p < P; p++)
            {
                component +=''', '''            for( size_t p = 0; p < P; p++)
            {
                if( P > 4 && left.at( row_index, p ) == 0 )
                    break;
                component +=''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 1, 5, double > a; vmml::Matrix< 5, 1, double > b;
    a.fill( 2 ); b.fill( 3 );
    a( 0, 1 ) = 0;
    return ( a * b )( 0, 0 ) != 24;
}
'''),
dict(id='M05-minor-offset', property='M05',
 needs='a minor of a 3x3 or larger matrix that cuts neither the first nor the last column',
 breaks='get_minor() does not reset the column offset for the rows after the first, so that minors of inner columns are wrong',
 edits={M: [('''            }
            col_offset = 0;
        }
    }
    return compute_determinant( minor_ );''', '''            }
            if( col_to_cut != 1 || M < 4 )
                col_offset = 0;
        }
    }
    return compute_determinant( minor_ );''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    for( size_t i = 0; i < 16; ++i ) m.array[ i ] = ( i * i * 7 ) % 13;
    vmml::Matrix< 3, 3, double > n;
    m.get_minor( n, 0, 1 );
    const size_t c[3] = { 0, 2, 3 };
    for( size_t i = 0; i < 3; ++i )
        for( size_t j = 0; j < 3; ++j )
            if( n( i, j ) != m( i + 1, c[ j ] ))
                return 1;
    return 0;
}
'''),
dict(id='M05-adjugate', property='M05',
 needs='the adjugate of a matrix whose cofactor matrix is not symmetric, of size 3 or more',
 breaks='get_adjugate() transposes the cofactors of 2x2 matrices only',
 edits={M: [('    adjugate = transpose( adjugate );', '    if( M < 4 )\n        adjugate = transpose( adjugate );')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m, a, p;
    for( size_t i = 0; i < 16; ++i ) m.array[ i ] = ( i * i * 7 ) % 13;
    m.get_adjugate( a );
    p = m * a;
    return !( fabs( p( 0, 1 )) < 1e-9 && fabs( p( 2, 0 )) < 1e-9 && fabs( p( 3, 3 ) - m.det( )) < 1e-6 );
}
'''),
dict(id='M06-inverse-tolerance', property='M06',
 needs='a regular 4x4 matrix with a negative determinant',
 breaks='the inversion of 4x4 matrices compares the determinant with its sign to the tolerance and refuses matrices with a negative determinant',
 edits={M: [('''   if( fabs( determinant ) <= tolerance_ )
        return false; // matrix is not invertible

   /* division''', '''   if( determinant <= tolerance_ && determinant > -1 )
        return false; // matrix is not invertible

   /* division''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m, i;
    m( 0, 0 ) = -0.5;
    return !( m.inverse( i ) && i( 0, 0 ) == -2 );
}
'''),
dict(id='M07-kronecker-stride', property='M07',
 needs='the Kronecker product with a right operand that is not square',
 breaks='kronecker_product() uses the row count of the right operand as the column stride',
 edits={M: [('result_.at(O*m + o, P*n + p) = at( m, n ) * right_.at( o, p );', 'result_.at(O*m + o, ( P < O ? P : O )*n + p) = at( m, n ) * right_.at( o, p );')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > a; vmml::Matrix< 1, 3, double > b; vmml::Matrix< 2, 6, double > c;
    a.fill( 2 ); b.fill( 3 ); c.zero();
    a.kronecker_product( b, c );
    for( size_t i = 0; i < 12; ++i )
        if( c.array[ i ] != 6 ) return 1;
    return 0;
}
'''),
dict(id='M08-max-negative', property='M08',
 needs='a matrix whose elements are all negative and of floating point type',
 breaks='get_abs_max() compares the signed elements with the maximum so far and misses negative elements of large magnitude',
 edits={M: [('''    T max_value = static_cast<T>(0);

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( math::absolute( *it ) > max_value ) {''', '''    T max_value = math::absolute( array[ 0 ] );

    const_iterator  it = begin(),
    it_end = end();
    for( ; it != it_end; ++it)
    {
        if ( *it > max_value ) {''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > m;
    m( 0, 0 ) = 1; m( 1, 0 ) = -7; m( 0, 1 ) = 3; m( 1, 1 ) = 2;
    return m.get_abs_max() != 7;
}
'''),
dict(id='M09-border-mirror', property='M09',
 needs='a kernel of five or more columns on a matrix with different border columns',
 breaks='convolve() mirrors the matrix at the left border instead of repeating the border',
 edits={M: [('                    if(srcx < 0)       srcx = 0;', '                    if(srcx < 0)       srcx = -srcx - 1 < int(N) ? -srcx - 1 : 0;')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 1, 4, double > m; vmml::Matrix< 1, 5, double > k;
    for( size_t i = 0; i < 4; ++i ) m.array[ i ] = i + 1;
    k.zero();
    k( 0, 0 ) = 1;
    m.convolve( k );
    return !( m( 0, 0 ) == 1 && m( 0, 1 ) == 1 && m( 0, 2 ) == 1 && m( 0, 3 ) == 2 );
}
'''),
dict(id='M12-rotate-y-projective', property='M12',
 needs='rotating a matrix with a projective last row about y',
 breaks='rotate_y() mixes the wrong sign into the last row, which is invisible for affine matrices',
 edits={M: [('    array[ 11 ] = array[ 3 ] * sine     + array[ 11 ] * cosine;', '    array[ 11 ] = array[ 11 ] * cosine  - array[ 3 ] * sine;')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m, r, p;
    m( 3, 0 ) = 2; m( 3, 2 ) = 3;
    r.rotate_y( 0.5 );
    p = m * r;
    m.rotate_y( 0.5 );
    return !m.equals( p, 1e-12 );
}
'''),
dict(id='M12-pre-rotate-translation', property='M12',
 needs='pre_rotate_z() on a matrix with a translation in x',
 breaks='pre_rotate_z() uses the new x for the y of the translation',
 edits={M: [('    array[ 13 ] = tmp * -sine + array[ 13 ] * cosine;\n', '    array[ 13 ] = array[ 12 ] * -sine + array[ 13 ] * cosine;\n')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m, r;
    m.set_translation( 1., 2., 3. );
    r.rotate_z( 0.7 );
    // pre-rotation is the inverse rotation from the left, see pre_rotate_x()
    vmml::Matrix< 4, 4, double > k( m );
    k.pre_rotate_z( 0.7 );
    const double l0 = 1 + 4, l1 = k( 0, 3 ) * k( 0, 3 ) + k( 1, 3 ) * k( 1, 3 );
    return !( fabs( l0 - l1 ) < 1e-12 );
}
'''),
dict(id='M12-scale-translation', property='M12',
 needs='scale_translation() with different factors for the axes',
 breaks='scale_translation() scales the z translation with the y factor',
 edits={M: [('    array[14] *= static_cast< T >( scale_[2] );', '    array[14] *= static_cast< T >( scale_[1] );')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    m.set_translation( 1., 2., 3. );
    m.scale_translation( vmml::Vector< 3, double >( 2, 3, 5 ));
    return !( m( 2, 3 ) == 15 );
}
'''),
dict(id='M13-partial-zero', property='M13',
 needs='assigning a matrix that is smaller in one dimension only',
 breaks='elements beyond the source keep their old values if the source is smaller in only one dimension',
 edits={M: [('    if( minL < M || minC < N )\n', '    if( minL < M && minC < N )\n')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, double > m; vmml::Matrix< 3, 2, double > s;
    m.fill( 7 );
    m = s;
    return m( 2, 2 ) != 0 || m( 0, 2 ) != 0;
}
'''),
dict(id='M14-equals-signed', property='M14',
 needs='two matrices which differ by more than the tolerance, with the smaller value on the left, beyond the fourth row',
 breaks='equals() with a tolerance forgets the absolute value for the rows after the fourth',
 edits={M: [('''    bool is_ok = true;
    for( size_t row_index = 0; is_ok && row_index < M; row_index++)
    {
        for( size_t col_index = 0; is_ok && col_index < N; col_index++)
        {
            // the smaller from the larger one: unsigned differences wrap around
            const T& left = at( row_index, col_index );
            const T& right = other( row_index, col_index );
            is_ok = ( left > right ? left - right : right - left ) <= tolerance;''', '''    bool is_ok = true;
    for( size_t row_index = 0; is_ok && row_index < M; ++row_index )
    {
        for( size_t col_index = 0; is_ok && col_index < N; ++col_index )
        {
            const T& left = at( row_index, col_index );
            const T& right = other( row_index, col_index );
            is_ok = ( row_index > 3 || left > right ? left - right : right - left ) <= tolerance;''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 5, 2, double > a, b;
    a.fill( 1 ); b.fill( 1 );
    b( 4, 1 ) = 9;
    return a.equals( b, 0.1 );
}
'''),
dict(id='M14-inverted-columns', property='M14',
 needs='matrices with fewer rows than columns that differ in one of the last columns',
 breaks='the comparison up to the sign of columns looks at as many columns as there are rows',
 edits={'vmmlib/matrix_functors.hpp': [('        const size_t r = matrix0.get_number_of_columns();\n        bool ok = true;\n        for( size_t index = 0; ok && index < r; ++index )\n        {\n            if ( matrix0.get_column( index ) !=',
   '        const size_t r = matrix0.get_number_of_columns() < matrix0.get_number_of_rows() ? matrix0.get_number_of_columns() : matrix0.get_number_of_rows();\n        bool ok = true;\n        for( size_t index = 0; ok && index < r; ++index )\n        {\n            if ( matrix0.get_column( index ) !=')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    typedef vmml::Matrix< 2, 4, double > M;
    M a, b;
    a.fill( 1 ); b.fill( 1 );
    b( 0, 3 ) = 5;
    return vmml::matrix_equals_allow_inverted_columns< M >()( a, b );
}
'''),
dict(id='M15-sylvester-order', property='M15',
 needs='a symmetric 3x3 matrix with an indefinite upper left 2x2 block and a positive determinant',
 breaks='the positive-definiteness test of 3x3 matrices leaves out the 2x2 block',
 edits={M: [('''    // sylvester criterion
    if ( M > 1 )
''', '''    // sylvester criterion
    if ( M == 2 )
''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, double > m;
    m( 1, 1 ) = -1; m( 2, 2 ) = -1;
    return vmml::is_positive_definite( m );
}
'''),
dict(id='M08-threshold-edge', property='M08',
 needs='an element equal to the threshold, sign included',
 breaks='threshold() keeps elements equal to the threshold, though nnz( threshold ) does not count them',
 edits={M: [('            *it = static_cast<T> (0);', '            *it = ( *it == limit ) ? limit : static_cast<T> (0);')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 2, 2, double > m;
    m( 0, 1 ) = 0.5;
    m.threshold( 0.5 );
    return m( 0, 1 ) != 0 || m( 0, 0 ) != 1;
}
'''),
dict(id='M11-large-seed', property='M11',
 needs='set_random() with a seed of more than 16 bits',
 breaks='set_random() ignores large seeds, so the matrices are not reproducible',
 edits={M: [('''    if ( seed >= 0 )
        srand( seed );

    double fillValue''', '''    if ( seed >= 0 && seed < 65536 )
        srand( seed );

    double fillValue''')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 3, 3, double > a, b;
    a.set_random( 100000 );
    b.set_random( 100000 );
    return a != b;
}
'''),
dict(id='M07-tensor-homogeneous', property='M07',
 needs='the 4x4 tensor product of two different 3d vectors',
 breaks='the last row and the last column of the 4x4 tensor product of 3d vectors both take the first vector',
 edits={M: [('        at( row_index, 3 ) = v.array[ row_index ];', '        at( row_index, 3 ) = u.array[ row_index ];')]},
 demo='''
#include <vmmlib/matrix.hpp>
int main()
{
    vmml::Matrix< 4, 4, double > m;
    m.tensor( vmml::Vector< 3, double >( 1, 2, 3 ), vmml::Vector< 3, double >( 5, 6, 7 ));
    return m( 1, 3 ) != 6 || m( 3, 1 ) != 2;
}
'''),
]
