#include "drive.hpp"
#include <libpml/matrix_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/gain_fader.hpp>
#include <librbbl/gain_matrix.hpp>
#include <librcl/gain_matrix.hpp>
#include <librcl/gain_vector.hpp>
#include <librcl/sparse_gain_matrix.hpp>
using namespace visr;
using LL = long long; using Vec = std::vector<LL>;
static const double ONE = 65536.0;
static std::string kind; static std::size_t ni, no, B;
static std::unique_ptr<rbbl::GainMatrix<float>> mf; static std::unique_ptr<rbbl::GainMatrix<double>> md;
static std::unique_ptr<Component> comp; static std::unique_ptr<h::Drive> drive;
static Vec last; // gains last set (component with shared data)
static Vec scaled( std::vector<double> const & g ) { Vec r; for( double x : g ) r.push_back( h::qr( x, ONE ) ); return r; }
template<class T> static efl::BasicMatrix<T> mat( std::vector<double> const & g, std::size_t rows, std::size_t cols, std::size_t al = 0 )
{ efl::BasicMatrix<T> m( rows, cols, al ); for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < cols; ++j ) m( i, j ) = static_cast<T>( g.at( i * cols + j ) ); return m; }
static std::vector<Vec> full( std::vector<double> const & g ) { std::vector<Vec> r; for( std::size_t i = 0; i < no; ++i ) for( std::size_t j = 0; j < ni; ++j ) r.push_back( { LL( i * ni + j ), LL( i ), LL( j ), h::qr( g.at( i * ni + j ), ONE ) } ); return r; }
template<class T> static std::string runMat( rbbl::GainMatrix<T> & m, h::Mat const & in, h::Mat & out, efl::BasicMatrix<T> const * g )
{
  std::vector<efl::AlignedArray<T>> ib, ob; std::vector<T const *> ip; std::vector<T *> op;
  for( std::size_t c = 0; c < ni; ++c ) { ib.emplace_back( B, 16 ); for( std::size_t k = 0; k < B; ++k ) ib[c][k] = static_cast<T>( in[c][k] ); }
  for( std::size_t c = 0; c < no; ++c ) { ob.emplace_back( B, 16 ); for( std::size_t k = 0; k < B; ++k ) ob[c][k] = T( -777 ); }
  for( auto & v : ib ) ip.push_back( v.data() ); for( auto & v : ob ) op.push_back( v.data() );
  std::string r = h::guarded( [&] { if( g ) m.process( ip.data(), op.data(), *g ); else m.process( ip.data(), op.data() ); } );
  out.clear(); for( auto & v : ob ) out.emplace_back( v.data(), v.data() + B );
  return r;
}
template<class T> static void fade( h::Args const & a ) // fade T b steps align index acc seed g0 g1
{
  std::size_t b = a.i( 2 ), st = a.i( 3 ), al = a.i( 4 ), i = a.i( 5 ); bool acc = a.i( 6 ); LL seed = a.i( 7 ); double g0 = a.d( 8 ), g1 = a.d( 9 );
  rbbl::GainFader<T> f( b, st, al ); efl::AlignedArray<T> in( b, 16 ), out( b, 16 ); Vec vi, va, vo;
  for( std::size_t k = 0; k < b; ++k ) { in[k] = T( ( seed * 31 + LL( k ) * 7 ) % 9 - 4 ); out[k] = T( ( seed + LL( k ) ) % 5 ); vi.push_back( LL( in[k] ) ); va.push_back( acc ? LL( out[k] ) : 0 ); }
  std::string r = h::guarded( [&] { if( acc ) f.scaleAndAccumulate( in.data(), out.data(), T( g0 ), T( g1 ), i ); else f.scale( in.data(), out.data(), T( g0 ), T( g1 ), i ); } );
  for( std::size_t k = 0; k < b; ++k ) vo.push_back( r.empty() ? h::qr( out[k], ONE ) : h::cBad );
  h::Ev( "fade" ).k( "b", b ).k( "st", st ).k( "i", i ).k( "acc", va ).k( "in", vi ).k( "out", vo ).k( "g0", h::qr( g0, ONE ) ).k( "g1", h::qr( g1, ONE ) ).k( "per", f.interpolationPeriods() ).k( "smp", f.interpolationSamples() ).done();
}
static h::Mat input( LL seed ) { h::Mat in( ni, std::vector<double>( B ) ); for( std::size_t c = 0; c < ni; ++c ) for( std::size_t k = 0; k < B; ++k ) in[c][k] = double( ( seed * 37 + LL( c ) * 5 + LL( k ) * 11 ) % 11 - 5 ); return in; }
static void logBlk( h::Mat const & in, h::Mat const & out, std::string const & r )
{
  std::vector<Vec> vi, vo; for( auto const & c : in ) { Vec v; for( double x : c ) v.push_back( LL( x ) ); vi.push_back( v ); }
  for( auto const & c : out ) { Vec v; for( double x : c ) v.push_back( h::qr( x, ONE ) ); vo.push_back( v ); }
  h::Ev( "blk" ).k( "in", vi ).k( "out", vo ).k( "r", r ).done();
}
static void reset() { drive.reset(); comp.reset(); mf.reset(); md.reset(); kind.clear(); last.clear(); }
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "fade" ) { if( a.s( 1 ) == "f" ) fade<float>( a ); else fade<double>( a ); return; }
  if( op == "mk" ) // mk kind b steps ni no how gains|entries...
  {
    reset(); kind = a.s( 1 ); B = a.i( 2 ); std::size_t st = a.i( 3 ); ni = a.i( 4 ); no = a.i( 5 ); int how = int( a.i( 6 ) ); // how: 0 common initial value, 1 individual
    std::vector<Vec> els; std::string r; bool free = false;
    SignalFlowContext ctx( B, 48000 );
    if( kind == "rmf" or kind == "rmd" )
    {
      std::size_t al = a.i( 7 ); std::vector<double> g = a.dl( 8 ); if( how == 0 ) g.assign( ni * no, g[0] );
      r = h::guarded( [&] {
        if( kind == "rmf" ) { if( how ) mf.reset( new rbbl::GainMatrix<float>( ni, no, B, st, mat<float>( g, no, ni, al ), al ) ); else mf.reset( new rbbl::GainMatrix<float>( ni, no, B, st, float( g[0] ), al ) ); }
        else { if( how ) md.reset( new rbbl::GainMatrix<double>( ni, no, B, st, mat<double>( g, no, ni, al ), al ) ); else md.reset( new rbbl::GainMatrix<double>( ni, no, B, st, g[0], al ) ); }
      } );
      els = full( g );
    }
    else if( kind == "gv" )
    {
      std::vector<double> g = a.dl( 7 ); if( how == 0 ) g.assign( ni, g[0] );
      r = h::guarded( [&] {
        auto c = new rcl::GainVector( ctx, "c" ); comp.reset( c );
        if( how ) { efl::BasicVector<SampleType> v( ni, cVectorAlignmentSamples ); for( std::size_t i = 0; i < ni; ++i ) v[i] = float( g[i] ); c->setup( ni, st, true, v ); } else c->setup( ni, st, true, float( g[0] ) );
        drive.reset( new h::Drive( *comp, B ) );
      } );
      for( std::size_t i = 0; i < ni; ++i ) els.push_back( { LL( i ), LL( i ), LL( i ), h::qr( g[i], ONE ) } );
    }
    else if( kind == "gm" or kind == "gmc" )
    {
      std::vector<double> g = a.dl( 7 ); if( how == 0 ) g.assign( ni * no, g[0] );
      r = h::guarded( [&] {
        auto c = new rcl::GainMatrix( ctx, "c" ); comp.reset( c );
        if( how ) c->setup( ni, no, st, mat<float>( g, no, ni, cVectorAlignmentSamples ), kind == "gmc" ); else c->setup( ni, no, st, float( g[0] ), kind == "gmc" );
        drive.reset( new h::Drive( *comp, B ) );
      } );
      els = full( g );
    }
    else if( kind == "sg" ) // entries: idx,row,col,gain ; maxpoints in arg 7, ports in 8
    {
      rbbl::SparseGainRoutingList l; for( std::size_t i = 9; i < a.size(); ++i ) { auto d = a.dl( i ); l.addRouting( std::size_t( d[0] ), std::size_t( d[1] ), std::size_t( d[2] ), float( d[3] ) ); els.push_back( { LL( d[0] ), LL( d[1] ), LL( d[2] ), h::qr( d[3], ONE ) } ); }
      r = h::guarded( [&] { comp.reset( new rcl::SparseGainMatrix( ctx, "c", nullptr, ni, no, st, a.i( 7 ), l, rcl::SparseGainMatrix::ControlPortConfig::Gain | rcl::SparseGainMatrix::ControlPortConfig::RoutingList ) ); drive.reset( new h::Drive( *comp, B ) ); } );
      free = true;
    }
    else exit( 77 );
    h::Ev( "mk" ).k( "b", B ).k( "st", st ).k( "els", els ).k( "free", free ).k( "r", r ).done();
  }
  else if( op == "set" ) // set gains ; for rm* : "set v gains" sets together with the next block
  {
    std::vector<double> g = a.dl( 1 ); bool bad = a.size() > 2; std::string r;
    if( kind == "rmf" ) r = h::guarded( [&] { mf->setNewGains( mat<float>( g, no + bad, ni ) ); } );
    else if( kind == "rmd" ) r = h::guarded( [&] { md->setNewGains( mat<double>( g, no, ni + bad ) ); } );
    else if( kind == "gv" or kind == "sg" ) r = h::guarded( [&] { auto & p = drive->db<pml::VectorParameter<float>>( "gainInput" ); for( std::size_t i = 0; i < p.size(); ++i ) p[i] = float( g.at( i ) ); drive->swap( "gainInput" ); } );
    else if( kind == "gmc" ) { r = h::guarded( [&] { auto & p = drive->sd<pml::MatrixParameter<float>>( "gainInput" ); for( std::size_t i = 0; i < no; ++i ) for( std::size_t j = 0; j < ni; ++j ) p( i, j ) = float( g.at( i * ni + j ) ); } ); return; } // logged with the block
    else exit( 77 );
    h::Ev( "set" ).k( "g", scaled( g ) ).k( "bad", bad ).k( "r", r ).done();
  }
  else if( op == "rep" ) // rep entries...
  {
    std::vector<Vec> els; rbbl::SparseGainRoutingList l; for( std::size_t i = 1; i < a.size(); ++i ) { auto d = a.dl( i ); l.addRouting( std::size_t( d[0] ), std::size_t( d[1] ), std::size_t( d[2] ), float( d[3] ) ); els.push_back( { LL( d[0] ), LL( d[1] ), LL( d[2] ), h::qr( d[3], ONE ) } ); }
    std::string r = h::guarded( [&] { auto & p = drive->db<pml::SparseGainRoutingListParameter>( "routingListInput" ); static_cast<rbbl::SparseGainRoutingList &>( p ) = l; drive->swap( "routingListInput" ); } );
    h::Ev( "rep" ).k( "els", els ).k( "r", r ).done();
  }
  else if( op == "blk" ) // blk seed
  {
    h::Mat in = input( a.i( 1 ) ), out; std::string r;
    if( kind == "rmf" ) r = runMat<float>( *mf, in, out, nullptr );
    else if( kind == "rmd" ) r = runMat<double>( *md, in, out, nullptr );
    else
    {
      if( kind == "gmc" )
      { // the component applies the current content of its input in every block
        auto & p = drive->sd<pml::MatrixParameter<float>>( "gainInput" ); Vec g; for( std::size_t i = 0; i < no; ++i ) for( std::size_t j = 0; j < ni; ++j ) g.push_back( h::qr( p( i, j ), ONE ) );
        h::Ev( "set" ).k( "g", g ).k( "bad", false ).k( "r", "" ).done();
      }
      r = drive->block( in, out );
    }
    logBlk( in, out, r );
  }
  else if( op == "sblk" ) // sblk gains seed : set and process in one call
  {
    std::vector<double> g = a.dl( 1 ); h::Mat in = input( a.i( 2 ) ), out; std::string r;
    if( kind == "rmf" ) { auto m = mat<float>( g, no, ni ); r = runMat<float>( *mf, in, out, &m ); }
    else { auto m = mat<double>( g, no, ni ); r = runMat<double>( *md, in, out, &m ); }
    h::Ev( "set" ).k( "g", scaled( g ) ).k( "bad", false ).k( "r", r ).done();
    logBlk( in, out, r );
  }
  else exit( 77 );
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, reset, exec ); }
