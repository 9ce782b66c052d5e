#include "drive.hpp"
#include <librbbl/filter_routing.hpp>
#include <librbbl/sparse_gain_routing.hpp>
#include <librcl/signal_routing.hpp>
#include <libpml/signal_routing_parameter.hpp>
using namespace visr;
using LL = long long;
using SR = pml::SignalRoutingParameter; using FR = rbbl::FilterRoutingList; using GR = rbbl::SparseGainRoutingList;
using Vec = std::vector<LL>;
static std::map<int, std::string> kind; static std::map<int, SR> sr; static std::map<int, FR> fr; static std::map<int, GR> gr;
static std::unique_ptr<rcl::SignalRouting> comp; static std::unique_ptr<h::Drive> drive;
static LL ix( std::size_t v, std::size_t inv ) { return v == inv ? -1 : v < 1000000000 ? static_cast<LL>( v ) : h::cBad; }
static std::size_t xi( LL v, std::size_t inv ) { return v < 0 ? inv : static_cast<std::size_t>( v ); }
static Vec ent( SR::Entry const & e ) { return { ix( e.input, SR::cInvalidIndex ), ix( e.output, SR::cInvalidIndex ) }; }
static Vec ent( rbbl::FilterRouting const & e ) { auto n = rbbl::FilterRouting::cInvalidIndex; return { ix( e.inputIndex, n ), ix( e.outputIndex, n ), ix( e.filterIndex, n ), h::q( e.gainLinear, 8 ) }; }
static Vec ent( rbbl::SparseGainRouting const & e ) { auto n = rbbl::SparseGainRouting::cInvalidIndex; return { ix( e.entryIndex, n ), ix( e.rowIndex, n ), ix( e.columnIndex, n ), h::q( e.gain, 8 ) }; }
static SR::Entry mkS( Vec const & v ) { return SR::Entry{ xi( v[0], SR::cInvalidIndex ), xi( v[1], SR::cInvalidIndex ) }; }
static rbbl::FilterRouting mkF( Vec const & v ) { return rbbl::FilterRouting( v[0], v[1], v[2], v[3] / 8.0 ); }
static rbbl::SparseGainRouting mkG( Vec const & v ) { return rbbl::SparseGainRouting( v[0], v[1], v[2], v[3] / 8.0f ); }
static Vec vec( std::string const & s ) { Vec r; std::stringstream ss( s ); std::string p; while( std::getline( ss, p, ',' ) ) r.push_back( std::stoll( p ) ); return r; }
static std::vector<Vec> vecs( h::Args const & a, std::size_t from ) { std::vector<Vec> r; for( std::size_t i = from; i < a.size(); ++i ) r.push_back( vec( a.s( i ) ) ); return r; }
template<class L, class E> static L build( std::vector<E> const & e )
{
  switch( e.size() ) {
  case 0: return L();
  case 1: return L( { e[0] } );
  case 2: return L( { e[0], e[1] } );
  case 3: return L( { e[0], e[1], e[2] } );
  default: exit( 77 ); }
}
template<class L> static void content( h::Ev & e, L const & l ) { std::vector<Vec> t; for( auto const & x : l ) t.push_back( ent( x ) ); e.k( "t", t ).k( "size", l.size() ).k( "emp", l.empty() ); }
static void show( h::Ev & e, int s )
{
  std::vector<Vec> q;
  if( kind[s] == "signal" )
  {
    SR const & r = sr[s]; content( e, r );
    for( LL i = 0; i < 6; ++i ) { Vec g = ent( r.getEntry( i ) ); q.push_back( { i, ix( r.getInput( i ), SR::cInvalidIndex ), ix( r.getOutput( i ), SR::cInvalidIndex ), g[0], g[1] } ); }
  }
  else if( kind[s] == "filter" )
  {
    FR const & r = fr[s]; content( e, r );
    for( LL i = 0; i < 4; ++i ) for( LL o = 0; o < 4; ++o ) { Vec g = ent( r.getEntry( i, o ) ); q.push_back( { i, o, g[0], g[1], g[2], g[3] } ); }
  }
  else if( kind[s] == "sparse" ) content( e, gr[s] );
  else exit( 77 );
  e.k( "q", q );
}
static std::string field( char const * name, std::string const & hexText, bool raw )
{
  h::Args x; x.t = { hexText }; std::string v = x.hex( 0 ), o;
  if( raw ) return std::string( "\"" ) + name + "\": " + v;
  for( char c : v ) { if( c == '\t' ) o += "\\t"; else if( c == '\n' ) o += "\\n"; else if( c == '"' or c == '\\' ) { o += '\\'; o += c; } else o += c; }
  return std::string( "\"" ) + name + "\": \"" + o + "\"";
}
static std::vector<int> codes( std::string const & s ) { std::vector<int> r; for( unsigned char c : s ) r.push_back( c ); return r; }
static SR table( std::vector<Vec> const & es ) { SR r; for( auto const & v : es ) r.addRouting( mkS( v ) ); return r; }
static void exec( h::Args const & a )
{
  std::string const & op = a.op(); int s = a.size() > 1 and a.s( 1 ).size() == 1 ? static_cast<int>( a.i( 1 ) ) : -1;
  if( op == "mk" ) // mk slot kind entry...
  {
    std::vector<Vec> es = vecs( a, 3 ); std::string k = a.s( 2 );
    std::string r = h::guarded( [&] {
      if( k == "signal" ) { std::vector<SR::Entry> e; for( auto const & v : es ) e.push_back( mkS( v ) ); sr[s] = build<SR>( e ); }
      else if( k == "filter" ) { std::vector<rbbl::FilterRouting> e; for( auto const & v : es ) e.push_back( mkF( v ) ); fr[s] = build<FR>( e ); }
      else { std::vector<rbbl::SparseGainRouting> e; for( auto const & v : es ) e.push_back( mkG( v ) ); gr[s] = build<GR>( e ); }
    } );
    h::Ev e( "mk" ); e.k( "s", s ).k( "k", k ).k( "es", es ).k( "r", r );
    if( r.empty() ) { kind[s] = k; show( e, s ); } else kind.erase( s );
    e.done(); return;
  }
  if( op == "cmk" ) // cmk ni no ctl init? entries
  {
    comp.reset(); drive.reset();
    SignalFlowContext ctx( 4, 48000 ); std::size_t ni = a.i( 1 ), no = a.i( 2 ); bool ctl = a.i( 3 ), init = a.i( 4 ); std::vector<Vec> es = vecs( a, 5 );
    bool port = false;
    std::string r = h::guarded( [&] {
      comp.reset( new rcl::SignalRouting( ctx, "r" ) );
      if( init ) comp->setup( ni, no, table( es ), ctl ); else comp->setup( ni, no, ctl );
      drive.reset( new h::Drive( *comp, 4 ) );
      port = drive->flow.numberExternalParameterReceivePorts() == 1;
    } );
    if( not r.empty() ) { drive.reset(); comp.reset(); }
    h::Ev( "cmk" ).k( "ni", ni ).k( "no", no ).k( "ctl", ctl ).k( "es", es ).k( "r", r ).k( "port", port ).done(); return;
  }
  if( op == "cset" ) { Vec x = vec( a.s( 1 ) ); SR::Entry en = mkS( x ); std::string r = h::guarded( [&] { comp->setRouting( en.input, en.output ); } ); h::Ev( "cset" ).k( "x", x ).k( "r", r ).done(); return; }
  if( op == "call" ) { std::vector<Vec> es = vecs( a, 1 ); std::string r = h::guarded( [&] { comp->setRouting( table( es ) ); } ); h::Ev( "call" ).k( "es", es ).k( "r", r ).done(); return; }
  if( op == "crem" ) { Vec x = vec( a.s( 1 ) ); SR::Entry en = mkS( x ); bool ret = false; std::string r = h::guarded( [&] { ret = comp->removeRouting( en.input, en.output ); } ); h::Ev( "crem" ).k( "x", x ).k( "r", r ).k( "ret", ret ).done(); return; }
  if( op == "cpub" )
  {
    std::vector<Vec> es = vecs( a, 1 );
    std::string r = h::guarded( [&] { drive->db<SR>( "controlInput" ) = table( es ); drive->swap( "controlInput" ); } );
    h::Ev( "cpub" ).k( "es", es ).k( "r", r ).done(); return;
  }
  if( op == "blk" ) // blk seed
  {
    LL seed = a.i( 1 ); std::size_t ni = drive->flow.numberOfCaptureChannels(); h::Mat in( ni, std::vector<double>( 4 ) ), out; std::vector<Vec> vi, vo;
    for( std::size_t c = 0; c < ni; ++c ) for( std::size_t k = 0; k < 4; ++k ) in[c][k] = static_cast<double>( ( seed * 7919 + static_cast<LL>( c * 131 + k * 17 ) ) % 10007 + 1 );
    std::string r = drive->block( in, out );
    for( auto const & c : in ) { Vec v; for( double x : c ) v.push_back( h::q( x ) ); vi.push_back( v ); }
    for( auto const & c : out ) { Vec v; for( double x : c ) v.push_back( h::q( x ) ); vo.push_back( v ); }
    h::Ev( "blk" ).k( "in", vi ).k( "out", vo ).k( "r", r ).done(); return;
  }
  std::string k = kind[s]; std::string r; bool ret = false; h::Ev e( op ); e.k( "s", s );
  if( op == "add" )
  {
    Vec x = vec( a.s( 2 ) ); bool var = a.size() > 3; // two ways to say the same
    r = h::guarded( [&] {
      if( k == "signal" ) { if( var ) sr[s].addRouting( mkS( x ) ); else sr[s].addRouting( mkS( x ).input, mkS( x ).output ); }
      else if( k == "filter" ) { if( var ) fr[s].addRouting( mkF( x ) ); else fr[s].addRouting( x[0], x[1], x[2], x[3] / 8.0 ); }
      else { if( var ) gr[s].addRouting( mkG( x ) ); else gr[s].addRouting( x[0], x[1], x[2], x[3] / 8.0f ); }
    } );
    e.k( "x", x );
  }
  else if( op == "remk" )
  {
    Vec key = vec( a.s( 2 ) ); bool var = a.size() > 3;
    r = h::guarded( [&] {
      if( k == "signal" ) ret = sr[s].removeEntry( static_cast<SR::IndexType>( key[0] ) );
      else if( k == "filter" ) ret = var ? fr[s].removeRouting( rbbl::FilterRouting( key[0], key[1], 99, 3.0 ) ) : fr[s].removeRouting( key[0], key[1] );
      else ret = gr[s].removeRouting( rbbl::SparseGainRouting( key[0], 77, 88, 3.0f ) );
    } );
    e.k( "key", key ).k( "ret", ret );
  }
  else if( op == "reme" ) { Vec x = vec( a.s( 2 ) ); r = h::guarded( [&] { ret = sr[s].removeEntry( mkS( x ) ); } ); e.k( "x", x ).k( "ret", ret ); }
  else if( op == "clear" ) r = h::guarded( [&] { if( k == "signal" ) sr[s].clear(); else if( k == "filter" ) { FR n; fr[s].swap( n ); } else gr[s].clear(); } );
  else if( op == "copy" ) // copy slot from
  {
    int o = static_cast<int>( a.i( 2 ) ); kind[s] = kind[o]; bool var = a.size() > 3; k = kind[o];
    r = h::guarded( [&] {
      if( k == "signal" ) { if( var ) { SR t( sr[o] ); sr[s].swap( t ); } else sr[s] = sr[o]; }
      else if( k == "filter" ) { if( var ) { FR t( fr[o] ); fr[s].swap( t ); } else fr[s] = fr[o]; }
      else { if( var ) { GR t( gr[o] ); gr[s].swap( t ); } else gr[s] = gr[o]; }
    } );
    e.k( "o", o );
  }
  else if( op == "swap" )
  {
    int o = static_cast<int>( a.i( 2 ) );
    r = h::guarded( [&] { if( k == "signal" ) sr[s].swap( sr[o] ); else if( k == "filter" ) fr[s].swap( fr[o] ); else gr[s].swap( gr[o] ); } );
    e.k( "o", o );
  }
  else if( op == "look" ) {}
  else if( op == "parse" and k == "signal" ) { std::string t = a.hex( 2 ); r = h::guarded( [&] { ret = sr[s].parse( t ); } ); if( r.empty() and not ret ) r = "ex"; e.k( "x", codes( t ) ); }
  else if( op == "bad" ) { std::string t = a.hex( 2 ); r = h::guarded( [&] { if( k == "filter" ) fr[s].parseJson( t ); else gr[s].parseJson( t ); } ); }
  else if( op == "parse" ) // parse slot raw f1:f2:f3:gain ...
  {
    bool raw = a.i( 2 ); std::vector<std::vector<std::vector<int>>> doc; std::string json = "[";
    char const * nf[] = { "input", "output", "filter", "gain" }; char const * ng[] = { "index", "row", "column", "gain" };
    for( std::size_t i = 3; i < a.size(); ++i )
    {
      std::stringstream ss( a.s( i ) ); std::string p; std::vector<std::vector<int>> fs; std::string obj;
      for( int f = 0; std::getline( ss, p, ':' ); ++f )
      {
        if( p == "~" ) { fs.push_back( { -1 } ); continue; }
        h::Args x; x.t = { p }; fs.push_back( codes( x.hex( 0 ) ) );
        obj += ( obj.empty() ? "" : ", " ) + field( k == "filter" ? nf[f] : ng[f], p, raw );
      }
      doc.push_back( fs ); json += ( i > 3 ? ",\n " : "" ) + std::string( "{" ) + obj + "}";
    }
    json += "]";
    bool var = json.size() % 2; // through the named constructor or in place
    r = h::guarded( [&] {
      if( k == "filter" ) { if( var ) fr[s] = FR::fromJson( json ); else fr[s].parseJson( json ); }
      else { if( var ) gr[s] = GR::fromJson( json ); else gr[s].parseJson( json ); }
    } );
    e.k( "x", doc );
  }
  else exit( 77 );
  e.k( "r", r ); show( e, s ); e.done();
}
int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary();
  return h::run( argc, argv, [] { drive.reset(); comp.reset(); kind.clear(); sr.clear(); fr.clear(); gr.clear(); }, exec );
}
