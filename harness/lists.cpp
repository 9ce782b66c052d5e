#include "h.hpp"
#include <librbbl/float_sequence.hpp>
#include <librbbl/index_sequence.hpp>
#include <libvisr/channel_list.hpp>
using namespace visr;
using LL = long long;
static std::vector<int> codes( std::string const & s ) { std::vector<int> r; for( unsigned char c : s ) r.push_back( c ); return r; }
template<class S> static bool agree( S const & s, double scale, std::vector<LL> const & v )
{
  bool ok = s.size() == v.size();
  for( std::size_t i = 0; ok and i < v.size(); ++i ) ok = h::q( s[i], scale ) == v[i] and h::q( s.at( i ), scale ) == v[i] and h::q( s.values()[i], scale ) == v[i];
  return ok and h::guarded( [&] { s.at( v.size() ); } ) == "ex";
}
template<class S> static void parse( std::string const & k, std::string const & t, double scale )
{
  std::vector<LL> v; bool same = true; std::unique_ptr<S> s;
  std::string r = h::guarded( [&] { s.reset( new S( t ) ); } );
  if( s ) { for( auto x : *s ) v.push_back( h::q( x, scale ) ); same = agree( *s, scale, v ); s->clear(); same = same and s->size() == 0; }
  h::Ev( "parse" ).k( "k", k ).k( "t", codes( t ) ).k( "r", r ).k( "v", v ).k( "same", same ).done();
}
template<class T> static void flit( std::vector<int> const & in )
{
  std::vector<T> w; for( int x : in ) w.push_back( x / T( 8 ) );
  rbbl::FloatSequence<T> s( w.data(), w.size() );
  std::vector<LL> v; for( auto x : s ) v.push_back( h::q( x, 8 ) );
  h::Ev( "lit" ).k( "in", in ).k( "v", v ).k( "same", agree( s, 8, v ) ).done();
  std::string t; std::string r = h::guarded( [&] { t = s.toString( "," ); } );
  h::Ev( "print" ).k( "k", "f" ).k( "v", v ).k( "t", codes( t ) ).k( "r", r ).done();
}
static bool same( ChannelList const & c, std::vector<LL> const & v )
{
  bool ok = c.size() == v.size();
  for( std::size_t i = 0; ok and i < v.size(); ++i ) ok = static_cast<LL>( c[i] ) == v[i] and static_cast<LL>( c.at( i ) ) == v[i];
  return ok;
}
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "parse" ) // parse i|f|d hex
  {
    if( a.s( 1 ) == "i" ) parse<rbbl::IndexSequence>( "i", a.hex( 2 ), 1 );
    else if( a.s( 1 ) == "f" ) parse<rbbl::FloatSequence<float>>( "f", a.hex( 2 ), 8 );
    else parse<rbbl::FloatSequence<double>>( "d", a.hex( 2 ), 8 );
  }
  else if( op == "flit" ) { if( a.s( 1 ) == "f" ) flit<float>( a.il( 2 ) ); else flit<double>( a.il( 2 ) ); }
  else if( op == "range" ) // range a b s
  {
    std::size_t x = a.i( 1 ), y = a.i( 2 ); std::ptrdiff_t s = a.i( 3 );
    std::vector<LL> v; bool sm = true; std::string over = "ex", set = ""; std::unique_ptr<ChannelRange> c;
    std::string r = h::guarded( [&] { c.reset( new ChannelRange( x, y, s ) ); } );
    if( c )
    {
      ChannelRange const & cc = *c; ChannelRange other;
      sm = cc.start() == x and cc.end() == y and cc.step() == s and cc.isValid() and other.size() == 0;
      for( std::size_t i = 0; i < cc.size(); ++i ) { v.push_back( static_cast<LL>( cc[i] ) ); sm = sm and cc.at( i ) == cc[i] and c->at( i ) == cc[i]; }
      over = h::guarded( [&] { cc.at( cc.size() ); } );
      ChannelList l( cc ); sm = sm and same( l, v );
      set = h::guarded( [&] { other.set( x, y, s ); } ); sm = sm and other.size() == cc.size();
      std::stringstream ss; ss << cc;
      std::stringstream ex; ex << x; if( s != 1 ) ex << ":" << s; ex << ":" << y; sm = sm and ss.str() == ex.str();
    }
    h::Ev( "range" ).k( "a", a.i( 1 ) ).k( "b", a.i( 2 ) ).k( "s", a.i( 3 ) ).k( "r", r ).k( "valid", ChannelRange::isValid( x, y, s ) ).k( "v", v ).k( "over", over ).k( "set", set ).k( "same", sm ).done();
  }
  else if( op == "chlist" ) // chlist a1 b1 s1 ... up to three ranges
  {
    std::vector<std::vector<LL>> parts; std::vector<ChannelRange> rs;
    for( std::size_t i = 1; i + 2 < a.size() + 0; i += 3 ) { parts.push_back( { a.i( i ), a.i( i + 1 ), a.i( i + 2 ) } ); rs.emplace_back( a.i( i ), a.i( i + 1 ), a.i( i + 2 ) ); }
    std::unique_ptr<ChannelList> l;
    switch( rs.size() ) {
    case 0: l.reset( new ChannelList() ); break;
    case 1: l.reset( new ChannelList( { rs[0] } ) ); break;
    case 2: l.reset( new ChannelList( { rs[0], rs[1] } ) ); break;
    default: l.reset( new ChannelList( { rs[0], rs[1], rs[2] } ) ); }
    std::vector<LL> v; for( auto x : *l ) v.push_back( static_cast<LL>( x ) );
    std::string over = h::guarded( [&] { l->at( l->size() ); } );
    h::Ev( "chlist" ).k( "parts", parts ).k( "v", v ).k( "over", over ).k( "same", same( *l, v ) ).done();
  }
  else if( op == "clit" ) // list from a container; printed
  {
    std::vector<int> in = a.il( 1 ); ChannelList l( in.begin(), in.end() ); ChannelList m( in );
    std::vector<LL> v; for( auto x : l ) v.push_back( static_cast<LL>( x ) );
    h::Ev( "lit" ).k( "in", in ).k( "v", v ).k( "same", same( l, v ) and same( m, v ) ).done();
    std::stringstream ss; ss << l;
    h::Ev( "print" ).k( "k", "i" ).k( "v", v ).k( "t", codes( ss.str() ) ).k( "r", "" ).done();
  }
  else exit( 77 );
}
int main( int argc, char ** argv ) { return h::run( argc, argv, [] {}, exec ); }
