#include "h.hpp"
#include <librbbl/object_channel_allocator.hpp>
using namespace visr;
static std::unique_ptr<rbbl::ObjectChannelAllocator> al;
static std::vector<int> chans()
{
  std::vector<int> r;
  for( std::size_t c = 0; c < al->maxChannels(); ++c ) { auto o = al->getObjectForChannel( c ); r.push_back( o == objectmodel::Object::cInvalidObjectId ? -1 : static_cast<int>( o ) ); }
  return r;
}
static void exec( h::Args const & a )
{
  if( a.op() == "mk" ) { al.reset( new rbbl::ObjectChannelAllocator( a.i( 1 ) ) ); h::Ev( "mk" ).k( "n", a.i( 1 ) ).k( "max", al->maxChannels() ).k( "used", al->numberUsedChannels() ).k( "chan", chans() ).done(); }
  else if( a.op() == "set" )
  {
    std::vector<int> v = a.il( 1 ); std::vector<objectmodel::ObjectId> ids( v.begin(), v.end() );
    std::string r = h::guarded( [&] { al->setObjects( ids ); } );
    h::Ev( "set" ).k( "ids", v ).k( "r", r ).k( "used", al->numberUsedChannels() ).k( "chan", chans() ).done();
  }
  else if( a.op() == "query" ) // beyond the range of channels
  {
    std::string r = h::guarded( [&] { al->getObjectForChannel( al->maxChannels() + a.i( 1 ) ); } );
    h::Ev( "query" ).k( "r", r ).done();
  }
  else exit( 77 );
}
int main( int argc, char ** argv ) { return h::run( argc, argv, [] { al.reset(); }, exec ); }
