// Common support for the conformance harnesses: script reader and ndjson event log.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace h
{
inline FILE * & out() { static FILE * f = nullptr; return f; }

inline std::string esc( std::string const & s )
{
  std::string r = "\"";
  for( unsigned char c : s )
  {
    if( c == '"' or c == '\\' ) { r += '\\'; r += static_cast<char>(c); }
    else if( c < 0x20 or c >= 0x7f ) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c ); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

struct J // JSON text builder
{
  std::string s;
  static J i( long long v ) { return J{ std::to_string( v ) }; }
  static J b( bool v ) { return J{ v ? "true" : "false" }; }
  static J t( std::string const & v ) { return J{ esc( v ) }; }
  template<class C> static J a( C const & c )
  {
    std::string r = "["; bool f = true;
    for( auto const & v : c ) { if( !f ) r += ','; f = false; r += conv( v ).s; }
    return J{ r + "]" };
  }
  static J conv( J const & v ) { return v; }
  static J conv( bool v ) { return b( v ); }
  static J conv( int v ) { return i( v ); }
  static J conv( long v ) { return i( v ); }
  static J conv( long long v ) { return i( v ); }
  static J conv( unsigned v ) { return i( v ); }
  static J conv( unsigned long v ) { return i( static_cast<long long>(v) ); }
  static J conv( std::string const & v ) { return t( v ); }
  static J conv( char const * v ) { return t( v ); }
  template<class T> static J conv( std::vector<T> const & v ) { return a( v ); }
};

constexpr long long cBad = 2000000000; // an observation that is no legal value

// A sample that should hold an integer after multiplication with scale.
inline long long q( double v, double scale = 1.0, double tol = 1e-3 )
{
  double x = v * scale;
  if( !(std::fabs( x ) < 1e9) ) return cBad; // also NaN
  double r = std::floor( x + 0.5 );
  if( std::fabs( x - r ) > tol ) return cBad;
  return static_cast<long long>( r );
}
// Nearest integer, no tolerance demanded.
inline long long qr( double v, double scale = 1.0 )
{
  double x = v * scale;
  if( !(std::fabs( x ) < 1.9e9) ) return cBad;
  return static_cast<long long>( std::floor( x + 0.5 ) );
}

struct Ev
{
  std::string s;
  explicit Ev( char const * e ) { s = std::string( "{\"e\":\"" ) + e + "\""; }
  explicit Ev( std::string const & e ) { s = "{\"e\":\"" + e + "\""; }
  template<class T> Ev & k( char const * key, T const & v ) { s += std::string( ",\"" ) + key + "\":" + J::conv( v ).s; return *this; }
  void done() { s += "}\n"; fputs( s.c_str(), out() ); fflush( out() ); }
};

// Runs f; returns "" on success, "ex" for any std::exception, "other" for anything else thrown.
template<class F> std::string guarded( F && f )
{
  try { f(); return ""; }
  catch( std::exception const & ) { return "ex"; }
  catch( ... ) { return "other"; }
}

struct Args
{
  std::vector<std::string> t;
  std::string const & op() const { return t[0]; }
  std::string s( std::size_t n ) const { if( n >= t.size() ) { fprintf( stderr, "missing argument %zu of %s\n", n, t[0].c_str() ); exit( 77 ); } return t[n]; }
  long long i( std::size_t n ) const { return std::stoll( s( n ) ); }
  double d( std::size_t n ) const { return std::stod( s( n ) ); }
  std::size_t size() const { return t.size(); }
  // comma separated integer list; "-" is the empty list
  std::vector<int> il( std::size_t n ) const
  {
    std::vector<int> r; std::string v = s( n ); if( v == "-" ) return r;
    std::stringstream ss( v ); std::string p; while( std::getline( ss, p, ',' ) ) r.push_back( std::stoi( p ) ); return r;
  }
  std::vector<double> dl( std::size_t n ) const
  {
    std::vector<double> r; std::string v = s( n ); if( v == "-" ) return r;
    std::stringstream ss( v ); std::string p; while( std::getline( ss, p, ',' ) ) r.push_back( std::stod( p ) ); return r;
  }
  // hex encoded text; "-" is the empty text
  std::string hex( std::size_t n ) const
  {
    std::string v = s( n ), r; if( v == "-" ) return r;
    for( std::size_t k = 0; k + 1 < v.size(); k += 2 ) r += static_cast<char>( std::stoi( v.substr( k, 2 ), nullptr, 16 ) );
    return r;
  }
};

// Reads the script; op "scn" starts a new scenario (reset is called, and the event is logged).
inline int run( int argc, char ** argv, std::function<void()> reset, std::function<void( Args const & )> exec )
{
  if( argc != 3 ) { fprintf( stderr, "usage: %s script out\n", argv[0] ); return 77; }
  std::ifstream in( argv[1] );
  if( !in ) { fprintf( stderr, "cannot read script\n" ); return 77; }
  out() = fopen( argv[2], "w" );
  if( !out() ) return 77;
  std::string line;
  while( std::getline( in, line ) )
  {
    if( line.empty() or line[0] == '#' ) continue;
    Args a; std::stringstream ss( line ); std::string w; while( ss >> w ) a.t.push_back( w );
    if( a.t.empty() ) continue;
    if( a.op() == "scn" ) { reset(); Ev( "scn" ).k( "n", a.i( 1 ) ).done(); continue; }
    exec( a );
  }
  reset();
  fclose( out() );
  return 0;
}
} // namespace h
