/* Minimal stand-in for camp/resource.hpp. */
#pragma once
#include "camp.hpp"
namespace camp
{
namespace resources
{
inline namespace v1
{
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
}

class Event
{
public:
  Event() = default;
  explicit Event( int id ): m_id( id ) {}
  bool check() const { return true; }
  void wait() const {}
  int id() const { return m_id; }
private:
  int m_id = 0;
};

class Host
{
public:
  Event get_event() { return Event( 1 ); }
};

/* A stand-in for a stream-like (non host) resource. */
class Cuda
{
public:
  Event get_event() { return Event( 2 ); }
};

class Resource
{
public:
  Resource( Host h ): m_host( h ), m_isHost( true ) {}
  Resource( Cuda ): m_isHost( false ) {}
  template< typename T > T * try_get();
  Event get_event() { return Event( m_isHost ? 1 : 2 ); }
private:
  Host m_host;
  bool m_isHost;
};
template<> inline Host * Resource::try_get< Host >() { return m_isHost ? &m_host : nullptr; }
}
} // namespace camp
