//! What the drivers of the gateway groups share: the surroundings, with service-, queue- and gateway-manager, and the
//! other domain at the far end of tcp connections.
#pragma once

#include "fake.h"

#include "common/message/service.h"
#include "common/message/conversation.h"
#include "common/message/dispatch.h"
#include "common/communication/tcp.h"
#include "common/communication/instance/identity.h"
#include "common/buffer/type.h"
#include "gateway/message.h"
#include "gateway/message/protocol.h"
#include "queue/common/ipc/message.h"

#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>

namespace vf::gateway
{
   using namespace casual;
   using namespace casual::common;
   using Type = common::message::Type;
   namespace gm = casual::gateway::message;
   namespace qm = casual::queue::ipc::message;
   namespace dm = casual::domain::message::discovery;

   inline std::vector< std::string> split( const std::string& s, char by = ',')
   {
      std::vector< std::string> result;
      if( s == "-") return result;
      std::istringstream in{ s};
      std::string w;
      while( std::getline( in, w, by)) result.push_back( w);
      return result;
   }
   template< typename R>
   std::string join( const R& range)
   {
      std::string r;
      for( auto& s : range) r += ( r.empty() ? "" : ",") + s;
      return r.empty() ? "-" : r;
   }

   inline buffer::Payload payload( const std::string& data)
   {
      buffer::Payload result{ "X_OCTET/"};
      for( unsigned char c : data) result.data.push_back( static_cast< std::decay_t< decltype( result.data[ 0])>>( c));
      return result;
   }
   inline std::string text( const buffer::Payload& payload)
   {
      std::string result;
      for( auto c : payload.data) result += char( c);
      return result.empty() ? "-" : result;
   }

   inline std::string text( code::xatmi code) { return std::string{ description( code)};}
   inline code::xatmi xatmi( const std::string& name)
   {
      for( auto c : { code::xatmi::ok, code::xatmi::no_entry, code::xatmi::service_error, code::xatmi::service_fail, code::xatmi::timeout, code::xatmi::system})
         if( description( c) == name) return c;
      throw std::runtime_error{ "no such code: " + name};
   }
   inline std::string text( code::xa code) { return std::string{ description( code)};}

   inline gm::protocol::Version version( long v) { return static_cast< gm::protocol::Version>( 1000 + v);}

   //! a listening socket at a port of its own
   struct Listener
   {
      int fd = -1;
      std::string address;
      Listener()
      {
         fd = ::socket( AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
         ::sockaddr_in a{};
         a.sin_family = AF_INET;
         a.sin_addr.s_addr = htonl( INADDR_LOOPBACK);
         socklen_t n = sizeof a;
         if( ::bind( fd, reinterpret_cast< ::sockaddr*>( &a), n) != 0 || ::listen( fd, 16) != 0 || ::getsockname( fd, reinterpret_cast< ::sockaddr*>( &a), &n) != 0)
            throw std::runtime_error{ "listen"};
         address = "127.0.0.1:" + std::to_string( ntohs( a.sin_port));
      }
      Listener( Listener&& other) : fd{ std::exchange( other.fd, -1)}, address{ std::move( other.address)} {}
      ~Listener() { if( fd >= 0) ::close( fd);}
      //! @return -1 if nobody connects within `ms`
      int accept( long ms)
      {
         ::pollfd p{ fd, POLLIN, 0};
         if( ::poll( &p, 1, int( ms)) <= 0) return -1;
         return ::accept4( fd, nullptr, nullptr, SOCK_CLOEXEC);
      }
   };

   //! the far end of a connection
   struct Remote
   {
      using complete_type = communication::tcp::message::Complete;
      communication::tcp::Duplex device;
      long c = 0;
      long version = 4;
      bool closed = false;
      bool told = false;

      Remote( int fd, long c) : device{ communication::Socket{ strong::socket::id{ fd}}}, c{ c} {}

      int fd() { return device.connector().descriptor().value();}
      complete_type next()
      {
         if( closed) return {};
         try { return communication::device::non::blocking::next( device);}
         catch( ...) { closed = true; return {};}
      }
      template< typename M>
      bool send( M&& message)
      {
         if( closed) return false;
         try { communication::device::blocking::send( device, std::forward< M>( message)); return true;}
         catch( ...) { closed = true; return false;}
      }
      //! closes it, abruptly or not
      void close( bool abruptly)
      {
         if( abruptly)
         {
            ::linger l{ 1, 0};
            ::setsockopt( fd(), SOL_SOCKET, SO_LINGER, &l, sizeof l);
         }
         else ::shutdown( fd(), SHUT_RDWR);
         device = communication::tcp::Duplex{ communication::Socket{}};
         closed = told = true;
      }
   };

   template< typename M, typename C>
   M to( C& complete)
   {
      M message;
      serialize::native::complete( complete, message);
      return message;
   }

   struct Base
   {
      vf::fake::Surroundings around;
      using complete_type = vf::Inbox::complete_type;
      vf::Inbox sm, qm, gm;
      std::map< std::string, std::unique_ptr< vf::Inbox>> own;         //!< callers or servers
      std::map< long, std::unique_ptr< Remote>> remotes;               //!< by label: connection * 10 + incarnation
      std::map< strong::ipc::id, long> partners;                       //!< also of those that are gone
      std::map< long, process::Handle> handles;
      std::map< long, long> incarnation;
      unsigned run = 0;
      std::map< strong::correlation::id, long> ids;
      std::map< long, transaction::ID> trids;
      std::vector< std::string> rows;
      bool exited = false, told = false, stopped = false;

      Base()
      {
         auto set = []( std::string_view name, const process::Handle& value){ environment::variable::set( name, value);};
         set( environment::variable::name::ipc::service::manager, { vf::fake::pid( 4), sm.ipc()});
         set( environment::variable::name::ipc::queue::manager, { vf::fake::pid( 5), qm.ipc()});
         set( environment::variable::name::ipc::gateway::manager, { vf::fake::pid( 6), gm.ipc()});
         environment::variable::set( environment::variable::name::internal::unittest::context, "");
      }

      void row( std::vector< std::string> words)
      {
         for( auto& w : words) w = vf::quote( w);
         rows.push_back( vf::array( words));
      }
      strong::correlation::id correlation( long id)
      {
         auto result = strong::correlation::id{ vf::uuid( 4, id, run)};
         ids[ result] = id;
         return result;
      }
      std::string id( const strong::correlation::id& correlation)
      {
         auto found = ids.find( correlation);
         return found == ids.end() ? "?" : std::to_string( found->second);
      }
      const transaction::ID& trid( long t)
      {
         static const transaction::ID null{};
         if( t == 0) return null;
         auto found = trids.find( t);
         if( found == trids.end())
         {
            // branches of 1 are 101, 201...
            auto g = t % 100;
            found = trids.emplace( t, transaction::ID{ vf::uuid( 2, g, run), vf::uuid( 3, t, run), process::Handle{ vf::fake::pid( 9), around.me.ipc()}}).first;
         }
         return found->second;
      }
      std::string trid( const transaction::ID& value)
      {
         if( ! value) return "0";
         for( auto& [ t, v] : trids) if( v == value) return std::to_string( t);
         return "?";
      }
      std::string gtrid( const transaction::global::ID& value)
      {
         for( auto& [ t, v] : trids) if( transaction::global::ID{ transaction::id::range::global( v)} == value) return std::to_string( t % 100);
         return value ? "?" : "0";
      }
      transaction::global::ID gtrid( long t) { return transaction::global::ID{ transaction::id::range::global( trid( t))};}

      vf::Inbox& box( const std::string& name)
      {
         auto& result = own[ name];
         if( ! result) result = std::make_unique< vf::Inbox>();
         return *result;
      }
      process::Handle at( const std::string& name) { return { vf::fake::pid( 20), box( name).ipc()};}
      std::string who( const process::Handle& handle)
      {
         if( auto found = partners.find( handle.ipc); found != partners.end()) return std::to_string( found->second);
         return "?";
      }
      long current( long c) { return c * 10 + incarnation[ c];}
      Remote* remote( long c)
      {
         auto found = remotes.find( current( c));
         return found == remotes.end() ? nullptr : found->second.get();
      }

      std::vector< vf::Inbox*> inboxes()
      {
         std::vector< vf::Inbox*> result{ &around.dm, &around.discovery, &around.tm, &around.me, &sm, &qm, &gm};
         for( auto& [ n, inbox] : own) if( inbox) result.push_back( inbox.get());
         return result;
      }

      //! answers to fences that have arrived
      std::set< strong::correlation::id> fenced;
      long fences = 0;

      virtual void consume( vf::Inbox& inbox, complete_type& complete) = 0;
      virtual void received( Remote& remote, Remote::complete_type& complete) = 0;
      virtual ~Base() = default;

      //! @return true if something was there
      bool drain()
      {
         bool any = false;
         for( auto inbox : inboxes())
            while( auto complete = inbox->poll())
            {
               any = true;
               consume( *inbox, complete);
            }
         for( auto& [ label, remote] : remotes)
         {
            while( auto complete = remote->next())
            {
               any = true;
               received( *remote, complete);
            }
            if( remote->closed && ! remote->told)
            {
               any = remote->told = true;
               row( { "tcp" + std::to_string( label), "closed"});
            }
         }
         if( ! exited && around.pid && around.gone())
         {
            any = exited = true;
            around.pid = {};
         }
         return any;
      }
      void wait( long ms)
      {
         std::vector< ::pollfd> fds;
         for( auto inbox : inboxes()) fds.push_back( { inbox->device.descriptor().value(), POLLIN, 0});
         for( auto& [ label, remote] : remotes) if( ! remote->closed) fds.push_back( { remote->fd(), POLLIN, 0});
         ::poll( fds.data(), fds.size(), int( ms));
      }
      //! @return false if `done` is not reached
      template< typename D>
      bool until( D&& done, long ms = 8000)
      {
         auto end = clock::now() + std::chrono::milliseconds{ ms};
         while( true)
         {
            drain();
            if( done()) return true;
            if( clock::now() > end) return false;
            wait( 20);
         }
      }
      [[noreturn]] void unexpected( const std::string& what, Type type)
      {
         vf::emit( Json{}( "e", "unexpected")( "what", what)( "type", long( type)));
         throw vf::Timeout{};
      }
      [[noreturn]] void timeout( const std::string& what)
      {
         vf::emit( Json{}( "e", "timeout")( "what", what)( "gone", exited).raw( "out", vf::array( rows)));
         throw vf::Timeout{};
      }

      void reset()
      {
         if( stopped && around.pid) ::kill( around.pid.value(), SIGCONT);
         stopped = false;
         around.stop();
         own.clear(); remotes.clear(); partners.clear(); handles.clear(); incarnation.clear();
         ids.clear(); trids.clear(); rows.clear(); fenced.clear();
         exited = told = false;
         for( auto inbox : { &sm, &qm, &gm}) while( inbox->poll()) ;
         ++run;
      }
   };
} // vf::gateway
