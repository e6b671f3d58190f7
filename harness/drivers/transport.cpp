//! The transport between processes: send coordinators and inbound devices of casual, over real sockets.
//! All parties live in one process, so that every partial send and receive is a step of the script.
#include "vf.h"
#include "fake.h"

#include "common/communication/select.h"

namespace
{
   using namespace vf;
   namespace ipc = common::communication::ipc;
   using Complete = ipc::message::Complete;
   using Type = common::message::Type;

   constexpr auto types = std::array{ Type::service_call, Type::service_reply, Type::conversation_send};

   using rows = std::vector< std::vector< std::string>>;

   //! numbers as numbers
   std::string word( const std::string& value)
   {
      return ! value.empty() && value.find_first_not_of( "0123456789") == std::string::npos ? value : quote( value);
   }

   std::string text( const rows& values)
   {
      std::vector< std::string> result;
      for( auto& r : values)
      {
         std::vector< std::string> cells;
         for( auto& c : r) cells.push_back( word( c));
         result.push_back( array( cells));
      }
      return array( result);
   }

   unsigned char at( long id, long i) { return static_cast< unsigned char>( id * 31 + i * 7 + ( i >> 8) * 13);}

   struct Driver
   {
      struct Sender
      {
         common::communication::select::Directive directive;
         ipc::send::Coordinator coordinator{ directive};
      };

      std::map< long, std::unique_ptr< ipc::inbound::Device>> devices;
      std::map< long, common::strong::ipc::id> ipcs;
      std::map< long, std::unique_ptr< Sender>> senders;
      rows out;
      unsigned run = ::getpid();

      common::strong::correlation::id correlation( long id) { return common::strong::correlation::id{ uuid( 1, id, run)};}

      long id( const common::strong::correlation::id& value)
      {
         common::Uuid::uuid_type raw{};
         value.value().copy( raw);
         auto get = [ &]( int i){ unsigned r = 0; for( int k = 3; k >= 0; --k) r = ( r << 8) | static_cast< unsigned char>( raw[ i + k]); return r;};
         return get( 0) == 1 && get( 8) == run ? long( get( 4)) : -1;
      }

      Complete complete( long id, long type, long size)
      {
         platform::binary::type payload( size);
         for( long i = 0; i < size; ++i)
            payload[ i] = static_cast< std::decay_t< decltype( payload[ 0])>>( at( id, i));
         return Complete{ types.at( type - 1), correlation( id), std::move( payload)};
      }

      std::vector< std::string> describe( const Complete& value)
      {
         auto n = id( value.correlation());
         bool ok = true;
         for( std::size_t i = 0; i < value.payload.size(); ++i)
            ok = ok && static_cast< unsigned char>( value.payload[ i]) == at( n, i);
         long type = 0;
         for( std::size_t i = 0; i < types.size(); ++i) if( types[ i] == value.type()) type = i + 1;
         return { std::to_string( n), std::to_string( type), std::to_string( value.payload.size()), ok ? "ok" : "bad"};
      }

      void row( std::vector< std::string> head, const Complete& value)
      {
         for( auto& c : describe( value)) head.push_back( c);
         out.push_back( std::move( head));
      }

      //! after: what the callback does: "-" there is none, "n" only noted, "x" sends yet another message
      void send( long s, long r, long id, long type, long size, const tokens& after)
      {
         auto& coordinator = senders.at( s)->coordinator;
         if( after.at( 0) == "-")
            coordinator.send( ipcs.at( r), complete( id, type, size));
         else
            coordinator.send( ipcs.at( r), complete( id, type, size), [ this, s, r, after]( const common::strong::ipc::id& destination, const Complete& value)
            {
               row( { "failed", std::to_string( s), destination == ipcs.at( r) ? std::to_string( r) : "wrong"}, value);
               if( after.at( 0) == "x")
                  send( s, number( after.at( 1)), number( after.at( 2)), number( after.at( 3)), number( after.at( 4)), { "n"});
            });
      }

      void pump( long s)
      {
         auto& sender = *senders.at( s);
         std::vector< ::pollfd> fds;
         for( auto fd : sender.directive.write.descriptors())
            fds.push_back( { fd.value(), POLLOUT, 0});
         ::poll( fds.data(), fds.size(), 0);
         for( auto& fd : fds)
            if( fd.revents)
               sender.coordinator( common::strong::file::descriptor::id{ fd.fd}, common::communication::select::tag::write{});
      }

      void got( long r, Complete&& value)
      {
         if( value) row( { "got", std::to_string( r)}, value);
         else out.push_back( { "none", std::to_string( r)});
      }

      void note( const tokens& t)
      {
         std::vector< std::string> words, pending;
         for( auto& w : t) words.push_back( word( w));
         for( auto& s : senders) pending.push_back( std::to_string( s.second->coordinator.pending()));
         emit( Json{}( "e", "step").raw( "w", array( words)).raw( "out", text( out)).raw( "pend", array( pending)));
         out.clear();
      }

      void step( const tokens& t)
      {
         namespace device = common::communication::device;
         auto n = [ &]( std::size_t i){ return number( t.at( i));};
         auto& op = t.at( 0);
         auto policy = ipc::policy::non::Blocking{};

         if( op == "settle")
         {
            for( int quiet = 0, rounds = 0; quiet < 2 && rounds < 2000; ++rounds)
            {
               bool any = false;
               auto one = [ &]( const tokens& t)
               {
                  step( t);
                  return true;
               };
               std::vector< platform::size::type> before;
               for( auto& s : senders) { before.push_back( s.second->coordinator.pending()); if( before.back()) { one( { "pump", std::to_string( s.first)}); any = true;}}
               for( auto& d : devices)
               {
                  while( true)
                  {
                     got( d.first, d.second->next( policy));
                     bool none = out.back().at( 0) == "none";
                     note( { "recv", std::to_string( d.first)});
                     if( none) break;
                     any = true;
                  }
               }
               quiet = any ? 0 : quiet + 1;
            }
            return note( t);
         }

         if( op == "open")
         {
            devices[ n( 1)] = std::make_unique< ipc::inbound::Device>();
            ipcs[ n( 1)] = devices[ n( 1)]->connector().handle().ipc();
         }
         else if( op == "close")
            devices.erase( n( 1));
         else if( op == "crash")
         {
            // as a process that is killed: nobody has removed the address
            auto path = ipc::path( ipcs.at( n( 1)));
            auto aside = path; aside += ".aside";
            std::filesystem::rename( path, aside);
            devices.erase( n( 1));
            std::filesystem::rename( aside, path);
         }
         else if( op == "send")
            send( n( 1), n( 2), n( 3), n( 4), n( 5), tokens{ std::begin( t) + 6, std::end( t)});
         else if( op == "nsend")
         {
            try
            {
               auto result = device::non::blocking::send( ipcs.at( n( 1)), complete( n( 2), n( 3), n( 4)));
               out.push_back( { "sent", result ? ( id( result) == n( 2) ? "yes" : "wrong") : "no"});
            }
            catch( ...) { out.push_back( { "sent", "gone"});}
         }
         else if( op == "pump")
            pump( n( 1));
         else if( op == "batch")
         {
            auto& coordinator = senders.at( n( 1))->coordinator;
            auto empty = coordinator.send();
            if( empty != ( coordinator.pending() == 0)) out.push_back( { "batch", "wrong"});
         }
         else if( op == "fail")
            senders.at( n( 1))->coordinator.failed( ipcs.at( n( 2)));
         else if( op == "recv")
            got( n( 1), devices.at( n( 1))->next( policy));
         else if( op == "rtype")
            got( n( 1), devices.at( n( 1))->next( types.at( n( 2) - 1), policy));
         else if( op == "rtypes")
            got( n( 1), devices.at( n( 1))->next( std::vector< Type>{ types.at( n( 2) - 1), types.at( n( 3) - 1)}, policy));
         else if( op == "rcorr")
            got( n( 1), devices.at( n( 1))->next( correlation( n( 2)), policy));
         else if( op == "rboth")
            got( n( 1), devices.at( n( 1))->next( types.at( n( 3) - 1), correlation( n( 2)), policy));
         else if( op == "cached")
            got( n( 1), devices.at( n( 1))->cached());
         else if( op == "ctypes")
            got( n( 1), devices.at( n( 1))->cached( std::vector< Type>{ types.at( n( 2) - 1), types.at( n( 3) - 1)}));
         else if( op == "flush")
            devices.at( n( 1))->flush();
         else if( op == "discard")
            devices.at( n( 1))->discard( correlation( n( 2)));
         else if( op == "push")
            devices.at( n( 1))->push( complete( n( 2), n( 3), n( 4)));
         note( t);
      }

      void start( const tokens& t)
      {
         for( long s = 1; s <= 2; ++s) senders[ s] = std::make_unique< Sender>();
         emit( Json{}( "e", "boot"));
      }
   };
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   // what has been freed is not what it was
   if( ! ::getenv( "MALLOC_PERTURB_"))
   {
      ::setenv( "MALLOC_PERTURB_", "165", 1);
      ::execv( "/proc/self/exe", argv);
   }
   return vf::main( argc, argv, []( std::vector< tokens> script)
   {
      // (TLC quotes)
      for( auto& t : script)
         for( auto& w : t) std::erase( w, '"');
      // each script in a process of its own
      for( std::size_t i = 0; i < script.size();)
      {
         auto end = i + 1;
         while( end < script.size() && script[ end].at( 0) != "boot") ++end;
         auto pid = ::fork();
         if( pid == 0)
         {
            ::alarm( 60);
            Driver driver;
            driver.start( script[ i]);
            try
            {
               for( ++i; i < end; ++i) driver.step( script[ i]);
            }
            catch( ...)
            {
               auto error = common::exception::capture();
               vf::emit( Json{}( "e", "error")( "what", std::string{ error.what()}));
            }
            for( auto& d : driver.devices) d.second.reset();
            ::_exit( 0);
         }
         int status{};
         while( ::waitpid( pid, &status, 0) == -1 && errno == EINTR) ;
         if( status)
            vf::emit( Json{}( "e", "crashed")( "status", status));
         i = end;
      }
   });
}
