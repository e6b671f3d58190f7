//! Shared helpers of the conformance drivers: script reading, event writing, a test inbox.
#pragma once

#include "common/communication/ipc.h"
#include "common/communication/ipc/send.h"
#include "common/communication/instance.h"
#include "common/communication/instance/identity.h"
#include "common/process.h"
#include "common/transaction/id.h"
#include "common/transaction/global.h"
#include "common/uuid.h"
#include "common/message/transaction.h"
#include "common/message/event.h"
#include "common/exception/capture.h"

#include <poll.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <thread>
#include <deque>
#include <functional>

namespace vf
{
   using namespace casual;
   using clock = platform::time::clock::type;
   using tokens = std::vector< std::string>;

   // --- json -------------------------------------------------------------------------------
   inline std::string quote( const std::string& s)
   {
      std::string r = "\"";
      for( unsigned char c : s)
      {
         if( c == '"' || c == '\\') { r += '\\'; r += char( c);}
         else if( c < 0x20 || c > 0x7e) { char b[ 8]; std::snprintf( b, sizeof b, "\\u%04x", c); r += b;}
         else r += char( c);
      }
      return r + "\"";
   }

   struct Json
   {
      std::string text;
      Json& raw( const std::string& key, const std::string& value)
      {
         text += ( text.empty() ? "" : ",") + quote( key) + ":" + value;
         return *this;
      }
      Json& operator () ( const std::string& key, const std::string& value) { return raw( key, quote( value));}
      Json& operator () ( const std::string& key, const char* value) { return raw( key, quote( value));}
      Json& operator () ( const std::string& key, bool value) { return raw( key, value ? "true" : "false");}
      Json& operator () ( const std::string& key, long value) { return raw( key, std::to_string( value));}
      Json& operator () ( const std::string& key, int value) { return raw( key, std::to_string( value));}
      Json& operator () ( const std::string& key, std::size_t value) { return raw( key, std::to_string( value));}
      std::string str() const { return "{" + text + "}";}
   };

   template< typename R>
   std::string array( const R& range)
   {
      std::string r = "[";
      for( auto& v : range) r += ( r.size() > 1 ? "," : "") + v;
      return r + "]";
   }
   template< typename R>
   std::string numbers( const R& range)
   {
      std::string r = "[";
      for( auto& v : range) r += ( r.size() > 1 ? "," : "") + std::to_string( v);
      return r + "]";
   }

   // --- script -----------------------------------------------------------------------------
   inline std::vector< tokens> read( const char* path)
   {
      std::vector< tokens> result;
      std::ifstream in{ path};
      std::string line;
      while( std::getline( in, line))
      {
         std::istringstream s{ line};
         tokens t;
         std::string w;
         while( s >> w) t.push_back( w);
         if( ! t.empty()) result.push_back( std::move( t));
      }
      return result;
   }
   inline long number( const std::string& s) { return std::stol( s);}

   inline std::ofstream& out()
   {
      static std::ofstream stream;
      return stream;
   }
   inline void emit( const Json& json) { out() << json.str() << '\n' << std::flush;}

   // --- time (milliseconds relative to a base, 32 bit safe) ------------------------------------
   inline platform::time::point::type& base() { static auto value = clock::now(); return value;}
   inline long floor_ms( platform::time::point::type t)
   {
      return std::chrono::floor< std::chrono::milliseconds>( t - base()).count();
   }
   inline long ceil_ms( platform::time::point::type t)
   {
      return std::chrono::ceil< std::chrono::milliseconds>( t - base()).count();
   }

   // --- ids ----------------------------------------------------------------------------------
   //! a uuid that encodes (kind, n)
   inline common::Uuid uuid( unsigned kind, unsigned n, unsigned run)
   {
      common::Uuid::uuid_type raw{};
      auto put = [&]( int at, unsigned v){ for( int i = 0; i < 4; ++i) raw[ at + i] = static_cast< std::decay_t< decltype( raw[ 0])>>( ( v >> ( 8 * i)) & 0xff);};
      put( 0, kind); put( 4, n); put( 8, run); put( 12, 0x76657266);
      return common::Uuid{ raw};
   }

   // --- inbox ----------------------------------------------------------------------------------
   struct Timeout {};

   struct Inbox
   {
      using device_type = common::communication::ipc::inbound::Device;
      using complete_type = common::communication::ipc::message::Complete;

      device_type own;
      device_type& device;

      Inbox() : device{ own} {}
      explicit Inbox( device_type& d) : device{ d} {}

      common::strong::ipc::id ipc() { return device.connector().handle().ipc();}

      complete_type poll()
      {
         return common::communication::device::non::blocking::next( device);
      }

      //! next message within `ms`, or an absent one
      complete_type next( long ms)
      {
         auto until = clock::now() + std::chrono::milliseconds{ ms};
         while( true)
         {
            if( auto complete = poll())
               return complete;
            auto left = std::chrono::ceil< std::chrono::milliseconds>( until - clock::now()).count();
            if( left <= 0)
               return {};
            ::pollfd p{ device.descriptor().value(), POLLIN, 0};
            ::poll( &p, 1, int( std::min< long>( left, 200)));
         }
      }
   };

   template< typename M>
   M as( Inbox::complete_type& complete)
   {
      M message;
      common::serialize::native::complete( complete, message);
      return message;
   }

   template< typename D, typename M>
   auto send( D&& destination, M&& message)
   {
      return common::communication::device::blocking::send( destination, std::forward< M>( message));
   }

   //! `send` that reports failure instead of throwing (the destination is gone)
   template< typename D, typename M>
   bool try_send( D&& destination, M&& message)
   {
      try { common::communication::device::blocking::send( destination, std::forward< M>( message)); return true;}
      catch( ...) { return false;}
   }

   inline void wait_dead( common::strong::process::id pid)
   {
      int status{};
      while( ::waitpid( pid.value(), &status, 0) == -1 && errno == EINTR)
         ;
   }

   inline int main( int argc, char** argv, std::function< void( const std::vector< tokens>&)> run)
   {
      if( argc != 3) return 2;
      out().open( argv[ 2]);
      try
      {
         run( read( argv[ 1]));
         emit( Json{}( "e", "end"));
         return 0;
      }
      catch( const Timeout&)
      {
         std::cerr << "driver: timeout\n";
         return 3;
      }
      catch( ...)
      {
         auto error = common::exception::capture();
         std::cerr << "driver: " << error.code() << " " << error.what() << '\n';
         return 4;
      }
   }
} // vf
