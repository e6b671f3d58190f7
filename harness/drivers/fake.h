//! The surroundings of a manager under test: the driver itself is domain manager, discovery, transaction manager...
//! Only the manager (and the children it starts) are real processes.
#pragma once

#include "vf.h"

#include "common/environment.h"
#include "common/message/domain.h"
#include "common/message/internal.h"
#include "common/domain.h"
#include "configuration/message.h"
#include "domain/message/discovery.h"
#include "domain/discovery/instance.h"

#include <filesystem>
#include <random>

namespace vf
{
   namespace fake
   {
      //! directories of our own, known before any static of casual is initialized
      inline void isolate( char** argv)
      {
         if( ::getenv( "VF_ISOLATED")) return;
         std::string base = ::getenv( "TMPDIR") ? ::getenv( "TMPDIR") : "/tmp";
         auto set = [ &]( const char* name, const std::string& path)
         {
            std::filesystem::create_directories( path);
            ::setenv( name, path.c_str(), 1);
         };
         set( "CASUAL_DOMAIN_HOME", base + "/home");
         set( "CASUAL_TRANSIENT_DIRECTORY", base + "/t");
         set( "CASUAL_IPC_DIRECTORY", base + "/i");
         set( "CASUAL_PERSISTENT_DIRECTORY", base + "/p");
         set( "CASUAL_QUEUE_DIRECTORY", base + "/p/queue");
         set( "CASUAL_TRANSACTION_DIRECTORY", base + "/p/transaction");
         ::setenv( "VF_ISOLATED", "1", 1);
         ::execv( "/proc/self/exe", argv);
         std::abort();
      }

      inline common::strong::process::id pid( int n) { return common::strong::process::id{ 3000000 + n};}

      inline common::strong::ipc::id ipc()
      {
         return common::strong::ipc::id{ common::uuid::make()};
      }

      struct Surroundings
      {
         using complete_type = Inbox::complete_type;

         Inbox dm, discovery, tm, me;
         configuration::Model model;
         std::map< common::Uuid, common::process::Handle> singletons;     //!< what has connected with an identity
         std::set< common::strong::process::id> connected;
         common::strong::process::id pid;
         common::process::Handle handle;
         bool whitelisted = false;
         bool reply_discovery = true;

         Surroundings()
         {
            auto set = []( std::string_view name, const common::process::Handle& value){ common::environment::variable::set( name, value);};
            set( common::environment::variable::name::ipc::domain::manager, { fake::pid( 1), dm.ipc()});
            set( domain::discovery::instance::identity.environment, { fake::pid( 2), discovery.ipc()});
            set( common::environment::variable::name::ipc::transaction::manager, { fake::pid( 3), tm.ipc()});
            for( auto& name : { common::environment::variable::name::ipc::service::manager, common::environment::variable::name::ipc::queue::manager,
               common::environment::variable::name::ipc::gateway::manager})
               common::environment::variable::unset( name);
            common::domain::identity( common::domain::Identity{ "vf"});
         }

         struct Waiting { common::strong::ipc::id to; common::message::domain::process::lookup::Reply reply; common::Uuid id;};
         std::vector< Waiting> waiting;

         //! @return true if it is something about start or registration
         bool serve( complete_type& complete)
         {
            namespace message = common::message;
            using Type = message::Type;
            switch( complete.type())
            {
               case Type::configuration_request:
               {
                  auto request = as< configuration::message::Request>( complete);
                  auto reply = message::reverse::type( request);
                  reply.process = { fake::pid( 1), dm.ipc()};
                  reply.model = model;
                  send( request.process.ipc, reply);
                  return true;
               }
               case Type::configuration_stakeholder_registration_request:
               {
                  auto request = as< configuration::message::stakeholder::registration::Request>( complete);
                  send( request.process.ipc, message::reverse::type( request));
                  return true;
               }
               case Type::domain_process_connect_request:
               {
                  auto request = as< message::domain::process::connect::Request>( complete);
                  connected.insert( request.information.handle.pid);
                  if( request.singleton.identification)
                     singletons[ request.singleton.identification] = request.information.handle;
                  if( request.information.handle.pid == pid)
                  {
                     handle = request.information.handle;
                     whitelisted = true;
                  }
                  auto reply = message::reverse::type( request);
                  reply.directive = decltype( reply.directive)::approved;
                  send( request.information.handle.ipc, reply);
                  for( std::size_t k = 0; k < waiting.size();)
                  {
                     if( auto found = singletons.find( waiting[ k].id); found != singletons.end())
                     {
                        waiting[ k].reply.process = found->second;
                        send( waiting[ k].to, waiting[ k].reply);
                        waiting.erase( waiting.begin() + k);
                     }
                     else ++k;
                  }
                  return true;
               }
               case Type::domain_process_lookup_request:
               {
                  auto request = as< message::domain::process::lookup::Request>( complete);
                  auto reply = message::reverse::type( request);
                  reply.identification = request.identification;
                  if( auto found = singletons.find( request.identification); found != singletons.end())
                     reply.process = found->second;
                  else if( request.directive == decltype( request.directive)::wait)
                  {
                     waiting.push_back( { request.process.ipc, std::move( reply), request.identification});
                     return true;
                  }
                  send( request.process.ipc, reply);
                  return true;
               }
               case Type::domain_discovery_api_provider_registration_request:
               {
                  auto request = as< domain::message::discovery::api::provider::registration::Request>( complete);
                  send( request.process.ipc, message::reverse::type( request));
                  return true;
               }
               case Type::event_subscription_begin:
               case Type::event_subscription_end:
                  return true;
               default:
                  return false;
            }
         }

         //! handles what is there, in all of the inboxes
         template< typename F>
         void drain( std::vector< Inbox*> inboxes, F&& consume)
         {
            for( auto inbox : inboxes)
               while( auto complete = inbox->poll())
                  consume( *inbox, complete);
         }

         static void wait( const std::vector< Inbox*>& inboxes, long ms)
         {
            std::vector< ::pollfd> fds;
            for( auto inbox : inboxes) fds.push_back( { inbox->device.descriptor().value(), POLLIN, 0});
            ::poll( fds.data(), fds.size(), int( ms));
         }

         bool gone( int* status = nullptr)
         {
            int s{};
            auto result = ::waitpid( pid.value(), &s, WNOHANG) > 0;
            if( status) *status = s;
            return result;
         }

         //! what else may happen during start
         std::function< bool( Inbox&, complete_type&)> also = []( Inbox&, complete_type&){ return false;};

         //! starts the manager
         void start( const std::string& binary, std::vector< std::string> arguments = {})
         {
            whitelisted = false;
            pid = common::process::spawn( std::string{ ::getenv( "CASUAL_MAKE_SOURCE_ROOT")} + "/middleware/" + binary, std::move( arguments));
            auto until = clock::now() + std::chrono::seconds{ 10};
            std::vector< Inbox*> all{ &dm, &discovery, &tm, &me};
            while( ! whitelisted && clock::now() < until)
            {
               drain( all, [ &]( Inbox& inbox, complete_type& complete){ if( ! also( inbox, complete)) serve( complete);});
               if( ! whitelisted) wait( all, 100);
            }
            if( ! whitelisted)
            {
               emit( Json{}( "e", "timeout")( "what", "start")( "gone", gone()));
               stop();
               throw Timeout{};
            }
         }

         void stop()
         {
            for( auto p : connected)
               if( p != pid && p.value() < 3000000 && p.value() > 1) ::kill( p.value(), SIGKILL);
            if( pid)
            {
               ::kill( pid.value(), SIGKILL);
               wait_dead( pid);
            }
            pid = {};
            connected.clear();
            singletons.clear();
            for( auto inbox : { &dm, &discovery, &tm, &me})
               while( inbox->poll()) ;
         }
      };
   } // fake
} // vf
