//! Conformance driver of casual-queue-manager, which starts two real queue groups: A with qa, qe (enqueue only) and qd
//! (dequeue only), and B with qb. The driver is the domain manager, the discovery, those who look queues up (r1, r2...)
//! and the outbound gateways that advertise queues of other domains (o1, o2...).
#include "gateway.h"

#include "queue/common/queue.h"

#include <filesystem>

namespace
{
   using namespace vf::gateway;
   using vf::tokens;
   using vf::Json;

   struct Driver : Base
   {
      std::map< std::string, process::Handle> groups, targets;
      std::set< strong::process::id> exits;
      std::map< strong::correlation::id, qm::lookup::Reply> mine;
      std::map< long, process::Handle> asked;                           //!< discoveries
      std::set< std::string> held;
      std::string directory = ::getenv( "TMPDIR") ? ::getenv( "TMPDIR") : "/tmp";

      Driver()
      {
         around.also = [ &]( vf::Inbox& inbox, complete_type& complete)
         {
            if( complete.type() != Type::domain_discovery_lookup_request) return false;
            return true;
         };
      }
      std::string box_of( vf::Inbox& inbox)
      {
         for( auto& [ name, box] : own) if( box.get() == &inbox) return name;
         return &inbox == &around.me ? "me" : "?";
      }
      process::Handle process( const std::string& name)
      {
         return targets[ name] = { vf::fake::pid( ( name[ 0] == 'o' ? 40 : 60) + vf::number( name.substr( 1))), box( name).ipc()};
      }
      std::string who( const process::Handle& handle)
      {
         for( auto& [ name, h] : groups) if( h == handle) return name;
         for( auto& [ name, h] : targets) if( h == handle) return name;
         return "?";
      }
      std::string provider( const qm::lookup::Reply& m)
      {
         if( ! m) return m.process || m.queue || m.order ? "?" : "-";
         auto name = who( m.process);
         auto remote = m.queue == casual::queue::remote::queue::id;
         return name + ":" + std::to_string( m.order) + ( remote == ( name[ 0] == 'o') ? "" : "!");
      }

      void consume( vf::Inbox& inbox, complete_type& complete) override
      {
         if( around.serve( complete)) return;
         switch( complete.type())
         {
            case Type::service_advertise: case Type::service_concurrent_advertise: return;
            case Type::event_process_spawn: case Type::event_process_configured: return;
            case Type::event_process_exit:
            {
               // as the domain manager does
               auto m = vf::as< message::event::process::Exit>( complete);
               exits.insert( m.state.pid);
               vf::try_send( around.handle.ipc, m);
               return;
            }
            case Type::queue_manager_queue_lookup_reply:
            {
               auto m = vf::as< qm::lookup::Reply>( complete);
               if( &inbox == &around.me) { mine[ m.correlation] = m; return;}
               return row( { "reply", box_of( inbox), id( m.correlation), m.name + "=" + provider( m)});
            }
            case Type::queue_manager_queue_lookup_discard_reply:
            {
               auto m = vf::as< qm::lookup::discard::Reply>( complete);
               if( &inbox == &around.me) { fenced.insert( m.correlation); return;}
               return row( { "discarded", box_of( inbox), id( m.correlation), m.state == decltype( m.state)::discarded ? "1" : "0"});
            }
            case Type::domain_discovery_api_request:
            {
               auto m = vf::as< dm::api::Request>( complete);
               if( ids.count( m.correlation)) asked[ ids[ m.correlation]] = m.process;
               return row( { "discover", id( m.correlation), join( m.content.services) + "/" + join( m.content.queues)});
            }
            case Type::domain_discovery_lookup_reply:
            {
               auto m = vf::as< dm::lookup::Reply>( complete);
               std::vector< std::string> found, absent = m.absent.queues;
               for( auto& q : m.content.queues)
                  found.push_back( q.name + ( q.enable.enqueue ? q.enable.dequeue ? "" : "+e" : q.enable.dequeue ? "+d" : "+n"));
               std::sort( found.begin(), found.end());
               std::sort( absent.begin(), absent.end());
               return row( { "found", box_of( inbox), id( m.correlation), join( found), join( absent)});
            }
            case Type::domain_discovery_fetch_known_reply:
            {
               auto m = vf::as< dm::fetch::known::Reply>( complete);
               auto sorted = std::is_sorted( m.content.queues.begin(), m.content.queues.end());
               return row( { "known", box_of( inbox), id( m.correlation), ( sorted ? "" : "!") + join( m.content.queues)});
            }
            default:
               unexpected( box_of( inbox), complete.type());
         }
      }
      void received( Remote&, Remote::complete_type&) override {}

      //! everything that has been sent is handled
      void fence()
      {
         std::size_t before{};
         auto rounds = 0;
         do
         {
            if( ++rounds > 40) timeout( "livelock");
            before = rows.size();
            for( int k = 0; k < 2 && ! exited; ++k)
            {
               qm::lookup::discard::Request request;
               request.process = { vf::fake::pid( 9), around.me.ipc()};
               request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
               if( ! vf::try_send( around.handle.ipc, request))
               {
                  if( ! until( [ &](){ return exited;})) timeout( "exit");
               }
               else if( ! until( [ &](){ return exited || fenced.count( request.correlation);})) timeout( "fence");
            }
            while( drain()) ;
         } while( rows.size() != before && ! exited);
      }

      //! @return if it could be sent
      bool stimulate( const tokens& t)
      {
         auto& op = t[ 0];
         auto tell = [ &]( auto& m) { return vf::try_send( around.handle.ipc, m);};
         using Context = qm::lookup::request::Context;
         if( op == "lookup")
         {
            // lookup id r name direct|wait internal|external|forward any|enqueue|dequeue
            qm::lookup::Request m{ process( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            m.name = t[ 3];
            m.context.semantic = t[ 4] == "wait" ? decltype( Context::semantic)::wait : decltype( Context::semantic)::direct;
            using R = decltype( Context::requester);
            m.context.requester = t[ 5] == "internal" ? R::internal : t[ 5] == "external" ? R::external : R::external_discovery;
            using A = decltype( Context::action);
            m.context.action = t[ 6] == "any" ? A::any : t[ 6] == "enqueue" ? A::enqueue : A::dequeue;
            return tell( m);
         }
         if( op == "discard")
         {
            // discard id r
            qm::lookup::discard::Request m{ process( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            return tell( m);
         }
         if( op == "discovered")
         {
            // discovered id: whatever was found has been advertised
            if( ! asked.count( vf::number( t[ 1]))) return false;
            dm::api::Reply m;
            m.correlation = correlation( vf::number( t[ 1]));
            return tell( m);
         }
         if( op == "advertise" || op == "reset" || op == "instance")
         {
            // advertise o order add remove
            qm::Advertise m{ process( t[ 1])};
            using D = decltype( m.directive);
            m.alias = t[ 1];
            m.directive = op == "reset" ? D::reset : op == "instance" ? D::instance : D::update;
            if( t.size() > 2) m.order = vf::number( t[ 2]);
            if( op == "advertise")
            {
               for( auto& w : split( t[ 3]))
               {
                  auto& q = m.queues.add.emplace_back();
                  q.name = w.substr( 0, 2);
                  q.enable.enqueue = w.find( "+d") == std::string::npos;
                  q.enable.dequeue = w.find( "+e") == std::string::npos;
               }
               m.queues.remove = split( t[ 4]);
            }
            return tell( m);
         }
         if( op == "find")
         {
            // find id r internal|extended names
            dm::lookup::Request m{ process( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            m.scope = t[ 3] == "internal" ? decltype( m.scope)::internal : decltype( m.scope)::extended;
            m.content.queues = split( t[ 4]);
            return tell( m);
         }
         if( op == "known")
         {
            dm::fetch::known::Request m{ process( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            return tell( m);
         }
         if( op == "hold" || op == "release")
         {
            ::kill( groups.at( t[ 1]).pid.value(), op == "hold" ? SIGSTOP : SIGCONT);
            if( op == "hold") held.insert( t[ 1]); else held.erase( t[ 1]);
            if( op == "release") leave();
            return true;
         }
         if( op == "vanish") return own.erase( t[ 1]) > 0;
         if( op == "gone")
         {
            // gone o|r ipc|exit, or a group, that is killed
            if( auto found = groups.find( t[ 1]); found != groups.end())
            {
               ::kill( found->second.pid.value(), SIGKILL);
               held.erase( t[ 1]);
               if( ! until( [ &](){ return exited || exits.count( found->second.pid);})) timeout( "exit of the group");
               leave();
               return true;
            }
            own.erase( t[ 1]);
            if( t[ 2] == "ipc")
            {
               message::event::ipc::Destroyed m;
               m.process = targets[ t[ 1]];
               return tell( m);
            }
            message::event::process::Exit m;
            m.state.pid = targets[ t[ 1]].pid;
            return tell( m);
         }
         if( op == "shutdown")
         {
            leaving = true;
            message::shutdown::Request m;
            m.process = { vf::fake::pid( 1), around.dm.ipc()};
            auto result = tell( m);
            leave();
            return result;
         }
         throw std::runtime_error{ "no such op: " + op};
      }
      bool leaving = false;
      //! when nothing holds it, it ends
      void leave()
      {
         if( leaving && held.empty() && ! until( [ &](){ return exited;})) timeout( "it does not end");
      }

      void cleanup()
      {
         for( auto& [ name, handle] : groups) if( handle.pid && ! exits.count( handle.pid)) ::kill( handle.pid.value(), SIGKILL);
         groups.clear(); held.clear();
      }

      void boot( const tokens& t)
      {
         cleanup();
         reset();
         targets.clear(); exits.clear(); mine.clear(); asked.clear();
         leaving = false;
         around.model = {};
         auto add = [ &]( const char* alias, const std::vector< std::string>& names)
         {
            casual::configuration::model::queue::Group group;
            group.alias = alias;
            group.queuebase = directory + "/" + alias + "." + std::to_string( run) + ".qb";
            std::filesystem::remove( group.queuebase);
            for( auto& n : names)
            {
               auto& q = group.queues.emplace_back();
               q.name = n;
               q.enable.enqueue = n != "qd";
               q.enable.dequeue = n != "qe";
            }
            around.model.queue.groups.push_back( group);
         };
         add( "A", { "qa", "qe", "qd"});
         add( "B", { "qb"});
         around.start( "queue/bin/casual-queue-manager");
         for( auto& [ group, name] : std::map< std::string, std::string>{ { "A", "qa"}, { "B", "qb"}})
         {
            qm::lookup::Request m{ process::Handle{ vf::fake::pid( 9), around.me.ipc()}};
            m.correlation = strong::correlation::id{ vf::uuid( 8, group[ 0], run)};
            m.name = name;
            m.context.requester = decltype( m.context.requester)::external;
            vf::send( around.handle.ipc, m);
            if( ! until( [ &](){ return exited || mine.count( m.correlation);})) timeout( "boot");
            groups[ group] = mine[ m.correlation].process;
         }
         fence();
         emit( "boot", t, true);
      }

      void emit( const char* event, const tokens& t, bool ok)
      {
         std::vector< std::string> quoted;
         for( auto& w : t) quoted.push_back( vf::quote( w));
         vf::emit( Json{}( "e", event).raw( "w", vf::array( quoted))( "ok", ok)( "gone", exited).raw( "out", vf::array( std::exchange( rows, {}))));
      }

      void operator() ( const std::vector< tokens>& script)
      {
         for( auto& t : script)
         {
            if( t[ 0] == "boot") { boot( t); continue;}
            if( exited) break;
            auto ok = stimulate( t);
            fence();
            emit( "step", t, ok);
         }
         cleanup();
         around.stop();
      }
   };
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   return vf::main( argc, argv, []( const std::vector< tokens>& script){ Driver driver; driver( script);});
}
