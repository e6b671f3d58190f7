//! Conformance driver of casual-gateway-inbound-group: the driver is the managers, discovery, the servers, the queue group
//! and, at the far end of tcp, the other domains.
//!
//! Connections are 1.., those with an odd number to the first address, the others to the second (where discovery is forwarded).
//! Connection c in its k:th incarnation is labelled c * 10 + k. The branch in this domain, of transaction g, is 900 + g.
#include "gateway.h"

namespace
{
   using namespace vf::gateway;
   using vf::tokens;
   using vf::Json;

   struct Driver : Base
   {
      std::set< strong::correlation::id> fencing;
      std::map< strong::ipc::id, std::string> registrations;
      std::set< long> configured;

      //! addresses of our own
      static std::string address( long l)
      {
         auto p = ::getpid();
         return "127." + std::to_string( 1 + ( p >> 14) % 250) + "." + std::to_string( ( p >> 7) & 127) + "." + std::to_string( 1 + ( p & 127)) + ":" + std::to_string( 7100 + l);
      }
      static long listener( long c) { return c % 2 == 1 ? 1 : 2;}

      std::string conv( message::conversation::duplex::Type t)
      {
         using E = message::conversation::duplex::Type;
         return t == E::send ? "send" : t == E::receive ? "receive" : "terminated";
      }
      static auto duplex( const std::string& word)
      {
         using E = message::conversation::duplex::Type;
         return word == "send" ? E::send : word == "receive" ? E::receive : E::terminated;
      }
      std::string text( code::xatmi code) { return vf::gateway::text( code);}
      static std::string tcp( Remote& remote) { return "tcp" + std::to_string( remote.c);}
      std::string owner( vf::Inbox& inbox)
      {
         for( auto& [ name, box] : own) if( box.get() == &inbox) return name;
         return "?";
      }

      template< typename M>
      void resource( complete_type& complete, const char* what)
      {
         auto m = vf::as< M>( complete);
         row( { "tm", what, who( m.process), id( m.correlation), trid( m.trid)});
      }

      void consume( vf::Inbox& inbox, complete_type& complete) override
      {
         if( &inbox == &around.dm && complete.type() == Type::event_ipc_destroyed)
         {
            auto m = vf::as< message::event::ipc::Destroyed>( complete);
            return row( { "dm", "destroyed", who( m.process)});
         }
         if( &inbox == &around.dm && complete.type() == Type::domain_process_information_request) return;
         if( complete.type() == Type::domain_discovery_api_provider_registration_request)
         {
            auto m = vf::as< dm::api::provider::registration::Request>( complete);
            vf::send( m.process.ipc, message::reverse::type( m));
            using A = decltype( m.abilities);
            // told when it is known which one it is
            registrations[ m.process.ipc] = m.abilities == A::topology ? "topology" : "?";
            return;
         }
         if( around.serve( complete)) return;

         switch( complete.type())
         {
            case Type::gateway_inbound_connect: return;
            case Type::gateway_inbound_configuration_update_reply:
               return row( { "gm", "updated"});
            case Type::gateway_inbound_state_reply:
            {
               auto m = vf::as< gm::inbound::state::Reply>( complete);
               for( auto& connection : m.state.connections)
               {
                  if( connection.domain.name.size() < 2) continue;
                  auto label = vf::number( connection.domain.name.substr( 1));
                  partners[ connection.ipc] = label;
                  handles[ label] = process::Handle{ around.pid, connection.ipc};
               }
               fenced.insert( m.correlation);
               return;
            }
            case Type::service_name_lookup_request:
            {
               auto m = vf::as< message::service::lookup::Request>( complete);
               return row( { "sm", "lookup", who( m.process), id( m.correlation), m.requested, std::string{ description( m.context.requester)},
                  std::string{ description( m.context.semantic)}, gtrid( m.gtrid)});
            }
            case Type::service_name_lookup_discard_request:
            {
               auto m = vf::as< message::service::lookup::discard::Request>( complete);
               return row( { "sm", "discard", id( m.correlation), m.requested, m.reply ? "1" : "0"});
            }
            case Type::transaction_inbound_branch_request:
            {
               auto m = vf::as< message::transaction::inbound::branch::Request>( complete);
               return row( { "tm", "branch", who( m.process), id( m.correlation), gtrid( m.gtrid)});
            }
            case Type::transaction_active_request:
            {
               auto m = vf::as< message::transaction::active::Request>( complete);
               std::vector< std::string> names;
               for( auto& g : m.gtrids) names.push_back( gtrid( g));
               std::sort( names.begin(), names.end());
               vf::send( m.process.ipc, message::reverse::type( m));
               return row( { "tm", "active", join( names)});
            }
            case Type::transaction_resource_prepare_request: return resource< message::transaction::resource::prepare::Request>( complete, "prepare");
            case Type::transaction_resource_commit_request: return resource< message::transaction::resource::commit::Request>( complete, "commit");
            case Type::transaction_resource_rollback_request: return resource< message::transaction::resource::rollback::Request>( complete, "rollback");
            case Type::queue_manager_queue_lookup_request:
            {
               auto m = vf::as< qm::lookup::Request>( complete);
               return row( { "qm", "lookup", who( m.process), id( m.correlation), m.name, std::string{ description( m.context.requester)},
                  std::string{ description( m.context.semantic)}, gtrid( m.gtrid)});
            }
            case Type::service_call:
            {
               auto m = vf::as< message::service::call::callee::Request>( complete);
               return row( { owner( inbox), "call", who( m.process), id( m.correlation), m.service.name, m.service.requested.value_or( "-"), trid( m.trid),
                  vf::gateway::text( m.buffer), flag::contains( m.flags, message::service::call::request::Flag::no_reply) ? "1" : "0"});
            }
            case Type::conversation_connect_request:
            {
               auto m = vf::as< message::conversation::connect::callee::Request>( complete);
               return row( { owner( inbox), "connect", who( m.process), id( m.correlation), m.service.name, m.service.requested.value_or( "-"), trid( m.trid),
                  vf::gateway::text( m.buffer), conv( m.duplex)});
            }
            case Type::conversation_send:
            {
               auto m = vf::as< message::conversation::callee::Send>( complete);
               return row( { owner( inbox), "send", id( m.correlation), conv( m.duplex), vf::gateway::text( m.buffer)});
            }
            case Type::conversation_disconnect:
               return row( { owner( inbox), "disconnect", id( complete.correlation())});
            case Type::queue_group_enqueue_request:
            {
               auto m = vf::as< qm::group::enqueue::Request>( complete);
               return row( { owner( inbox), "enqueue", who( m.process), id( m.correlation), m.name, trid( m.trid), vf::gateway::text( m.message.payload)});
            }
            case Type::queue_group_dequeue_request:
            {
               auto m = vf::as< qm::group::dequeue::Request>( complete);
               return row( { owner( inbox), "dequeue", who( m.process), id( m.correlation), m.name, trid( m.trid), m.block ? "1" : "0"});
            }
            case Type::domain_discovery_request:
            {
               auto m = vf::as< dm::Request>( complete);
               if( fencing.count( m.correlation)) { fenced.insert( m.correlation); return;}
               using D = decltype( m.directive);
               return row( { "disc", "discover", who( m.process), id( m.correlation), join( m.content.services), join( m.content.queues), m.directive == D::forward ? "forward" : "local"});
            }
            default:
               unexpected( "inbox", complete.type());
         }
      }

      template< typename M>
      void answer( Remote& remote, Remote::complete_type& complete, const char* what)
      {
         auto m = to< M>( complete);
         row( { tcp( remote), what, id( m.correlation), vf::gateway::text( m.state), trid( m.trid)});
      }
      template< typename M>
      void discovered( Remote& remote, Remote::complete_type& complete, const char* what)
      {
         auto m = to< M>( complete);
         std::vector< std::string> services, queues;
         for( auto& s : m.content.services) services.push_back( s.name);
         for( auto& q : m.content.queues) queues.push_back( q.name);
         row( { tcp( remote), what, id( m.correlation), join( services), join( queues)});
      }

      void received( Remote& remote, Remote::complete_type& complete) override
      {
         namespace call = message::service::call;
         namespace conversation = message::conversation;
         switch( complete.type())
         {
            case Type::service_reply:
            {
               auto m = to< call::Reply>( complete);
               return row( { tcp( remote), "reply", id( m.correlation), text( m.code.result), vf::gateway::text( m.buffer)});
            }
            case Type::service_reply_v2:
            {
               auto m = to< call::v1_2::Reply>( complete);
               return row( { tcp( remote), "reply2", id( m.correlation), text( m.code.result), vf::gateway::text( m.buffer)});
            }
            case Type::conversation_connect_reply:
            {
               auto m = to< conversation::connect::Reply>( complete);
               return row( { tcp( remote), "connected", id( m.correlation), text( m.code.result)});
            }
            case Type::conversation_send:
            {
               auto m = to< conversation::callee::Send>( complete);
               return row( { tcp( remote), "send", id( m.correlation), conv( m.duplex), vf::gateway::text( m.buffer)});
            }
            case Type::queue_group_enqueue_reply:
            {
               auto m = to< qm::group::enqueue::Reply>( complete);
               return row( { tcp( remote), "enqueued", id( m.correlation), m.id ? "1" : "0"});
            }
            case Type::queue_group_enqueue_reply_v1_2:
            {
               auto m = to< qm::group::enqueue::v1_2::Reply>( complete);
               return row( { tcp( remote), "enqueued2", id( m.correlation), m.id ? "1" : "0"});
            }
            case Type::queue_group_dequeue_reply:
            {
               auto m = to< qm::group::dequeue::Reply>( complete);
               return row( { tcp( remote), "dequeued", id( m.correlation), m.message ? vf::gateway::text( m.message->payload) : "0"});
            }
            case Type::queue_group_dequeue_reply_v1_2:
            {
               auto m = to< qm::group::dequeue::v1_2::Reply>( complete);
               return row( { tcp( remote), "dequeued2", id( m.correlation), m.message.empty() ? "0" : vf::gateway::text( m.message.front().payload)});
            }
            case Type::transaction_resource_prepare_reply: return answer< message::transaction::resource::prepare::Reply>( remote, complete, "prepared");
            case Type::transaction_resource_commit_reply: return answer< message::transaction::resource::commit::Reply>( remote, complete, "committed");
            case Type::transaction_resource_rollback_reply: return answer< message::transaction::resource::rollback::Reply>( remote, complete, "rolledback");
            case Type::domain_discovery_reply: return discovered< dm::Reply>( remote, complete, "discovered");
            case Type::domain_discovery_reply_v3: return discovered< dm::v1_3::Reply>( remote, complete, "discovered3");
            case Type::domain_discovery_topology_implicit_update:
            {
               auto m = to< dm::topology::implicit::Update>( complete);
               if( fencing.count( m.correlation)) { fenced.insert( m.correlation); return;}
               std::vector< std::string> names;
               for( auto& d : m.domains) names.push_back( d.name);
               return row( { tcp( remote), "update", join( names)});
            }
            case Type::gateway_domain_disconnect_request:
               return row( { tcp( remote), "disconnect"});
            default:
               unexpected( "tcp", complete.type());
         }
      }

      //! everything that has been sent is handled
      void fence()
      {
         std::size_t before{};
         do
         {
            before = rows.size();
            round();
         } while( rows.size() != before && ! exited);
      }
      void round()
      {
         if( exited) { drain(); return;}
         std::map< strong::correlation::id, std::function< bool()>> waiting;
         // what the other domains have sent
         for( auto& [ label, remote] : remotes)
         {
            if( remote->closed) continue;
            dm::Request request;
            request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
            fencing.insert( request.correlation);
            if( remote->send( request))
               waiting[ request.correlation] = [ r = remote.get()](){ return r->closed;};
         }
         wait_for( waiting, "connections");
         waiting.clear();
         for( auto& [ label, handle] : handles)
         {
            dm::topology::implicit::Update update;
            update.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
            fencing.insert( update.correlation);
            if( auto found = remotes.find( label); found != remotes.end() && ! found->second->closed)
               if( vf::try_send( handle.ipc, update))
                  waiting[ update.correlation] = [ r = found->second.get()](){ return r->closed;};
         }
         wait_for( waiting, "partners");
         for( int k = 0; k < 2 && ! exited; ++k) state();
         while( drain()) ;
      }
      void state()
      {
         std::map< strong::correlation::id, std::function< bool()>> waiting;
         gm::inbound::state::Request request;
         request.process = { vf::fake::pid( 9), around.me.ipc()};
         request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
         if( vf::try_send( around.handle.ipc, request))
            waiting[ request.correlation] = [](){ return false;};
         else if( ! until( [ &](){ return exited;})) timeout( "exit");
         wait_for( waiting, "state");
      }
      void wait_for( const std::map< strong::correlation::id, std::function< bool()>>& waiting, const std::string& what)
      {
         auto done = [ &]()
         {
            if( exited) return true;
            for( auto& [ correlation, gone] : waiting)
               if( ! fenced.count( correlation) && ! gone()) return false;
            return true;
         };
         if( ! until( done)) timeout( "fence of " + what);
      }


      void configure()
      {
         gm::inbound::configuration::update::Request request;
         request.process = { vf::fake::pid( 6), gm.ipc()};
         request.model.alias = "in";
         for( auto l : configured)
         {
            casual::configuration::model::gateway::inbound::Connection connection;
            connection.address = address( l);
            if( l == 2) connection.discovery = decltype( connection.discovery)::forward;
            request.model.connections.push_back( connection);
         }
         vf::send( around.handle.ipc, request);
      }

      //! another domain connects
      bool open( long c, long v)
      {
         auto label = c * 10 + incarnation[ c] + 1;
         auto where = address( listener( c));
         auto colon = where.find( ':');
         ::sockaddr_in a{};
         a.sin_family = AF_INET;
         a.sin_port = htons( std::stoi( where.substr( colon + 1)));
         ::inet_pton( AF_INET, where.substr( 0, colon).c_str(), &a.sin_addr);
         auto fd = ::socket( AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
         if( ::connect( fd, reinterpret_cast< ::sockaddr*>( &a), sizeof a) != 0) { ::close( fd); return false;}
         auto remote = std::make_unique< Remote>( fd, label);
         gm::domain::connect::Request request;
         request.domain = common::domain::Identity{ strong::domain::id{ vf::uuid( 7, c, run)}, "r" + std::to_string( label)};
         request.versions = { version( v)};
         if( ! remote->send( request)) return false;
         Remote::complete_type complete;
         if( ! until( [ &](){ return bool( complete = remote->next()) || remote->closed;})) timeout( "handshake");
         if( remote->closed) return false;
         auto reply = to< gm::domain::connect::Reply>( complete);
         if( reply.version != version( v)) return false;
         remote->version = v;
         ++incarnation[ c];
         remotes[ label] = std::move( remote);
         for( int k = 0; k < 200 && ! handles.count( label) && ! exited; ++k)
         {
            state();
            if( ! handles.count( label)) std::this_thread::sleep_for( std::chrono::milliseconds{ 5});
         }
         if( ! handles.count( label)) timeout( "connected");
         for( auto& [ ipc, ability] : std::exchange( registrations, {})) row( { "disc", "register", who( process::Handle{ around.pid, ipc}), ability});
         return true;
      }

      template< typename M>
      bool internal( long label, M&& message)
      {
         auto found = handles.find( label);
         if( found == handles.end()) return false;
         return vf::try_send( found->second.ipc, std::forward< M>( message));
      }
      process::Handle server( const std::string& name)
      {
         return name == "gone" ? process::Handle{ vf::fake::pid( 21), vf::fake::ipc()} : at( name);
      }

      //! @return if it could be sent
      bool stimulate( const tokens& t)
      {
         auto& op = t[ 0];
         auto n = [ &]( std::size_t k){ return vf::number( t.at( k));};
         auto external = [ &]( auto&& message)
         {
            auto r = remote( n( 1));
            return r && r->send( message);
         };
         if( op == "open") return open( n( 1), n( 2));
         // --- from other domains
         else if( op == "call")
         {
            // call c id service trid noreply
            auto fill = [ &]( auto m)
            {
               m.correlation = correlation( n( 2)); m.service.name = t[ 3]; m.trid = trid( n( 4));
               if( t[ 5] == "1") m.flags = message::service::call::request::Flag::no_reply;
               m.buffer = payload( "d" + t[ 2]);
               return external( m);
            };
            auto r = remote( n( 1));
            return r && r->version >= 3 ? fill( message::service::call::callee::Request{}) : fill( message::service::call::v1_2::callee::Request{});
         }
         else if( op == "connect")
         {
            // connect c id service trid duplex
            auto fill = [ &]( auto m)
            {
               m.correlation = correlation( n( 2)); m.service.name = t[ 3]; m.trid = trid( n( 4));
               m.duplex = duplex( t[ 5]);
               m.buffer = payload( "d" + t[ 2]);
               return external( m);
            };
            auto r = remote( n( 1));
            return r && r->version >= 3 ? fill( message::conversation::connect::callee::Request{}) : fill( message::conversation::connect::v1_2::callee::Request{});
         }
         else if( op == "csend")
         {
            message::conversation::callee::Send m;
            m.correlation = correlation( n( 2));
            m.duplex = duplex( t[ 3]);
            m.buffer = payload( "m" + t[ 2]);
            return external( m);
         }
         else if( op == "cdisconnect")
         {
            message::conversation::Disconnect m;
            m.correlation = correlation( n( 2));
            return external( m);
         }
         else if( op == "enqueue" || op == "dequeue")
         {
            // enqueue c id queue trid
            auto fill = [ &]( auto m)
            {
               m.correlation = correlation( n( 2)); m.name = t[ 3]; m.trid = trid( n( 4));
               // only those of q2 wait
               if constexpr( requires { m.block;}) m.block = t[ 3] == "q2";
               if constexpr( requires { m.message;}) m.message.payload = payload( "d" + t[ 2]);
               return external( m);
            };
            return op == "enqueue" ? fill( qm::group::enqueue::Request{}) : fill( qm::group::dequeue::Request{});
         }
         else if( op == "prepare" || op == "commit" || op == "rollback")
         {
            // prepare c id trid
            auto fill = [ &]( auto m)
            {
               m.correlation = correlation( n( 2)); m.trid = trid( n( 3));
               return external( m);
            };
            namespace r = message::transaction::resource;
            return op == "prepare" ? fill( r::prepare::Request{}) : op == "commit" ? fill( r::commit::Request{}) : fill( r::rollback::Request{});
         }
         else if( op == "discover")
         {
            // discover c id services queues
            dm::Request m;
            m.correlation = correlation( n( 2)); m.content.services = split( t[ 3]); m.content.queues = split( t[ 4]);
            return external( m);
         }
         else if( op == "dreply")
            return external( gm::domain::disconnect::Reply{});
         else if( op == "lost" || op == "reset")
         {
            auto r = remote( n( 1));
            bool ok = r && ! r->closed;
            if( ok) r->close( op == "reset");
            return ok;
         }
         // --- from the managers and the servers of this domain
         else if( op == "lookedup")
         {
            // lookedup c id state service server
            message::service::lookup::Reply m;
            m.correlation = correlation( n( 2));
            using S = decltype( m.state);
            m.state = t[ 3] == "idle" ? S::idle : t[ 3] == "absent" ? S::absent : S::timeout;
            m.service.name = t[ 4];
            if( t[ 3] == "idle") m.process = server( t[ 5]);
            return internal( current( n( 1)), m);
         }
         else if( op == "branched")
         {
            // branched c id g
            message::transaction::inbound::branch::Reply m;
            m.correlation = correlation( n( 2)); m.trid = trid( 900 + n( 3));
            return internal( current( n( 1)), m);
         }
         else if( op == "qlookedup")
         {
            // qlookedup c id queue group|-
            qm::lookup::Reply m{};
            m.correlation = correlation( n( 2)); m.name = t[ 3];
            if( t[ 4] != "-") m.process = server( t[ 4]);
            return internal( current( n( 1)), m);
         }
         else if( op == "reply")
         {
            // reply c id code
            message::service::call::Reply m;
            m.correlation = correlation( n( 2)); m.code.result = xatmi( t[ 3]); m.buffer = payload( "r" + t[ 2]);
            return internal( current( n( 1)), m);
         }
         else if( op == "connected")
         {
            message::conversation::connect::Reply m;
            m.correlation = correlation( n( 2)); m.code.result = xatmi( t[ 3]);
            return internal( current( n( 1)), m);
         }
         else if( op == "rsend")
         {
            message::conversation::callee::Send m;
            m.correlation = correlation( n( 2));
            m.duplex = duplex( t[ 3]);
            m.buffer = payload( "r" + t[ 2]);
            return internal( current( n( 1)), m);
         }
         else if( op == "enqueued")
         {
            qm::group::enqueue::Reply m;
            m.correlation = correlation( n( 2));
            if( t[ 3] == "1") m.id = vf::uuid( 5, n( 2), run); else m.code = code::queue::no_queue;
            return internal( current( n( 1)), m);
         }
         else if( op == "dequeued")
         {
            qm::group::dequeue::Reply m;
            m.correlation = correlation( n( 2));
            if( t[ 3] == "1")
            {
               qm::group::dequeue::Message message;
               message.id = vf::uuid( 5, n( 2), run);
               message.payload = payload( "r" + t[ 2]);
               m.message = message;
            }
            return internal( current( n( 1)), m);
         }
         else if( op == "prepared" || op == "committed" || op == "rolledback")
         {
            // prepared c id g code
            auto fill = [ &]( auto m)
            {
               m.correlation = correlation( n( 2)); m.trid = trid( 900 + n( 3));
               for( auto c : { code::xa::ok, code::xa::read_only, code::xa::resource_fail, code::xa::protocol, code::xa::rollback_integrity})
                  if( description( c) == t[ 4]) m.state = c;
               return internal( current( n( 1)), m);
            };
            namespace x = message::transaction::resource;
            return op == "prepared" ? fill( x::prepare::Reply{}) : op == "committed" ? fill( x::commit::Reply{}) : fill( x::rollback::Reply{});
         }
         else if( op == "discovered")
         {
            // discovered c id services queues
            dm::Reply m;
            m.correlation = correlation( n( 2));
            for( auto& s : split( t[ 3]))
            {
               std::decay_t< decltype( m.content.services)>::value_type service;
               service.name = s;
               m.content.services.push_back( service);
            }
            for( auto& q : split( t[ 4]))
            {
               std::decay_t< decltype( m.content.queues)>::value_type queue;
               queue.name = q;
               m.content.queues.push_back( queue);
            }
            return internal( current( n( 1)), m);
         }
         else if( op == "update")
         {
            dm::topology::implicit::Update m;
            m.domains.push_back( common::domain::Identity{ strong::domain::id{ vf::uuid( 7, 77, run)}, "other"});
            return internal( current( n( 1)), m);
         }
         else if( op == "disassociate")
         {
            message::event::transaction::Disassociate m{ process::Handle{ vf::fake::pid( 3), around.tm.ipc()}};
            m.gtrid = gtrid( n( 1));
            return vf::try_send( around.handle.ipc, m);
         }
         else if( op == "remove" || op == "add")
         {
            if( op == "add") configured.insert( n( 1)); else configured.erase( n( 1));
            configure();
         }
         else if( op == "shutdown")
         {
            message::shutdown::Request m;
            m.process = { vf::fake::pid( 1), around.dm.ipc()};
            vf::try_send( around.handle.ipc, m);
         }
         else if( op == "settle")
         {
            // whatever is to happen when nothing else does, does
            for( int k = 0; k < 4; ++k)
            {
               std::this_thread::sleep_for( std::chrono::milliseconds{ 4});
               fence();
            }
         }
         else throw std::runtime_error{ "no such op: " + op};
         return true;
      }

      void boot( const tokens&)
      {
         reset();
         fencing.clear(); registrations.clear();
         configured = { 1, 2};
         around.also = [ &]( vf::Inbox& inbox, complete_type& complete){ return complete.type() == Type::gateway_inbound_connect;};
         around.start( "gateway/bin/casual-gateway-inbound-group");
         configure();
         until( [ &](){ return ! rows.empty();});
         vf::emit( Json{}( "e", "boot").raw( "out", vf::array( std::exchange( rows, {}))));
      }

      void operator() ( const std::vector< tokens>& script)
      {
         std::vector< std::string> words;
         std::vector< std::string> oks;
         long left = 1;
         for( auto& t : script)
         {
            if( t[ 0] == "boot") { words.clear(); oks.clear(); left = 1; boot( t); continue;}
            if( t[ 0] == "race")
            {
               // the next two happen before any of them is noticed
               if( ! exited) { ::kill( around.pid.value(), SIGSTOP); stopped = true;}
               left = 2;
               continue;
            }
            bool ok = stimulate( t);
            std::vector< std::string> quoted;
            for( auto& w : t) quoted.push_back( vf::quote( w));
            words.push_back( vf::array( quoted));
            oks.push_back( ok ? "true" : "false");
            if( --left > 0) continue;
            if( stopped && around.pid) ::kill( around.pid.value(), SIGCONT);
            stopped = false;
            fence();
            vf::emit( Json{}( "e", "step").raw( "ws", vf::array( std::exchange( words, {}))).raw( "oks", vf::array( std::exchange( oks, {})))
               ( "gone", exited).raw( "out", vf::array( std::exchange( rows, {}))));
            left = 1;
         }
         around.stop();
      }
   };
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   return vf::main( argc, argv, []( const std::vector< tokens>& script){ Driver driver; driver( script);});
}
