//! Conformance driver of casual-gateway-outbound-group: the driver is the managers, discovery, the callers and, at the far
//! end of tcp, the other domains.
//!
//! Connections are 1.., and connection c is in its k:th incarnation labelled c * 10 + k.
#include "gateway.h"

namespace
{
   using namespace vf::gateway;
   using vf::tokens;
   using vf::Json;

   struct Driver : Base
   {
      std::map< long, Listener> listeners;
      std::map< strong::correlation::id, std::string> seen;           //!< message types of requests of transactions
      bool rm_fence( const strong::correlation::id& c) { return fenced.insert( c).second;}
      std::set< strong::correlation::id> fencing;
      long registered = 0;
      casual::configuration::model::gateway::outbound::Group model;
      std::set< long> configured;

      std::string conv( message::conversation::duplex::Type t)
      {
         using E = message::conversation::duplex::Type;
         return t == E::send ? "send" : t == E::receive ? "receive" : "terminated";
      }

      void consume( vf::Inbox& inbox, complete_type& complete) override
      {
         if( &inbox == &around.dm && complete.type() == Type::event_ipc_destroyed)
         {
            auto m = vf::as< message::event::ipc::Destroyed>( complete);
            return row( { "dm", "destroyed", who( m.process)});
         }
         if( &inbox == &around.dm && complete.type() == Type::domain_process_information_request) return;
         if( &inbox == &around.discovery)
         {
            if( complete.type() == Type::domain_discovery_api_provider_registration_request)
            {
               auto m = vf::as< dm::api::provider::registration::Request>( complete);
               vf::send( m.process.ipc, message::reverse::type( m));
               using A = decltype( m.abilities);
               // the label is given by what TM is told next
               pending_registration.push_back( { m.process.ipc, m.abilities == A::discover ? "discover" : "?"});
               return;
            }
            if( complete.type() == Type::domain_discovery_topology_direct_update)
            {
               auto m = vf::as< dm::topology::direct::Update>( complete);
               if( ! partners.count( m.process.ipc))
               {
                  // known when TM is told
                  pending_topology.push_back( m);
                  return;
               }
               return topology( m);
            }
            if( complete.type() == Type::domain_discovery_topology_implicit_update)
            {
               auto m = vf::as< dm::topology::implicit::Update>( complete);
               if( fencing.count( m.correlation)) { fenced.insert( m.correlation); return;}
               std::vector< std::string> names;
               for( auto& d : m.domains) names.push_back( d.name);
               return row( { "disc", "implicit", who( m.process), join( names)});
            }
         }
         if( around.serve( complete)) return;

         switch( complete.type())
         {
            case Type::gateway_outbound_connect: return;
            case Type::gateway_outbound_configuration_update_reply:
               return row( { "gm", "updated"});
            case Type::gateway_outbound_state_reply:
               fenced.insert( complete.correlation());
               return;
            case Type::transaction_external_resource_instance:
            {
               auto m = vf::as< message::transaction::resource::external::Instance>( complete);
               // description is the name of the other domain: r<label>
               auto label = m.description.size() > 1 ? vf::number( m.description.substr( 1)) : -1;
               partners[ m.process.ipc] = label;
               handles[ label] = m.process;
               row( { "tm", "instance", std::to_string( label), m.alias});
               for( auto& [ ipc, ability] : pending_registration) row( { "disc", "register", who( process::Handle{ m.process.pid, ipc}), ability});
               pending_registration.clear();
               for( auto& topology : std::exchange( pending_topology, {})) this->topology( topology);
               return;
            }
            case Type::transaction_external_resource_involved:
            {
               auto m = vf::as< message::transaction::resource::external::Involved>( complete);
               return row( { "tm", "involved", who( m.process), trid( m.trid)});
            }
            case Type::service_concurrent_advertise:
            {
               auto m = vf::as< message::service::concurrent::Advertise>( complete);
               using D = decltype( m.directive);
               std::vector< std::string> add;
               for( auto& s : m.services.add) add.push_back( s.name + ":" + std::to_string( s.property.hops));
               return row( { "sm", m.directive == D::reset ? "reset" : m.directive == D::instance ? "instance" : "advertise", who( m.process),
                  m.directive == D::reset ? "-" : std::to_string( m.order), join( add)});
            }
            case Type::service_advertise:
            {
               auto m = vf::as< message::service::Advertise>( complete);
               return row( { "sm", "unadvertise", who( m.process), join( m.services.remove)});
            }
            case Type::event_service_calls:
            {
               auto m = vf::as< message::event::service::Calls>( complete);
               for( auto& metric : m.metrics)
                  row( { "metric", metric.service, id( metric.correlation), ::text( metric.code.result), trid( metric.trid)});
               return;
            }
            case Type::queue_manager_queue_advertise:
            {
               auto m = vf::as< qm::Advertise>( complete);
               using D = decltype( m.directive);
               std::vector< std::string> add;
               for( auto& q : m.queues.add) add.push_back( q.name);
               return row( { "qm", m.directive == D::reset ? "reset" : m.directive == D::instance ? "instance" : "advertise", who( m.process),
                  m.directive == D::reset ? "-" : std::to_string( m.order), join( add)});
            }
            case Type::service_reply:
            {
               auto m = vf::as< message::service::call::Reply>( complete);
               return row( { owner( inbox), "reply", id( m.correlation), ::text( m.code.result), vf::gateway::text( m.buffer)});
            }
            case Type::conversation_connect_reply:
            {
               auto m = vf::as< message::conversation::connect::Reply>( complete);
               return row( { owner( inbox), "connected", id( m.correlation), ::text( m.code.result)});
            }
            case Type::conversation_send:
            {
               auto m = vf::as< message::conversation::callee::Send>( complete);
               return row( { owner( inbox), "send", id( m.correlation), conv( m.duplex), ::text( m.code.result), vf::gateway::text( m.buffer)});
            }
            case Type::queue_group_enqueue_reply:
            {
               auto m = vf::as< qm::group::enqueue::Reply>( complete);
               return row( { owner( inbox), "enqueued", id( m.correlation), m.id ? "1" : "0"});
            }
            case Type::queue_group_dequeue_reply:
            {
               auto m = vf::as< qm::group::dequeue::Reply>( complete);
               return row( { owner( inbox), "dequeued", id( m.correlation), m.message ? vf::gateway::text( m.message->payload) : "0"});
            }
            case Type::transaction_resource_prepare_reply: return resource< message::transaction::resource::prepare::Reply>( inbox, complete, "prepared");
            case Type::transaction_resource_commit_reply: return resource< message::transaction::resource::commit::Reply>( inbox, complete, "committed");
            case Type::transaction_resource_rollback_reply: return resource< message::transaction::resource::rollback::Reply>( inbox, complete, "rolledback");
            case Type::domain_discovery_reply:
            {
               auto m = vf::as< dm::Reply>( complete);
               if( fencing.count( m.correlation)) { fenced.insert( m.correlation); return;}
               std::vector< std::string> services, queues;
               for( auto& s : m.content.services) services.push_back( s.name + ":" + std::to_string( s.property.hops));
               for( auto& q : m.content.queues) queues.push_back( q.name);
               return row( { owner( inbox), "discovered", id( m.correlation), join( services), join( queues)});
            }
            default:
               unexpected( "inbox", complete.type());
         }
      }
      std::vector< std::pair< strong::ipc::id, std::string>> pending_registration;
      std::vector< dm::topology::direct::Update> pending_topology;
      void topology( const dm::topology::direct::Update& m)
      {
         row( { "disc", "topology", who( m.process), join( m.configured.services), join( m.configured.queues)});
      }

      std::string text( code::xatmi code) { return vf::gateway::text( code);}
      static std::string text_( code::xa code) { return vf::gateway::text( code);}

      std::string owner( vf::Inbox& inbox)
      {
         if( &inbox == &around.tm) return "tm";
         for( auto& [ name, box] : own) if( box.get() == &inbox) return name;
         return "?";
      }
      template< typename M>
      void resource( vf::Inbox& inbox, complete_type& complete, const char* what)
      {
         auto m = vf::as< M>( complete);
         row( { owner( inbox), what, id( m.correlation), vf::gateway::text( m.state), trid( m.trid)});
      }

      template< typename M>
      void remote_resource( Remote& remote, Remote::complete_type& complete, const char* what)
      {
         auto m = to< M>( complete);
         row( { tcp( remote), what, id( m.correlation), trid( m.trid)});
      }
      static std::string tcp( Remote& remote) { return "tcp" + std::to_string( remote.c);}

      void received( Remote& remote, Remote::complete_type& complete) override
      {
         namespace call = message::service::call;
         namespace conversation = message::conversation;
         switch( complete.type())
         {
            case Type::service_call:
            {
               auto m = to< call::callee::Request>( complete);
               return row( { tcp( remote), "call", id( m.correlation), m.service.name, trid( m.trid), vf::gateway::text( m.buffer),
                  flag::contains( m.flags, call::request::Flag::no_reply) ? "1" : "0"});
            }
            case Type::service_call_v2:
            {
               auto m = to< call::v1_2::callee::Request>( complete);
               return row( { tcp( remote), "call2", id( m.correlation), m.service.name, trid( m.trid), vf::gateway::text( m.buffer),
                  flag::contains( m.flags, call::request::Flag::no_reply) ? "1" : "0"});
            }
            case Type::conversation_connect_request:
            {
               auto m = to< conversation::connect::callee::Request>( complete);
               return row( { tcp( remote), "connect", id( m.correlation), m.service.name, trid( m.trid), vf::gateway::text( m.buffer), conv( m.duplex)});
            }
            case Type::conversation_connect_request_v2:
            {
               auto m = to< conversation::connect::v1_2::callee::Request>( complete);
               return row( { tcp( remote), "connect2", id( m.correlation), m.service.name, trid( m.trid), vf::gateway::text( m.buffer), conv( m.duplex)});
            }
            case Type::conversation_send:
            {
               auto m = to< conversation::callee::Send>( complete);
               return row( { tcp( remote), "send", id( m.correlation), conv( m.duplex), vf::gateway::text( m.buffer)});
            }
            case Type::conversation_disconnect:
               return row( { tcp( remote), "disconnect", id( complete.correlation())});
            case Type::queue_group_enqueue_request:
            {
               auto m = to< qm::group::enqueue::Request>( complete);
               return row( { tcp( remote), "enqueue", id( m.correlation), m.name, trid( m.trid), vf::gateway::text( m.message.payload)});
            }
            case Type::queue_group_dequeue_request:
            {
               auto m = to< qm::group::dequeue::Request>( complete);
               return row( { tcp( remote), "dequeue", id( m.correlation), m.name, trid( m.trid), m.block ? "1" : "0"});
            }
            case Type::transaction_resource_prepare_request: return remote_resource< message::transaction::resource::prepare::Request>( remote, complete, "prepare");
            case Type::transaction_resource_commit_request: return remote_resource< message::transaction::resource::commit::Request>( remote, complete, "commit");
            case Type::transaction_resource_rollback_request: return remote_resource< message::transaction::resource::rollback::Request>( remote, complete, "rollback");
            case Type::domain_discovery_request:
            {
               auto m = to< dm::Request>( complete);
               if( fencing.count( m.correlation))
               {
                  if( remote.version >= 4) remote.send( message::reverse::type( m));
                  else
                  {
                     dm::v1_3::Reply reply;
                     reply.correlation = m.correlation;
                     remote.send( reply);
                  }
                  return;
               }
               auto known = id( m.correlation);
               return row( { tcp( remote), known == "?" ? "explore" : "discover", known, join( m.content.services), join( m.content.queues)});
            }
            case Type::gateway_domain_disconnect_reply:
               return row( { tcp( remote), "disconnected"});
            default:
               unexpected( "tcp", complete.type());
         }
      }

      //! everything that has been sent is handled
      void fence()
      {
         std::size_t before{};
         do
         {
            before = rows.size();
            round();
         } while( rows.size() != before && ! exited);
      }
      void round()
      {
         if( exited) { drain(); return;}
         std::map< strong::correlation::id, std::function< bool()>> waiting;
         // what the other domains have sent
         for( auto& [ label, remote] : remotes)
         {
            if( remote->closed) continue;
            dm::topology::implicit::Update update;
            update.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
            fencing.insert( update.correlation);
            if( remote->send( update))
               waiting[ update.correlation] = [ r = remote.get()](){ return r->closed;};
         }
         for( auto& [ label, handle] : handles)
         {
            dm::Request request;
            request.process = { vf::fake::pid( 9), around.me.ipc()};
            request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
            fencing.insert( request.correlation);
            if( auto found = remotes.find( label); found != remotes.end() && ! found->second->closed)
               if( vf::try_send( handle.ipc, request))
                  waiting[ request.correlation] = [ r = found->second.get()](){ return r->closed;};
         }
         wait_for( waiting, "connections");
         for( int k = 0; k < 2 && ! exited; ++k)
         {
            gm::outbound::state::Request request;
            request.process = { vf::fake::pid( 9), around.me.ipc()};
            request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
            waiting.clear();
            if( vf::try_send( around.handle.ipc, request))
               waiting[ request.correlation] = [](){ return false;};
            else if( ! until( [ &](){ return exited;})) timeout( "exit");
            wait_for( waiting, "state");
         }
         while( drain()) ;
      }
      void wait_for( const std::map< strong::correlation::id, std::function< bool()>>& waiting, const std::string& what)
      {
         auto done = [ &]()
         {
            if( exited) return true;
            for( auto& [ correlation, gone] : waiting)
               if( ! fenced.count( correlation) && ! gone()) return false;
            return true;
         };
         if( ! until( done)) timeout( "fence of " + what);
      }

      void configure()
      {
         gm::outbound::configuration::update::Request request;
         request.process = { vf::fake::pid( 6), gm.ipc()};
         request.model = model;
         request.model.connections.clear();
         for( auto c : configured)
         {
            casual::configuration::model::gateway::outbound::Connection connection;
            connection.address = listeners[ c].address;
            if( c == 2) { connection.services = { "s2"}; connection.queues = { "q2"};}
            request.model.connections.push_back( connection);
         }
         vf::send( around.handle.ipc, request);
      }

      //! accepts, and takes part in the handshake. how: a version, "refuse" or "bad"
      bool accept( long c, const std::string& how)
      {
         auto label = c * 10 + incarnation[ c] + 1;
         std::unique_ptr< Remote> remote;
         Remote::complete_type complete;
         // attempts that were given up meanwhile (the connection was removed) are still in the backlog, closed
         for( auto attempts = 0; attempts < 10 && ! complete; ++attempts)
         {
            auto fd = -1;
            until( [ &](){ return ( fd = listeners[ c].accept( 0)) >= 0;}, 3000);
            if( fd < 0) return false;
            remote = std::make_unique< Remote>( fd, label);
            if( ! until( [ &](){ return bool( complete = remote->next()) || remote->closed;})) timeout( "handshake");
         }
         if( ! complete) timeout( "handshake");
         if( how == "refuse") return true;
         auto request = to< casual::gateway::message::domain::connect::Request>( complete);
         auto reply = message::reverse::type( request);
         reply.domain = common::domain::Identity{ strong::domain::id{ vf::uuid( 7, c, run)}, "r" + std::to_string( label)};
         reply.version = how == "bad" ? casual::gateway::message::protocol::Version::invalid : version( vf::number( how));
         remote->send( reply);
         if( how == "bad") { until( [ &](){ remote->next(); return remote->closed;}); return true;}
         remote->version = vf::number( how);
         ++incarnation[ c];
         remotes[ label] = std::move( remote);
         if( ! until( [ &](){ return handles.count( label) > 0;})) timeout( "connected");
         return true;
      }

      template< typename M>
      bool internal( long label, M&& message)
      {
         auto found = handles.find( label);
         if( found == handles.end()) return false;
         return vf::try_send( found->second.ipc, std::forward< M>( message));
      }

      //! @return if it could be sent
      bool stimulate( const tokens& t)
      {
         auto& op = t[ 0];
         auto n = [ &]( std::size_t k){ return vf::number( t.at( k));};
         if( op == "accept")
         {
            return accept( n( 1), t[ 2]);
         }
         else if( op == "call")
         {
            // call c id caller service trid noreply
            message::service::call::callee::Request m;
            m.process = at( t[ 3]); m.correlation = correlation( n( 2)); m.service.name = t[ 4]; m.trid = trid( n( 5));
            if( t[ 6] == "1") m.flags = message::service::call::request::Flag::no_reply;
            m.buffer = payload( "d" + t[ 2]);
            return internal( current( n( 1)), m);
         }
         else if( op == "connect")
         {
            // connect c id caller service trid duplex
            message::conversation::connect::callee::Request m;
            m.process = at( t[ 3]); m.correlation = correlation( n( 2)); m.service.name = t[ 4]; m.trid = trid( n( 5));
            m.duplex = t[ 6] == "send" ? decltype( m.duplex)::send : decltype( m.duplex)::receive;
            m.buffer = payload( "d" + t[ 2]);
            return internal( current( n( 1)), m);
         }
         else if( op == "csend")
         {
            // csend c id duplex: the initiator sends
            message::conversation::callee::Send m;
            m.correlation = correlation( n( 2));
            m.duplex = t[ 3] == "send" ? decltype( m.duplex)::send : decltype( m.duplex)::receive;
            m.buffer = payload( "m" + t[ 2]);
            return internal( current( n( 1)), m);
         }
         else if( op == "cdisconnect")
         {
            message::conversation::Disconnect m;
            m.correlation = correlation( n( 2));
            return internal( current( n( 1)), m);
         }
         else if( op == "enqueue" || op == "dequeue")
         {
            // enqueue c id caller queue trid
            auto fill = [ &]( auto m)
            {
               m.process = at( t[ 3]); m.correlation = correlation( n( 2)); m.name = t[ 4]; m.trid = trid( n( 5));
               if constexpr( requires { m.block;}) m.block = true;
               if constexpr( requires { m.message;}) m.message.payload = payload( "d" + t[ 2]);
               return internal( current( n( 1)), m);
            };
            bool ok = op == "enqueue" ? fill( qm::group::enqueue::Request{}) : fill( qm::group::dequeue::Request{});
            return ok;
         }
         else if( op == "prepare" || op == "commit" || op == "rollback")
         {
            // prepare c id trid
            auto fill = [ &]( auto m)
            {
               m.process = { vf::fake::pid( 3), around.tm.ipc()};
               m.correlation = correlation( n( 2)); m.trid = trid( n( 3));
               return internal( current( n( 1)), m);
            };
            namespace r = message::transaction::resource;
            bool ok = op == "prepare" ? fill( r::prepare::Request{}) : op == "commit" ? fill( r::commit::Request{}) : fill( r::rollback::Request{});
            return ok;
         }
         else if( op == "discover")
         {
            // discover c id caller services queues
            dm::Request m;
            m.process = at( t[ 3]); m.correlation = correlation( n( 2)); m.content.services = split( t[ 4]); m.content.queues = split( t[ 5]);
            return internal( current( n( 1)), m);
         }
         else if( op == "explore")
         {
            dm::topology::direct::Explore m;
            m.content.services = split( t[ 2]); m.content.queues = split( t[ 3]);
            return internal( current( n( 1)), m);
         }
         // --- from the other domain
         else if( op == "reply")
         {
            // reply c id code
            auto r = remote( n( 1));
            bool ok = false;
            auto fill = [ &]( auto m)
            {
               m.correlation = correlation( n( 2)); m.code.result = xatmi( t[ 3]); m.buffer = payload( "r" + t[ 2]);
               return r->send( m);
            };
            if( r) ok = r->version >= 3 ? fill( message::service::call::Reply{}) : fill( message::service::call::v1_2::Reply{});
            return ok;
         }
         else if( op == "connected")
         {
            message::conversation::connect::Reply m;
            m.correlation = correlation( n( 2)); m.code.result = xatmi( t[ 3]);
            auto r = remote( n( 1));
            return r && r->send( m);
         }
         else if( op == "rsend")
         {
            // rsend c id duplex
            message::conversation::callee::Send m;
            m.correlation = correlation( n( 2));
            m.duplex = t[ 3] == "send" ? decltype( m.duplex)::send : t[ 3] == "receive" ? decltype( m.duplex)::receive : decltype( m.duplex)::terminated;
            m.code.result = t[ 3] == "terminated" ? code::xatmi::ok : code::xatmi::absent;
            m.buffer = payload( "r" + t[ 2]);
            auto r = remote( n( 1));
            return r && r->send( m);
         }
         else if( op == "enqueued" || op == "dequeued")
         {
            // enqueued c id 0|1
            auto r = remote( n( 1));
            bool ok = false;
            if( r && op == "enqueued")
            {
               auto fill = [ &]( auto m)
               {
                  m.correlation = correlation( n( 2));
                  if( t[ 3] == "1") m.id = vf::uuid( 5, n( 2), run);
                  if constexpr( requires { m.code;}) if( t[ 3] != "1") m.code = code::queue::no_queue;
                  return r->send( m);
               };
               ok = r->version >= 3 ? fill( qm::group::enqueue::Reply{}) : fill( qm::group::enqueue::v1_2::Reply{});
            }
            else if( r)
            {
               auto fill = [ &]( auto m)
               {
                  m.correlation = correlation( n( 2));
                  if( t[ 3] == "1")
                  {
                     qm::group::dequeue::Message message;
                     message.id = vf::uuid( 5, n( 2), run);
                     message.payload = payload( "r" + t[ 2]);
                     if constexpr( requires { m.message.push_back( message);}) m.message.push_back( message);
                     else m.message = message;
                  }
                  return r->send( m);
               };
               ok = r->version >= 3 ? fill( qm::group::dequeue::Reply{}) : fill( qm::group::dequeue::v1_2::Reply{});
            }
            return ok;
         }
         else if( op == "prepared" || op == "committed" || op == "rolledback")
         {
            // prepared c id trid code
            auto r = remote( n( 1));
            auto fill = [ &]( auto m)
            {
               m.correlation = correlation( n( 2)); m.trid = trid( n( 3));
               for( auto c : { code::xa::ok, code::xa::read_only, code::xa::resource_fail, code::xa::protocol, code::xa::rollback_integrity})
                  if( description( c) == t[ 4]) m.state = c;
               return r && r->send( m);
            };
            namespace x = message::transaction::resource;
            bool ok = op == "prepared" ? fill( x::prepare::Reply{}) : op == "committed" ? fill( x::commit::Reply{}) : fill( x::rollback::Reply{});
            return ok;
         }
         else if( op == "discovered")
         {
            // discovered c id services queues (id 0: the answer of explore)
            auto r = remote( n( 1));
            bool ok = false;
            auto fill = [ &]( auto m)
            {
               m.correlation = n( 2) ? correlation( n( 2)) : strong::correlation::id{ uuid::make()};
               for( auto& s : split( t[ 3]))
               {
                  typename std::decay_t< decltype( m.content.services)>::value_type service;
                  service.name = s; service.property.hops = 2;
                  m.content.services.push_back( service);
               }
               for( auto& q : split( t[ 4]))
               {
                  typename std::decay_t< decltype( m.content.queues)>::value_type queue;
                  queue.name = q;
                  m.content.queues.push_back( queue);
               }
               return r->send( m);
            };
            if( r) ok = r->version >= 4 ? fill( dm::Reply{}) : fill( dm::v1_3::Reply{});
            return ok;
         }
         else if( op == "update")
         {
            // update c seen: what the other domain tells about changes behind it
            dm::topology::implicit::Update m;
            m.domains.push_back( common::domain::Identity{ strong::domain::id{ vf::uuid( 7, 77, run)}, "other"});
            if( t[ 2] == "1") m.domains.push_back( common::domain::identity());
            auto r = remote( n( 1));
            return r && r->send( m);
         }
         else if( op == "rdisconnect")
         {
            auto r = remote( n( 1));
            return r && r->send( casual::gateway::message::domain::disconnect::Request{});
         }
         else if( op == "lost" || op == "reset")
         {
            auto r = remote( n( 1));
            bool ok = r && ! r->closed;
            if( ok) r->close( op == "reset");
            return ok;
         }
         // --- from the managers
         else if( op == "disassociate")
         {
            message::event::transaction::Disassociate m{ process::Handle{ vf::fake::pid( 3), around.tm.ipc()}};
            m.gtrid = gtrid( n( 1));
            return vf::try_send( around.handle.ipc, m);
         }
         else if( op == "order")
         {
            model.order = n( 1);
            configure();
         }
         else if( op == "remove" || op == "add")
         {
            if( op == "add") configured.insert( n( 1)); else configured.erase( n( 1));
            configure();
         }
         else if( op == "shutdown")
         {
            message::shutdown::Request m;
            m.process = { vf::fake::pid( 1), around.dm.ipc()};
            vf::try_send( around.handle.ipc, m);
         }
         else if( op == "settle")
         {
            // whatever is to happen when nothing else does, does
            for( int k = 0; k < 4; ++k)
            {
               std::this_thread::sleep_for( std::chrono::milliseconds{ 4});
               fence();
            }
         }
         else throw std::runtime_error{ "no such op: " + op};
         return true;
      }

      void boot( const tokens& t)
      {
         // boot connections order
         reset();
         seen.clear(); fencing.clear(); pending_registration.clear(); pending_topology.clear(); configured.clear();
         listeners.clear();
         model = {};
         model.alias = "out";
         model.order = vf::number( t[ 2]);
         for( long c = 1; c <= 4; ++c) listeners[ c];
         for( long c = 1; c <= vf::number( t[ 1]); ++c) configured.insert( c);
         around.also = [ &]( vf::Inbox& inbox, complete_type& complete){ return complete.type() == Type::gateway_outbound_connect;};
         around.start( "gateway/bin/casual-gateway-outbound-group");
         configure();
         until( [ &](){ return ! rows.empty();});
         vf::emit( Json{}( "e", "boot")( "n", vf::number( t[ 1]))( "order", vf::number( t[ 2])).raw( "out", vf::array( std::exchange( rows, {}))));
      }

      void operator() ( const std::vector< tokens>& script)
      {
         std::vector< std::string> words;
         std::vector< std::string> oks;
         long left = 1;
         for( auto& t : script)
         {
            if( t[ 0] == "boot") { words.clear(); oks.clear(); left = 1; boot( t); continue;}
            if( t[ 0] == "race")
            {
               // the next two happen before any of them is noticed
               if( ! exited) { ::kill( around.pid.value(), SIGSTOP); stopped = true;}
               left = 2;
               continue;
            }
            bool ok = stimulate( t);
            std::vector< std::string> quoted;
            for( auto& w : t) quoted.push_back( vf::quote( w));
            words.push_back( vf::array( quoted));
            oks.push_back( ok ? "true" : "false");
            if( --left > 0) continue;
            if( stopped && around.pid) ::kill( around.pid.value(), SIGCONT);
            stopped = false;
            fence();
            vf::emit( Json{}( "e", "step").raw( "ws", vf::array( std::exchange( words, {}))).raw( "oks", vf::array( std::exchange( oks, {})))
               ( "gone", exited).raw( "out", vf::array( std::exchange( rows, {}))));
            left = 1;
         }
         around.stop();
      }
   };
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   return vf::main( argc, argv, []( const std::vector< tokens>& script){ Driver driver; driver( script);});
}
