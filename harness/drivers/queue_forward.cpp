//! Conformance driver of casual-queue-forward-group: the driver is the managers, the queue groups and a server.
//!
//! Forward 1: qa -> service s1, reply to qr. Forward 2: qb -> service s2. Forward 3: qc -> queue qd (with a delay).
//! A flow is labelled forward * 100 + n when its dequeue request arrives, a flow whose dequeue request could not arrive x1...
#include "gateway.h"

namespace
{
   using namespace vf::gateway;
   using vf::tokens;
   using vf::Json;

   const std::vector< std::string> names{ "qa", "qr", "qb", "qc", "qd"};

   struct Driver : Base
   {
      struct Flow { std::string label; transaction::ID trid; process::Handle process; bool dequeue = true, lookup = false;};
      std::map< strong::correlation::id, Flow> flows;
      std::map< std::string, strong::correlation::id> labels;
      std::set< std::string> used;                                      //!< the global ids that have been seen
      std::map< std::string, std::vector< strong::correlation::id>> lookups;  //!< outstanding, by name
      std::map< strong::correlation::id, std::string> looked;
      std::map< long, long> count;
      long unknown = 0;
      casual::configuration::model::queue::forward::Group model;
      std::string state;
      std::map< std::string, process::Handle> targets;                  //!< the forward, as the receiver knows it

      static std::string global( const transaction::ID& trid)
      {
         auto range = transaction::id::range::global( trid);
         std::string result;
         for( auto c : range) result += char( c);
         return result;
      }
      std::string label( const strong::correlation::id& correlation)
      {
         auto found = flows.find( correlation);
         return found == flows.end() ? "?" : found->second.label;
      }
      //! the label of the flow the transaction belongs to
      std::string owner( const transaction::ID& trid)
      {
         for( auto& [ c, flow] : flows) if( flow.trid == trid) return flow.label;
         return "?";
      }
      std::string box_of( vf::Inbox& inbox)
      {
         for( auto& [ name, box] : own) if( box.get() == &inbox) return name;
         return "?";
      }
      process::Handle group( const std::string& name) { return { vf::fake::pid( 30 + vf::number( name.substr( 1))), box( name).ipc()};}
      static strong::queue::id qid( const std::string& name)
      {
         return strong::queue::id{ 1 + std::distance( names.begin(), std::find( names.begin(), names.end(), name))};
      }
      std::string qname( strong::queue::id id) { for( auto& n : names) if( qid( n) == id) return n; return "?";}
      long forward( const std::string& queue) { return queue == "qa" ? 1 : queue == "qb" ? 2 : queue == "qc" ? 3 : 9;}

      template< typename M>
      void resolve( complete_type& complete, const char* what)
      {
         auto m = vf::as< M>( complete);
         if( ! flows.count( m.correlation))
         {
            Flow flow;
            flow.label = "x" + std::to_string( ++unknown);
            flow.trid = m.trid;
            flow.process = m.process;
            if( ! used.insert( global( m.trid)).second) flow.label += "-used";
            labels[ flow.label] = m.correlation;
            flows[ m.correlation] = flow;
         }
         row( { what, label( m.correlation), owner( m.trid)});
      }

      void consume( vf::Inbox& inbox, complete_type& complete) override
      {
         if( around.serve( complete)) return;
         switch( complete.type())
         {
            case Type::queue_forward_group_connect: return;
            case Type::queue_forward_group_configuration_update_reply:
               return row( { "updated"});
            case Type::queue_forward_group_state_reply:
            {
               auto m = vf::as< qm::forward::group::state::Reply>( complete);
               std::map< std::string, std::string> forwards;
               auto add = [ &]( auto& range)
               {
                  for( auto& f : range)
                     forwards[ f.alias] = "[" + std::to_string( f.instances.configured) + "," + std::to_string( f.instances.running)
                        + "," + std::to_string( f.metric.commit.count) + "," + std::to_string( f.metric.rollback.count) + "]";
               };
               add( m.services); add( m.queues);
               state.clear();
               for( auto& [ alias, text] : forwards) state += ( state.empty() ? "" : ",") + text;
               fenced.insert( complete.correlation());
               return;
            }
            case Type::queue_manager_queue_lookup_request:
            {
               auto m = vf::as< qm::lookup::Request>( complete);
               lookups[ m.name].push_back( m.correlation);
               looked[ m.correlation] = m.name;
               return row( { "lookup", m.name, m.context.semantic == decltype( m.context.semantic)::wait ? "wait" : "direct"});
            }
            case Type::queue_manager_queue_lookup_discard_request:
            {
               auto m = vf::as< qm::lookup::discard::Request>( complete);
               auto reply = message::reverse::type( m);
               auto& outstanding = lookups[ looked[ m.correlation]];
               auto found = std::find( outstanding.begin(), outstanding.end(), m.correlation);
               if( found != outstanding.end())
               {
                  reply.state = decltype( reply.state)::discarded;
                  row( { "unlookup", looked[ m.correlation]});
                  outstanding.erase( found);
               }
               vf::try_send( m.process.ipc, reply);
               return;
            }
            case Type::queue_group_dequeue_request:
            {
               auto m = vf::as< qm::group::dequeue::Request>( complete);
               auto f = forward( m.name);
               Flow flow;
               flow.label = std::to_string( f * 100 + ++count[ f]);
               flow.trid = m.trid;
               flow.process = m.process;
               auto fresh = used.insert( global( m.trid)).second;
               labels[ flow.label] = m.correlation;
               flows[ m.correlation] = flow;
               return row( { "dequeue", box_of( inbox), flow.label, m.name, qname( m.queue), m.trid && fresh ? "fresh" : "used", m.block ? "block" : "direct"});
            }
            case Type::queue_group_dequeue_forget_request:
            {
               auto m = vf::as< qm::group::dequeue::forget::Request>( complete);
               auto found = flows.find( m.correlation);
               auto reply = message::reverse::type( m);
               reply.discarded = found != flows.end() && std::exchange( found->second.dequeue, false);
               row( { "forget", box_of( inbox), label( m.correlation), reply.discarded ? "1" : "0"});
               vf::try_send( m.process.ipc, reply);
               return;
            }
            case Type::queue_group_enqueue_request:
            {
               auto m = vf::as< qm::group::enqueue::Request>( complete);
               return row( { "enqueue", box_of( inbox), label( m.correlation), m.name, qname( m.queue), owner( m.trid), vf::gateway::text( m.message.payload),
                  m.message.attributes.available > platform::time::clock::type::now() ? "later" : "now"});
            }
            case Type::service_name_lookup_request:
            {
               auto m = vf::as< message::service::lookup::Request>( complete);
               if( auto found = flows.find( m.correlation); found != flows.end()) found->second.lookup = true;
               return row( { "service", label( m.correlation), m.requested});
            }
            case Type::service_name_lookup_discard_request:
            {
               auto m = vf::as< message::service::lookup::discard::Request>( complete);
               auto found = flows.find( m.correlation);
               auto reply = message::reverse::type( m);
               auto discarded = found != flows.end() && std::exchange( found->second.lookup, false);
               reply.state = discarded ? decltype( reply.state)::discarded : decltype( reply.state)::replied;
               row( { "unservice", label( m.correlation), discarded ? "1" : "0"});
               vf::try_send( m.process.ipc, reply);
               return;
            }
            case Type::service_call:
            {
               auto m = vf::as< message::service::call::callee::Request>( complete);
               return row( { "call", label( m.correlation), m.service.name, owner( m.trid), vf::gateway::text( m.buffer)});
            }
            case Type::transaction_commit_request: return resolve< message::transaction::commit::Request>( complete, "commit");
            case Type::transaction_rollback_request: return resolve< message::transaction::rollback::Request>( complete, "rollback");
            default:
               unexpected( box_of( inbox), complete.type());
         }
      }
      void received( Remote&, Remote::complete_type&) override {}

      //! everything that has been sent is handled
      void fence()
      {
         std::size_t before{};
         auto rounds = 0;
         do
         {
            if( ++rounds > 40) timeout( "livelock");
            before = rows.size();
            for( int k = 0; k < 2 && ! exited; ++k)
            {
               qm::forward::group::state::Request request;
               request.process = { vf::fake::pid( 9), around.me.ipc()};
               request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
               if( ! vf::try_send( around.handle.ipc, request))
               {
                  if( ! until( [ &](){ return exited;})) timeout( "exit");
               }
               else if( ! until( [ &](){ return exited || fenced.count( request.correlation);})) timeout( "fence");
            }
            while( drain()) ;
         } while( rows.size() != before && ! exited);
      }

      void configure( const tokens& t)
      {
         auto add = [ &]( auto& forwards, auto forward, const char* alias, const char* source, long instances, auto&& rest)
         {
            forward.alias = alias; forward.source = source; forward.instances = instances;
            rest( forward);
            forwards.push_back( forward);
         };
         model = {};
         model.alias = "forward";
         add( model.services, casual::configuration::model::queue::forward::Service{}, "f1", "qa", vf::number( t[ 1]), []( auto& f)
         {
            f.target.service = "s1"; f.reply.emplace(); f.reply->queue = "qr";
         });
         add( model.services, casual::configuration::model::queue::forward::Service{}, "f2", "qb", vf::number( t[ 2]), []( auto& f) { f.target.service = "s2";});
         add( model.queues, casual::configuration::model::queue::forward::Queue{}, "f3", "qc", vf::number( t[ 3]), []( auto& f)
         {
            f.target.queue = "qd"; f.target.delay = std::chrono::hours{ 1};
         });
         qm::forward::group::configuration::update::Request request;
         request.process = { vf::fake::pid( 5), qm.ipc()};
         request.model = model;
         vf::send( around.handle.ipc, request);
      }

      //! @return if it could be sent
      bool stimulate( const tokens& t)
      {
         auto& op = t[ 0];
         auto tell = [ &]( auto& m) { return vf::try_send( around.handle.ipc, m);};
         auto answer = [ &]( auto m, auto&& fill)
         {
            if( ! labels.count( t.at( 1))) return false;
            m.correlation = labels.at( t.at( 1));
            fill( m, flows.at( m.correlation));
            return tell( m);
         };
         if( op == "lookedup")
         {
            // lookedup q g
            auto& outstanding = lookups[ t[ 1]];
            if( outstanding.empty()) return false;
            qm::lookup::Reply m;
            m.correlation = outstanding.front();
            outstanding.erase( outstanding.begin());
            m.process = group( t[ 2]); m.queue = qid( t[ 1]); m.name = t[ 1];
            return tell( m);
         }
         if( op == "message" || op == "empty")
            return answer( qm::group::dequeue::Reply{}, [ &]( auto& m, auto& flow)
            {
               flow.dequeue = false;
               if( op == "empty") return;
               m.message.emplace();
               m.message->id = vf::uuid( 5, 1, run);
               m.message->payload = payload( t[ 2]);
            });
         if( op == "forgetreq")
            return answer( qm::group::dequeue::forget::Request{ process::Handle{ vf::fake::pid( 31), around.me.ipc()}}, []( auto& m, auto& flow) { flow.dequeue = false;});
         if( op == "service")
            return answer( message::service::lookup::Reply{}, [ &]( auto& m, auto& flow)
            {
               flow.lookup = false;
               m.service.name = flow.label[ 0] == '1' ? "s1" : "s2";
               m.state = t[ 2] == "absent" ? decltype( m.state)::absent : t[ 2] == "timeout" ? decltype( m.state)::timeout : decltype( m.state)::idle;
               if( t[ 2] == "idle") m.process = { vf::fake::pid( 20), box( "srv").ipc()};
               if( t[ 2] == "gone") m.process = { vf::fake::pid( 21), vf::fake::ipc()};
            });
         if( op == "reply")
            return answer( message::service::call::Reply{}, [ &]( auto& m, auto&)
            {
               m.code.result = xatmi( t[ 2]);
               m.buffer = payload( "r" + t[ 1]);
            });
         if( op == "enqueued")
            return answer( qm::group::enqueue::Reply{}, [ &]( auto& m, auto&) { if( t[ 2] == "1") m.id = vf::uuid( 6, 1, run);});
         if( op == "committed")
            return answer( message::transaction::commit::Reply{}, [ &]( auto& m, auto& flow)
            {
               m.trid = flow.trid;
               using S = decltype( m.stage);
               m.stage = t[ 2] == "prepare" ? S::prepare : t[ 2] == "commit" ? S::commit : S::rollback;
               m.state = t[ 2] == "error" ? code::tx::rollback : code::tx::ok;
            });
         if( op == "rolledback")
            return answer( message::transaction::rollback::Reply{}, [ &]( auto& m, auto& flow)
            {
               m.trid = flow.trid;
               m.stage = decltype( m.stage)::rollback;
               m.state = t[ 2] == "error" ? code::tx::fail : code::tx::ok;
            });
         if( op == "vanish")
         {
            targets[ t[ 1]] = group( t[ 1]);
            return own.erase( t[ 1]) > 0;
         }
         if( op == "gone")
         {
            // gone g ipc|exit
            if( own.count( t[ 1])) { targets[ t[ 1]] = group( t[ 1]); own.erase( t[ 1]);}
            if( t[ 2] == "ipc")
            {
               message::event::ipc::Destroyed m;
               m.process = targets[ t[ 1]];
               return tell( m);
            }
            message::event::process::Exit m;
            m.state.pid = targets[ t[ 1]].pid;
            return tell( m);
         }
         if( op == "config") { configure( t); return true;}
         if( op == "shutdown")
         {
            message::shutdown::Request m;
            m.process = { vf::fake::pid( 1), around.dm.ipc()};
            return tell( m);
         }
         if( op == "settle")
         {
            for( int k = 0; k < 3 && ! exited; ++k)
            {
               std::this_thread::sleep_for( std::chrono::milliseconds{ 3});
               fence();
            }
            return true;
         }
         throw std::runtime_error{ "no such op: " + op};
      }

      void boot( const tokens& t)
      {
         reset();
         flows.clear(); labels.clear(); used.clear(); lookups.clear(); looked.clear(); count.clear(); targets.clear();
         unknown = 0;
         around.start( "queue/bin/casual-queue-forward-group");
         configure( t);
         fence();
         emit( "boot", { t}, { true});
      }

      void emit( const char* event, const std::vector< tokens>& ws, const std::vector< bool>& oks)
      {
         std::vector< std::string> words, ok;
         for( auto& t : ws)
         {
            std::vector< std::string> quoted;
            for( auto& w : t) quoted.push_back( vf::quote( w));
            words.push_back( vf::array( quoted));
         }
         for( auto o : oks) ok.push_back( o ? "true" : "false");
         vf::emit( Json{}( "e", event).raw( "ws", vf::array( words)).raw( "oks", vf::array( ok))( "gone", exited)
            .raw( "state", "[" + ( exited ? std::string{} : state) + "]").raw( "out", vf::array( std::exchange( rows, {}))));
      }

      void operator() ( const std::vector< tokens>& script)
      {
         std::vector< tokens> words;
         std::vector< bool> oks;
         long left = 1;
         for( auto& t : script)
         {
            if( t[ 0] == "boot") { words.clear(); oks.clear(); left = 1; boot( t); continue;}
            if( t[ 0] == "race")
            {
               // the next two happen before any of them is noticed
               if( ! exited) { ::kill( around.pid.value(), SIGSTOP); stopped = true;}
               left = 2;
               continue;
            }
            oks.push_back( stimulate( t));
            words.push_back( t);
            if( --left > 0) continue;
            if( stopped && around.pid) ::kill( around.pid.value(), SIGCONT);
            stopped = false;
            fence();
            emit( "step", std::exchange( words, {}), std::exchange( oks, {}));
            left = 1;
         }
         around.stop();
      }
   };
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   return vf::main( argc, argv, []( const std::vector< tokens>& script){ Driver driver; driver( script);});
}
