//! Conformance driver of the transaction manager: the driver is domain manager, every resource (proxy instances, external),
//! every caller, and the transaction manager of another domain.
#include "fake.h"

#include "common/message/transaction.h"
#include "common/code/xa.h"
#include "common/code/tx.h"

#include <sys/prctl.h>

namespace
{
   using namespace casual;
   using namespace casual::common;
   using vf::Json;
   using vf::tokens;

   std::vector< long> numbers( const std::string& s)
   {
      std::vector< long> result;
      std::istringstream in{ s};
      std::string w;
      while( std::getline( in, w, ',')) if( w != "-") result.push_back( vf::number( w));
      return result;
   }

   const std::vector< code::xa> codes{ code::xa::rollback_unspecified, code::xa::rollback_communication, code::xa::rollback_deadlock, code::xa::rollback_other,
      code::xa::rollback_protocoll, code::xa::rollback_timeout, code::xa::rollback_transient, code::xa::rollback_integrity, code::xa::no_migrate,
      code::xa::heuristic_hazard, code::xa::heuristic_commit, code::xa::heuristic_rollback, code::xa::heuristic_mix, code::xa::retry, code::xa::read_only,
      code::xa::ok, code::xa::outstanding_async, code::xa::invalid_xid, code::xa::argument, code::xa::protocol, code::xa::resource_fail,
      code::xa::resource_error, code::xa::duplicate_xid, code::xa::outside};
   const std::vector< std::string> names{ "rollback_unspecified", "rollback_communication", "rollback_deadlock", "rollback_other",
      "rollback_protocoll", "rollback_timeout", "rollback_transient", "rollback_integrity", "no_migrate",
      "heuristic_hazard", "heuristic_commit", "heuristic_rollback", "heuristic_mix", "retry", "read_only",
      "ok", "outstanding_async", "invalid_xid", "argument", "protocol", "resource_fail",
      "resource_error", "duplicate_xid", "outside"};

   std::string text( code::xa code)
   {
      for( std::size_t k = 0; k < codes.size(); ++k) if( codes[ k] == code) return names[ k];
      return "?";
   }
   code::xa xa( const std::string& name)
   {
      for( std::size_t k = 0; k < codes.size(); ++k) if( names[ k] == name) return codes[ k];
      throw std::runtime_error( "no such code: " + name);
   }
   std::string text( code::tx code)
   {
      switch( code)
      {
         using tx = code::tx;
         case tx::ok: return "ok";
         case tx::hazard: return "hazard";
         case tx::mixed: return "mixed";
         case tx::no_begin: return "no_begin";
         case tx::protocol: return "protocol";
         case tx::fail: return "fail";
         case tx::argument: return "argument";
         case tx::outside: return "outside";
         case tx::rollback: return "rollback";
         default: return "other";
      }
   }

   struct Request
   {
      std::string k;
      long rm, t, b;
      bool one;
      long to;       // instance or external
      strong::correlation::id correlation;
      transaction::ID trid;
      strong::resource::id resource;
      process::Handle from;
   };

   struct Driver
   {
      vf::fake::Surroundings around;
      using complete_type = vf::Inbox::complete_type;
      using Type = message::Type;

      unsigned run = 0;
      struct Instance { strong::process::id pid; std::unique_ptr< vf::Inbox> inbox; long rm;};
      std::map< long, Instance> instances;
      struct Resource { process::Handle handle; std::unique_ptr< vf::Inbox> inbox;};
      std::map< long, Resource> externals;
      std::vector< long> known_externals;      // in the order they became known
      std::set< long> finished;                         // externals that were there
      std::map< long, std::unique_ptr< vf::Inbox>> callers;
      std::map< long, process::Handle> handles;
      std::map< strong::correlation::id, long> ids;
      std::map< long, strong::resource::id> resources;  // the id we had with a request of another manager
      std::vector< Request> requests;                   // not replied
      std::map< std::pair< long, long>, transaction::ID> trids;
      std::map< long, int> spawned;
      std::set< strong::process::id> children;
      std::set< strong::process::id> exits;
      std::vector< std::string> sent;
      bool fenced = false;
      complete_type answer;

      void out( std::vector< std::string> words)
      {
         for( auto& w : words) w = vf::quote( w);
         sent.push_back( vf::array( words));
      }
      strong::correlation::id correlation( long id)
      {
         auto result = strong::correlation::id{ vf::uuid( 4, id, run)};
         ids[ result] = id;
         return result;
      }
      std::string id( const strong::correlation::id& correlation)
      {
         auto found = ids.find( correlation);
         return found == ids.end() ? "?" : std::to_string( found->second);
      }
      process::Handle& caller( long c)
      {
         auto found = handles.find( c);
         if( found == handles.end())
         {
            callers[ c] = std::make_unique< vf::Inbox>();
            found = handles.emplace( c, process::Handle{ vf::fake::pid( 100 * int( run) + int( c)), callers[ c]->ipc()}).first;
         }
         return found->second;
      }
      //! who has a branch
      static long owner( long t, long b) { return b == 9 ? 0 : ( t + b) % 3 + 1;}

      bool known( long t, long b) { return b != 9 || trids.contains( { t, b});}
      const transaction::ID& trid( long t, long b)
      {
         auto found = trids.find( { t, b});
         if( found == trids.end())
            found = trids.emplace( std::pair{ t, b}, transaction::ID{ vf::uuid( 2, t, run), vf::uuid( 3, b, run), caller( owner( t, b))}).first;
         return found->second;
      }
      transaction::global::ID gtrid( long t) { return transaction::global::ID{ transaction::id::range::global( trid( t, 1))};}
      std::pair< std::string, std::string> find( const transaction::ID& value)
      {
         for( auto& [ tb, v] : trids) if( v == value) return { std::to_string( tb.first), std::to_string( tb.second)};
         return { "?", "?"};
      }
      template< typename G>
      std::string global( const G& value)
      {
         for( auto& [ tb, v] : trids) if( transaction::global::ID{ transaction::id::range::global( v)} == value) return std::to_string( tb.first);
         return "?";
      }

      std::vector< vf::Inbox*> inboxes()
      {
         std::vector< vf::Inbox*> result{ &around.dm, &around.discovery, &around.tm, &around.me};
         for( auto& [ c, inbox] : callers) if( inbox) result.push_back( inbox.get());
         for( auto& [ i, instance] : instances) result.push_back( instance.inbox.get());
         for( auto& [ i, external] : externals) result.push_back( external.inbox.get());
         return result;
      }
      long who( vf::Inbox& inbox)
      {
         for( auto& [ i, instance] : instances) if( instance.inbox.get() == &inbox) return i;
         for( auto& [ i, external] : externals) if( external.inbox.get() == &inbox) return i;
         return 0;
      }
      long rm( long to) { return to > 90 ? to : to / 10;}

      template< typename M>
      void request( vf::Inbox& inbox, complete_type& complete, const char* kind)
      {
         auto m = vf::as< M>( complete);
         auto to = who( inbox);
         auto [ t, b] = find( m.trid);
         auto one = flag::contains( m.flags, flag::xa::Flag::one_phase);
         // the resource the request is for
         auto wrong = to == 0 || ( to < 90 && m.resource.value() != rm( to));
         out( { "req", wrong ? "?" + std::to_string( to) : std::to_string( to), kind, t, b, one ? "one" : "-"});
         if( t != "?")
            requests.push_back( { kind, rm( to), vf::number( t), vf::number( b), one, to, m.correlation, m.trid, m.resource, m.process});
      }
      template< typename M>
      void xreply( vf::Inbox& inbox, complete_type& complete, const char* kind)
      {
         auto m = vf::as< M>( complete);
         auto n = id( m.correlation);
         if( n != "?" && ( ! resources.contains( vf::number( n)) || m.resource != resources[ vf::number( n)] || &inbox != &around.me)) n = "?" + n;
         out( { kind, n, text( m.state)});
      }
      std::string mine( vf::Inbox& inbox, const strong::correlation::id& correlation)
      {
         auto n = id( correlation);
         if( n == "?") return n;
         auto found = by.find( vf::number( n));
         return found != by.end() && callers[ found->second].get() == &inbox ? n : "?" + n;
      }
      std::map< long, long> by;

      bool consume( vf::Inbox& inbox, complete_type& complete)
      {
         switch( complete.type())
         {
            case Type::transaction_resource_proxy_ready:
            {
               // a proxy that has been started, it will be us that it is
               auto m = vf::as< message::transaction::resource::Ready>( complete);
               auto i = m.id.value() * 10 + ++spawned[ m.id.value()];
               auto& instance = instances[ i];
               instance.pid = m.process.pid;
               instance.rm = m.id.value();
               instance.inbox = std::make_unique< vf::Inbox>();
               children.insert( m.process.pid);
               message::transaction::resource::Ready ready{ process::Handle{ instance.pid, instance.inbox->ipc()}};
               ready.id = m.id;
               vf::try_send( tm(), ready);
               return true;
            }
            case Type::transaction_resource_prepare_request: request< message::transaction::resource::prepare::Request>( inbox, complete, "prepare"); return true;
            case Type::transaction_resource_commit_request: request< message::transaction::resource::commit::Request>( inbox, complete, "commit"); return true;
            case Type::transaction_resource_rollback_request: request< message::transaction::resource::rollback::Request>( inbox, complete, "rollback"); return true;
            case Type::transaction_resource_prepare_reply: xreply< message::transaction::resource::prepare::Reply>( inbox, complete, "xprepare"); return true;
            case Type::transaction_resource_commit_reply: xreply< message::transaction::resource::commit::Reply>( inbox, complete, "xcommit"); return true;
            case Type::transaction_resource_rollback_reply: xreply< message::transaction::resource::rollback::Reply>( inbox, complete, "xrollback"); return true;
            case Type::transaction_commit_reply:
            {
               auto m = vf::as< message::transaction::commit::Reply>( complete);
               out( { "commit", mine( inbox, m.correlation), text( m.state), std::string{ description( m.stage)}});
               return true;
            }
            case Type::transaction_rollback_reply:
            {
               auto m = vf::as< message::transaction::rollback::Reply>( complete);
               out( { "rollback", mine( inbox, m.correlation), text( m.state)});
               return true;
            }
            case Type::transaction_resource_involved_reply:
            {
               auto m = vf::as< message::transaction::resource::involved::Reply>( complete);
               std::set< long> rs;
               // externals have negative ids, in the order they become known
               for( auto r : m.involved)
               {
                  auto at = -r.value() - 1;
                  rs.insert( r.value() >= 0 ? r.value() : at < static_cast< long>( known_externals.size()) ? known_externals[ at] : 1000 + at);
               }
               std::string csv;
               for( auto r : rs) csv += ( csv.empty() ? "" : ",") + std::to_string( r);
               out( { "involved", mine( inbox, m.correlation), csv});
               return true;
            }
            case Type::transaction_inbound_branch_reply:
            {
               auto m = vf::as< message::transaction::inbound::branch::Reply>( complete);
               auto n = id( m.correlation);
               if( n == "?") { out( { "branch", "?", "?"}); return true;}
               auto t = vf::number( n) - 100000;
               auto [ ft, fb] = find( m.trid);
               if( ft == "?" && transaction::global::ID{ transaction::id::range::global( m.trid)} == gtrid( t))
               {
                  trids.insert_or_assign( { t, 9}, m.trid);
                  ft = std::to_string( t); fb = "9";
               }
               out( { "branch", ft, fb});
               return true;
            }
            case Type::transaction_active_reply:
            {
               auto m = vf::as< message::transaction::active::Reply>( complete);
               std::string csv;
               std::set< long> ts;
               for( auto& g : m.gtrids) if( auto t = global( g); t != "?") ts.insert( vf::number( t));
               for( auto t : ts) csv += ( csv.empty() ? "" : ",") + std::to_string( t);
               if( ts.size() != m.gtrids.size()) csv += "?";
               out( { "active", id( m.correlation), csv});
               return true;
            }
            case Type::event_transaction_disassociate:
            {
               auto m = vf::as< message::event::transaction::Disassociate>( complete);
               out( { "disassociate", global( m.gtrid)});
               return true;
            }
            case Type::event_process_exit:
            {
               // as domain manager does: everybody gets to know
               auto m = vf::as< message::event::process::Exit>( complete);
               exits.insert( m.state.pid);
               vf::try_send( tm(), m);
               return true;
            }
            case Type::event_error:
            case Type::event_notification:
            case Type::service_advertise:
               return true;
            case Type::configuration_reply:
               fenced = true;
               answer = std::move( complete);
               return true;
            default:
               return around.serve( complete);
         }
      }

      strong::ipc::id tm() { return around.handle.ipc ? around.handle.ipc : early;}
      strong::ipc::id early;

      [[noreturn]] void silent( const std::string& what)
      {
         int status{};
         auto gone = around.gone( &status);
         vf::emit( Json{}( "e", "timeout")( "what", what)( "gone", gone)( "status", status));
         throw vf::Timeout{};
      }

      void drain()
      {
         auto all = inboxes();
         around.drain( all, [ &]( auto& inbox, auto& complete)
         {
            auto type = complete.type();
            if( ! consume( inbox, complete))
            {
               vf::emit( Json{}( "e", "unexpected")( "type", long( type)));
               throw vf::Timeout{};
            }
         });
      }

      template< typename F>
      void until( const std::string& what, F&& done)
      {
         auto end = vf::clock::now() + std::chrono::seconds{ 8};
         while( true)
         {
            auto ready = done();
            drain();
            if( ready) return;
            if( vf::clock::now() > end) silent( what);
            if( ! done()) around.wait( inboxes(), 100);
         }
      }

      process::Handle me() { return { vf::fake::pid( 9), around.me.ipc()};}
      template< typename M>
      bool send( M&& message) { return vf::try_send( tm(), message);}

      void fence()
      {
         // what the manager sends to it self can take a few turns: prepare, rollback, and the answer
         for( long k = 4; k > 0; --k)
         {
            auto before = sent.size();
            fenced = false;
            configuration::message::Request request{ me()};
            if( ! send( request)) silent( "fence");
            until( "fence", [ &]{ return fenced;});
            if( sent.size() > before + 4) k = std::max( k, 4l);
         }
      }

      void finish( Json& json)
      {
         json.raw( "out", vf::array( sent));
         sent.clear();
         vf::emit( json);
      }

      // --- operations

      void boot( const tokens& t)
      {
         // boot rm:instances ...
         stop();
         ++run;
         around.model = {};
         std::size_t count = 0;
         for( std::size_t k = 1; k < t.size(); ++k)
         {
            auto at = t[ k].find( ':');
            auto n = vf::number( t[ k].substr( 0, at));
            configuration::model::transaction::Resource resource;
            resource.key = "k" + std::to_string( n);
            resource.name = "rm" + std::to_string( n);
            resource.instances = vf::number( t[ k].substr( at + 1));
            count += resource.instances;
            around.model.transaction.resources.push_back( resource);
            configuration::model::system::Resource system;
            system.key = resource.key;
            system.server = std::filesystem::read_symlink( "/proc/self/exe").string();
            around.model.system.resources.push_back( system);
         }
         around.model.transaction.log = ":memory:";
         environment::variable::set( environment::variable::name::ipc::service::manager, process::Handle{ vf::fake::pid( 3), around.tm.ipc()});
         environment::variable::set( "VF_ME", uuid::string( around.me.ipc().value()));
         around.also = [ this]( vf::Inbox& inbox, complete_type& complete)
         {
            // where the manager is, before it has told
            if( complete.type() == Type::configuration_request)
            {
               auto request = vf::as< configuration::message::Request>( complete);
               early = request.process.ipc;
               auto reply = message::reverse::type( request);
               reply.model = around.model;
               vf::try_send( early, reply);
               return true;
            }
            if( complete.type() == Type::configuration_stakeholder_registration_request || complete.type() == Type::domain_process_connect_request) return false;
            return consume( inbox, complete);
         };
         around.start( "transaction/bin/casual-transaction-manager");
         if( instances.size() != count) silent( "boot");
         fence();
         sent.clear();
         std::vector< long> is;
         for( auto& [ i, instance] : instances) is.push_back( i);
         Json json;
         json( "e", "boot").raw( "inst", vf::numbers( is));
         finish( json);
      }

      void stop()
      {
         if( around.pid) around.stop();
         for( auto child : children) ::kill( child.value(), SIGKILL);
         children.clear(); exits.clear(); spawned.clear();
         instances.clear(); externals.clear(); known_externals.clear(); finished.clear(); callers.clear(); handles.clear(); ids.clear(); requests.clear(); trids.clear(); by.clear();
         resources.clear(); sent.clear();
         around.handle = {}; early = {};
         fenced = false;
      }

      template< typename R>
      void reply( const Request& request, const std::string& code, const process::Handle& from)
      {
         R reply;
         reply.process = from;
         reply.correlation = request.correlation;
         reply.trid = request.trid;
         reply.resource = request.resource;
         reply.state = xa( code);
         reply.statistics.start = reply.statistics.end = vf::clock::now();
         send( reply);
      }

      bool fill( Json& json, const Request& request)
      {
         json( "i", request.to)( "k", request.k)( "rm", request.rm)( "t", request.t)( "b", request.b)( "one", request.one);
         return true;
      }
      void known_external( long x)
      {
         if( std::find( known_externals.begin(), known_externals.end(), x) == known_externals.end())
            known_externals.push_back( x);
      }
      std::vector< Request>::iterator outstanding( const tokens& t)
      {
         return std::find_if( requests.begin(), requests.end(), [ &]( auto& r)
         {
            return r.k == t[ 1] && r.rm == vf::number( t[ 2]) && r.t == vf::number( t[ 3]) && r.b == vf::number( t[ 4]);
         });
      }

      void die( long i)
      {
         auto& instance = instances.at( i);
         auto pid = instance.pid;
         std::erase_if( requests, [ i]( auto& r){ return r.to == i;});
         instances.erase( i);
         children.erase( pid);
         ::kill( pid.value(), SIGKILL);
         until( "exit", [ &]{ return exits.contains( pid);});
      }

      void step( const tokens& t)
      {
         auto& c = t[ 0];
         if( c == "boot") { boot( t); return;}
         Json json;
         json( "e", c);
         auto n = [ &]( int k){ return vf::number( t[ k]);};
         if( c == "involve")
         {
            // involve id t b rs reply
            if( ! known( n( 2), n( 3))) return;
            auto own = owner( n( 2), n( 3));
            message::transaction::resource::involved::Request request{ caller( std::max( own, 1l))};
            request.correlation = correlation( n( 1));
            request.trid = trid( n( 2), n( 3));
            for( auto r : numbers( t[ 4])) request.involved.emplace_back( r);
            request.reply = t[ 5] == "1";
            by[ n( 1)] = std::max( own, 1l);
            send( request);
            json( "id", n( 1))( "t", n( 2))( "b", n( 3))( "own", own).raw( "rs", vf::numbers( numbers( t[ 4])))( "reply", request.reply);
         }
         else if( c == "commit" || c == "rollback")
         {
            // commit id t b rs
            if( ! known( n( 2), n( 3))) return;
            auto own = owner( n( 2), n( 3));
            by[ n( 1)] = std::max( own, 1l);
            auto fill = [ &]( auto request)
            {
               request.process = caller( std::max( own, 1l));
               request.correlation = correlation( n( 1));
               request.trid = trid( n( 2), n( 3));
               for( auto r : numbers( t[ 4])) request.involved.emplace_back( r);
               send( request);
            };
            if( c == "commit") fill( message::transaction::commit::Request{}); else fill( message::transaction::rollback::Request{});
            json( "id", n( 1))( "t", n( 2))( "b", n( 3))( "own", own).raw( "rs", vf::numbers( numbers( t[ 4])));
         }
         else if( c == "xprepare" || c == "xcommit" || c == "xrollback")
         {
            // xprepare id t one
            auto fill = [ &]( auto request)
            {
               request.process = me();
               request.correlation = correlation( n( 1));
               request.trid = transaction::ID{ vf::uuid( 2, n( 2), run), vf::uuid( 3, 77, run), me()};
               request.resource = strong::resource::id{ n( 1) % 5 + 1};
               resources[ n( 1)] = request.resource;
               if( t[ 3] == "1") request.flags = flag::xa::Flag::one_phase;
               send( request);
            };
            if( c == "xprepare") fill( message::transaction::resource::prepare::Request{});
            else if( c == "xcommit") fill( message::transaction::resource::commit::Request{});
            else fill( message::transaction::resource::rollback::Request{});
            json( "id", n( 1))( "t", n( 2));
         }
         else if( c == "reply")
         {
            // reply kind rm t b code
            auto found = outstanding( t);
            if( found == requests.end()) return;
            auto request = *found;
            requests.erase( found);
            auto from = request.to > 90 ? externals.at( request.to).handle : process::Handle{ instances.at( request.to).pid, instances.at( request.to).inbox->ipc()};
            if( request.k == "prepare") reply< message::transaction::resource::prepare::Reply>( request, t[ 5], from);
            else if( request.k == "commit") reply< message::transaction::resource::commit::Reply>( request, t[ 5], from);
            else reply< message::transaction::resource::rollback::Reply>( request, t[ 5], from);
            fill( json, request);
            json( "code", t[ 5]);
         }
         else if( c == "die")
         {
            // die kind rm t b: the instance that has this
            auto found = outstanding( t);
            if( found == requests.end() || found->to > 90) return;
            json( "i", found->to);
            die( found->to);
         }
         else if( c == "idle")
         {
            // idle rm: an instance that has nothing to do dies
            long i = 0;
            for( auto& [ k, instance] : instances)
               if( instance.rm == n( 1) && std::none_of( requests.begin(), requests.end(), [ k = k]( auto& r){ return r.to == k;})) i = k;
            if( ! i) return;
            Json j;
            j( "e", "die")( "i", i);
            json = j;
            die( i);
         }
         else if( c == "xreg" || c == "xinvolve")
         {
            // xreg x; xinvolve x t b
            auto x = n( 1);
            if( finished.contains( x)) return;
            auto& external = externals[ x];
            if( ! external.inbox)
            {
               external.inbox = std::make_unique< vf::Inbox>();
               external.handle = process::Handle{ vf::fake::pid( 100 * int( run) + int( x)), external.inbox->ipc()};
            }
            json( "x", x);
            if( c == "xreg")
            {
               message::transaction::resource::external::Instance message{ external.handle};
               message.alias = "x" + t[ 1];
               send( message);
               known_external( x);
            }
            else
            {
               if( ! known( n( 2), n( 3))) return;
               message::transaction::resource::external::Involved message;
               message.process = external.handle;
               message.trid = trid( n( 2), n( 3));
               send( message);
               known_external( x);
               json( "t", n( 2))( "b", n( 3))( "own", owner( n( 2), n( 3)));
            }
         }
         else if( c == "xgone")
         {
            // xgone x how
            auto x = n( 1);
            if( ! externals.contains( x)) return;
            auto handle = externals[ x].handle;
            std::erase_if( requests, [ x]( auto& r){ return r.to == x;});
            externals.erase( x);
            finished.insert( x);
            if( t[ 2] == "1")
            {
               message::event::process::Exit event;
               event.state.pid = handle.pid;
               event.state.reason = decltype( event.state.reason)::core;
               send( event);
            }
            else
            {
               message::event::ipc::Destroyed event{ handle};
               send( event);
            }
            json( "x", x);
         }
         else if( c == "owner")
         {
            // owner c: the process is gone
            auto who = n( 1);
            message::event::process::Exit event;
            event.state.pid = caller( who).pid;
            event.state.reason = decltype( event.state.reason)::core;
            send( event);
            json( "c", who);
         }
         else if( c == "inbound")
         {
            message::transaction::inbound::branch::Request request{ me()};
            request.correlation = correlation( 100000 + n( 1));
            request.gtrid = gtrid( n( 1));
            send( request);
            json( "t", n( 1));
         }
         else if( c == "active")
         {
            message::transaction::active::Request request{ me()};
            request.correlation = correlation( n( 1));
            for( auto x : numbers( t[ 2])) request.gtrids.push_back( gtrid( x));
            send( request);
            json( "id", n( 1)).raw( "ts", vf::numbers( numbers( t[ 2])));
         }
         else if( c == "settle")
         {
            std::this_thread::sleep_for( std::chrono::milliseconds{ 15});
            fence();
            std::this_thread::sleep_for( std::chrono::milliseconds{ 5});
         }
         else
            throw std::runtime_error( "unknown operation: " + c);
         fence();
         finish( json);
      }
   };

   //! an instance of a resource proxy, all it does is to live
   int proxy( int argc, char** argv)
   {
      ::prctl( PR_SET_PDEATHSIG, SIGKILL);
      message::transaction::resource::Ready ready;
      ready.process = process::handle();
      ready.id = strong::resource::id{ std::atol( argv[ 2])};
      vf::try_send( strong::ipc::id{ Uuid{ *environment::variable::get( "VF_ME")}}, ready);
      while( true) ::pause();
      return 0;
   }
}

int main( int argc, char** argv)
{
   if( argc >= 3 && std::string_view{ argv[ 1]} == "--id")
      return proxy( argc, argv);
   vf::fake::isolate( argv);
   return vf::main( argc, argv, []( const std::vector< tokens>& script)
   {
      Driver driver;
      try
      {
         for( auto& line : script)
            driver.step( line);
      }
      catch( ...)
      {
         driver.stop();
         throw;
      }
      driver.stop();
   });
}
