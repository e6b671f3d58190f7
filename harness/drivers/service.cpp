//! Conformance driver of the service manager: the driver is domain manager, discovery, transaction manager, every server
//! and every caller.
#include "fake.h"

#include "common/message/service.h"
#include "common/transaction/id.h"
#include "service/forward/instance.h"

namespace
{
   using namespace casual;
   using namespace casual::common;
   using vf::Json;
   using vf::tokens;

   std::vector< long> numbers( const std::string& s)
   {
      std::vector< long> result;
      std::istringstream in{ s};
      std::string w;
      while( std::getline( in, w, ',')) if( w != "-") result.push_back( vf::number( w));
      return result;
   }
   std::vector< std::string> split( const std::string& s, char by)
   {
      std::vector< std::string> result;
      std::istringstream in{ s};
      std::string w;
      while( std::getline( in, w, by)) result.push_back( w);
      return result;
   }

   std::string name( long n) { return "s" + std::to_string( n);}
   std::string number( const std::string& name) { return name.empty() ? "" : name.substr( 0, 1) == "s" ? name.substr( 1) : name;}

   struct Driver
   {
      vf::fake::Surroundings around;
      using complete_type = vf::Inbox::complete_type;

      unsigned run = 0;
      int pids = 100;
      std::map< long, process::Handle> instances;                       // living
      std::map< long, std::unique_ptr< vf::Inbox>> callers;
      std::set< long> gone;
      std::map< strong::correlation::id, long> ids;
      std::map< long, long> reserved;                                   // lookup -> instance it got
      std::map< long, long> past;                                       // pid -> instance, also when it is gone
      std::map< long, long> by;                                         // lookup -> caller
      std::map< long, int> asked;
      std::map< long, transaction::ID> trids;
      long last = 0;

      std::vector< std::string> sent;
      std::vector< std::string> rem;

      static std::string row( std::vector< std::string> words)
      {
         for( auto& w : words) w = vf::quote( w);
         return vf::array( words);
      }
      void out( std::vector< std::string> words) { sent.push_back( row( std::move( words)));}

      strong::correlation::id correlation( long id)
      {
         auto result = strong::correlation::id{ vf::uuid( 4, id, run)};
         ids[ result] = id;
         return result;
      }
      std::string id( const strong::correlation::id& correlation)
      {
         auto found = ids.find( correlation);
         return found == ids.end() ? "?" : std::to_string( found->second);
      }
      const transaction::ID& trid( long t)
      {
         static const transaction::ID null{};
         if( t == 0) return null;
         auto found = trids.find( t);
         if( found == trids.end())
            found = trids.emplace( t, transaction::ID{ vf::uuid( 2, t, run), vf::uuid( 3, t, run), process::Handle{ vf::fake::pid( 9), around.me.ipc()}}).first;
         return found->second;
      }
      std::string trid( const transaction::ID& value)
      {
         for( auto& [ t, v] : trids) if( v == value) return std::to_string( t);
         return "?";
      }
      transaction::global::ID gtrid( long g)
      {
         if( g == 0) return {};
         return transaction::global::ID{ transaction::id::range::global( trid( 1000 + g))};
      }
      long instance( const process::Handle& handle)
      {
         for( auto& [ i, h] : instances) if( h == handle) return i;
         if( auto found = around.singletons.find( casual::service::forward::instance::identity.id); found != around.singletons.end() && found->second == handle)
            return 0;
         return -1;
      }
      long instance( strong::process::id pid)
      {
         for( auto& [ i, h] : instances) if( h.pid == pid) return i;
         return -1;
      }
      process::Handle& enter( long i)
      {
         auto found = instances.find( i);
         if( found == instances.end())
            {
            found = instances.emplace( i, process::Handle{ vf::fake::pid( ++pids), vf::fake::ipc()}).first;
            past[ found->second.pid.value()] = i;
         }
         return found->second;
      }
      vf::Inbox& caller( long c)
      {
         auto& result = callers[ c];
         if( ! result) result = std::make_unique< vf::Inbox>();
         return *result;
      }

      std::vector< vf::Inbox*> inboxes()
      {
         std::vector< vf::Inbox*> result{ &around.dm, &around.discovery, &around.tm, &around.me};
         for( auto& [ c, inbox] : callers) if( inbox) result.push_back( inbox.get());
         return result;
      }

      [[noreturn]] void unexpected( const std::string& what, complete_type& complete)
      {
         vf::emit( Json{}( "e", "unexpected")( "what", what)( "type", long( complete.type())));
         throw vf::Timeout{};
      }

      bool fenced = false;

      void consume( vf::Inbox& inbox, complete_type& complete)
      {
         using Type = message::Type;
         switch( complete.type())
         {
            case Type::service_name_lookup_reply:
            {
               auto m = vf::as< message::service::lookup::Reply>( complete);
               auto state = std::string{ description( m.state)};
               auto n = id( m.correlation);
               auto idle = m.state == decltype( m.state)::idle;
               auto i = idle ? instance( m.process) : 0;
               // an answer that ends up at someone else
               if( auto found = ids.find( m.correlation); found == ids.end() || ! by.contains( found->second) || ! callers[ by[ found->second]]
                  || callers[ by[ found->second]].get() != &inbox)
                  n = "?" + n;
               else if( idle)
                  reserved[ found->second] = i;
               out( { "lookup", n, state, std::to_string( i), number( m.service.name), m.service.requested ? number( *m.service.requested) : "0"});
               if( m.deadline.remaining)
               {
                  auto floor = std::chrono::floor< std::chrono::milliseconds>( *m.deadline.remaining).count();
                  auto ceil = std::chrono::ceil< std::chrono::milliseconds>( *m.deadline.remaining).count();
                  rem.push_back( Json{}.raw( "id", n.front() == '?' ? "0" : n).raw( "r", vf::numbers( std::vector< long>{ long( floor), long( ceil)})).str());
               }
               return;
            }
            case Type::service_name_lookup_discard_reply:
            {
               auto m = vf::as< message::service::lookup::discard::Reply>( complete);
               out( { "discard", id( m.correlation), m.state == decltype( m.state)::discarded ? "discarded" : m.state == decltype( m.state)::replied ? "replied" : "absent"});
               return;
            }
            case Type::service_reply:
            {
               auto m = vf::as< message::service::call::Reply>( complete);
               out( { "error", id( m.correlation), m.code.result == code::xatmi::timeout ? "timeout" : m.code.result == code::xatmi::service_error ? "service_error" : "other"});
               return;
            }
            case Type::event_process_assassination_contract:
            {
               auto m = vf::as< message::event::process::Assassination>( complete);
               out( { "kill", std::to_string( instance( m.target)), std::string{ description( m.contract)}});
               return;
            }
            case Type::domain_process_prepare_shutdown_reply:
            {
               auto m = vf::as< message::domain::process::prepare::shutdown::Reply>( complete);
               std::set< long> is;
               for( auto& p : m.processes) is.insert( instance( p) == -1 && past.contains( p.pid.value()) ? past[ p.pid.value()] : instance( p));
               std::string text;
               for( auto i : is) text += std::to_string( i) + ",";
               if( is.size() != m.processes.size()) text += "duplicates";
               out( { "prep", id( m.correlation), text});
               return;
            }
            case Type::transaction_rollback_request:
            {
               auto m = vf::as< message::transaction::rollback::Request>( complete);
               out( { "rollback", trid( m.trid)});
               auto reply = message::reverse::type( m);
               reply.trid = m.trid;
               vf::try_send( m.process.ipc, reply);
               return;
            }
            case Type::domain_discovery_api_request:
            {
               auto m = vf::as< casual::domain::message::discovery::api::Request>( complete);
               auto n = id( m.correlation);
               if( n != "?") ++asked[ std::stol( n)];
               std::string names;
               for( auto& s : m.content.services) names += ( names.empty() ? "" : ",") + number( s);
               out( { "discover", n, names});
               return;
            }
            case Type::domain_discovery_lookup_reply:
            case Type::domain_discovery_fetch_known_reply:
            case Type::configuration_reply:
               fenced = true;
               answer = std::move( complete);
               return;
            default:
               if( around.serve( complete)) return;
               unexpected( "consume", complete);
         }
      }
      complete_type answer;

      [[noreturn]] void silent( const std::string& what)
      {
         int status{};
         auto gone = around.gone( &status);
         vf::emit( Json{}( "e", "timeout")( "what", what)( "gone", gone)( "status", status));
         throw vf::Timeout{};
      }

      void until( const std::string& what)
      {
         auto end = vf::clock::now() + std::chrono::seconds{ 8};
         auto all = inboxes();
         while( true)
         {
            auto done = fenced;
            around.drain( all, [ &]( auto& inbox, auto& complete){ consume( inbox, complete);});
            if( done) break;
            if( vf::clock::now() > end) silent( what);
            if( ! fenced) around.wait( all, 100);
         }
         fenced = false;
      }

      template< typename M>
      bool send( M&& message) { return vf::try_send( around.handle.ipc, message);}

      process::Handle me() { return { vf::fake::pid( 9), around.me.ipc()};}

      void fence()
      {
         // much to send does not fit in the sockets at once: until nothing more comes
         // a lookup of a caller that is gone is taken care of in several steps
         long rounds = 1;
         if( ! gone.empty())
         {
            rounds = 4;
            for( auto& [ lookup, c] : by) if( gone.contains( c)) ++rounds;
         }
         for( long k = rounds; k > 0; --k)
         {
            auto before = sent.size();
            configuration::message::Request request{ me()};
            if( ! send( request)) silent( "fence");
            until( "fence");
            if( sent.size() > before + 4) k = std::max( k, 5l);
         }
      }

      long floor() { return vf::floor_ms( vf::clock::now());}
      long ceil() { return vf::ceil_ms( vf::clock::now());}

      void finish( Json& json, long t0)
      {
         json( "t0", t0)( "t1", ceil());
         json.raw( "out", vf::array( sent)).raw( "rem", vf::array( rem));
         sent.clear(); rem.clear();
         vf::emit( json);
      }

      // --- operations

      void boot( const tokens& t)
      {
         // boot dur contract [svc:n:dur:contract:vis:routes] [restrict:i:ns]
         stop();
         ++run;
         around.model = {};
         auto& model = around.model.service;
         auto contract = []( const std::string& c) -> std::optional< common::service::execution::timeout::contract::Type>
         {
            using Type = common::service::execution::timeout::contract::Type;
            for( auto type : { Type::linger, Type::interrupt, Type::kill, Type::abort})
               if( description( type) == c) return type;
            return {};
         };
         auto duration = []( const std::string& d) -> std::optional< platform::time::unit>
         {
            if( d == "0") return {};
            return std::chrono::milliseconds{ vf::number( d)};
         };
         model.global.timeout.duration = duration( t[ 1]);
         model.global.timeout.contract = contract( t[ 2]);
         std::vector< std::string> services, restrictions;
         for( std::size_t k = 3; k < t.size(); ++k)
         {
            auto w = split( t[ k], ':');
            if( w[ 0] == "svc")
            {
               decltype( model.services)::value_type service;
               service.name = name( vf::number( w[ 1]));
               service.timeout.duration = duration( w[ 2]);
               service.timeout.contract = contract( w[ 3]);
               if( w[ 4] == "discoverable") service.visibility = common::service::visibility::Type::discoverable;
               if( w[ 4] == "undiscoverable") service.visibility = common::service::visibility::Type::undiscoverable;
               for( auto r : numbers( w[ 5])) service.routes.push_back( name( r));
               services.push_back( Json{}( "n", vf::number( w[ 1]))( "dur", vf::number( w[ 2]))( "contract", w[ 3] == "-" ? "" : w[ 3])( "vis", w[ 4] == "-" ? "" : w[ 4])
                  .raw( "routes", vf::numbers( numbers( w[ 5]))).str());
               model.services.push_back( std::move( service));
            }
            else
            {
               configuration::model::service::restriction::Server server;
               server.alias = "a" + w[ 1];
               for( auto n : numbers( w[ 2])) server.services.push_back( name( n));
               restrictions.push_back( Json{}( "i", vf::number( w[ 1])).raw( "ns", vf::numbers( numbers( w[ 2]))).str());
               model.restriction.servers.push_back( std::move( server));
            }
         }
         auto t0 = floor();
         around.start( "service/bin/casual-service-manager");
         Json json;
         json( "e", "boot")( "dur", vf::number( t[ 1]))( "contract", t[ 2] == "-" ? "" : t[ 2]).raw( "svcs", vf::array( services)).raw( "restrict", vf::array( restrictions));
         finish( json, t0);
      }

      void stop()
      {
         if( around.pid) around.stop();
         instances.clear(); callers.clear(); gone.clear(); ids.clear(); reserved.clear(); by.clear(); asked.clear(); trids.clear();
         sent.clear(); rem.clear();
         fenced = false;
      }

      void step( const tokens& t)
      {
         auto& c = t[ 0];
         if( c == "boot") { boot( t); return;}
         auto t0 = floor();
         Json json;
         json( "e", c);
         if( c == "lookup")
         {
            // lookup id nm sem req g c dead
            auto id = vf::number( t[ 1]), g = vf::number( t[ 5]), cl = vf::number( t[ 6]), dead = vf::number( t[ 7]);
            if( gone.contains( cl)) return;
            by[ id] = cl;
            message::service::lookup::Request request{ process::Handle{ vf::fake::pid( 20 + int( cl)), caller( cl).ipc()}};
            request.correlation = correlation( id);
            request.requested = name( vf::number( t[ 2]));
            using Semantic = decltype( request.context.semantic);
            using Requester = decltype( request.context.requester);
            request.context.semantic = t[ 3] == "no_reply" ? Semantic::no_reply : t[ 3] == "wait" ? Semantic::wait : t[ 3] == "forward" ? Semantic::forward_request : Semantic::regular;
            request.context.requester = t[ 4] == "external" ? Requester::external : t[ 4] == "external_discovery" ? Requester::external_discovery : Requester::internal;
            request.gtrid = gtrid( g);
            if( dead) request.deadline = vf::clock::now() + std::chrono::milliseconds{ dead};
            send( request);
            json( "id", id)( "nm", vf::number( t[ 2]))( "sem", t[ 3])( "req", t[ 4])( "g", g)( "c", cl)( "dead", dead);
         }
         else if( c == "ack")
         {
            // ack lookup trid
            auto id = vf::number( t[ 1]);
            auto found = reserved.find( id);
            if( found == reserved.end() || found->second <= 0 || ! instances.contains( found->second)) return;
            auto i = found->second;
            message::service::call::ACK ack;
            ack.correlation = correlation( id);
            ack.metric.process = instances[ i];
            ack.metric.service = "whatever";
            ack.metric.trid = trid( vf::number( t[ 2]));
            ack.metric.start = ack.metric.end = vf::clock::now();
            reserved.erase( found);
            send( ack);
            json( "i", i)( "id", id)( "trid", vf::number( t[ 2]));
         }
         else if( c == "discard")
         {
            // discard lookup reply
            auto id = vf::number( t[ 1]);
            auto cl = by.contains( id) ? by[ id] : 0;
            if( cl && gone.contains( cl)) return;
            message::service::lookup::discard::Request request{ process::Handle{ vf::fake::pid( 20 + int( cl)), cl ? caller( cl).ipc() : around.me.ipc()}};
            request.correlation = correlation( id);
            request.reply = t[ 2] == "1";
            reserved.erase( id);
            send( request);
            json( "id", id)( "reply", request.reply);
         }
         else if( c == "die" || c == "exit")
         {
            // die lookup: the instance that has it; exit i
            long i = 0;
            if( c == "die")
            {
               auto found = reserved.find( vf::number( t[ 1]));
               if( found == reserved.end() || found->second <= 0) return;
               i = found->second;
            }
            else i = vf::number( t[ 1]);
            if( ! instances.contains( i)) return;
            std::erase_if( reserved, [ i]( auto& pair){ return pair.second == i;});
            message::event::process::Exit event;
            event.state.pid = instances[ i].pid;
            event.state.reason = decltype( event.state.reason)::core;
            send( event);
            Json j;
            j( "e", "die")( "i", i);
            json = j;
            fence();
            instances.erase( i);
         }
         else if( c == "adv")
         {
            // adv i add del
            auto i = vf::number( t[ 1]);
            auto add = numbers( t[ 2]), del = numbers( t[ 3]);
            message::service::Advertise advertise{ enter( i)};
            advertise.alias = "a" + t[ 1];
            for( auto n : add)
            {
               message::service::advertise::Service service;
               service.name = name( n);
               service.visibility = n == 4 ? common::service::visibility::Type::undiscoverable : common::service::visibility::Type::discoverable;
               advertise.services.add.push_back( std::move( service));
            }
            for( auto n : del) advertise.services.remove.push_back( name( n));
            send( advertise);
            json( "i", i).raw( "add", vf::numbers( add)).raw( "del", vf::numbers( del));
         }
         else if( c == "clear")
         {
            auto i = vf::number( t[ 1]);
            if( ! instances.contains( i)) return;
            message::service::Advertise advertise{ enter( i)};
            advertise.alias = "a" + t[ 1];
            send( advertise);
            json( "i", i);
         }
         else if( c == "cadv")
         {
            // cadv i order n:h,n:h del
            auto i = vf::number( t[ 1]), order = vf::number( t[ 2]);
            message::service::concurrent::Advertise advertise{ enter( i)};
            advertise.alias = "a" + t[ 1];
            advertise.order = order;
            std::vector< std::string> add;
            for( auto& w : t[ 3] == "-" ? std::vector< std::string>{} : split( t[ 3], ','))
            {
               auto p = split( w, ':');
               message::service::concurrent::advertise::Service service;
               service.name = name( vf::number( p[ 0]));
               service.property.hops = vf::number( p[ 1]);
               service.visibility = vf::number( p[ 0]) == 4 ? common::service::visibility::Type::undiscoverable : common::service::visibility::Type::discoverable;
               advertise.services.add.push_back( std::move( service));
               add.push_back( Json{}( "n", vf::number( p[ 0]))( "hops", vf::number( p[ 1])).str());
            }
            auto del = numbers( t[ 4]);
            for( auto n : del) advertise.services.remove.push_back( name( n));
            send( advertise);
            json( "i", i)( "order", order).raw( "add", vf::array( add)).raw( "del", vf::numbers( del));
         }
         else if( c == "corder" || c == "creset")
         {
            auto i = vf::number( t[ 1]);
            if( ! instances.contains( i)) return;
            message::service::concurrent::Advertise advertise{ enter( i)};
            advertise.alias = "a" + t[ 1];
            using Directive = decltype( advertise.directive);
            advertise.directive = c == "corder" ? Directive::instance : Directive::reset;
            if( c == "corder")
            {
               advertise.order = vf::number( t[ 2]);
               json( "order", vf::number( t[ 2]));
            }
            send( advertise);
            json( "i", i);
         }
         else if( c == "prep")
         {
            // prep n is
            auto n = vf::number( t[ 1]);
            auto is = numbers( t[ 2]);
            message::domain::process::prepare::shutdown::Request request{ process::Handle{ vf::fake::pid( 1), around.dm.ipc()}};
            request.correlation = correlation( n);
            for( auto i : is) request.processes.push_back( enter( i));
            send( request);
            json( "n", n).raw( "is", vf::numbers( is));
         }
         else if( c == "disassociate")
         {
            message::event::transaction::Disassociate event{ process::Handle{ vf::fake::pid( 3), around.tm.ipc()}};
            event.gtrid = gtrid( vf::number( t[ 1]));
            send( event);
            json( "g", vf::number( t[ 1]));
         }
         else if( c == "dreply")
         {
            auto id = vf::number( t[ 1]);
            if( asked[ id] == 0) return;
            --asked[ id];
            casual::domain::message::discovery::api::Reply reply;
            reply.correlation = correlation( id);
            send( reply);
            json( "id", id);
         }
         else if( c == "callergone")
         {
            auto cl = vf::number( t[ 1]);
            if( gone.contains( cl)) return;
            gone.insert( cl);
            callers.erase( cl);
            json( "c", cl);
         }
         else if( c == "sleep")
         {
            std::this_thread::sleep_for( std::chrono::milliseconds{ vf::number( t[ 1])});
            t0 = floor();
         }
         else if( c == "visible")
         {
            // visible scope ns
            casual::domain::message::discovery::lookup::Request request{ me()};
            request.scope = t[ 1] == "internal" ? decltype( request.scope)::internal : decltype( request.scope)::extended;
            std::set< std::string> names;
            auto ns = numbers( t[ 2]);
            for( auto n : ns) names.insert( name( n));
            request.content.services.assign( names.begin(), names.end());
            send( request);
            until( "visible");
            auto reply = vf::as< casual::domain::message::discovery::lookup::Reply>( answer);
            std::vector< long> found, absent;
            for( auto& s : reply.content.services) found.push_back( vf::number( number( s.name)));
            for( auto& s : reply.absent.services) absent.push_back( vf::number( number( s)));
            json( "scope", t[ 1]).raw( "ns", vf::numbers( ns)).raw( "found", vf::numbers( found)).raw( "absent", vf::numbers( absent));
         }
         else if( c == "remote")
         {
            casual::domain::message::discovery::fetch::known::Request request{ me()};
            send( request);
            until( "remote");
            auto reply = vf::as< casual::domain::message::discovery::fetch::known::Reply>( answer);
            std::vector< long> ns;
            for( auto& s : reply.content.services) ns.push_back( vf::number( number( s)));
            json.raw( "ns", vf::numbers( ns));
         }
         else
            throw std::runtime_error( "unknown operation: " + c);
         fence();
         finish( json, t0);
      }
   };
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   return vf::main( argc, argv, []( const std::vector< tokens>& script)
   {
      Driver driver;
      try
      {
         for( auto& line : script)
            driver.step( line);
      }
      catch( ...)
      {
         driver.stop();
         throw;
      }
      driver.stop();
   });
}
