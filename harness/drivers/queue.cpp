//! Conformance driver of a queue group.
//!
//! Boots a minimal domain, plays the roles of queue manager, transaction manager and clients,
//! starts the real casual-queue-group process and executes a script, one operation per line.
//! Every observable effect is written as one event per line.
#include "vf.h"

#include "domain/unittest/manager.h"
#include "queue/common/ipc/message.h"
#include "common/environment.h"

#include <filesystem>

namespace
{
   using namespace casual;
   using namespace casual::common;
   namespace qm = casual::queue::ipc::message;
   using namespace std::chrono_literals;
   using vf::Json;
   using vf::tokens;

   struct Driver
   {
      vf::Inbox inbox{ communication::ipc::inbound::device()};
      strong::process::id group;
      process::Handle handle;
      std::string directory;
      std::string alias = "vfgroup";
      unsigned run = 1;

      struct Configuration { std::string spec; std::vector< tokens> queues; std::optional< long> capacity;} configuration;
      std::map< long, strong::queue::id> qids;        // spec queue -> id
      std::map< strong::queue::id, long> qnumbers;

      std::map< long, transaction::ID> trids;
      std::map< strong::correlation::id, long> waiters;      // blocking requests not answered
      std::map< strong::correlation::id, long> burst;
      std::map< Uuid, long> generated;                        // ids the group made
      std::set< long> involved;                               // reported to TM since last `take`
      long last = 0;                                          // time of last event
      std::size_t op = 0;
      bool defer = false;                                     // waiters are served before the reply is sent
      std::deque< vf::Inbox::complete_type> deferred;

      // --- ids
      const transaction::ID& trid( long t)
      {
         static const transaction::ID null{};
         if( t == 0) return null;
         if( auto found = trids.find( t); found != trids.end()) return found->second;
         auto id = transaction::ID{ vf::uuid( 2, t / 10, run), vf::uuid( 3, t % 10, run), process::handle()};
         return trids.emplace( t, id).first->second;
      }
      long trid( const transaction::ID& id)
      {
         for( auto& [ t, v] : trids)
            if( v == id) return t;
         return -1;
      }
      long gtrid( const platform::binary::type& value)
      {
         if( value.empty()) return 0;
         for( auto& [ t, v] : trids)
         {
            auto range = transaction::id::range::global( v);
            if( range.size() == value.size() && std::equal( std::begin( range), std::end( range), value.begin()))
               return t / 10;
         }
         return -1;
      }
      Uuid mid( long m) 
      { 
         for( auto& [ id, n] : generated)
            if( n == m) return id;
         return vf::uuid( 1, m, run);
      }
      long mid( const Uuid& id)
      {
         if( auto found = generated.find( id); found != generated.end()) return found->second;
         auto& raw = id.get();
         auto at = [&]( int i){ return static_cast< unsigned>( static_cast< unsigned char>( raw[ i]));};
         if( at( 0) != 1) return -1;
         return at( 4) | ( at( 5) << 8) | ( at( 6) << 16);
      }
      process::Handle client( long c) { return { strong::process::id{ int( 3900000 + c)}, inbox.ipc()};}
      static std::string properties( long p) { return p ? "property " + std::to_string( p) : std::string{};}
      static long properties( const std::string& p) { return p.empty() ? 0 : std::stol( p.substr( 9));}

      //! payload: first bytes carry the message number so content can be checked
      static platform::binary::type payload( long m, long size)
      {
         platform::binary::type data;
         for( long i = 0; i < size; ++i) data.push_back( static_cast< platform::binary::type::value_type>( ( m * 7 + i) & 0xff));
         return data;
      }
      static bool valid( const qm::Payload& value, long m, long size = -1)
      {
         if( value.type != "X_OCTET/") return false;
         return value.data == payload( m, long( value.data.size()));
      }
      static std::string name( long q) { return q % 2 == 0 ? "q" + std::to_string( q / 2) : "q" + std::to_string( ( q + 1) / 2) + ".error";}

      long now_floor() { return vf::floor_ms( vf::clock::now());}
      long now_ceil() { return vf::ceil_ms( vf::clock::now());}
      
      static long available_ms( platform::time::point::type t)
      {
         if( t.time_since_epoch().count() == 0) return 0;
         return vf::floor_ms( t);
      }

      // --- receiving
      using complete_type = vf::Inbox::complete_type;

      //! handle messages that can show up any time. returns true if consumed.
      bool background( complete_type& complete)
      {
         using Type = message::Type;
         if( complete.type() >= Type::EVENT_DOMAIN_BASE && complete.type() < Type::EVENT_DOMAIN_BASE_END)
            return true;
         switch( complete.type())
         {
            case Type::transaction_external_resource_involved:
            {
               if( defer) { deferred.push_back( std::move( complete)); return true;}
               auto m = vf::as< message::transaction::resource::external::Involved>( complete);
               involved.insert( trid( m.trid));
               return true;
            }
            case Type::transaction_external_resource_instance:
               return true;
            case Type::queue_group_dequeue_reply:
            {
               if( auto found = waiters.find( complete.correlation()); found != waiters.end())
               {
                  if( defer) { deferred.push_back( std::move( complete)); return true;}
                  auto reply = vf::as< qm::group::dequeue::Reply>( complete);
                  Json json;
                  json( "e", "del")( "w", found->second);
                  dequeued( json, reply);
                  time( json, last, now_ceil());
                  vf::emit( json);
                  waiters.erase( found);
                  return true;
               }
               break;
            }
            case Type::queue_group_dequeue_forget_request:
            {
               // group is shutting down
               auto m = vf::as< qm::group::dequeue::forget::Request>( complete);
               Json json;
               auto found = waiters.find( m.correlation);
               json( "e", "forgotten")( "w", found == waiters.end() ? -1 : found->second);
               time( json, last, now_ceil());
               vf::emit( json);
               if( found != waiters.end()) waiters.erase( found);
               return true;
            }
            default: 
               break;
         }
         return false;
      }

      void dequeued( Json& json, const qm::group::dequeue::Reply& reply)
      {
         json( "code", description( reply.code));
         if( reply.message)
         {
            auto m = mid( reply.message->id);
            json( "res", "msg")( "m", m)( "rd", reply.message->redelivered)( "p", properties( reply.message->attributes.properties))
               ( "sz", reply.message->payload.data.size())( "ok", valid( reply.message->payload, m))( "rq", reply.message->attributes.reply);
         }
         else
            json( "res", "none")( "m", 0)( "rd", 0)( "p", 0)( "sz", 0)( "ok", true)( "rq", "");
      }

      void time( Json& json, long t0, long t1)
      {
         json.raw( "inv", vf::numbers( involved));
         involved.clear();
         json( "t0", t0)( "t1", t1);
         last = std::max( last, t1 - 1);
      }

      static std::string description( common::code::queue code)
      {
         using E = common::code::queue;
         switch( code)
         {
            case E::ok: return "ok"; case E::no_message: return "no_message"; case E::no_queue: return "no_queue";
            case E::argument: return "argument"; case E::system: return "system"; default: return "other";
         }
      }

      //! no answer: tells whether the group is still there
      [[noreturn]] void silent( const std::string& what)
      {
         int status{};
         auto gone = ::waitpid( handle.pid.value(), &status, WNOHANG) > 0;
         vf::emit( Json{}( "e", "timeout")( "what", what)( "gone", gone)( "status", status));
         throw vf::Timeout{};
      }

      template< typename M>
      M receive( const strong::correlation::id& correlation, const std::string& what)
      {
         while( auto complete = inbox.next( 8000))
         {
            if( background( complete)) continue;
            if( complete.type() == M::type() && complete.correlation() == correlation)
               return vf::as< M>( complete);
            vf::emit( Json{}( "e", "unexpected")( "what", what)( "type", long( complete.type())));
            throw vf::Timeout{};
         }
         silent( what);
      }

      template< typename M>
      strong::correlation::id send( M&& message) { return vf::send( handle.ipc, message);}

      qm::group::state::Reply state()
      {
         qm::group::state::Request request{ process::handle()};
         return receive< qm::group::state::Reply>( send( request), "state");
      }

      void barrier()
      {
         state();
         // a second one when something can be woken up: the group serves waiters before it gets idle
         if( ! waiters.empty())
         {
            for( int i = 0; i < 2; ++i)
            {
               if( auto complete = inbox.next( 2))
                  if( ! background( complete)) unexpected( complete);
               state();
            }
         }
      }
      void unexpected( complete_type& complete)
      {
         vf::emit( Json{}( "e", "unexpected")( "what", "background")( "type", long( complete.type())));
         throw vf::Timeout{};
      }

      //! wait for background messages
      void sleep( long ms)
      {
         auto until = vf::clock::now() + std::chrono::milliseconds{ ms};
         while( vf::clock::now() < until)
         {
            auto left = std::chrono::ceil< std::chrono::milliseconds>( until - vf::clock::now()).count();
            if( auto complete = inbox.next( left))
               if( ! background( complete)) unexpected( complete);
         }
         Json json;
         json( "e", "slept");
         time( json, vf::floor_ms( until), now_ceil());
         vf::emit( json);
      }

      // --- configuration
      configuration::model::queue::Group model()
      {
         configuration::model::queue::Group result;
         result.alias = alias;
         result.queuebase = directory + "/" + alias + "." + std::to_string( run) + ".qb";
         result.capacity = configuration.capacity;
         for( auto& q : configuration.queues)
         {
            configuration::model::queue::Queue queue;
            queue.name = name( vf::number( q[ 0]));
            queue.retry.count = vf::number( q[ 1]);
            queue.retry.delay = std::chrono::milliseconds{ vf::number( q[ 2])};
            result.queues.push_back( queue);
         }
         return result;
      }

      void configure( const std::string& event)
      {
         qm::group::configuration::update::Request request{ process::handle()};
         request.model = model();
         auto reply = receive< qm::group::configuration::update::Reply>( send( request), "configuration");
         auto current = state();
         qids.clear(); qnumbers.clear();
         std::set< long> replied;
         for( auto& q : current.queues)
         {
            // name: q<k> or q<k>.error
            auto k = std::stol( q.name.substr( 1));
            auto n = q.name.find( ".error") != std::string::npos ? 2 * k - 1 : 2 * k;
            qids[ n] = q.id;
            qnumbers[ q.id] = n;
         }
         for( auto& q : reply.queues)
            replied.insert( qnumbers.contains( q.id) ? qnumbers[ q.id] : -1);
         std::set< long> zombies;
         for( auto& z : current.zombies)
            zombies.insert( qnumbers.contains( z) ? qnumbers[ z] : -1);
         std::vector< std::string> queues;
         for( auto& q : configuration.queues)
            queues.push_back( Json{}( "q", vf::number( q[ 0]))( "retry", vf::number( q[ 1]))( "delay", vf::number( q[ 2])).str());
         Json json;
         json( "e", event).raw( "qs", vf::array( queues)).raw( "replied", vf::numbers( replied)).raw( "zombies", vf::numbers( zombies))
            ( "cap", configuration.capacity ? *configuration.capacity : -1L)( "cur", current.size.current);
         time( json, last, now_ceil());
         vf::emit( json);
      }

      void start()
      {
         group = process::spawn( std::string{ ::getenv( "CASUAL_MAKE_SOURCE_ROOT")} + "/middleware/queue/bin/casual-queue-group", {});
         while( auto complete = inbox.next( 8000))
         {
            if( complete.type() == message::Type::queue_group_connect)
            {
               auto m = vf::as< qm::group::Connect>( complete);
               if( m.process.pid == group) { handle = m.process; return;}
               continue; // from one that is killed
            }
            if( background( complete)) continue;
            unexpected( complete);
         }
         vf::emit( Json{}( "e", "timeout")( "what", "start"));
         throw vf::Timeout{};
      }

      void kill()
      {
         ::kill( group.value(), SIGKILL);
         vf::wait_dead( group);
      }

      //! drain what was sent before the death
      void drain()
      {
         while( auto complete = inbox.next( 3))
         {
            if( background( complete)) continue;
            if( auto found = burst.find( complete.correlation()); found != burst.end())
            {
               ack( complete, found->second);
               burst.erase( found);
               continue;
            }
            if( complete.type() != message::Type::queue_group_state_reply) unexpected( complete);
         }
      }

      // --- projection
      void quiet()
      {
         // what is woken up while the parts of the projection are collected makes them inconsistent
         for( int i = 0; i < 50; ++i)
            if( auto json = projection())
            {
               vf::emit( *json);
               return;
            }
         silent( "quiet");
      }

      std::optional< Json> projection()
      {
         barrier();
         auto before = waiters.size();
         auto t0 = now_floor();
         auto current = state();
         std::vector< std::string> queues;
         for( auto& q : current.queues)
         {
            qm::group::message::meta::Request request{ process::handle()};
            request.qid = q.id;
            auto meta = receive< qm::group::message::meta::Reply>( send( request), "meta");
            std::vector< std::string> messages;
            for( auto& m : meta.messages)
               messages.push_back( Json{}( "m", mid( m.id))( "st", int( m.state))( "t", gtrid( m.trid))( "rd", m.redelivered)
                  ( "o", qnumbers.contains( m.origin) ? qnumbers[ m.origin] : -1)( "p", properties( m.properties))( "sz", m.size)
                  ( "a", available_ms( m.available)).str());
            auto n = qnumbers.contains( q.id) ? qnumbers[ q.id] : -1;
            queues.push_back( Json{}( "q", n).raw( "ms", vf::array( messages))( "count", q.metric.count)( "size", q.metric.size)
               ( "unc", q.metric.uncommitted)( "enq", q.metric.enqueued)( "deq", q.metric.dequeued)
               ( "retry", q.retry.count)( "delay", long( std::chrono::duration_cast< std::chrono::milliseconds>( q.retry.delay).count()))
               ( "err", q.error && qnumbers.contains( q.error) ? qnumbers[ q.error] : 0L).str());
         }
         Json json;
         json( "e", "quiet").raw( "qs", vf::array( queues))( "cur", current.size.current);
         if( before != waiters.size()) return {};
         time( json, t0, now_ceil());
         return json;
      }

      // --- operations
      struct Enqueue { qm::group::enqueue::Request request; Json json; long m;};

      Enqueue enqueue( const tokens& t)
      {
         // enq q m trid prop delay size [gen]
         auto q = vf::number( t[ 1]); auto m = vf::number( t[ 2]);
         Enqueue result;
         result.m = m;
         auto& request = result.request;
         request.process = process::handle();
         request.name = name( q);
         if( ( op % 2) && qids.contains( q)) request.queue = qids[ q];
         request.trid = trid( vf::number( t[ 3]));
         auto generate = t.size() > 7 && t[ 7] == "gen";
         if( ! generate) request.message.id = mid( m);
         request.message.attributes.properties = properties( vf::number( t[ 4]));
         request.message.attributes.reply = "reply" + std::to_string( m);
         auto size = vf::number( t[ 6]);
         request.message.payload.type = "X_OCTET/";
         request.message.payload.data = payload( m, size);
         auto delay = vf::number( t[ 5]);
         long a = 0;
         if( delay)
         {
            auto available = vf::clock::now() + std::chrono::milliseconds{ delay};
            request.message.attributes.available = std::chrono::time_point_cast< platform::time::unit>( available);
            a = vf::floor_ms( available);
         }
         result.json( "q", q)( "m", m)( "t", vf::number( t[ 3]))( "p", vf::number( t[ 4]))( "a", a)( "sz", size);
         return result;
      }

      struct Dequeue { qm::group::dequeue::Request request; Json json; long w;};
      Dequeue dequeue( const tokens& t)
      {
         // deq q w trid (-|p:n|i:n) block client
         Dequeue result;
         auto q = vf::number( t[ 1]);
         result.w = vf::number( t[ 2]);
         auto& request = result.request;
         auto c = t.size() > 6 ? vf::number( t[ 6]) : 0;
         request.process = client( c);
         request.name = name( q);
         if( ( op % 2) && qids.contains( q)) request.queue = qids[ q];
         request.trid = trid( vf::number( t[ 3]));
         long p = 0, i = 0;
         if( t[ 4].starts_with( "p:")) p = vf::number( t[ 4].substr( 2));
         if( t[ 4].starts_with( "i:")) i = vf::number( t[ 4].substr( 2));
         if( p) request.selector.properties = properties( p);
         if( i) request.selector.id = mid( i);
         request.block = t[ 5] == "1";
         result.json( "q", q)( "w", result.w)( "t", vf::number( t[ 3]))( "sp", p)( "si", i)( "b", request.block)( "c", c);
         return result;
      }

      void ack( complete_type& complete, long n)
      {
         using Type = message::Type;
         Json json;
         json( "e", "ack")( "n", n);
         switch( complete.type())
         {
            case Type::queue_group_enqueue_reply:
            {
               auto reply = vf::as< qm::group::enqueue::Reply>( complete);
               json( "code", description( reply.code));
               break;
            }
            case Type::queue_group_dequeue_reply:
            {
               auto reply = vf::as< qm::group::dequeue::Reply>( complete);
               json( "code", description( reply.code))( "m", reply.message ? mid( reply.message->id) : 0);
               break;
            }
            case Type::transaction_resource_commit_reply: 
               json( "code", vf::as< message::transaction::resource::commit::Reply>( complete).state == code::xa::ok ? "ok" : "fail"); break;
            case Type::transaction_resource_rollback_reply:
               json( "code", vf::as< message::transaction::resource::rollback::Reply>( complete).state == code::xa::ok ? "ok" : "fail"); break;
            case Type::transaction_resource_prepare_reply:
               json( "code", vf::as< message::transaction::resource::prepare::Reply>( complete).state == code::xa::ok ? "ok" : "fail"); break;
            default: 
               unexpected( complete);
         }
         time( json, last, now_ceil());
         vf::emit( json);
      }

      template< typename M>
      void resource( const std::string& event, long t, long n)
      {
         M request{ process::handle()};
         request.trid = trid( t);
         request.resource = strong::resource::id{ 1};
         if( n)
         {
            burst[ send( request)] = n;
            Json json; json( "e", "send")( "op", event)( "n", n)( "t", t);
            time( json, last, now_ceil());
            vf::emit( json);
            return;
         }
         auto t0 = now_floor();
         using reply_type = message::reverse::type_t< M>;
         auto reply = receive< reply_type>( send( request), event);
         Json json;
         json( "e", event)( "t", t)( "ok", reply.state == code::xa::ok)( "same", reply.trid == request.trid && reply.resource == request.resource);
         time( json, t0, now_ceil());
         vf::emit( json);
      }

      static std::string affected( const std::vector< qm::group::queue::Affected>& value, std::map< strong::queue::id, long>& numbers)
      {
         return vf::array( algorithm::transform( value, [&]( auto& a){ return Json{}( "q", numbers.contains( a.queue.id) ? numbers[ a.queue.id] : -1)( "n", a.count)( "name", a.queue.name).str();}));
      }

      void step( const tokens& t)
      {
         ++op;
         auto& c = t[ 0];
         bool is_burst = c.front() == '!';
         auto what = is_burst ? c.substr( 1) : c;
         long n = is_burst ? long( op) : 0;

         if( what == "boot")
         {
            // boot capacity q:retry:delay ...
            configuration.capacity = t[ 1] == "-" ? std::optional< long>{} : vf::number( t[ 1]);
            configuration.queues.clear();
            for( std::size_t i = 2; i < t.size(); ++i) configuration.queues.push_back( split( t[ i]));
            if( group) { stop();}
            ++run;
            trids.clear(); waiters.clear(); generated.clear(); burst.clear(); involved.clear();
            vf::base() = vf::clock::now() - std::chrono::milliseconds{ 1000};
            last = 0;
            op = 0;
            vf::emit( Json{}( "e", "boot")( "tid", t.size() ? std::to_string( run) : ""));
            start();
            configure( "config");
            return;
         }
         if( what == "config")
         {
            configuration.capacity = t[ 1] == "-" ? std::optional< long>{} : vf::number( t[ 1]);
            configuration.queues.clear();
            for( std::size_t i = 2; i < t.size(); ++i) configuration.queues.push_back( split( t[ i]));
            configure( "config");
            barrier();
            return;
         }
         if( what == "enq")
         {
            auto e = enqueue( t);
            if( n)
            {
               burst[ send( e.request)] = n;
               e.json( "e", "send")( "op", "enq")( "n", n);
               time( e.json, last, now_ceil());
               vf::emit( e.json);
               return;
            }
            auto t0 = now_floor();
            auto reply = receive< qm::group::enqueue::Reply>( send( e.request), "enqueue");
            if( ! e.request.message.id && reply.code == common::code::queue::ok)
               generated[ reply.id] = e.m;
            e.json( "e", "enq")( "code", description( reply.code))( "rid", reply.code == common::code::queue::ok ? mid( reply.id) : 0);
            time( e.json, t0, now_ceil());
            vf::emit( e.json);
            barrier();
            return;
         }
         if( what == "deq")
         {
            auto d = dequeue( t);
            if( n)
            {
               burst[ send( d.request)] = n;
               d.json( "e", "send")( "op", "deq")( "n", n);
               time( d.json, last, now_ceil());
               vf::emit( d.json);
               return;
            }
            auto t0 = now_floor();
            auto correlation = send( d.request);
            if( d.request.block)
            {
               // the state reply tells that the request is handled
               qm::group::state::Request request{ process::handle()};
               auto fence = send( request);
               bool replied = false;
               while( true)
               {
                  auto complete = inbox.next( 8000);
                  if( ! complete) silent( "deq");
                  if( complete.type() == message::Type::queue_group_dequeue_reply && complete.correlation() == correlation)
                  {
                     auto reply = vf::as< qm::group::dequeue::Reply>( complete);
                     d.json( "e", "deq");
                     dequeued( d.json, reply);
                     time( d.json, t0, now_ceil());
                     vf::emit( d.json);
                     replied = true;
                     continue;
                  }
                  if( complete.correlation() == fence) break;
                  if( ! background( complete)) unexpected( complete);
               }
               if( ! replied)
               {
                  waiters[ correlation] = d.w;
                  d.json( "e", "deq")( "code", "")( "res", "wait")( "m", 0)( "rd", 0)( "p", 0)( "sz", 0)( "ok", true)( "rq", "");
                  time( d.json, t0, now_ceil());
                  vf::emit( d.json);
               }
            }
            else
            {
               auto reply = receive< qm::group::dequeue::Reply>( correlation, "dequeue");
               d.json( "e", "deq");
               dequeued( d.json, reply);
               time( d.json, t0, now_ceil());
               vf::emit( d.json);
            }
            barrier();
            return;
         }
         if( what == "forget")
         {
            auto w = vf::number( t[ 1]);
            qm::group::dequeue::forget::Request request{ process::handle()};
            request.correlation = strong::correlation::id{ vf::uuid( 9, w, run)};
            for( auto& [ correlation, waiter] : waiters) if( waiter == w) request.correlation = correlation;
            auto t0 = now_floor();
            auto reply = receive< qm::group::dequeue::forget::Reply>( send( request), "forget");
            std::erase_if( waiters, [&]( auto& p){ return reply.discarded && p.second == w;});
            Json json;
            json( "e", "forget")( "w", w)( "discarded", reply.discarded);
            time( json, t0, now_ceil());
            vf::emit( json);
            return;
         }
         if( what == "prepare") { resource< message::transaction::resource::prepare::Request>( "prepare", vf::number( t[ 1]), n); return;}
         if( what == "commit") { resource< message::transaction::resource::commit::Request>( "commit", vf::number( t[ 1]), n); if( ! n) barrier(); return;}
         if( what == "rollback") { resource< message::transaction::resource::rollback::Request>( "rollback", vf::number( t[ 1]), n); if( ! n) barrier(); return;}
         if( what == "restore" || what == "clear")
         {
            std::vector< strong::queue::id> ids;
            std::vector< long> qs;
            for( std::size_t i = 1; i < t.size(); ++i) { qs.push_back( vf::number( t[ i])); ids.push_back( qids[ qs.back()]);}
            auto t0 = now_floor();
            Json json;
            json( "e", what).raw( "qs", vf::numbers( qs));
            if( what == "restore")
            {
               qm::group::queue::restore::Request request{ process::handle()};
               request.queues = ids;
               defer = true;
               json.raw( "affected", affected( receive< qm::group::queue::restore::Reply>( send( request), what).affected, qnumbers));
               defer = false;
            }
            else
            {
               qm::group::queue::clear::Request request{ process::handle()};
               request.queues = ids;
               json.raw( "affected", affected( receive< qm::group::queue::clear::Reply>( send( request), what).affected, qnumbers));
            }
            time( json, t0, now_ceil());
            vf::emit( json);
            while( ! deferred.empty()) 
            { 
               auto complete = std::move( deferred.front()); 
               deferred.pop_front();
               if( ! background( complete)) unexpected( complete);
            }
            barrier();
            return;
         }
         if( what == "remove")
         {
            // remove q force m...
            qm::group::message::remove::Request request{ process::handle()};
            request.queue = qids[ vf::number( t[ 1])];
            request.force = t[ 2] == "1";
            std::vector< long> ms;
            for( std::size_t i = 3; i < t.size(); ++i) { ms.push_back( vf::number( t[ i])); request.ids.push_back( mid( ms.back()));}
            auto t0 = now_floor();
            auto reply = receive< qm::group::message::remove::Reply>( send( request), what);
            Json json;
            json( "e", what)( "q", vf::number( t[ 1]))( "force", request.force).raw( "ms", vf::numbers( ms))
               .raw( "removed", vf::numbers( algorithm::transform( reply.ids, [&]( auto& id){ return mid( id);})));
            time( json, t0, now_ceil());
            vf::emit( json);
            barrier();
            return;
         }
         if( what == "recover")
         {
            // recover q commit|rollback g...
            qm::group::message::recovery::Request request{ process::handle()};
            request.queue = qids[ vf::number( t[ 1])];
            request.directive = t[ 2] == "commit" ? qm::group::message::recovery::Directive::commit : qm::group::message::recovery::Directive::rollback;
            std::vector< long> gs;
            for( std::size_t i = 3; i < t.size(); ++i) { gs.push_back( vf::number( t[ i])); request.gtrids.push_back( transaction::global::ID{ transaction::id::range::global( trid( gs.back() * 10))});}
            auto t0 = now_floor();
            auto reply = receive< qm::group::message::recovery::Reply>( send( request), what);
            auto number = [&]( const transaction::global::ID& id){ for( auto& [ n, v] : trids) if( v == id) return n / 10; return -1L;};
            Json json;
            json( "e", what)( "q", vf::number( t[ 1]))( "d", t[ 2]).raw( "gs", vf::numbers( gs))
               .raw( "done", vf::numbers( algorithm::transform( reply.gtrids, number)));
            time( json, t0, now_ceil());
            vf::emit( json);
            barrier();
            return;
         }
         if( what == "reset")
         {
            qm::group::metric::reset::Request request{ process::handle()};
            std::vector< long> qs;
            for( std::size_t i = 1; i < t.size(); ++i) { qs.push_back( vf::number( t[ i])); request.queues.push_back( qids[ qs.back()]);}
            auto t0 = now_floor();
            receive< qm::group::metric::reset::Reply>( send( request), what);
            Json json;
            json( "e", what).raw( "qs", vf::numbers( qs));
            time( json, t0, now_ceil());
            vf::emit( json);
            return;
         }
         if( what == "peek")
         {
            qm::group::message::peek::Request request{ process::handle()};
            std::vector< long> ms;
            for( std::size_t i = 1; i < t.size(); ++i) { ms.push_back( vf::number( t[ i])); request.ids.push_back( mid( ms.back()));}
            auto t0 = now_floor();
            auto reply = receive< qm::group::message::peek::Reply>( send( request), what);
            Json json;
            json( "e", what).raw( "ms", vf::numbers( ms)).raw( "got", vf::array( algorithm::transform( reply.messages, [&]( auto& m)
               { auto n = mid( m.id); return Json{}( "m", n)( "rd", m.redelivered)( "p", properties( m.attributes.properties))( "sz", m.payload.data.size())( "ok", valid( m.payload, n)).str();})));
            time( json, t0, now_ceil());
            vf::emit( json);
            return;
         }
         if( what == "mpeek")
         {
            // mpeek q prop
            qm::group::message::meta::peek::Request request;
            request.process = process::handle();
            request.queue = qids[ vf::number( t[ 1])];
            request.selector.properties = properties( vf::number( t[ 2]));
            auto t0 = now_floor();
            auto reply = receive< qm::group::message::meta::peek::Reply>( send( request), what);
            Json json;
            json( "e", what)( "q", vf::number( t[ 1]))( "sp", vf::number( t[ 2])).raw( "got", vf::numbers( algorithm::transform( reply.messages, [&]( auto& m){ return mid( m.id);})));
            time( json, t0, now_ceil());
            vf::emit( json);
            return;
         }
         if( what == "browse")
         {
            // whole queue, one after the other
            auto t0 = now_floor();
            std::vector< long> got;
            platform::time::point::type last_time{};
            for( int i = 0; i < 200; ++i)
            {
               qm::group::message::browse::Request request{ process::handle()};
               request.queue = qids[ vf::number( t[ 1])];
               request.last = last_time;
               auto reply = receive< qm::group::message::browse::Reply>( send( request), what);
               if( ! reply.message) break;
               got.push_back( mid( reply.message->id));
               last_time = reply.message->timestamp;
            }
            Json json;
            json( "e", what)( "q", vf::number( t[ 1])).raw( "got", vf::numbers( got));
            time( json, t0, now_ceil());
            vf::emit( json);
            return;
         }
         if( what == "exit")
         {
            auto c = vf::number( t[ 1]);
            auto t0 = now_floor();
            if( t.size() > 2 && t[ 2] == "none") return;
            message::event::process::Exit event;
            event.state.pid = client( c).pid;
            event.state.reason = decltype( event.state.reason)::exited;
            send( event);
            state();
            // what it waited for is not to be answered
            Json json;
            json( "e", what)( "c", c);
            time( json, t0, now_ceil());
            vf::emit( json);
            return;
         }
         if( what == "quiet") { quiet(); return;}
         if( what == "sleep") { sleep( vf::number( t[ 1])); return;}
         if( what == "flush")
         {
            // wait for all replies of a burst
            while( ! burst.empty())
            {
               auto complete = inbox.next( 8000);
               if( ! complete) silent( "flush");
               if( background( complete)) continue;
               if( auto found = burst.find( complete.correlation()); found != burst.end())
               {
                  ack( complete, found->second);
                  burst.erase( found);
                  continue;
               }
               unexpected( complete);
            }
            barrier();
            vf::emit( Json{}( "e", "flush"));
            return;
         }
         if( what == "crash")
         {
            // crash [delay in us]
            if( t.size() > 1) ::usleep( vf::number( t[ 1]));
            kill();
            drain();
            waiters.clear();
            burst.clear();
            Json json; json( "e", "crash");
            time( json, last, now_ceil());
            vf::emit( json);
            start();
            configure( "restart");
            quiet();
            return;
         }
         if( what == "shutdown") 
         { 
            // shutdown [recover]: orderly; the group ends only when nothing is pending
            auto t0 = now_floor();
            message::shutdown::Request request{ process::handle()};
            send( request);
            bool down = false;
            for( int i = 0; i < 300 && ! down; ++i)
            {
               if( auto complete = inbox.next( 5))
                  if( ! background( complete)) unexpected( complete);
               int status{};
               if( ::waitpid( group.value(), &status, WNOHANG) == group.value()) down = true;
               if( ! down && i == 20 && t.size() > 1) break;
            }
            while( auto complete = inbox.next( 3))
               if( ! background( complete)) unexpected( complete);
            Json json; json( "e", "shutdown")( "down", down);
            time( json, t0, now_ceil());
            vf::emit( json);
            if( ! down) { kill(); drain(); Json j; j( "e", "crash"); time( j, last, now_ceil()); vf::emit( j);}
            waiters.clear();
            start();
            configure( "restart");
            quiet();
            return;
         }
         throw std::runtime_error( "unknown operation: " + c);
      }

      static tokens split( const std::string& s)
      {
         tokens result;
         std::istringstream in{ s};
         std::string w;
         while( std::getline( in, w, ':')) result.push_back( w);
         return result;
      }

      void stop()
      {
         kill();
         while( inbox.next( 1)) ;
      }
   };
}

int main( int argc, char** argv)
{
   return vf::main( argc, argv, []( const std::vector< tokens>& script)
   {
      auto domain = casual::domain::unittest::manager( R"(
domain:
   name: vf
)");
      namespace instance = communication::instance;
      instance::whitelist::connect( instance::identity::queue::manager, process::handle());
      instance::whitelist::connect( instance::identity::transaction::manager, process::handle());

      Driver driver;
      driver.directory = ::getenv( "TMPDIR");
      try
      {
         for( auto& line : script)
            driver.step( line);
      }
      catch( const vf::Timeout&)
      {
         if( driver.group) driver.kill();
         throw;
      }
      if( driver.group) driver.stop();
   });
}
