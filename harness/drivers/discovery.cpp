//! Conformance driver of casual-domain-discovery: the driver is the domain manager, the providers (p1, p2...), the
//! requesters (r1, r2...) and the connections whose topology changes (r1, r2...).
//!
//! A request to a provider is labelled provider.n, when it arrives. Services are a, b, c, x, y and queues q, r.
#include "gateway.h"

#include "common/message/signal.h"

namespace
{
   using namespace vf::gateway;
   using vf::tokens;
   using vf::Json;

   struct Driver : Base
   {
      std::map< std::string, strong::correlation::id> labels;
      std::map< std::string, long> count;
      std::map< std::string, process::Handle> targets;                  //!< the providers, also those that are gone
      std::map< std::string, common::domain::Identity> domains;

      Driver()
      {
         using namespace environment::variable::name::internal::discovery;
         environment::variable::set( accumulate::timeout, "2h");
         environment::variable::set( accumulate::requests, "3");
         environment::variable::unset( environment::variable::name::ipc::service::manager);
         around.reply_discovery = false;
      }
      std::string box_of( vf::Inbox& inbox)
      {
         for( auto& [ name, box] : own) if( box.get() == &inbox) return name;
         return "?";
      }
      process::Handle provider( const std::string& name)
      {
         return targets[ name] = { vf::fake::pid( ( name[ 0] == 'p' ? 40 : 60) + vf::number( name.substr( 1))), box( name).ipc()};
      }
      static bool queue( const std::string& name) { return name == "q" || name == "r";}

      template< typename C>
      static C content( const std::string& names, auto&& service, auto&& queue_)
      {
         C result;
         for( auto& name : split( names))
            if( queue( name)) queue_( result, name);
            else service( result, name);
         return result;
      }
      static dm::request::Content wanted( const std::string& names)
      {
         return content< dm::request::Content>( names, []( auto& c, auto& n){ c.services.push_back( n);}, []( auto& c, auto& n){ c.queues.push_back( n);});
      }
      static dm::reply::Content provided( const std::string& names)
      {
         return content< dm::reply::Content>( names,
            []( auto& c, auto& n){ auto& s = c.services.emplace_back(); s.name = n; s.category = "c-" + n;},
            []( auto& c, auto& n){ c.queues.emplace_back( n).retry.count = n[ 0];});
      }
      static std::string text( const dm::request::Content& c)
      {
         auto bad = []( auto& range) { return ! std::is_sorted( range.begin(), range.end()) || std::adjacent_find( range.begin(), range.end()) != range.end();};
         std::vector< std::string> names;
         for( auto& s : c.services) names.push_back( s);
         for( auto& q : c.queues) names.push_back( q);
         std::sort( names.begin(), names.end());
         return ( bad( c.services) || bad( c.queues) ? "!" : "") + join( names);
      }
      static std::string text( const dm::reply::Content& c)
      {
         std::vector< std::string> names;
         for( auto& s : c.services) names.push_back( s.category.rfind( "c-", 0) == 0 ? s.name : s.name + "!");
         for( auto& q : c.queues) names.push_back( q.retry.count == q.name[ 0] ? q.name : q.name + "!");
         std::sort( names.begin(), names.end());
         return join( names);
      }
      std::string label( vf::Inbox& inbox, const strong::correlation::id& correlation)
      {
         auto name = box_of( inbox);
         auto result = name + "." + std::to_string( ++count[ name]);
         labels[ result] = correlation;
         return result;
      }
      template< typename M>
      void answered( vf::Inbox& inbox, complete_type& complete)
      {
         auto m = vf::as< M>( complete);
         if( &inbox == &around.me) { fenced.insert( m.correlation); return;}
         row( { "answer", box_of( inbox), id( m.correlation), text( m.content)});
      }

      void consume( vf::Inbox& inbox, complete_type& complete) override
      {
         if( around.serve( complete)) return;
         switch( complete.type())
         {
            case Type::domain_discovery_api_provider_registration_reply: return row( { "registered", box_of( inbox)});
            case Type::configuration_update_reply: return row( { "updated"});
            case Type::domain_discovery_request:
            {
               auto m = vf::as< dm::Request>( complete);
               auto domain = m.domain == common::domain::identity() ? "" : "!";
               return row( { "discover", box_of( inbox), label( inbox, m.correlation), domain + text( m.content)});
            }
            case Type::domain_discovery_lookup_request:
            {
               auto m = vf::as< dm::lookup::Request>( complete);
               return row( { "lookup", box_of( inbox), label( inbox, m.correlation), m.scope == dm::lookup::request::Scope::internal ? "internal" : "extended", text( m.content)});
            }
            case Type::domain_discovery_fetch_known_request:
               return row( { "known", box_of( inbox), label( inbox, complete.correlation())});
            case Type::domain_discovery_topology_direct_explore:
               return row( { "explore", box_of( inbox), text( vf::as< dm::topology::direct::Explore>( complete).content)});
            case Type::domain_discovery_topology_implicit_update:
            {
               std::vector< std::string> names;
               for( auto& d : vf::as< dm::topology::implicit::Update>( complete).domains) names.push_back( d == common::domain::identity() ? "vf" : d.name);
               std::sort( names.begin(), names.end());
               return row( { "implicit", box_of( inbox), join( names)});
            }
            case Type::domain_discovery_reply: return answered< dm::Reply>( inbox, complete);
            case Type::domain_discovery_api_reply: return answered< dm::api::Reply>( inbox, complete);
            case Type::domain_discovery_api_rediscovery_reply: return answered< dm::api::rediscovery::Reply>( inbox, complete);
            default:
               unexpected( box_of( inbox), complete.type());
         }
      }
      void received( Remote&, Remote::complete_type&) override {}

      //! everything that has been sent is handled: an empty request is answered at once
      void fence()
      {
         std::size_t before{};
         auto rounds = 0;
         do
         {
            if( ++rounds > 40) timeout( "livelock");
            before = rows.size();
            for( int k = 0; k < 2 && ! exited; ++k)
            {
               dm::api::Request request;
               request.process = { vf::fake::pid( 9), around.me.ipc()};
               request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
               if( ! vf::try_send( around.handle.ipc, request))
               {
                  if( ! until( [ &](){ return exited;})) timeout( "exit");
               }
               else if( ! until( [ &](){ return exited || fenced.count( request.correlation);})) timeout( "fence");
            }
            while( drain()) ;
         } while( rows.size() != before && ! exited);
      }

      static casual::configuration::Model model( const tokens& t)
      {
         // name=route,route or name= per configured service
         casual::configuration::Model result;
         for( std::size_t k = 1; k < t.size(); ++k)
         {
            auto is = t[ k].find( '=');
            if( is == std::string::npos) continue;
            casual::configuration::model::service::Service service;
            service.name = t[ k].substr( 0, is);
            service.routes = split( t[ k].substr( is + 1));
            result.service.services.push_back( service);
         }
         return result;
      }

      //! @return if it could be sent
      bool stimulate( const tokens& t)
      {
         auto& op = t[ 0];
         auto tell = [ &]( auto& m) { return vf::try_send( around.handle.ipc, m);};
         auto requester = [ &]( const std::string& name) { return process::Handle{ vf::fake::pid( 60 + vf::number( name.substr( 1))), box( name).ipc()};};
         if( op == "register")
         {
            // register p d,l,k,t
            dm::api::provider::registration::Request m{ provider( t[ 1])};
            using Ability = dm::api::provider::registration::Ability;
            m.abilities = Ability{};
            for( auto& a : split( t[ 2]))
               m.abilities = static_cast< Ability>( static_cast< int>( m.abilities)
                  | static_cast< int>( a == "d" ? Ability::discover : a == "l" ? Ability::lookup : a == "k" ? Ability::fetch_known : Ability::topology));
            return tell( m);
         }
         if( op == "api")
         {
            // api id r content
            dm::api::Request m{ requester( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            m.content = wanted( t[ 3]);
            return tell( m);
         }
         if( op == "rediscover")
         {
            dm::api::rediscovery::Request m{ requester( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            return tell( m);
         }
         if( op == "request")
         {
            // request id r local|forward content
            dm::Request m{ requester( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            m.directive = t[ 3] == "local" ? dm::request::Directive::local : dm::request::Directive::forward;
            m.domain = common::domain::Identity{ "other"};
            m.content = wanted( t[ 4]);
            return tell( m);
         }
         auto answer = [ &]( auto m, auto&& fill)
         {
            if( ! labels.count( t.at( 1))) return false;
            m.correlation = labels.at( t.at( 1));
            fill( m);
            return tell( m);
         };
         if( op == "lookedup") return answer( dm::lookup::Reply{}, [ &]( auto& m) { m.content = provided( t[ 2]);});
         if( op == "discovered") return answer( dm::Reply{}, [ &]( auto& m) { m.content = provided( t[ 2]); m.domain = common::domain::Identity{ "other"};});
         if( op == "knows") return answer( dm::fetch::known::Reply{}, [ &]( auto& m) { m.content = wanted( t[ 2]);});
         if( op == "direct")
         {
            // direct r content
            dm::topology::direct::Update m{ requester( t[ 1])};
            m.configured = wanted( t[ 2]);
            return tell( m);
         }
         if( op == "implicit")
         {
            // implicit r domains
            dm::topology::implicit::Update m{ requester( t[ 1])};
            for( auto& d : split( t[ 2]))
               m.domains.push_back( d == "vf" ? common::domain::identity() : domains.try_emplace( d, d).first->second);
            return tell( m);
         }
         if( op == "timeout")
         {
            message::signal::Timeout m;
            return tell( m);
         }
         if( op == "vanish") return own.erase( t[ 1]) > 0;
         if( op == "gone")
         {
            // gone p ipc|exit
            own.erase( t[ 1]);
            if( t[ 2] == "ipc")
            {
               message::event::ipc::Destroyed m;
               m.process = targets[ t[ 1]];
               return tell( m);
            }
            message::event::process::Exit m;
            m.state.pid = targets[ t[ 1]].pid;
            return tell( m);
         }
         if( op == "config")
         {
            casual::configuration::message::update::Request m{ process::Handle{ vf::fake::pid( 1), around.dm.ipc()}};
            m.model = model( t);
            return tell( m);
         }
         if( op == "shutdown")
         {
            message::shutdown::Request m;
            m.process = { vf::fake::pid( 1), around.dm.ipc()};
            return tell( m);
         }
         throw std::runtime_error{ "no such op: " + op};
      }

      void boot( const tokens& t)
      {
         reset();
         labels.clear(); count.clear(); targets.clear();
         around.model = model( t);
         around.start( "domain/bin/casual-domain-discovery");
         fence();
         emit( "boot", t, true);
      }

      void emit( const char* event, const tokens& t, bool ok)
      {
         std::vector< std::string> quoted;
         for( auto& w : t) quoted.push_back( vf::quote( w));
         vf::emit( Json{}( "e", event).raw( "w", vf::array( quoted))( "ok", ok)( "gone", exited).raw( "out", vf::array( std::exchange( rows, {}))));
      }

      void operator() ( const std::vector< tokens>& script)
      {
         for( auto& t : script)
         {
            if( t[ 0] == "boot") { boot( t); continue;}
            if( exited) break;
            auto ok = stimulate( t);
            fence();
            emit( "step", t, ok);
         }
         around.stop();
      }
   };
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   return vf::main( argc, argv, []( const std::vector< tokens>& script){ Driver driver; driver( script);});
}
