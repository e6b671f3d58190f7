//! Conformance driver of casual-domain-manager (bare), with the real discovery of its core group. The processes it starts
//! are `sleep`s, for which the driver connects (servers), takes shutdown requests, holds and kills. The driver is also the
//! service manager, and those who look processes up.
#include "gateway.h"

#include "common/message/event.h"
#include "domain/manager/task/message.h"

#include <cstddef>
#include <csignal>
#include <filesystem>
#include <fstream>

#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
   using namespace vf::gateway;
   using vf::tokens;
   using vf::Json;
   namespace md = message::domain::process;

   struct Driver : Base
   {
      struct Child { strong::process::id pid; std::string alias; bool exited = false, held = false;};
      std::map< std::string, Child> children;                 //!< p1, p2...
      std::map< std::string, std::string> kinds;              //!< alias -> s|e
      std::set< strong::process::id> others;                  //!< the discovery
      std::map< strong::correlation::id, std::string> calls, parents;
      std::vector< strong::correlation::id> finished;
      process::Handle manager{};
      std::string directory = ::getenv( "TMPDIR") ? ::getenv( "TMPDIR") : "/tmp";
      bool leaving = false, booted = false;
      Uuid singleton = vf::uuid( 7, 7, 7);

      std::string name( strong::process::id pid)
      {
         std::string result = "?";
         for( auto& [ n, c] : children) if( c.pid == pid) result = n;
         return result;
      }
      //! a socket for each process
      process::Handle at( const std::string& p) { return { p[ 0] == 'p' ? children.at( p).pid : vf::fake::pid( 60 + vf::number( p.substr( 1))), box( p).ipc()};}
      //! base64 to hex
      static std::string hex( const std::string& text)
      {
         constexpr std::string_view symbols = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
         std::string result;
         unsigned value = 0, bits = 0;
         for( auto c : text)
         {
            auto at = symbols.find( c);
            if( at == symbols.npos) break;
            for( value = value << 6 | at, bits += 6; bits >= 4; bits -= 4)
               result += "0123456789abcdef"[ value >> ( bits - 4) & 15];
         }
         result.resize( 32, '0');
         return result;
      }
      std::string box_of( vf::Inbox& inbox)
      {
         for( auto& [ n, box] : own) if( box.get() == &inbox) return n;
         return "?";
      }

      void consume( vf::Inbox& inbox, complete_type& complete) override
      {
         switch( complete.type())
         {
            case Type::event_domain_information:
               manager = vf::as< casual::domain::manager::task::message::domain::Information>( complete).process;
               return;
            case Type::event_process_spawn:
            {
               auto m = vf::as< message::event::process::Spawn>( complete);
               if( ! kinds.count( m.alias)) { for( auto p : m.pids) others.insert( p); return;}
               std::vector< std::string> names;
               for( auto p : m.pids)
               {
                  names.push_back( "p" + std::to_string( children.size() + 1));
                  children[ names.back()] = { p, m.alias};
               }
               if( ! names.empty()) row( { "spawn", m.alias, join( names)});
               return;
            }
            case Type::event_process_exit:
            {
               auto m = vf::as< message::event::process::Exit>( complete);
               auto p = name( m.state.pid);
               if( p == "?") return;
               children[ p].exited = true;
               return row( { "exit", p});
            }
            case Type::event_task:
            {
               auto m = vf::as< message::event::Task>( complete);
               if( m.description == "boot domain") { if( m.state == decltype( m.state)::done) { booted = true; row( { "done", "boot"});} return;}
               if( m.state == decltype( m.state)::done)
               {
                  // which it is might not be known yet
                  if( m.description.rfind( "shutdown", 0) == 0) row( { "done", "shutdown"});
                  else finished.push_back( m.correlation);
               }
               return;
            }
            case Type::event_sub_task: case Type::event_notification: case Type::event_error: case Type::event_ipc_destroyed: return;
            case Type::service_advertise: case Type::service_concurrent_advertise: return;
            case Type::service_acknowledge: return;
            case Type::domain_process_prepare_shutdown_request:
            {
               auto m = vf::as< message::domain::process::prepare::shutdown::Request>( complete);
               auto reply = message::reverse::type( m);
               reply.processes = std::move( m.processes);
               vf::try_send( manager.ipc, reply);
               return;
            }
            case Type::shutdown_request:
               return row( { "stop", box_of( inbox)});
            case Type::domain_process_connect_reply:
            {
               auto m = vf::as< md::connect::Reply>( complete);
               if( &inbox == &sm) return;
               auto approved = m.directive == decltype( m.directive)::approved;
               // who isn't let in exits
               if( auto found = children.find( box_of( inbox)); ! approved && found != children.end() && ! found->second.exited)
               {
                  found->second.held = false;
                  ::kill( found->second.pid.value(), SIGKILL);
               }
               return row( { "connected", box_of( inbox), approved ? "1" : "0"});
            }
            case Type::domain_process_lookup_reply:
            {
               auto m = vf::as< md::lookup::Reply>( complete);
               if( &inbox == &around.me) { fenced.insert( m.correlation); return;}
               auto n = m.process.pid ? name( m.process.pid) : std::string{ "-"};
               if( n != "-" && ( ! own.count( n) || ! own[ n] || m.process.ipc != own[ n]->ipc())) n += "?";
               return row( { "found", box_of( inbox), id( m.correlation), n});
            }
            case Type::service_reply:
            {
               auto m = vf::as< message::service::call::Reply>( complete);
               std::string text;
               for( auto c : m.buffer.data) text += char( c);
               // the last of the tasks ends it
               auto quote = text.find_last_of( '"');
               if( m.code.result == decltype( m.code.result)::ok && quote != std::string::npos && quote >= 24)
                  parents[ strong::correlation::id{ Uuid{ hex( text.substr( quote - 24, 24))}}] = calls[ m.correlation];
               return row( { "accepted", calls[ m.correlation], std::string{ description( m.code.result)}});
            }
            default:
               unexpected( box_of( inbox), complete.type());
         }
      }
      void received( Remote&, Remote::complete_type&) override {}

      //! S, T, R, Z, or X when it does not exist. With a signal that it is about to get: !
      static char state( strong::process::id pid)
      {
         std::ifstream in{ "/proc/" + std::to_string( pid.value()) + "/status"};
         std::string line;
         char result = 'X';
         bool pending = false;
         while( std::getline( in, line))
         {
            if( line.rfind( "State:", 0) == 0) result = line[ line.find_first_not_of( " \t", 6)];
            if( line.rfind( "SigPnd:", 0) == 0 || line.rfind( "ShdPnd:", 0) == 0)
               pending = pending || line.find_first_not_of( " \t0", 7) != std::string::npos;
         }
         return result == 'S' && pending ? '!' : result;
      }
      bool calm()
      {
         for( auto& [ n, c] : children)
         {
            if( c.exited) continue;
            auto s = state( c.pid);
            if( c.held ? s != 'T' && s != 't' : s != 'S') return false;
         }
         return true;
      }

      //! everything that has been sent, and has happened to the processes, is handled
      void fence()
      {
         std::size_t before{};
         auto rounds = 0;
         do
         {
            if( ++rounds > 60) timeout( "livelock");
            before = rows.size() + finished.size();
            if( ! until( [ &](){ return exited || calm();})) timeout( "calm");
            for( int k = 0; k < 2 && ! exited; ++k)
            {
               md::lookup::Request request{ process::Handle{ vf::fake::pid( 9), around.me.ipc()}};
               request.identification = vf::uuid( 6, 1, run);
               request.directive = decltype( request.directive)::direct;
               request.correlation = strong::correlation::id{ vf::uuid( 9, ++fences, run)};
               if( ! vf::try_send( manager.ipc, request))
               {
                  if( ! until( [ &](){ return exited;})) timeout( "exit");
               }
               else if( ! until( [ &](){ return exited || fenced.count( request.correlation);})) timeout( "fence");
            }
            while( drain()) ;
         } while( ( rows.size() + finished.size() != before || ! calm()) && ! exited);
         if( leaving && ! exited && std::all_of( children.begin(), children.end(), []( auto& p){ return p.second.exited;}))
            if( ! until( [ &](){ return exited;})) timeout( "it does not end");
      }

      bool tell( auto&& m) { return vf::try_send( manager.ipc, m);}

      bool call( const std::string& id, const std::string& service, const std::string& json)
      {
         message::service::call::callee::Request m;
         m.process = { vf::fake::pid( 9), box( "caller").ipc()};
         m.correlation = correlation( vf::number( id));
         calls[ m.correlation] = id;
         m.service.name = service;
         m.buffer = payload( json);
         m.buffer.type = std::string{ buffer::type::json};
         return tell( m);
      }

      bool stimulate( const tokens& t)
      {
         auto& op = t[ 0];
         if( op == "connect")
         {
            // connect p x|-: as the singleton or not
            if( ! children.count( t[ 1]) || children[ t[ 1]].exited) return false;
            md::connect::Request m;
            m.information.handle = at( t[ 1]);
            m.information.alias = children[ t[ 1]].alias;
            if( t[ 2] == "x") m.singleton.identification = singleton;
            return tell( m);
         }
         if( op == "kill" || op == "hold" || op == "release")
         {
            if( ! children.count( t[ 1]) || children[ t[ 1]].exited) return false;
            auto& c = children[ t[ 1]];
            ::kill( c.pid.value(), op == "kill" ? SIGKILL : op == "hold" ? SIGSTOP : SIGCONT);
            c.held = op == "hold" ;
            return true;
         }
         if( op == "scale")
         {
            // scale id alias=n,..
            std::string json;
            for( auto& w : split( t[ 2])) json += ( json.empty() ? "" : ",") + ( "{\"name\":\"" + w.substr( 0, w.find( '=')) + "\",\"instances\":" + w.substr( w.find( '=') + 1) + "}");
            return call( t[ 1], ".casual/domain/scale/aliases", "{\"aliases\":[" + json + "]}");
         }
         if( op == "restart")
         {
            // restart id alias,..
            std::string json;
            for( auto& w : split( t[ 2])) json += ( json.empty() ? "" : ",") + ( "{\"name\":\"" + w + "\"}");
            return call( t[ 1], ".casual/domain/restart/aliases", "{\"aliases\":[" + json + "]}");
         }
         if( op == "lookup")
         {
            // lookup id r p|x direct|wait
            md::lookup::Request m{ at( t[ 2])};
            m.correlation = correlation( vf::number( t[ 1]));
            if( t[ 3] == "x") m.identification = singleton;
            else if( ! children.count( t[ 3])) return false;
            else m.pid = children[ t[ 3]].pid;
            m.directive = t[ 4] == "wait" ? decltype( m.directive)::wait : decltype( m.directive)::direct;
            return tell( m);
         }
         if( op == "shutdown")
         {
            leaving = true;
            message::shutdown::Request m;
            m.process = { vf::fake::pid( 9), around.me.ipc()};
            return tell( m);
         }
         throw std::runtime_error{ "no such op: " + op};
      }

      void cleanup()
      {
         for( auto& [ n, c] : children) if( ! c.exited && c.pid.value() > 1) ::kill( c.pid.value(), SIGKILL);
         for( auto p : others) if( p.value() > 1) ::kill( p.value(), SIGKILL);
         others.clear();
      }

      //! boot groups entities: groups `name:dep+dep`, entities `alias:instances:restart:group` - s.. is a server, e.. an executable
      void boot( const tokens& t)
      {
         cleanup();
         reset();
         children.clear(); kinds.clear(); calls.clear(); parents.clear(); finished.clear();
         manager = {};
         leaving = booted = false;
         auto home = directory + "/home" + std::to_string( run);
         std::filesystem::create_directories( home);
         ::setenv( "CASUAL_DOMAIN_HOME", home.c_str(), 1);
         auto file = home + "/domain.yaml";
         {
            std::ofstream out{ file};
            out << "domain:\n  name: vf\n  groups:\n";
            for( auto& g : split( t[ 1]))
            {
               auto w = split( g, ':');
               out << "    - name: " << w[ 0] << "\n";
               if( w.size() > 1) { out << "      dependencies: [ "; auto d = split( w[ 1], '+'); for( auto& x : d) out << ( &x == &d[ 0] ? "" : ", ") << x; out << "]\n";}
            }
            for( char kind : { 's', 'e'})
            {
               auto any = false;
               for( auto& s : split( t[ 2]))
               {
                  if( s[ 0] != kind) continue;
                  auto w = split( s, ':');
                  kinds[ w[ 0]] = kind;
                  if( ! std::exchange( any, true)) out << ( kind == 's' ? "  servers:\n" : "  executables:\n");
                  out << "    - alias: " << w[ 0] << "\n      path: /bin/sleep\n      arguments: [ \"100000\"]\n      instances: " << w[ 1]
                     << "\n      restart: " << ( w[ 2] == "1" ? "true" : "false") << "\n      memberships: [ " << w[ 3] << "]\n";
               }
            }
         }
         around.pid = process::spawn( std::string{ ::getenv( "CASUAL_MAKE_SOURCE_ROOT")} + "/middleware/domain/bin/casual-domain-manager",
            { "--bare", "true", "--configuration", file, "--event-ipc", uuid::string( around.me.ipc().underlying()), "--event-pid", std::to_string( process::id().value()),
              "--event-id", uuid::string( vf::uuid( 5, 5, run))});
         if( ! until( [ &](){ return exited || manager;})) timeout( "start");
         {
            md::connect::Request m;
            m.information.handle = { vf::fake::pid( 4), sm.ipc()};
            m.information.alias = "sm";
            m.singleton.identification = communication::instance::identity::service::manager.id;
            tell( m);
         }
         if( ! until( [ &](){ return exited || booted || ! children.empty();})) timeout( "boot");
         fence();
         emit( "boot", t, true);
      }

      void emit( const char* event, const tokens& t, bool ok)
      {
         for( auto& id : std::exchange( finished, {})) row( { "done", parents.count( id) ? parents[ id] : "?"});
         std::vector< std::string> quoted;
         for( auto& w : t) quoted.push_back( vf::quote( w));
         // what is composed: x:y,.. or x=y,.. as lists
         std::vector< std::string> parts;
         if( t[ 0] == "boot" || t[ 0] == "scale" || t[ 0] == "restart")
            for( std::size_t k = 1; k < t.size(); ++k)
            {
               std::vector< std::string> list;
               for( auto& w : split( t[ k]))
               {
                  std::vector< std::string> fields;
                  for( auto& f : split( w, w.find( '=') != std::string::npos ? '=' : ':')) fields.push_back( vf::quote( f));
                  list.push_back( vf::array( fields));
               }
               parts.push_back( vf::array( list));
            }
         vf::emit( Json{}( "e", event).raw( "w", vf::array( quoted)).raw( "parts", vf::array( parts))( "ok", ok)( "gone", exited).raw( "out", vf::array( std::exchange( rows, {}))));
      }

      void operator() ( const std::vector< tokens>& script)
      {
         for( auto& t : script)
         {
            if( t[ 0] == "boot") { boot( t); continue;}
            if( exited) continue;
            auto ok = stimulate( t);
            fence();
            emit( "step", t, ok);
         }
         cleanup();
         around.stop();
      }
   };
}

//! Whatever is started from here ends if it tries to signal anything but one specific process, before anyone gets the signal.
void contain()
{
   sock_filter code[] = {
      BPF_STMT( BPF_LD | BPF_W | BPF_ABS, offsetof( seccomp_data, nr)),
      BPF_JUMP( BPF_JMP | BPF_JEQ | BPF_K, SYS_kill, 0, 4),
      BPF_STMT( BPF_LD | BPF_W | BPF_ABS, offsetof( seccomp_data, args[ 0])),
      BPF_JUMP( BPF_JMP | BPF_JGE | BPF_K, 0x80000000, 1, 0),
      BPF_JUMP( BPF_JMP | BPF_JGT | BPF_K, 1, 1, 0),
      BPF_STMT( BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
      BPF_STMT( BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
   };
   sock_fprog program{ static_cast< unsigned short>( std::size( code)), code};
   auto fail = []( const char* what){ ::perror( what); ::_exit( 3);};
   if( ::prctl( PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || ::prctl( PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &program)) fail( "seccomp");

   // it works: signal 0 is only a question
   for( auto target : { -1, 0, 1, 2})
   {
      auto child = ::fork();
      if( child == 0) { ::kill( target == 2 ? ::getpid() : target, 0); ::_exit( 0);}
      int status{};
      ::waitpid( child, &status, 0);
      if( ( target == 2) == ! ( WIFEXITED( status) && WEXITSTATUS( status) == 0)) fail( "not contained");
   }
}

int main( int argc, char** argv)
{
   vf::fake::isolate( argv);
   contain();
   return vf::main( argc, argv, []( const std::vector< tokens>& script){ Driver driver; driver( script);});
}
