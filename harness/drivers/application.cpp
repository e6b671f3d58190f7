//! Conformance driver of an application: a process of its own that uses the C interfaces (XATMI, TX, XA) and does what the
//! script says. The driver is the service manager, the transaction manager, the domain manager, every other instance and every caller.
//! the C flags, before casual hides them
#include "casual/xa/flag.h"
#include "casual/xatmi/flag.h"
#include "casual/xatmi/code.h"
enum vf_flags : long
{
   VF_TMFAIL = TMFAIL,
   VF_TMJOIN = TMJOIN,
   VF_TMMIGRATE = TMMIGRATE,
   VF_TMNOMIGRATE = TMNOMIGRATE,
   VF_TMONEPHASE = TMONEPHASE,
   VF_TMREGISTER = TMREGISTER,
   VF_TMRESUME = TMRESUME,
   VF_TMSUCCESS = TMSUCCESS,
   VF_TMSUSPEND = TMSUSPEND,
   VF_TPCONV = TPCONV,
   VF_TPEBADDESC = TPEBADDESC,
   VF_TPEBLOCK = TPEBLOCK,
   VF_TPEEVENT = TPEEVENT,
   VF_TPEINVAL = TPEINVAL,
   VF_TPEITYPE = TPEITYPE,
   VF_TPELIMIT = TPELIMIT,
   VF_TPEMATCH = TPEMATCH,
   VF_TPENOENT = TPENOENT,
   VF_TPEOS = TPEOS,
   VF_TPEOTYPE = TPEOTYPE,
   VF_TPEPROTO = TPEPROTO,
   VF_TPESVCERR = TPESVCERR,
   VF_TPESVCFAIL = TPESVCFAIL,
   VF_TPESYSTEM = TPESYSTEM,
   VF_TPETIME = TPETIME,
   VF_TPETRAN = TPETRAN,
   VF_TPFAIL = TPFAIL,
   VF_TPGETANY = TPGETANY,
   VF_TPNOBLOCK = TPNOBLOCK,
   VF_TPNOCHANGE = TPNOCHANGE,
   VF_TPNOREPLY = TPNOREPLY,
   VF_TPNOTIME = TPNOTIME,
   VF_TPNOTRAN = TPNOTRAN,
   VF_TPRECVONLY = TPRECVONLY,
   VF_TPSENDONLY = TPSENDONLY,
   VF_TPSIGRSTRT = TPSIGRSTRT,
   VF_TPSUCCESS = TPSUCCESS,
   VF_TPTRAN = TPTRAN,
};

#include "fake.h"

#include "common/message/service.h"
#include "common/message/conversation.h"
#include "common/message/transaction.h"
#include "common/transaction/context.h"
#include "common/communication/ipc/message.h"
#include "common/code/xatmi.h"
#include "common/code/tx.h"
#include "common/code/xa.h"

#include "xatmi.h"
#include "tx.h"
#include "xa.h"
#include "casual/xa/code.h"
#include "casual/xatmi/server.h"
#include "casual/xatmi/explicit.h"
#include "casual/xatmi/extended.h"

#include <sys/prctl.h>

namespace
{
   using vf::tokens;

   std::vector< std::string> split( const std::string& s, char by)
   {
      std::vector< std::string> result;
      std::istringstream in{ s};
      std::string w;
      while( std::getline( in, w, by)) if( ! w.empty() && w != "-") result.push_back( w);
      return result;
   }

   const std::map< std::string, int> xa_codes{ { "ok", int( casual::common::code::xa::ok)}, { "read_only", int( casual::common::code::xa::read_only)}, { "rollback_unspecified", int( casual::common::code::xa::rollback_unspecified)}, { "rollback_timeout", int( casual::common::code::xa::rollback_timeout)},
      { "rollback_other", int( casual::common::code::xa::rollback_other)}, { "rollback_deadlock", int( casual::common::code::xa::rollback_deadlock)}, { "heuristic_mix", int( casual::common::code::xa::heuristic_mix)}, { "heuristic_hazard", int( casual::common::code::xa::heuristic_hazard)}, { "heuristic_rollback", int( casual::common::code::xa::heuristic_rollback)}, { "heuristic_commit", int( casual::common::code::xa::heuristic_commit)},
      { "invalid_xid", int( casual::common::code::xa::invalid_xid)}, { "argument", int( casual::common::code::xa::argument)}, { "protocol", int( casual::common::code::xa::protocol)}, { "resource_error", int( casual::common::code::xa::resource_error)}, { "resource_fail", int( casual::common::code::xa::resource_fail)},
      { "duplicate_xid", int( casual::common::code::xa::duplicate_xid)}, { "outside", int( casual::common::code::xa::outside)}, { "retry", int( casual::common::code::xa::retry)}};

   //! what the application process is
   namespace app
   {
      int in = -1, out = -1;
      std::map< std::pair< int, std::string>, std::deque< int>> planned;
      std::map< long, XID> xids;
      std::map< long, int> descriptors;
      bool client = true;

      void say( const std::string& line)
      {
         auto text = line + "\n";
         for( std::size_t done = 0; done < text.size();)
         {
            auto n = ::write( out, text.data() + done, text.size() - done);
            if( n <= 0) ::_exit( 7);
            done += n;
         }
      }
      std::string hex( const XID& xid)
      {
         if( xid.formatID == -1) return "null";
         std::string result = std::to_string( xid.formatID) + ":" + std::to_string( xid.gtrid_length) + ":" + std::to_string( xid.bqual_length) + ":";
         for( long k = 0; k < xid.gtrid_length + xid.bqual_length && k < XIDDATASIZE; ++k)
         {
            char b[ 3];
            std::snprintf( b, sizeof b, "%02x", static_cast< unsigned char>( xid.data[ k]));
            result += b;
         }
         return result;
      }

      std::string pending;

      //! the codes that have been planned since the last command
      void plan()
      {
         ::pollfd p{ in, POLLIN, 0};
         while( ::poll( &p, 1, 0) > 0 && ( p.revents & POLLIN))
         {
            char block[ 512];
            auto n = ::read( in, block, sizeof block);
            if( n <= 0) break;
            pending.append( block, n);
         }
         while( pending.starts_with( "xa "))
         {
            auto at = pending.find( '\n');
            if( at == std::string::npos) break;
            std::istringstream s{ pending.substr( 3, at)};
            pending.erase( 0, at + 1);
            int rm;
            std::string entry, code;
            s >> rm >> entry >> code;
            planned[ { rm, entry}].push_back( xa_codes.at( code));
         }
      }

      int xa( const char* entry, const XID* xid, int rm, long flags)
      {
         plan();
         auto& codes = planned[ { rm, entry}];
         int code = int( casual::common::code::xa::ok);
         if( ! codes.empty()) { code = codes.front(); codes.pop_front();}
         std::string names;
         auto add = [ &]( long flag, const char* name){ if( flags & flag) { names += ( names.empty() ? "" : "+") + std::string{ name}; flags &= ~flag;}};
         add( VF_TMJOIN, "join"); add( VF_TMRESUME, "resume"); add( VF_TMSUCCESS, "success"); add( VF_TMFAIL, "fail"); add( VF_TMSUSPEND, "suspend"); add( VF_TMONEPHASE, "one"); add( VF_TMMIGRATE, "migrate");
         if( flags) names += "?" + std::to_string( flags);
         say( "xa " + std::to_string( rm) + " " + entry + " " + ( xid ? hex( *xid) : "-") + " " + ( names.empty() ? "-" : names));
         return code;
      }

      extern "C" {
      static int vf_xa_open( const char* info, int rm, long flags) { return xa( "open", nullptr, rm, flags);}
      static int vf_xa_close( const char* info, int rm, long flags) { return xa( "close", nullptr, rm, flags);}
      static int vf_xa_start( XID* xid, int rm, long flags) { return xa( "start", xid, rm, flags);}
      static int vf_xa_end( XID* xid, int rm, long flags) { return xa( "end", xid, rm, flags);}
      static int vf_xa_rollback( XID* xid, int rm, long flags) { return xa( "rollback", xid, rm, flags);}
      static int vf_xa_prepare( XID* xid, int rm, long flags) { return xa( "prepare", xid, rm, flags);}
      static int vf_xa_commit( XID* xid, int rm, long flags) { return xa( "commit", xid, rm, flags);}
      static int vf_xa_recover( XID* xid, long count, int rm, long flags) { return 0;}
      static int vf_xa_forget( XID* xid, int rm, long flags) { return xa( "forget", xid, rm, flags);}
      static int vf_xa_complete( int* handle, int* result, int rm, long flags) { return int( casual::common::code::xa::ok);}
      }
      xa_switch_t fixed{ "vf-fixed", VF_TMNOMIGRATE, 0, vf_xa_open, vf_xa_close, vf_xa_start, vf_xa_end, vf_xa_rollback, vf_xa_prepare, vf_xa_commit, vf_xa_recover, vf_xa_forget, vf_xa_complete};
      xa_switch_t dynamic{ "vf-dynamic", VF_TMREGISTER, 0, vf_xa_open, vf_xa_close, vf_xa_start, vf_xa_end, vf_xa_rollback, vf_xa_prepare, vf_xa_commit, vf_xa_recover, vf_xa_forget, vf_xa_complete};

      std::string line()
      {
         auto& buffer = pending;
         while( true)
         {
            plan();
            auto at = buffer.find( '\n');
            if( at != std::string::npos)
            {
               auto result = buffer.substr( 0, at);
               buffer.erase( 0, at + 1);
               return result;
            }
            char block[ 512];
            auto n = ::read( in, block, sizeof block);
            if( n == -1 && errno == EINTR) continue;
            if( n <= 0) ::_exit( 0);
            buffer.append( block, n);
         }
      }

      long flags( const std::string& names)
      {
         static const std::map< std::string, long> values{ { "notran", VF_TPNOTRAN}, { "noreply", VF_TPNOREPLY}, { "noblock", VF_TPNOBLOCK}, { "notime", VF_TPNOTIME},
            { "nochange", VF_TPNOCHANGE}, { "any", VF_TPGETANY}, { "recvonly", VF_TPRECVONLY}, { "sendonly", VF_TPSENDONLY}, { "sigrstrt", VF_TPSIGRSTRT}, { "conv", VF_TPCONV}};
         long result = 0;
         for( auto& name : split( names, ',')) result |= values.at( name);
         return result;
      }
      char* buffer( const std::string& data)
      {
         auto result = ::tpalloc( X_OCTET, nullptr, 128);
         std::snprintf( result, 128, "%s", data.c_str());
         return result;
      }
      std::string text( const char* data, long size)
      {
         std::string result;
         for( long k = 0; data && k < size && data[ k]; ++k) result += data[ k];
         return result.empty() ? "-" : result;
      }

      std::string info()
      {
         TXINFO info{};
         auto in = ::tx_info( &info);
         return std::to_string( in) + " " + hex( info.xid) + " " + std::to_string( info.transaction_state) + " " + std::to_string( info.transaction_control);
      }
      void result( int ret, int err = 0, long user = 0, const std::string& data = "-", long cd = 0, long event = 0)
      {
         say( "res " + std::to_string( ret) + " " + std::to_string( err) + " " + std::to_string( user) + " " + data + " " + std::to_string( cd) + " " + std::to_string( event) + " " + info());
      }
      int descriptor( long n)
      {
         auto found = descriptors.find( n);
         return found == descriptors.end() ? 9999 : found->second;
      }

      //! the line with a return is kept until there is nothing left with a destructor
      struct { bool forward; int value; long code; char data[ 64]; char service[ 64];} back;

      //! @return true if the service should return
      bool step( const tokens& t)
      {
         auto& c = t[ 0];
         auto n = [ &]( int k){ return vf::number( t.at( k));};
         if( c == "begin") result( ::tx_begin());
         else if( c == "commit") result( ::tx_commit());
         else if( c == "rollback") result( ::tx_rollback());
         else if( c == "suspend")
         {
            XID xid{};
            xid.formatID = -1;
            auto ret = ::tx_suspend( &xid);
            if( ret == int( casual::common::code::tx::ok)) xids[ n( 1)] = xid;
            result( ret, 0, 0, ret == int( casual::common::code::tx::ok) ? hex( xid) : "-");
         }
         else if( c == "resume")
         {
            XID xid{};
            xid.formatID = -1;
            if( auto found = xids.find( n( 1)); found != xids.end()) xid = found->second;
            result( ::tx_resume( &xid));
         }
         else if( c == "control") result( ::tx_set_transaction_control( n( 1)));
         else if( c == "creturn") result( ::tx_set_commit_return( n( 1)));
         else if( c == "timeout") result( ::tx_set_transaction_timeout( n( 1)));
         else if( c == "axreg")
         {
            XID xid{};
            auto ret = ::ax_reg( int( n( 1)), &xid, 0);
            result( ret, 0, 0, ret >= 0 ? hex( xid) : "-");
         }
         else if( c == "axunreg") result( ::ax_unreg( int( n( 1)), 0));
         else if( c == "call")
         {
            auto send = buffer( t[ 3]);
            auto receive = buffer( "");
            long size = 0;
            auto ret = ::tpcall( t[ 1].c_str(), send, 128, &receive, &size, flags( t[ 2]));
            auto err = tperrno;
            result( ret, err, tpurcode, text( receive, size));
            ::tpfree( send);
            ::tpfree( receive);
         }
         else if( c == "acall")
         {
            // acall n svc flags data
            auto send = buffer( t[ 4]);
            auto ret = ::tpacall( t[ 2].c_str(), send, 128, flags( t[ 3]));
            if( ret > 0) descriptors[ n( 1)] = ret;
            result( ret, tperrno, tpurcode);
            ::tpfree( send);
         }
         else if( c == "getrply")
         {
            auto cd = t[ 1] == "any" ? 9998 : descriptor( n( 1));
            auto receive = buffer( "");
            long size = 0;
            auto ret = ::tpgetrply( &cd, &receive, &size, flags( t[ 2]));
            result( ret, tperrno, tpurcode, text( receive, size), cd);
            ::tpfree( receive);
         }
         else if( c == "cancel") { auto ret = ::tpcancel( descriptor( n( 1))); result( ret, tperrno, tpurcode);}
         else if( c == "connect")
         {
            auto send = buffer( t[ 4]);
            auto ret = ::tpconnect( t[ 2].c_str(), send, 128, flags( t[ 3]));
            if( ret >= 0) descriptors[ n( 1)] = ret;
            result( ret, tperrno, tpurcode);
            ::tpfree( send);
         }
         else if( c == "send")
         {
            auto send = buffer( t[ 3]);
            long event = 0;
            auto ret = ::tpsend( descriptor( n( 1)), send, 128, flags( t[ 2]), &event);
            result( ret, tperrno, tpurcode, "-", 0, event);
            ::tpfree( send);
         }
         else if( c == "recv")
         {
            auto receive = buffer( "");
            long size = 0, event = 0;
            auto ret = ::tprecv( descriptor( n( 1)), &receive, &size, flags( t[ 2]), &event);
            result( ret, tperrno, tpurcode, text( receive, size), 0, event);
            ::tpfree( receive);
         }
         else if( c == "discon") { auto ret = ::tpdiscon( descriptor( n( 1))); result( ret, tperrno, tpurcode);}
         else if( c == "return")
         {
            back.forward = false;
            back.value = t[ 1] == "success" ? VF_TPSUCCESS : VF_TPFAIL;
            back.code = n( 2);
            std::snprintf( back.data, sizeof back.data, "%s", t[ 3].c_str());
            return true;
         }
         else if( c == "forward")
         {
            back.forward = true;
            std::snprintf( back.service, sizeof back.service, "%s", t[ 1].c_str());
            std::snprintf( back.data, sizeof back.data, "%s", t[ 2].c_str());
            return true;
         }
         else ::_exit( 9);
         return false;
      }

      void work( TPSVCINFO* service)
      {
         if( service)
         {
            std::string names;
            auto add = [ &]( long flag, const char* name){ if( service->flags & flag) names += ( names.empty() ? "" : "+") + std::string{ name};};
            add( VF_TPCONV, "conv"); add( VF_TPTRAN, "tran"); add( VF_TPNOREPLY, "noreply"); add( VF_TPSENDONLY, "sendonly"); add( VF_TPRECVONLY, "recvonly");
            if( service->flags & VF_TPCONV) descriptors[ 0] = service->cd;
            say( "enter " + std::string{ service->name} + " " + ( names.empty() ? "-" : names) + " " + text( service->data, service->len) + " " + info());
         }
         while( true)
         {
            auto command = line();
            tokens t;
            std::istringstream s{ command};
            for( std::string w; s >> w;) t.push_back( w);
            if( ! t.empty() && step( t)) return;
         }
      }

      extern "C" void vf_service( TPSVCINFO* service)
      {
         work( service);
         auto data = buffer( back.data);
         if( back.forward)
            ::casual_service_forward( back.service, data, 128);
         else
            ::tpreturn( back.value, back.code, data, 128, 0);
      }

      int main( int argc, char** argv)
      {
         using namespace casual::common;
         ::prctl( PR_SET_PDEATHSIG, SIGKILL);
         in = std::stoi( argv[ 2]);
         out = std::stoi( argv[ 3]);
         client = std::string{ argv[ 4]} == "client";
         static std::vector< std::string> names;
         static std::vector< casual_xa_switch_map> switches;
         std::vector< transaction::resource::Link> links;
         for( auto& rm : split( argv[ 5], ','))
            names.push_back( rm);
         for( auto& rm : names)
         {
            auto n = new std::string{ "rm" + rm.substr( 0, rm.find( ':'))};
            auto s = rm.back() == 'd' ? &dynamic : &fixed;
            links.emplace_back( "k", *n, s);
            switches.push_back( { "k", n->c_str(), s});
         }
         switches.push_back( { nullptr, nullptr, nullptr});
         try
         {
            if( client)
            {
               transaction::Context::instance().configure( links);
               say( "ready");
               while( true) work( nullptr);
            }
            casual_service_definition services[] = {
               { vf_service, "automatic", "", 0, 1},
               { vf_service, "join", "", 1, 1},
               { vf_service, "atomic", "", 2, 1},
               { vf_service, "none", "", 3, 1},
               { vf_service, "branch", "", 4, 1},
               { nullptr, nullptr, nullptr, 0, 0}};
            casual_server_arguments_v2 arguments{ services, nullptr, nullptr, 1, argv, switches.data()};
            return casual_run_server_v2( &arguments);
         }
         catch( ...)
         {
            std::cerr << casual::common::exception::capture().what() << '\n';
            return 3;
         }
      }
   } // app

   using namespace casual;
   using namespace casual::common;
   using vf::Json;

   const std::vector< std::pair< int, const char*>> xatmi_names{ { 0, "ok"}, { VF_TPEBADDESC, "descriptor"}, { VF_TPEBLOCK, "block"}, { VF_TPEINVAL, "argument"}, { VF_TPELIMIT, "limit"},
      { VF_TPENOENT, "no_entry"}, { VF_TPEOS, "os"}, { VF_TPEPROTO, "protocol"}, { VF_TPESVCERR, "service_error"}, { VF_TPESVCFAIL, "service_fail"}, { VF_TPESYSTEM, "system"}, { VF_TPETIME, "timeout"},
      { VF_TPETRAN, "transaction"}, { VF_TPEITYPE, "itype"}, { VF_TPEOTYPE, "otype"}, { VF_TPEEVENT, "event"}, { VF_TPEMATCH, "match"}, { int( casual::common::code::xatmi::absent), "absent"}};
   std::string xatmi( int code)
   {
      for( auto& [ value, name] : xatmi_names) if( value == code) return name;
      return "?" + std::to_string( code);
   }
   code::xatmi xatmi( const std::string& name)
   {
      if( name == "absent") return code::xatmi::absent;
      for( auto& [ value, n] : xatmi_names) if( n == name) return code::xatmi{ value};
      throw std::runtime_error( "no such code " + name);
   }
   const std::vector< std::pair< int, const char*>> tx_names{ { int( casual::common::code::tx::ok), "ok"}, { int( casual::common::code::tx::outside), "outside"}, { int( casual::common::code::tx::rollback), "rollback"}, { int( casual::common::code::tx::mixed), "mixed"}, { int( casual::common::code::tx::hazard), "hazard"},
      { int( casual::common::code::tx::protocol), "protocol"}, { int( casual::common::code::tx::error), "error"}, { int( casual::common::code::tx::fail), "fail"}, { int( casual::common::code::tx::argument), "argument"}, { int( casual::common::code::tx::committed), "committed"}, { int( casual::common::code::tx::no_begin), "no_begin"},
      { int( casual::common::code::tx::no_begin_rollback), "rollback_no_begin"}, { int( casual::common::code::tx::no_begin_mixed), "mixed_no_begin"}, { int( casual::common::code::tx::no_begin_hazard), "hazard_no_begin"}, { int( casual::common::code::tx::no_begin_committed), "committed_no_begin"}};
   std::string tx( int code)
   {
      for( auto& [ value, name] : tx_names) if( value == code) return name;
      return "?" + std::to_string( code);
   }
   code::tx tx( const std::string& name)
   {
      for( auto& [ value, n] : tx_names) if( n == name) return code::tx{ value};
      throw std::runtime_error( "no such code " + name);
   }
   const std::vector< std::string> state_names{ "ok", "rollback", "timeout", "error"};
   message::service::transaction::State state( const std::string& name)
   {
      for( std::size_t k = 0; k < state_names.size(); ++k) if( state_names[ k] == name) return message::service::transaction::State( k);
      throw std::runtime_error( "no such state " + name);
   }
   std::string text( message::service::transaction::State value)
   {
      auto k = std::size_t( value);
      return k < state_names.size() ? state_names[ k] : "?";
   }

   struct Driver
   {
      vf::fake::Surroundings around;       // me is the service manager
      using complete_type = vf::Inbox::complete_type;
      using Type = message::Type;

      unsigned run = 0;
      pid_t pid = -1;
      int to = -1, from = -1;
      std::string buffer;
      bool client = true;
      process::Handle server;
      bool advertised = false, ready = false;

      std::map< long, std::unique_ptr< vf::Inbox>> instances;
      std::map< long, strong::ipc::id> gone;
      vf::Inbox caller;

      struct Call { strong::correlation::id correlation; process::Handle app; long instance = 0; strong::execution::id execution;};
      std::map< long, Call> calls;                       // by number
      std::map< strong::correlation::id, long> numbers;
      std::map< long, Call> lookups;
      struct { Type type{}; strong::correlation::id correlation; process::Handle app; transaction::ID trid;} tm;    // what the transaction manager has not replied to
      std::map< long, strong::correlation::id> serving;
      long lookup_count = 0;
      std::map< std::string, std::string> names;         // xid -> name
      long fresh = 0;
      std::string foreign_gtrid;
      long foreign = 0;

      std::vector< std::string> sent, xas;
      std::string result;
      bool answered = false;
      std::string entered;

      void out( std::vector< std::string> words)
      {
         for( auto& w : words) w = vf::quote( w);
         sent.push_back( vf::array( words));
      }
      std::string name( const std::string& hex)
      {
         if( hex == "null" || hex == "-") return "0";
         if( auto found = names.find( hex); found != names.end()) return found->second;
         // a branch of the one we have got?
         auto parts = split( hex, ':');
         long size = parts.size() == 4 ? std::stol( parts[ 1]) * 2 : 0;
         auto is_branch = foreign && parts.size() == 4 && parts[ 3].substr( 0, size) == foreign_gtrid;
         if( is_branch)
         {
            auto result = std::to_string( foreign + 50);
            for( auto& [ h, n] : names) if( n == result) return "?" + n;
            return names[ hex] = result;
         }
         if( ! fresh) return "?";
         auto result = std::to_string( std::exchange( fresh, 0));
         return names[ hex] = result;
      }
      std::string name( const transaction::ID& trid)
      {
         return trid.null() ? "0" : name( app::hex( trid.xid));
      }
      std::string id( const strong::correlation::id& correlation)
      {
         auto found = numbers.find( correlation);
         return found == numbers.end() ? "?" : std::to_string( found->second);
      }

      std::vector< vf::Inbox*> inboxes()
      {
         std::vector< vf::Inbox*> result{ &around.dm, &around.discovery, &around.tm, &around.me, &caller};
         for( auto& [ i, inbox] : instances) if( inbox) result.push_back( inbox.get());
         return result;
      }
      std::string who( vf::Inbox& inbox)
      {
         if( &inbox == &caller) return "caller";
         if( &inbox == &around.me) return "sm";
         if( &inbox == &around.tm) return "tm";
         for( auto& [ i, value] : instances) if( value.get() == &inbox) return std::to_string( i);
         return "?";
      }
      static std::string data( const common::buffer::Payload& payload)
      {
         return app::text( reinterpret_cast< const char*>( payload.data.data()), payload.data.size());
      }
      static common::buffer::Payload payload( const std::string& text)
      {
         platform::binary::type bytes( 128);
         for( std::size_t k = 0; k < text.size(); ++k) bytes[ k] = std::byte( text[ k]);
         return { std::string{ X_OCTET} + "/", std::move( bytes)};
      }
      template< typename R>
      std::string rms( const R& range)
      {
         std::set< long> ids;
         for( auto r : range) ids.insert( r.value());
         std::string csv;
         for( auto r : ids) csv += ( csv.empty() ? "" : ",") + std::to_string( r);
         return ids.size() == std::size_t( range.size()) ? ( csv.empty() ? "-" : csv) : csv + "?";
      }
      static std::string expires( const std::optional< platform::time::point::type>& deadline) { return deadline ? "deadline" : "-";}

      bool consume( vf::Inbox& inbox, complete_type& complete)
      {
         switch( complete.type())
         {
            case Type::service_name_lookup_request:
            {
               auto m = vf::as< message::service::lookup::Request>( complete);
               auto n = ++lookup_count;
               numbers[ m.correlation] = n;
               calls[ n] = { m.correlation, m.process, 0, m.execution};
               lookups[ n] = calls[ n];
               using Semantic = decltype( m.context.semantic);
               out( { "lookup", std::to_string( n), m.requested, m.context.semantic == Semantic::no_reply ? "noreply" : m.context.semantic == Semantic::regular ? "regular" : "?", expires( m.deadline)});
               return true;
            }
            case Type::service_name_lookup_discard_request:
            {
               auto m = vf::as< message::service::lookup::discard::Request>( complete);
               out( { "discard", id( m.correlation)});
               auto reply = message::reverse::type( m);
               reply.state = decltype( reply.state)::discarded;
               vf::try_send( m.process.ipc, reply);
               return true;
            }
            case Type::service_acknowledge:
            {
               auto m = vf::as< message::service::call::ACK>( complete);
               out( { "ack", id( m.correlation), xatmi( int( m.metric.code.result))});
               return true;
            }
            case Type::service_advertise:
            {
               auto m = vf::as< message::service::Advertise>( complete);
               server = m.process;
               advertised = true;
               return true;
            }
            case Type::service_call:
            {
               auto m = vf::as< message::service::call::callee::Request>( complete);
               using Flag = decltype( m.flags);
               out( { "call", who( inbox), id( m.correlation), m.service.name, name( m.trid), flag::contains( m.flags, Flag::no_reply) ? "noreply" : "-", data( m.buffer)});
               if( auto found = numbers.find( m.correlation); found != numbers.end())
                  calls[ found->second].app = m.process;
               return true;
            }
            case Type::conversation_connect_request:
            {
               auto m = vf::as< message::conversation::connect::callee::Request>( complete);
               out( { "connect", who( inbox), id( m.correlation), m.service.name, name( m.trid), m.duplex == decltype( m.duplex)::send ? "send" : m.duplex == decltype( m.duplex)::receive ? "receive" : "?", data( m.buffer)});
               if( auto found = numbers.find( m.correlation); found != numbers.end())
                  calls[ found->second].app = m.process;
               return true;
            }
            case Type::conversation_connect_reply:
            {
               auto m = vf::as< message::conversation::connect::Reply>( complete);
               out( { "connected", id( m.correlation)});
               return true;
            }
            case Type::conversation_send:
            {
               auto m = vf::as< message::conversation::callee::Send>( complete);
               using Duplex = decltype( m.duplex);
               out( { "send", who( inbox), id( m.correlation), m.code.result != code::xatmi::absent ? "terminated" : m.duplex == Duplex::send ? "send" : m.duplex == Duplex::receive ? "receive" : "terminated",
                  xatmi( int( m.code.result)), std::to_string( m.code.user), text( m.transaction_state), data( m.buffer)});
               return true;
            }
            case Type::conversation_disconnect:
            {
               auto m = vf::as< message::conversation::Disconnect>( complete);
               out( { "disconnect", who( inbox), id( m.correlation)});
               return true;
            }
            case Type::service_reply:
            {
               auto m = vf::as< message::service::call::Reply>( complete);
               out( { "reply", who( inbox), id( m.correlation), xatmi( int( m.code.result)), std::to_string( m.code.user), text( m.transaction_state), data( m.buffer)});
               return true;
            }
            case Type::transaction_configuration_alias_request:
            {
               auto m = vf::as< message::transaction::configuration::alias::Request>( complete);
               auto reply = message::reverse::type( m);
               for( auto& name : m.resources)
               {
                  message::transaction::configuration::Resource resource;
                  resource.key = "k";
                  resource.name = name;
                  resource.id = strong::resource::id{ vf::number( name.substr( 2))};
                  reply.resources.push_back( resource);
               }
               vf::try_send( m.process.ipc, reply);
               return true;
            }
            case Type::transaction_resource_involved_request:
            {
               auto m = vf::as< message::transaction::resource::involved::Request>( complete);
               out( { "involved", name( m.trid), rms( m.involved), m.reply ? "reply" : "-"});
               if( m.reply) tm = { m.type(), m.correlation, m.process, m.trid};
               return true;
            }
            case Type::transaction_commit_request:
            {
               auto m = vf::as< message::transaction::commit::Request>( complete);
               out( { "commit", name( m.trid), rms( m.involved)});
               tm = { m.type(), m.correlation, m.process, m.trid};
               return true;
            }
            case Type::transaction_rollback_request:
            {
               auto m = vf::as< message::transaction::rollback::Request>( complete);
               out( { "rollback", name( m.trid), rms( m.involved)});
               tm = { m.type(), m.correlation, m.process, m.trid};
               return true;
            }
            case Type::event_error:
            case Type::event_notification:
            case Type::event_process_exit:
            case Type::event_service_call:
               return true;
            default:
               return around.serve( complete);
         }
      }

      bool lines()
      {
         bool any = false;
         while( true)
         {
            char block[ 4096];
            auto n = ::read( from, block, sizeof block);
            if( n <= 0) break;
            any = true;
            buffer.append( block, n);
         }
         for( std::size_t at; ( at = buffer.find( '\n')) != std::string::npos;)
         {
            auto line = buffer.substr( 0, at);
            buffer.erase( 0, at + 1);
            tokens t;
            std::istringstream s{ line};
            for( std::string w; s >> w;) t.push_back( w);
            if( t.empty()) continue;
            if( t[ 0] == "ready") ready = true;
            else if( t[ 0] == "xa")
            {
               if( t[ 2] == "open" && ! booted) continue;
               std::vector< std::string> words{ t[ 1], t[ 2], t[ 3] == "-" ? "-" : name( t[ 3]), t[ 4]};
               for( auto& w : words) w = vf::quote( w);
               xas.push_back( vf::array( words));
            }
            else if( t[ 0] == "res") { result = line; answered = true;}
            else if( t[ 0] == "enter") { entered = line; answered = true;}
         }
         return any;
      }
      bool booted = false;

      bool drain()
      {
         bool any = lines();
         around.drain( inboxes(), [ &]( auto& inbox, auto& complete)
         {
            any = true;
            auto type = complete.type();
            if( ! consume( inbox, complete))
            {
               vf::emit( Json{}( "e", "unexpected")( "type", long( type)));
               throw vf::Timeout{};
            }
         });
         return any;
      }

      [[noreturn]] void silent( const std::string& what)
      {
         int status{};
         auto dead = ::waitpid( pid, &status, WNOHANG) > 0;
         if( dead) pid = -1;
         vf::emit( Json{}( "e", "timeout")( "what", what)( "gone", dead)( "status", status));
         throw vf::Timeout{};
      }

      //! state and number of switches
      std::string activity()
      {
         std::string result;
         std::ifstream in{ "/proc/" + std::to_string( pid) + "/status"};
         std::string line;
         while( std::getline( in, line))
            if( line.starts_with( "State") || line.starts_with( "voluntary") || line.starts_with( "nonvoluntary")) result += line;
         return result;
      }

      //! until the application has answered, or waits for somebody
      //! @return true if it has answered
      void settle()
      {
         auto end = vf::clock::now() + std::chrono::seconds{ 10};
         std::string before;
         int still = 0;
         while( true)
         {
            auto done = answered;
            if( drain()) { still = 0; before.clear(); continue;}
            if( done) return;
            auto now = activity();
            if( now.find( "State:\tS") != std::string::npos && now == before)
            {
               if( ++still > 3) return;
            }
            else
            {
               if( now.empty() || now.find( "State:\tZ") != std::string::npos) silent( "gone");
               still = 0;
               before = now;
            }
            if( vf::clock::now() > end) silent( "settle");
            ::usleep( 700);
         }
      }

      void tell( const std::string& line)
      {
         auto text = line + "\n";
         if( ::write( to, text.data(), text.size()) != ssize_t( text.size())) silent( "pipe");
      }

      void stop()
      {
         if( pid > 0)
         {
            ::kill( pid, SIGKILL);
            int status{};
            while( ::waitpid( pid, &status, 0) == -1 && errno == EINTR)
               ;
         }
         pid = -1;
         if( to >= 0) ::close( to);
         if( from >= 0) ::close( from);
         to = from = -1;
         buffer.clear(); instances.clear(); gone.clear(); calls.clear(); numbers.clear(); lookups.clear(); serving.clear(); names.clear();
         tm = {};
         lookup_count = fresh = foreign = 0;
         sent.clear(); xas.clear();
         advertised = ready = answered = booted = false;
         for( auto inbox : { &around.dm, &around.discovery, &around.tm, &around.me, &caller}) while( inbox->poll()) ;
         around.connected.clear();
         around.singletons.clear();
      }

      void boot( const tokens& t)
      {
         stop();
         ++run;
         client = t[ 1] == "client";
         auto set = []( std::string_view name, const process::Handle& value){ environment::variable::set( name, value);};
         set( environment::variable::name::ipc::service::manager, { vf::fake::pid( 4), around.me.ipc()});
         for( long i = 1; i <= 3; ++i) instances[ i] = std::make_unique< vf::Inbox>();
         int down[ 2], up[ 2];
         if( ::pipe( down) || ::pipe( up)) throw std::runtime_error( "pipe");
         ::fcntl( down[ 1], F_SETFD, FD_CLOEXEC);
         ::fcntl( up[ 0], F_SETFD, FD_CLOEXEC);
         std::vector< std::string> variables;
         for( auto& variable : environment::variable::current()) variables.push_back( std::string{ static_cast< std::string_view>( variable)});
         std::vector< char*> raw;
         for( auto& variable : variables) raw.push_back( variable.data());
         raw.push_back( nullptr);
         pid = ::fork();
         if( pid == 0)
         {
            auto in = std::to_string( down[ 0]), out = std::to_string( up[ 1]);
            ::execle( "/proc/self/exe", "drv_application", "--app", in.c_str(), out.c_str(), t[ 1].c_str(), t[ 2].c_str(), nullptr, raw.data());
            ::_exit( 127);
         }
         ::close( down[ 0]);
         ::close( up[ 1]);
         to = down[ 1];
         from = up[ 0];
         ::fcntl( from, F_SETFL, O_NONBLOCK);
         around.pid = strong::process::id{ pid};
         auto end = vf::clock::now() + std::chrono::seconds{ 10};
         while( ! ( client ? ready : advertised))
         {
            if( ! drain()) ::usleep( 500);
            if( vf::clock::now() > end || activity().find( "State:\tZ") != std::string::npos) silent( "boot");
         }
         settle();
         booted = true;
         sent.clear();
         xas.clear();
         answered = false;
         std::vector< std::string> fix, all;
         if( t[ 2] != "-")
         {
            std::istringstream part{ t[ 2]};
            for( std::string w; std::getline( part, w, ',');)
            {
               auto at = w.find( ':');
               all.push_back( w.substr( 0, at));
               if( w.substr( at + 1) == "f") fix.push_back( w.substr( 0, at));
            }
         }
         vf::emit( Json{}( "e", "boot")( "mode", t[ 1]).raw( "fix", vf::array( fix)).raw( "all", vf::array( all)));
      }

      void finish( Json& json)
      {
         json.raw( "out", vf::array( sent)).raw( "xa", vf::array( xas));
         std::vector< std::string> r;
         tokens t;
         auto line = ! entered.empty() ? entered : result;
         std::istringstream s{ line};
         for( std::string w; s >> w;) t.push_back( w);
         auto txinfo = [ &]( std::size_t k) { return std::vector< std::string>{ t[ k], name( t[ k + 1]), t[ k + 2], t[ k + 3]};};
         std::vector< std::string> info;
         if( ! t.empty() && t[ 0] == "res") { r = { "res", t[ 1], xatmi( std::stoi( t[ 2])), t[ 3], t[ 4].starts_with( "0:0:0") ? "0" : t[ 4].find( ":16:") != std::string::npos ? name( t[ 4]) : t[ 4], t[ 5], t[ 6]}; info = txinfo( 7);}
         else if( ! t.empty() && t[ 0] == "enter") { r = { "enter", t[ 1], t[ 2], t[ 3]}; info = txinfo( 4);}
         for( auto& w : r) w = vf::quote( w);
         for( auto& w : info) w = vf::quote( w);
         json.raw( "res", vf::array( r)).raw( "info", vf::array( info));
         sent.clear(); xas.clear(); result.clear(); entered.clear();
         answered = false;
         vf::emit( json);
      }

      void step( const tokens& t)
      {
         auto& c = t[ 0];
         if( c == "boot") { boot( t); return;}
         Json json;
         auto n = [ &]( int k){ return vf::number( t[ k]);};
         std::vector< std::string> words;
         for( auto& w : t) words.push_back( vf::quote( w));
         if( c == "xa")
         {
            std::string line = "xa " + t[ 1] + " " + t[ 2] + " " + t[ 3];
            tell( line);
            json( "e", "xa").raw( "w", vf::array( words));
            sent.clear();
            vf::emit( json);
            return;
         }
         json( "e", c).raw( "w", vf::array( words));
         if( c == "op")
         {
            // op <fresh> what ...
            fresh = n( 1);
            std::string line;
            for( std::size_t k = 2; k < t.size(); ++k) line += ( k > 2 ? " " : "") + t[ k];
            tell( line);
         }
         else if( c == "lookup")
         {
            // lookup n idle i | absent | timeout
            auto found = lookups.find( n( 1));
            if( found == lookups.end()) { skipped( json); return;}
            message::service::lookup::Reply reply;
            reply.correlation = found->second.correlation;
            reply.service.name = "s" + t[ 1];
            reply.service.requested = "s";
            if( t[ 2] == "idle")
            {
               reply.state = decltype( reply.state)::idle;
               auto i = n( 3);
               auto ipc = instances.at( i) ? instances.at( i)->ipc() : gone.at( i);
               reply.process = { vf::fake::pid( 10 + int( i)), ipc};
            }
            else reply.state = t[ 2] == "absent" ? decltype( reply.state)::absent : decltype( reply.state)::timeout;
            vf::try_send( found->second.app.ipc, reply);
            lookups.erase( found);
         }
         else if( c == "reply")
         {
            // reply n code user state
            auto found = calls.find( n( 1));
            if( found == calls.end()) { skipped( json); return;}
            message::service::call::Reply reply;
            reply.correlation = found->second.correlation;
            reply.code.result = xatmi( t[ 2]);
            reply.code.user = n( 3);
            reply.transaction_state = state( t[ 4]);
            reply.buffer = payload( "r" + t[ 1]);
            vf::try_send( found->second.app.ipc, reply);
         }
         else if( c == "tm")
         {
            // tm rs | tm code stage
            switch( tm.type)
            {
               case Type::transaction_resource_involved_request:
               {
                  message::transaction::resource::involved::Reply reply;
                  reply.correlation = tm.correlation;
                  for( auto& r : split( t[ 3], ',')) reply.involved.emplace_back( vf::number( r));
                  vf::try_send( tm.app.ipc, reply);
                  break;
               }
               case Type::transaction_commit_request:
               {
                  message::transaction::commit::Reply reply;
                  reply.correlation = tm.correlation;
                  reply.state = tx( t[ 1]);
                  reply.stage = t[ 2] == "prepare" ? decltype( reply.stage)::prepare : t[ 2] == "rollback" ? decltype( reply.stage)::rollback : decltype( reply.stage)::commit;
                  vf::try_send( tm.app.ipc, reply);
                  break;
               }
               case Type::transaction_rollback_request:
               {
                  message::transaction::rollback::Reply reply;
                  reply.correlation = tm.correlation;
                  reply.state = tx( t[ 1]);
                  vf::try_send( tm.app.ipc, reply);
                  break;
               }
               default: skipped( json); return;
            }
         }
         else if( c == "connected")
         {
            // connected n code
            auto found = calls.find( n( 1));
            if( found == calls.end()) { skipped( json); return;}
            message::conversation::connect::Reply reply;
            reply.correlation = found->second.correlation;
            reply.process = { vf::fake::pid( 11), around.me.ipc()};
            reply.code.result = xatmi( t[ 2]);
            vf::try_send( found->second.app.ipc, reply);
         }
         else if( c == "send")
         {
            // send n duplex code user state data (to the application)
            auto found = calls.find( n( 1));
            if( found == calls.end()) { skipped( json); return;}
            message::conversation::callee::Send m;
            m.correlation = found->second.correlation;
            m.duplex = t[ 2] == "send" ? decltype( m.duplex)::send : t[ 2] == "receive" ? decltype( m.duplex)::receive : decltype( m.duplex)::terminated;
            m.code.result = xatmi( t[ 3]);
            m.code.user = n( 4);
            m.transaction_state = state( t[ 5]);
            m.buffer = payload( t[ 6]);
            vf::try_send( found->second.app.ipc, m);
         }
         else if( c == "disconnect")
         {
            auto found = calls.find( n( 1));
            if( found == calls.end()) { skipped( json); return;}
            message::conversation::Disconnect m;
            m.correlation = found->second.correlation;
            vf::try_send( found->second.app.ipc, m);
         }
         else if( c == "gone")
         {
            gone[ n( 1)] = instances.at( n( 1))->ipc();
            instances[ n( 1)].reset();
         }
         else if( c == "serve" || c == "converse")
         {
            // serve n service trid noreply fresh | converse n service trid duplex fresh
            fresh = n( 5);
            auto correlation = strong::correlation::id{ vf::uuid( 5, n( 1), run)};
            numbers[ correlation] = n( 1);
            calls[ n( 1)] = { correlation, server, 0, {}};
            auto request = [ &]( auto& m)
            {
               m.correlation = correlation;
               m.process = { vf::fake::pid( 20), caller.ipc()};
               m.service.name = t[ 2];
               m.buffer = payload( "q" + t[ 1]);
               if( n( 3) > 0)
               {
                  m.trid = transaction::ID{ vf::uuid( 2, n( 3), run), vf::uuid( 3, 1, run), process::Handle{ vf::fake::pid( 20), caller.ipc()}};
                  auto hex = app::hex( m.trid.xid);
                  names[ hex] = t[ 3];
                  foreign = n( 3);
                  auto parts = split( hex, ':');
                  foreign_gtrid = parts[ 3].substr( 0, std::stol( parts[ 1]) * 2);
               }
            };
            if( c == "serve")
            {
               message::service::call::callee::Request m;
               request( m);
               if( t[ 4] == "1") m.flags = decltype( m.flags)::no_reply;
               vf::try_send( server.ipc, m);
            }
            else
            {
               message::conversation::connect::callee::Request m;
               request( m);
               m.duplex = t[ 4] == "send" ? decltype( m.duplex)::send : decltype( m.duplex)::receive;
               vf::try_send( server.ipc, m);
            }
         }
         else if( c != "settle") throw std::runtime_error( "no such step: " + c);
         settle();
         finish( json);
      }
      void skipped( Json& json)
      {
         json.text.clear();
         vf::emit( Json{}( "e", "skipped"));
         throw vf::Timeout{};
      }
   };
} // <unnamed>

int main( int argc, char** argv)
{
   if( argc > 1 && std::string{ argv[ 1]} == "--app")
      return app::main( argc, argv);
   vf::fake::isolate( argv);
   ::signal( SIGPIPE, SIG_IGN);
   return vf::main( argc, argv, []( const std::vector< tokens>& script)
   {
      Driver driver;
      for( auto& t : script)
      {
         try { driver.step( t);}
         catch( const vf::Timeout&) { driver.stop(); throw;}
      }
      driver.stop();
   });
}
