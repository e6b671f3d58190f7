// Stand-in for the header-only cppcodec library (not available offline).
// Implements exactly the two overloads that casual's transcode.cpp calls,
// according to RFC 4648 section 4 (standard alphabet, mandatory padding).
// Written for this verification framework; only used in the shadow build in /verif.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>

namespace cppcodec
{
   struct base64_rfc4648
   {
      static std::size_t encode( char* out, std::size_t size, const char* in, std::size_t count)
      {
         constexpr auto alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
         const std::size_t needed = ( ( count + 2) / 3) * 4;
         if( size < needed)
            std::abort();
         auto at = [ in]( std::size_t i){ return static_cast< std::uint32_t>( static_cast< unsigned char>( in[ i]));};
         std::size_t o = 0;
         for( std::size_t i = 0; i < count; i += 3)
         {
            std::uint32_t v = at( i) << 16;
            if( i + 1 < count) v |= at( i + 1) << 8;
            if( i + 2 < count) v |= at( i + 2);
            out[ o++] = alphabet[ ( v >> 18) & 63];
            out[ o++] = alphabet[ ( v >> 12) & 63];
            out[ o++] = i + 1 < count ? alphabet[ ( v >> 6) & 63] : '=';
            out[ o++] = i + 2 < count ? alphabet[ v & 63] : '=';
         }
         // cppcodec null-terminates when there is room
         if( o < size)
            out[ o] = '\0';
         return o;
      }

      static std::size_t decode( char* out, std::size_t size, const char* in, std::size_t count)
      {
         auto value = []( char c) -> int
         {
            if( c >= 'A' && c <= 'Z') return c - 'A';
            if( c >= 'a' && c <= 'z') return c - 'a' + 26;
            if( c >= '0' && c <= '9') return c - '0' + 52;
            if( c == '+') return 62;
            if( c == '/') return 63;
            return -1;
         };
         if( count % 4 != 0)
            throw std::domain_error{ "base64: invalid length"};
         std::size_t o = 0;
         for( std::size_t i = 0; i < count; i += 4)
         {
            int pad = 0;
            std::uint32_t v = 0;
            for( int j = 0; j < 4; ++j)
            {
               const char c = in[ i + j];
               if( c == '=')
               {
                  if( i + 4 != count || j < 2)
                     throw std::domain_error{ "base64: misplaced padding"};
                  ++pad;
                  v <<= 6;
                  continue;
               }
               const int s = value( c);
               if( s < 0 || pad)
                  throw std::domain_error{ "base64: invalid symbol"};
               v = ( v << 6) | static_cast< std::uint32_t>( s);
            }
            const std::size_t produced = 3 - pad;
            if( o + produced > size)
               std::abort();
            out[ o++] = static_cast< char>( ( v >> 16) & 0xff);
            if( produced > 1) out[ o++] = static_cast< char>( ( v >> 8) & 0xff);
            if( produced > 2) out[ o++] = static_cast< char>( v & 0xff);
         }
         return o;
      }
   };
}
