// libFuzzer target: everything that reads input files, in process, under AddressSanitizer and
// UndefinedBehaviorSanitizer.  First byte: options; a zero byte separates the file with known data.
// Beyond memory safety: (1) parsed data are consistent, (2) line ends of DOS and a final blank line
// change nothing, (3) the parsed data written in plain format are read back identically.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <unistd.h>
#include <vector>

#include "algorithm_row_operations.h"
#include "input.h"
#include "input_detection.h"

using namespace panda;

namespace
{
   struct File
   {
      int fd;
      std::string path;
      File()
      :
         fd(memfd_create("input", 0)),
         path("/proc/self/fd/" + std::to_string(fd))
      {
      }
      void set(const std::string& text)
      {
         if ( ftruncate(fd, 0) != 0 || pwrite(fd, text.data(), text.size(), 0) != static_cast<ssize_t>(text.size()) )
         {
            abort();
         }
      }
   };

   using Rows = Matrix<int>;
   struct Outcome
   {
      int mode = -1;
      bool ok = false;
      Rows rows, known;
      Names names;
      Maps maps;
   };

   std::string lower(std::string s)
   {
      for ( auto& c : s ) c = static_cast<char>(tolower(c));
      return s;
   }

   [[noreturn]] void fail(const char* what, const std::string& a, const std::string& b)
   {
      fprintf(stderr, "FUZZ-VIOLATION: %s\n--- input\n%s\n--- compared with\n%s\n---\n", what, a.c_str(), b.c_str());
      abort();
   }

   Outcome read(const std::string& text, const std::string& known, const unsigned options)
   {
      static File file, known_file;
      file.set(text);
      std::vector<std::string> args{"panda", file.path};
      if ( options & 1 ) args.push_back("-c");
      static const char* const sorts[] = { "", "--sorting=lex_asc", "--sorting=lex_desc", "--sorting=nz_asc", "--sorting=nz_desc", "--sorting=rev", "", "" };
      if ( *sorts[(options >> 1) & 7] ) args.push_back(sorts[(options >> 1) & 7]);
      if ( !known.empty() )
      {
         known_file.set(known);
         args.push_back("--known-data=" + known_file.path);
      }
      std::vector<char*> argv;
      for ( auto& a : args ) argv.push_back(&a[0]);
      const int argc = static_cast<int>(argv.size());
      Outcome o;
      try
      {
         const auto mode = detectOperationMode(argc, argv.data());
         o.mode = static_cast<int>(mode);
         if ( mode == OperationMode::FacetEnumeration )
         {
            std::tie(o.rows, o.names, o.maps, o.known) = input::vertices<int>(argc, argv.data());
            o.ok = true;
         }
         else if ( mode == OperationMode::VertexEnumeration )
         {
            std::tie(o.rows, o.names, o.maps, o.known) = input::inequalities<int>(argc, argv.data());
            o.ok = true;
         }
      }
      catch ( const std::exception& )
      {
         o.ok = false;
      }
      return o;
   }

   bool same(const Outcome& a, const Outcome& b)
   {
      return a.ok == b.ok && (!a.ok || (a.mode == b.mode && a.rows == b.rows && a.known == b.known && a.names == b.names && a.maps == b.maps));
   }
}

extern "C" int LLVMFuzzerInitialize(int*, char***)
{
   std::cerr.rdbuf(nullptr);
   std::cout.rdbuf(nullptr);
   return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
   if ( size < 2 )
   {
      return 0;
   }
   const unsigned options = data[0];
   std::string text(reinterpret_cast<const char*>(data + 1), size - 1), known;
   const auto zero = text.find('\0');
   if ( zero != std::string::npos )
   {
      known = text.substr(zero + 1);
      text.erase(zero);
   }
   const auto l = lower(text);
   if ( l.find("map") != std::string::npos && l.find("reduced") != std::string::npos )
   {
      return 0; // orbits under infinite groups are infinite
   }
   const auto o = read(text, known, options);
   if ( o.ok )
   {
      for ( const auto& r : o.rows )
      {
         if ( r.size() != o.rows.front().size() ) fail("rows of different lengths are accepted", text, known);
      }
      for ( const auto& r : o.known )
      {
         if ( r.size() != o.rows.front().size() ) fail("known data of a different dimension are accepted", text, known);
      }
      for ( const auto& m : o.maps )
      {
         if ( !o.rows.empty() && m.size() != o.rows.front().size() ) fail("maps of a different dimension are accepted", text, known);
      }
      if ( o.mode == static_cast<int>(OperationMode::FacetEnumeration) )
      {
         for ( const auto& r : o.rows )
         {
            if ( r.back() < 0 ) fail("a vertex has a negative denominator", text, known);
         }
      }
   }
   // line ends
   if ( text.find('\r') == std::string::npos && known.find('\r') == std::string::npos )
   {
      auto dos = [](const std::string& s)
      {
         std::string r;
         for ( const char c : s )
         {
            if ( c == '\n' ) r += '\r';
            r += c;
         }
         return r;
      };
      const auto t = dos(text);
      if ( !same(o, read(t, dos(known), options)) ) fail("line ends of DOS change the meaning", text, t);
   }
   // a final end of line
   if ( !same(o, read(text + "\n\n", known, options)) ) fail("a final end of line changes the meaning", text, text + "\n\n");
   // round trip
   if ( o.ok && o.maps.empty() && known.empty() && !(options & 0xf) )
   {
      std::ostringstream s;
      bool possible = true;
      if ( o.mode == static_cast<int>(OperationMode::FacetEnumeration) )
      {
         std::vector<std::string> v, c;
         for ( const auto& r : o.rows )
         {
            std::ostringstream x;
            for ( std::size_t i = 0; i + 1 < r.size(); ++i )
            {
               x << r[i];
               if ( r.back() > 1 ) x << '/' << r.back();
               x << ' ';
            }
            (r.back() == 0 ? c : v).push_back(x.str());
         }
         if ( !c.empty() ) s << "Rays:\n";
         for ( const auto& x : c ) s << x << '\n';
         if ( !v.empty() ) s << "Vertices:\n";
         for ( const auto& x : v ) s << x << '\n';
         possible = o.rows.empty() || o.rows.front().size() > 1;
      }
      else
      {
         s << "Inequalities:\n";
         for ( std::size_t i = 0; i + 1 < o.rows.size(); ++i ) // the last one is added by the program
         {
            for ( const auto& x : o.rows[i] ) s << x << ' ';
            s << '\n';
         }
         possible = o.rows.size() > 1;
      }
      if ( possible )
      {
         const auto p = read(s.str(), "", 0);
         auto a = o.rows, b = p.rows;
         if ( !p.ok || p.mode != o.mode || a != b ) fail("data do not survive writing and reading", text, s.str());
      }
   }
   return 0;
}
