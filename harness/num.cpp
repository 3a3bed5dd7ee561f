// Register machine over the integer classes.  Reads commands from stdin, one answer line per command.
//   c R TYPE LIT        construct register R from a builtin integer of the given type
//   a R A               copy, n R A: negate, b R A: absolute value
//   o R OP A B          R = A OP B (binary operator);   s R OP B: R OP= B (B may be R)
//   v R                 conversion to int
//   k A B               the six comparisons of A and B
//   i A LIT             the six comparisons of A with an int
//   g R A B / l R A B   gcd / lcm (algorithm)
#include <cstdint>
#include <exception>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

#include "algorithm_integer_operations.h"
#include "big_integer.h"
#include "safe_integer.h"

template <typename T, typename B>
T make(long long v)
{
   return T(static_cast<B>(v));
}

template <typename T>
T construct(const std::string& type, const std::string& lit)
{
   if ( type == "u64" )
   {
      return T(static_cast<uint64_t>(std::stoull(lit)));
   }
   const long long v = std::stoll(lit);
   if ( type == "i16" ) return make<T, int16_t>(v);
   if ( type == "i32" ) return make<T, int32_t>(v);
   if ( type == "i64" ) return make<T, int64_t>(v);
   if ( type == "u16" ) return make<T, uint16_t>(v);
   if ( type == "u32" ) return make<T, uint32_t>(v);
   return T();
}

template <typename T, typename U>
std::string cmp(const T& a, const U& b)
{
   std::string s;
   s += (a == b) ? '1' : '0';
   s += (a != b) ? '1' : '0';
   s += (a < b) ? '1' : '0';
   s += (a > b) ? '1' : '0';
   s += (a <= b) ? '1' : '0';
   s += (a >= b) ? '1' : '0';
   return s;
}

template <typename T>
void assign(T& r, const char op, const T& b)
{
   switch ( op )
   {
      case '+': r += b; break;
      case '-': r -= b; break;
      case '*': r *= b; break;
      case '/': r /= b; break;
      default: r %= b;
   }
}

template <typename T>
T binary(const T& a, const char op, const T& b)
{
   switch ( op )
   {
      case '+': return a + b;
      case '-': return a - b;
      case '*': return a * b;
      case '/': return a / b;
      default: return a % b;
   }
}

template <typename T>
void run()
{
   std::vector<T> r(24);
   std::string line;
   while ( std::getline(std::cin, line) )
   {
      std::istringstream in(line);
      std::string c, type, lit;
      std::size_t x, y, z;
      char op;
      std::string answer = "ok";
      in >> c;
      try
      {
         if ( c == "c" ) { in >> x >> type >> lit; r.at(x) = construct<T>(type, lit); }
         else if ( c == "a" ) { in >> x >> y; r.at(x) = r.at(y); }
         else if ( c == "n" ) { in >> x >> y; r.at(x) = -r.at(y); }
         else if ( c == "b" ) { in >> x >> y; r.at(x) = abs(r.at(y)); }
         else if ( c == "o" ) { in >> x >> op >> y >> z; r.at(x) = binary(r.at(y), op, r.at(z)); }
         else if ( c == "s" ) { in >> x >> op >> y; assign(r.at(x), op, r.at(y)); }
         else if ( c == "v" ) { in >> x; answer = std::to_string(static_cast<int>(r.at(x))); }
         else if ( c == "k" ) { in >> x >> y; answer = cmp(r.at(x), r.at(y)); }
         else if ( c == "i" ) { in >> x >> lit; answer = cmp(r.at(x), static_cast<int>(std::stoll(lit))); }
         else if ( c == "g" ) { in >> x >> y >> z; r.at(x) = panda::algorithm::gcd(r.at(y), r.at(z)); }
         else if ( c == "l" ) { in >> x >> y >> z; r.at(x) = panda::algorithm::lcm(r.at(y), r.at(z)); }
         else { answer = "?"; }
      }
      catch ( const std::exception& )
      {
         answer = "throw";
      }
      std::cout << answer << '\n';
   }
}

int main(int, char** argv)
{
   const std::string type = argv[1];
   if ( type == "big" )
   {
      run<panda::BigInteger>();
   }
   else
   {
      run<panda::SafeInteger>();
   }
}
