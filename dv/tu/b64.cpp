// Instantiates the real base64 templates of /repo so that clang emits their bodies.
#include <type_traits>
#include <string>
#include "bezman/src/utils/base64.hpp"
using namespace bezman;
template <class T> void enc() {
  std::vector<T> v; std::string s = utils::Base64::Encode(v); v = utils::Base64::Decode<T>(s);
}
template void enc<double>(); template void enc<float>(); template void enc<int>(); template void enc<unsigned int>(); template void enc<char>(); template void enc<unsigned char>();
template void enc<short>(); template void enc<unsigned short>(); template void enc<long>(); template void enc<unsigned long>();
template <std::size_t N, class T> void encp() {
  std::vector<Point<N, T>> v; std::string s = utils::Base64::Encode(v); v = utils::Base64::Decode<Point<N, T>>(s);
}
template void encp<1, double>(); template void encp<2, double>(); template void encp<3, double>(); template void encp<4, double>(); template void encp<3, float>(); template void encp<2, float>(); template void encp<2, int>();
