#include <string>
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
using namespace bezman::utils::algorithms;
template <class T> void ip() { T b{}, n{}; (void)IntPower<T>(b, n); }
void all() {
  ip<int>(); ip<unsigned>(); ip<long>(); ip<unsigned long>(); ip<short>(); ip<unsigned short>(); ip<signed char>(); ip<unsigned char>(); ip<long long>(); ip<unsigned long long>();
  (void)IndexListSort<double>(std::vector<double>{}); (void)IndexListSort<int>(std::vector<int>{}); (void)IndexListSort<unsigned long>(std::vector<unsigned long>{});
}
