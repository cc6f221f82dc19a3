// Instantiates everything that fixes the network format, without using any
// optional part of the library, so it can be read under other configurations.
#include <dart.h>
namespace dartx {
  template <class T>
  T round(dart::little_order<T>& x, T v) { x.set(v); x = v; dart::little_order<T> y {v}; x += v; ++x; y -= v; return static_cast<T>(x.get() + static_cast<T>(y)); }
  template unsigned char round(dart::little_order<unsigned char>&, unsigned char);
  template unsigned short round(dart::little_order<unsigned short>&, unsigned short);
  template unsigned int round(dart::little_order<unsigned int>&, unsigned int);
  template unsigned long round(dart::little_order<unsigned long>&, unsigned long);
  template short round(dart::little_order<short>&, short);
  template int round(dart::little_order<int>&, int);
  template long round(dart::little_order<long>&, long);
  template float round(dart::little_order<float>&, float);
  template double round(dart::little_order<double>&, double);
  bool round(dart::little_order<bool>& x, bool v) { x.set(v); x = v; dart::little_order<bool> y {v}; return x.get() && y; }
  std::size_t use() {
    dart::heap h = dart::heap::make_object("a", 1, "b", dart::heap::make_array(1.5, true, nullptr, "s"));
    dart::buffer b = h.lower();
    return b["b"].size() + b.get_bytes().size();
  }
}
