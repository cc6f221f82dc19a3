// Every way a strongly typed wrapper can be created or assigned.
#include <map>
#include <string>
#include <vector>
#include <dart.h>
namespace dartx {
  template <class T> T&& make() noexcept;
  template <bool> struct use {
    template <class W, class A> static void build() { W w(make<A>()); (void) w; }
    template <class W, class A> static void assign(W& w) { w = make<A>(); }
  };
  template <> struct use<false> {
    template <class W, class A> static void build() {}
    template <class W, class A> static void assign(W&) {}
  };
  // making an array out of anything is declared, but does not compile for what is no value
  template <class T> struct owner : std::false_type {};
  template <class T, class D> struct owner<std::unique_ptr<T, D>> : std::true_type {};
  template <class T> struct owner<std::shared_ptr<T>> : std::true_type {};
  template <class W, class A> struct hollow : std::false_type {};
  template <class V, class T> struct hollow<dart::basic_array<V>, T> : std::integral_constant<bool, !std::is_constructible<V, T>::value || owner<std::decay_t<T>>::value> {};
  template <class W, class A> void one(W& w) {
    use<!hollow<W, A>::value && std::is_constructible<W, A>::value>::template build<W, A>();
    use<!hollow<W, A>::value && std::is_assignable<W&, A>::value>::template assign<W, A>(w);
  }
  template <class W, class A> void ways(W& w) {
    one<W, A&>(w);
    one<W, A const&>(w);
    one<W, A>(w);
  }
  template <class W, class... As> void all(W& w) {
    int dummy[] = {(ways<W, As>(w), 0)...};
    (void) dummy;
  }
  template <class W> void from(W& w) {
    all<W,
      dart::heap, dart::buffer, dart::packet, typename dart::heap::view, typename dart::buffer::view, typename dart::packet::view,
      dart::heap::object, dart::buffer::object, dart::packet::object, dart::heap::array, dart::buffer::array, dart::packet::array,
      dart::heap::string, dart::buffer::string, dart::packet::string, dart::heap::number, dart::buffer::number, dart::packet::number,
      dart::heap::flag, dart::buffer::flag, dart::packet::flag, dart::heap::null, dart::buffer::null, dart::packet::null,
      gsl::span<gsl::byte const>, std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)>, std::shared_ptr<gsl::byte const>,
      dart::heap::iterator, dart::buffer::iterator, dart::packet::iterator
      , int, unsigned, long, double, float, bool, char const*, std::string, dart::shim::string_view, std::nullptr_t
    >(w);
  }
  template <class V> void wrappers(typename V::object& o, typename V::array& a, typename V::string& s, typename V::number& n, typename V::flag& f, typename V::null& u) {
    from(o); from(a); from(s); from(n); from(f); from(u);
    typename V::null z; (void) z;
  }
  template void wrappers<dart::heap>(dart::heap::object&, dart::heap::array&, dart::heap::string&, dart::heap::number&, dart::heap::flag&, dart::heap::null&);
  template void wrappers<dart::buffer>(dart::buffer::object&, dart::buffer::array&, dart::buffer::string&, dart::buffer::number&, dart::buffer::flag&, dart::buffer::null&);
  template void wrappers<dart::packet>(dart::packet::object&, dart::packet::array&, dart::packet::string&, dart::packet::number&, dart::packet::flag&, dart::packet::null&);
}
