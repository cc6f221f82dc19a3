// Every operation of the reference counted pointers, the wrapper over any of them, and the non-owning view.
#include <memory>
#include <dart.h>
namespace dartx {
  struct base { virtual ~base() = default; };
  struct derived : base {};
  struct deleter { void operator ()(base* ptr) const { delete ptr; } };
  template <template <class> class P, class T> void whole(P<T>& p, P<T> const& c) {
    P<T> a, b(nullptr), d(c), e(std::move(p));
    a = c; a = std::move(p); a = nullptr;
    (void) (a == b); (void) (a != b); (void) (a < b); (void) (a <= b); (void) (a > b); (void) (a >= b); (void) static_cast<bool>(a);
    (void) a.get(); (void) a.unique(); (void) a.use_count(); a.reset();
  }
  template <template <class> class P> void counted(P<base>& p, P<base> const& c, P<derived>& q, P<derived> const& k, P<base[]>& r, P<base[]> const& s, std::unique_ptr<base>& u, std::unique_ptr<base, deleter>& v) {
    whole<P, base>(p, c);
    whole<P, base[]>(r, s);
    P<base> a(new base), b(new base, deleter {}), d(k), e(std::move(q)), f(std::move(u)), g(std::move(v));
    a = k; a = std::move(q); a = std::move(u); a = std::move(v);
    a.reset(new base); a.reset(new base, deleter {});
    (void) *a; (void) a.operator ->();
    dart::detail::counted_ptr_base<base, typename P<base>::counter_type>& h = a;
    h = k; h = std::move(q); h = std::move(u); h = std::move(v);
    P<base[]> z(new base[2]);
    (void) z[0];
  }
  template <class T> void wrapped(dart::shareable_ptr<T>& p, dart::shareable_ptr<T> const& c, T& t, T const& k, std::unique_ptr<base>& u, std::unique_ptr<base, deleter>& v) {
    dart::shareable_ptr<T> a, b(nullptr), d(c), e(std::move(p)), f(k), g(std::move(t)), h(std::move(u)), i(std::move(v)), j(new base), l(new base, deleter {});
    a = c; a = std::move(p); a = k; a = std::move(t); a = nullptr; a = std::move(u); a = std::move(v);
    (void) *a; (void) a.operator ->();
    (void) (a == b); (void) (a != b); (void) (a < b); (void) (a <= b); (void) (a > b); (void) (a >= b); (void) static_cast<bool>(a);
    (void) a.get(); (void) a.unique(); (void) a.use_count(); a.reset(); c.share(t); std::move(p).transfer(t); (void) a.raw(); (void) c.raw();
    (void) dart::make_shareable<T>();
  }
  template <class V, class O> void viewed(V& p, V const& c, O const& o) {
    V a, b(nullptr), d(c), e(std::move(p)), f(o);
    a = c; a = std::move(p); a = o;
    (void) *a; (void) a.operator ->();
    (void) (a == b); (void) (a != b); (void) (a < b); (void) (a <= b); (void) (a > b); (void) (a >= b); (void) static_cast<bool>(a);
    (void) a.get(); (void) a.use_count(); a.reset(); (void) c.raw(); (void) static_cast<O const&>(c);
  }
  template void counted<dart::unsafe_ptr>(dart::unsafe_ptr<base>&, dart::unsafe_ptr<base> const&, dart::unsafe_ptr<derived>&, dart::unsafe_ptr<derived> const&, dart::unsafe_ptr<base[]>&, dart::unsafe_ptr<base[]> const&, std::unique_ptr<base>&, std::unique_ptr<base, deleter>&);
  template void counted<dart::skinny_ptr>(dart::skinny_ptr<base>&, dart::skinny_ptr<base> const&, dart::skinny_ptr<derived>&, dart::skinny_ptr<derived> const&, dart::skinny_ptr<base[]>&, dart::skinny_ptr<base[]> const&, std::unique_ptr<base>&, std::unique_ptr<base, deleter>&);
  template void wrapped(dart::shareable_ptr<dart::unsafe_ptr<base>>&, dart::shareable_ptr<dart::unsafe_ptr<base>> const&, dart::unsafe_ptr<base>&, dart::unsafe_ptr<base> const&, std::unique_ptr<base>&, std::unique_ptr<base, deleter>&);
  template void wrapped(dart::shareable_ptr<dart::skinny_ptr<base>>&, dart::shareable_ptr<dart::skinny_ptr<base>> const&, dart::skinny_ptr<base>&, dart::skinny_ptr<base> const&, std::unique_ptr<base>&, std::unique_ptr<base, deleter>&);
  template void wrapped(dart::shareable_ptr<std::shared_ptr<base>>&, dart::shareable_ptr<std::shared_ptr<base>> const&, std::shared_ptr<base>&, std::shared_ptr<base> const&, std::unique_ptr<base>&, std::unique_ptr<base, deleter>&);
  template void viewed(dart::view_ptr_context<std::shared_ptr>::view_ptr<base>&, dart::view_ptr_context<std::shared_ptr>::view_ptr<base> const&, std::shared_ptr<base> const&);
  void made() {
    (void) dart::make_unsafe<base>(); (void) dart::make_skinny<base>(); (void) dart::make_unsafe<base[]>(2); (void) dart::make_skinny<base[]>(2);
  }
  template void viewed(dart::view_ptr_context<dart::unsafe_ptr>::view_ptr<base>&, dart::view_ptr_context<dart::unsafe_ptr>::view_ptr<base> const&, dart::unsafe_ptr<base> const&);
  template void viewed(dart::view_ptr_context<dart::skinny_ptr>::view_ptr<base>&, dart::view_ptr_context<dart::skinny_ptr>::view_ptr<base> const&, dart::skinny_ptr<base> const&);
}
