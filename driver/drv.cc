// Instantiates the public surface of the header-only library so that the
// analysis sees every member in resolved form. Never executed.
#include <dart.h>
#include <map>
#include <unordered_map>
#include <vector>
#include <list>
#include <set>

#define DRV(...) do { auto&& drv_tmp = (__VA_ARGS__); (void) drv_tmp; } while (0)

namespace drv {
  template <class T> struct rc_of;
  template <template <template <class> class> class B, template <class> class RC>
  struct rc_of<B<RC>> {
    using heap = dart::basic_heap<RC>;
    using buffer = dart::basic_buffer<RC>;
    using packet = dart::basic_packet<RC>;
  };

  // Members every representation and every view has.
  template <class T>
  void reads(T const& v, T& m, typename T::iterator it) {
    using num = dart::basic_number<T>; using str = dart::basic_string<T>;
    num const* n = nullptr; str const* s = nullptr;
    dart::shim::string_view k; size_t i = 0; std::string ss;
    DRV(v[*n]); DRV(v[i]); DRV(v[*s]); DRV(v[k]); DRV(v[v]);
    DRV(v.get(*n)); DRV(v.get(i)); DRV(v.get(*s)); DRV(v.get(k)); DRV(v.get(v));
    DRV(v.get_nested(k)); DRV(v.at(*n)); DRV(v.at(i)); DRV(v.at(*s)); DRV(v.at(k));
    DRV(v.at_front()); DRV(v.at_back()); DRV(v.front()); DRV(v.back());
    DRV(v.find(*s)); DRV(v.find(k)); DRV(v.find_key(*s)); DRV(v.find_key(k));
    DRV(v.keys()); DRV(v.values()); DRV(v.has_key(*s)); DRV(v.has_key(k)); DRV(v.has_key(v));
    DRV(v.str()); DRV(v.str_or("")); DRV(v.strv()); DRV(v.strv_or(k)); DRV(v.integer()); DRV(v.integer_or(1));
    DRV(v.decimal()); DRV(v.decimal_or(1)); DRV(v.numeric()); DRV(v.numeric_or(1)); DRV(v.boolean()); DRV(v.boolean_or(true));
    DRV(v.size()); DRV(v.capacity()); DRV(v.empty()); DRV(v.is_object()); DRV(v.is_array()); DRV(v.is_aggregate());
    DRV(v.is_str()); DRV(v.is_integer()); DRV(v.is_decimal()); DRV(v.is_numeric()); DRV(v.is_boolean()); DRV(v.is_null());
    DRV(v.is_primitive()); DRV(v.get_type()); DRV(v.is_finalized()); DRV(v.refcount()); DRV(v.is_view());
    DRV(v.begin()); DRV(v.cbegin()); DRV(v.end()); DRV(v.cend()); DRV(v.rbegin()); DRV(v.crbegin()); DRV(v.rend()); DRV(v.crend());
    DRV(v.key_begin()); DRV(v.key_end()); DRV(v.rkey_begin()); DRV(v.rkey_end());
    DRV(v.kvbegin()); DRV(v.kvend()); DRV(v.rkvbegin()); DRV(v.rkvend());
    DRV(++it); DRV(--it); DRV(it++); DRV(it--); DRV(*it); DRV(it == it); DRV(it != it); (void) static_cast<bool>(it);
    typename T::iterator it2(it); it2 = it; it2 = std::move(it);
    DRV(v.to_json()); DRV(v == v); DRV(v != v); DRV(v == m);
    DRV(m->size()); DRV(v->size()); T c(v); T d(std::move(c)); m = v; m = std::move(d);
    DRV(v.template as<int64_t>()); DRV(v.template as<std::string>()); DRV(v.template as<double>()); DRV(v.template as<bool>());
    DRV(v.template maybe_as<int64_t>()); DRV(v.template maybe_as<std::string>());
    DRV(v.template as<std::vector<int64_t>>());
    T e; DRV(T::make_null());
    DRV(v.template as<dart::basic_object<T>>()); 
  }
  // Value operations of the immutable representations (const& and && forms).
  template <class T>
  void rval(T& m) {
    using num = dart::basic_number<T>; using str = dart::basic_string<T>;
    num const* n = nullptr; str const* s = nullptr; T const& v = m;
    dart::shim::string_view k; size_t i = 0;
    DRV(std::move(m)[*n]); DRV(std::move(m)[i]); DRV(std::move(m)[*s]); DRV(std::move(m)[k]); DRV(std::move(m)[v]);
    DRV(std::move(m).get(*n)); DRV(std::move(m).get(i)); DRV(std::move(m).get(*s)); DRV(std::move(m).get(k)); DRV(std::move(m).get(v));
    DRV(std::move(m).at(*n)); DRV(std::move(m).at(i)); DRV(std::move(m).at(*s)); DRV(std::move(m).at(k));
    DRV(std::move(m).at_front()); DRV(std::move(m).at_back()); DRV(std::move(m).front()); DRV(std::move(m).back());
  }
  template <class T>
  void defaulted(T const& v) {
    using num = dart::basic_number<T>; using str = dart::basic_string<T>;
    num const* n = nullptr; str const* s = nullptr; dart::shim::string_view k; size_t i = 0;
    DRV(v.get_or(*n, 1)); DRV(v.get_or(i, 1)); DRV(v.get_or(*s, 1)); DRV(v.get_or(k, 1)); DRV(v.get_or(v, 1));
    DRV(v.front_or(1)); DRV(v.back_or(1));
    DRV(v.get_or(i, "x")); DRV(v.get_or(k, v));
  }
  template <class T, class V>
  void mut_value(T& m, T const& v, V const& val, V&& rv, typename T::iterator it) {
    using num = dart::basic_number<T>; using str = dart::basic_string<T>;
    num const* n = nullptr; str const* s = nullptr; dart::shim::string_view k; size_t i = 0;
    m.add_field(k, val); m.add_field(*s, val); m.add_field(v, val); m.add_field("k", std::move(rv));
    DRV(std::move(m).add_field(k, val));
    m.push_front(val); m.push_back(val); m.push_front(std::move(rv)); m.push_back(std::move(rv));
    DRV(std::move(m).push_front(val)); DRV(std::move(m).push_back(val));
    m.insert(i, val); m.insert(k, val); m.insert(*s, val); m.insert(*n, val); m.insert(v, val); m.insert(it, val);
    m.insert(i, std::move(rv)); m.insert(k, std::move(rv)); m.insert(it, std::move(rv));
    m.set(i, val); m.set(k, val); m.set(*s, val); m.set(*n, val); m.set(v, val); m.set(it, val);
    m.set(i, std::move(rv)); m.set(k, std::move(rv)); m.set(it, std::move(rv));
    m.resize(i, val);
  }
  template <class T>
  void mutate(T& m, T const& v, typename T::iterator it) {
    using num = dart::basic_number<T>; using str = dart::basic_string<T>;
    num const* n = nullptr; str const* s = nullptr; dart::shim::string_view k; size_t i = 0;
    T* rv = nullptr;
    mut_value(m, v, v, std::move(*rv), it);
    mut_value(m, v, 1, 1, it);
    mut_value(m, v, std::string(), std::string(), it);
    m.add_field("k", "v"); m.insert("k", "v"); m.set("k", "v"); m.push_back("x"); m.insert("k", nullptr); m.insert("k", 1.0); m.insert("k", true);
    m.remove_field(k); m.remove_field(*s); m.remove_field(v);
    DRV(std::move(m).remove_field(k)); DRV(std::move(m).remove_field(*s)); DRV(std::move(m).remove_field(v));
    m.pop_front(); m.pop_back(); DRV(std::move(m).pop_front()); DRV(std::move(m).pop_back());
    m.erase(v); m.erase(it); m.erase(*s); m.erase(k); m.erase(*n); m.erase(i);
    m.clear(); m.reserve(i); m.resize(i);
    m = 1; m = "x"; m = std::string(); m = nullptr; m = 1.0; m = true;
    m = std::vector<int>(); m = std::map<std::string, int>();
  }
  template <class T>
  void build(T const& v) {
    using heap = typename rc_of<T>::heap; using buffer = typename rc_of<T>::buffer; using packet = typename rc_of<T>::packet;
    gsl::span<heap const> hs; gsl::span<buffer const> bs; gsl::span<packet const> ps;
    gsl::span<std::string const> ss; gsl::span<dart::shim::string_view const> vs;
    DRV(T::make_object()); DRV(T::make_object("k", 1)); DRV(T::make_object("k", v)); DRV(T::make_object(hs)); DRV(T::make_object(bs)); DRV(T::make_object(ps));
    DRV(v.inject("k", 1)); DRV(v.inject("k", v)); DRV(v.inject(hs)); DRV(v.inject(bs)); DRV(v.inject(ps));
    DRV(v.project({"a", "b"})); DRV(v.project(ss)); DRV(v.project(vs));
    DRV(T::from_json("")); DRV(T::parse("")); DRV(T::from_yaml(""));
  }
  template <class T>
  void build_mut() {
    using heap = typename rc_of<T>::heap; using buffer = typename rc_of<T>::buffer; using packet = typename rc_of<T>::packet;
    gsl::span<heap const> hs; gsl::span<buffer const> bs; gsl::span<packet const> ps;
    DRV(T::make_array()); DRV(T::make_array(1, "x")); DRV(T::make_array(hs)); DRV(T::make_array(bs)); DRV(T::make_array(ps));
    DRV(T::make_string("a")); DRV(T::make_string("a", "b")); DRV(T::make_integer(1)); DRV(T::make_decimal(1)); DRV(T::make_boolean(true));
  }
  template <class T>
  void forms(T& m, T const& v) {
    DRV(m.finalize()); DRV(m.lower()); DRV(m.definalize()); DRV(m.lift());
    DRV(std::move(m).finalize()); DRV(std::move(m).definalize()); DRV(std::move(m).lower()); DRV(std::move(m).lift());
  }
  template <class T>
  void const_forms(T const& v) {
    DRV(v.finalize()); DRV(v.lower()); DRV(v.definalize()); DRV(v.lift());
  }
  template <class T>
  void bytes(T const& v) {
    size_t len; DRV(v.get_bytes()); DRV(v.dup_bytes()); DRV(v.dup_bytes(len));
  }

  // Typed wrappers.
  template <class T>
  void wrappers(T const& v, T& m) {
    T* r = nullptr;
    dart::basic_object<T> o(v); dart::basic_array<T> a(v); dart::basic_string<T> s(v); dart::basic_number<T> n(v); dart::basic_flag<T> f(v); dart::basic_null<T> z(v);
    dart::basic_object<T> o2(std::move(*r)); dart::basic_array<T> a2(std::move(*r)); dart::basic_string<T> s2(std::move(*r)); dart::basic_number<T> n2(std::move(*r)); dart::basic_flag<T> f2(std::move(*r)); dart::basic_null<T> z2(std::move(*r));
    DRV(o.get("k")); DRV(o["k"]); DRV(o.at("k")); DRV(o.find("k")); DRV(o.find_key("k")); DRV(o.has_key("k")); DRV(o.keys()); DRV(o.values()); DRV(o.size()); DRV(o.empty()); DRV(o.begin()); DRV(o.end()); DRV(o.dynamic()); DRV(o == o);
    DRV(a[0]); DRV(a.get(0)); DRV(a.at(0)); DRV(a.front()); DRV(a.back()); DRV(a.size()); DRV(a.begin()); DRV(a.end()); DRV(a.dynamic()); DRV(a == a);
    DRV(s.str()); DRV(s.strv()); DRV(s.size()); DRV(s.empty()); DRV(s[0]); DRV(s.dynamic()); DRV(s == s);
    DRV(n.integer()); DRV(n.decimal()); DRV(n.numeric()); DRV(n.dynamic()); DRV(n == n); DRV(n == 1); DRV(n + 1);
    DRV(f.boolean()); DRV(f.dynamic()); DRV(f == true); DRV(z.dynamic());
    T back1 = o; T back2 = a; T back3 = s; T back4 = n; T back5 = f; T back6 = z; (void) m;
  }
  template <class T>
  void wrappers_mut(T const& v, T& m) {
    dart::basic_object<T> o("a", 1); dart::basic_array<T> a(1, 2); dart::basic_string<T> s("x"); dart::basic_number<T> n(1); dart::basic_number<T> nd(1.5); dart::basic_flag<T> f(true); dart::basic_null<T> z;
    o.add_field("k", v); o.insert("k", 1); o.set("k", 1); o.erase("k"); o.remove_field("k"); o.clear(); DRV(o.get_or("k", 1));
    a.push_back(1); a.push_front(1); a.pop_back(); a.pop_front(); a.insert(0, 1); a.set(0, 1); a.erase(0); a.clear(); a.resize(1); a.reserve(1); DRV(a.get_or(0, 1)); DRV(a.front_or(1)); DRV(a.back_or(1));
    s = "y"; s = std::string("y"); n = 2; n = 2.5; f = false;
    ++n; --n; n += 1; n -= 1; n *= 2; n /= 2;
    o = std::map<std::string, int>(); a = std::vector<int>();
    (void) m;
  }

  // Cross representation construction and comparison.
  template <template <class> class RC>
  void cross(dart::basic_heap<RC>& h, dart::basic_buffer<RC>& b, dart::basic_packet<RC>& p) {
    DRV(h == b); DRV(h == p); DRV(b == p); DRV(b == h); DRV(p == h); DRV(p == b);
    dart::basic_heap<RC> h2(b); dart::basic_buffer<RC> b2(h); dart::basic_packet<RC> p2(h), p3(b); p2 = h; p2 = b;
    dart::basic_heap<RC> h3(static_cast<dart::basic_heap<RC>>(p)); dart::basic_buffer<RC> b3(static_cast<dart::basic_buffer<RC>>(p)); (void) h3; (void) b3;
    p.insert("k", h); p.insert("k", b); h.insert("k", b); h.insert("k", p); p.push_back(h); p.push_back(b); h.push_back(b); h.push_back(p); p.set("k", h); h.set("k", p); h.set("k", b); p.set("k", b);
    DRV(h == 1); DRV(h == "x"); DRV(h == std::vector<int>()); DRV(b == 1); DRV(p == std::map<std::string, int>());
    typename dart::basic_heap<RC>::view hv = h; typename dart::basic_buffer<RC>::view bv = b; typename dart::basic_packet<RC>::view pv = p;
    DRV(hv.as_owner()); DRV(bv.as_owner()); DRV(pv.as_owner());
    DRV(h == hv);
  }

  template <template <class> class RC>
  void all() {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    H* h = nullptr; B* b = nullptr; P* p = nullptr;
    reads(*h, *h, h->begin()); reads(*b, *b, b->begin()); reads(*p, *p, p->begin());
    rval(*b); rval(*p);
    defaulted(*h); defaulted(*p);
    mutate(*h, *h, h->begin()); mutate(*p, *p, p->begin());
    build(*h); build(*b); build(*p); build_mut<H>(); build_mut<P>();
    forms(*h, *h); forms(*b, *b); forms(*p, *p); const_forms(*h); const_forms(*b); bytes(*b); bytes(*p);
    RC<gsl::byte const>* rcp = nullptr;
    DRV(b->share_bytes(*rcp)); DRV(p->share_bytes(*rcp));
    B bb(*rcp); P pb(*rcp);
    gsl::span<gsl::byte const> sp; B b2(sp); P p2(sp);
    std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)>* up = nullptr; B b3(std::move(*up)); P p3(std::move(*up));
    std::unique_ptr<gsl::byte const>* up2 = nullptr; B b4(std::move(*up2)); P p4(std::move(*up2));
    DRV(P::from_json("", true)); DRV(P::parse("", true)); DRV(P::from_yaml("", true));
    wrappers(*h, *h); wrappers(*b, *b); wrappers(*p, *p); wrappers_mut(*h, *h); wrappers_mut(*p, *p);
    cross(*h, *b, *p);
    using HV = typename H::view; using BV = typename B::view; using PV = typename P::view;
    HV* hv = nullptr; BV* bv = nullptr; PV* pv = nullptr;
    reads(*hv, *hv, hv->begin()); reads(*bv, *bv, bv->begin()); reads(*pv, *pv, pv->begin());
    wrappers(*hv, *hv); wrappers(*bv, *bv); wrappers(*pv, *pv);
    DRV(dart::basic_object<HV>(*hv).as_owner());
  }

  void run() {
    all<std::shared_ptr>();
    all<dart::unsafe_ptr>();
    std::unique_ptr<gsl::byte> uq3; dart::buffer b5(std::move(uq3)); dart::packet p5(std::move(uq3));
    gsl::span<gsl::byte const> s; gsl::byte const* b = nullptr; size_t l = 0;
    (void) dart::is_valid(s); (void) dart::is_valid(b, l); dart::validate(s); dart::validate(b, l);
    std::unique_ptr<gsl::byte> u1; std::unique_ptr<gsl::byte[]> u2; std::unique_ptr<gsl::byte const> u3; std::unique_ptr<gsl::byte const[]> u4; std::shared_ptr<gsl::byte const> u5;
    (void) dart::is_valid(u1, l); (void) dart::is_valid(u2, l); (void) dart::is_valid(u3, l); (void) dart::is_valid(u4, l); (void) dart::is_valid(u5, l);
    dart::validate(u1, l); dart::validate(u2, l); dart::validate(u3, l); dart::validate(u4, l); dart::validate(u5, l);
    (void) dart::from_json(""); (void) dart::parse("");
    std::ostream* os = nullptr; *os << dart::string_view();
    DRV(dart::heap::transmogrify<dart::unsafe_ptr>(*(dart::heap*) nullptr)); DRV(dart::buffer::transmogrify<dart::unsafe_ptr>(*(dart::buffer*) nullptr)); DRV(dart::packet::transmogrify<dart::unsafe_ptr>(*(dart::packet*) nullptr));
    // smart pointers
    dart::unsafe_ptr<int> up(new int); dart::unsafe_ptr<int> up2(up); dart::unsafe_ptr<int> up3(std::move(up)); up2 = up3; up2 = std::move(up3); up2.reset(); up2.reset(new int); (void) up2.get(); (void) up2.use_count(); (void) static_cast<bool>(up2); *up2 = 1; (void) dart::make_unsafe<int>(1); up2 = nullptr; (void) up2.unique();
    dart::skinny_ptr<int> kp(new int); dart::skinny_ptr<int> kp2(kp); dart::skinny_ptr<int> kp3(std::move(kp)); kp2 = kp3; kp2 = std::move(kp3); kp2.reset(); kp2.reset(new int); (void) kp2.get(); (void) kp2.use_count(); (void) static_cast<bool>(kp2); *kp2 = 1; kp2 = nullptr;
    dart::shareable_ptr<std::shared_ptr<int>> sp(new int); dart::shareable_ptr<std::shared_ptr<int>> sp2(sp); dart::shareable_ptr<std::shared_ptr<int>> sp3(std::move(sp)); sp2 = sp3; sp2 = std::move(sp3); sp2.reset(); (void) sp2.get(); (void) sp2.use_count();
    using vpt = dart::view_ptr_context<std::shared_ptr>::view_ptr<int>; vpt* vp = nullptr; vpt vp2(*vp); vp2 = *vp;
    dart::shareable_ptr<dart::unsafe_ptr<int>> usp(new int); dart::shareable_ptr<dart::unsafe_ptr<int>> usp2(usp); usp2 = usp; usp2 = std::move(usp); usp2.reset(); (void) usp2.use_count();
  }
}
// Non-template members not reached above.
template class dart::basic_heap<std::shared_ptr>;
template class dart::basic_buffer<std::shared_ptr>;
template class dart::basic_packet<std::shared_ptr>;
