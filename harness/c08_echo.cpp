// C08: the echoing producer with keys of any kind
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/context.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/message.hpp>
#include <cstdint>
#include <set>
#include <string>
#include <vector>

namespace hana = boost::hana;
namespace message = nbdl::message;
namespace
{
  struct wide { std::uint64_t value; };
  struct small { short value; };
  struct other { int value; };
  struct none { };
  struct own_id { int n; };
  struct claim { int value; claim() : value(0) { } claim(own_id u) : value(-u.n) { } explicit claim(int v) : value(v) { } };
  struct label { std::string value; };        // no key can be made from it
  struct doc { std::string text; };

  template <typename T> std::string show(T const& x) requires std::is_integral_v<T> { return "int " + std::to_string(x); }
  std::string show(wide x) { return "wide " + std::to_string(x.value); }
  std::string show(small x) { return "small " + std::to_string(x.value); }
  std::string show(other x) { return "other " + std::to_string(x.value); }
  std::string show(none) { return "none"; }
  std::string show(claim x) { return "claim " + std::to_string(x.value); }
  std::string show(label const& x) { return "label " + x.value; }
  std::string show(own_id x) { return "own " + std::to_string(x.n); }
  template <typename P> std::string show_path(P const& p)
  { std::string r; hana::for_each(p, [&](auto const& k) { r += "/" + show(k); }); return r; }
  template <typename M> std::string show_message(M const& m)
  {
    std::string r = message::is_create<M> ? "create" : message::is_read<M> ? "read" : message::is_update<M> ? "update" : "delete";
    r += show_path(message::get_normalized_path(m));
    if constexpr (message::has_uid<M>) r += " uid " + show(message::get_uid(m));
    if constexpr (!message::is_delete<M> && !(message::is_read<M> && message::is_upstream<M>)) r += " payload " + message::get_payload(m).text;
    if (message::is_upstream<M>) r += " upstream";
    else r += message::is_confirmed(m) ? " confirmed" : " not confirmed";
    return r;
  }

  struct catcher_tag { };
  struct catcher
  {
    using hana_tag = catcher_tag;
    std::vector<std::string>* told;
    std::string* last;
  };
}
namespace nbdl
{
  template <> struct apply_message_impl<catcher_tag>
  {
    template <typename S, typename M> static bool apply(S&& s, M&& m)
    {
      s.told->push_back(show_message(m));
      *s.last = show(hana::back(message::get_normalized_path(m)));
      return true;
    }
  };
}
namespace
{
  template <typename Key> std::set<std::string>& made() { static std::set<std::string> s; return s; }

  template <typename Key, typename Producer>
  void create(vf::Src& s, Producer const& p, std::vector<std::string>& told, std::string& last)
  {
    doc x{s.text_of("ab", 3) + (s.boolean() ? std::string(30, 'x') : "")};
    other root{static_cast<int>(s.choose(5))};
    auto go = [&](auto m, std::string const& uid, std::string const& given)
    {
      auto before = message::get_payload(m).text;
      told.clear();
      nbdl::send_upstream_message(p, m);
      s.equal(message::get_payload(m).text, before, "the message that was sent");
      s.equal(told.size(), std::size_t(1), "messages echoed");
      s.note(told[0]);
      std::string key = given.empty() ? last : given;
      s.equal(told[0], "create/" + show(root) + "/" + key + uid + " payload " + x.text + " not confirmed", "what is echoed");
      if (given.empty() && !std::is_empty_v<Key>)
        s.check(made<Key>().insert(key).second, "the key ", key, " was given to an earlier object");
      if (std::is_empty_v<Key>) s.equal(key, show(Key{}), "the key");
    };
    auto path = message::make_create_path<Key>(hana::make_tuple(root));
    switch (s.choose(3))
    {
      case 0: go(message::make_upstream_create(path, message::no_uid, x), "", ""); break;
      case 1: go(message::make_upstream_create(path, label{"l"}, x), " uid label l", ""); break;
      default:
      {
        own_id id{static_cast<int>(s.choose(9)) + 1};
        if constexpr (std::is_same_v<Key, claim>) go(message::make_upstream_create(path, id, x), " uid " + show(id), show(claim(id)));
        else go(message::make_upstream_create(path, id, x), " uid " + show(id), "");
      }
    }
  }
}

VF_PROP(echo_keys, 4000, 20000)
{
  std::vector<std::string> told;
  std::string last;
  using init = nbdl::actor_initializer<catcher, nbdl::echo_producer>;
  nbdl::echo_producer_impl<catcher> const p(init{catcher{&told, &last}, nbdl::echo_producer{}});
  for (std::size_t n = 1 + s.upto(5); n-- > 0;)
    switch (s.choose(7))
    {
      case 0: create<int>(s, p, told, last); break;
      case 1: create<std::uint64_t>(s, p, told, last); break;
      case 2: create<wide>(s, p, told, last); break;
      case 3: create<unsigned short>(s, p, told, last); break;
      case 4: create<none>(s, p, told, last); break;
      case 5: create<claim>(s, p, told, last); break;
      default:
      {
        auto path = hana::make_tuple(other{static_cast<int>(s.choose(5))}, wide{s.choose(3)});
        doc x{s.text_of("ab", 3) + (s.boolean() ? std::string(30, 'x') : "")};
        told.clear();
        std::string want;
        auto go = [&](auto m, std::string w) { nbdl::send_upstream_message(p, m); want = w + " not confirmed"; };
        switch (s.choose(4))
        {
          case 0: go(message::make_upstream_update(path, message::no_uid, x), "update" + show_path(path) + " payload " + x.text); break;
          case 1: go(message::make_upstream_update(path, own_id{4}, x), "update" + show_path(path) + " uid own 4 payload " + x.text); break;
          case 2: go(message::make_upstream_delete(path, message::no_uid), "delete" + show_path(path)); break;
          default: go(message::make_upstream_delete(path, label{"d"}), "delete" + show_path(path) + " uid label d"); break;
        }
        s.check(told.size() == 1 && told[0] == want, "echoed ", told.empty() ? "nothing" : told[0], " instead of ", want);
      }
    }
  s.nontrivial(told.size() > 0);
}
