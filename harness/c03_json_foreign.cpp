#include "json_types.hpp"

using namespace jt;
using nbdl::binder::jsoncpp::from_string;
using nbdl::binder::jsoncpp::to_string;

namespace
{
  template <typename T>
  bool read(vf::Src& s, std::string const& t, T& v)
  {
    // exactly sized heap copy
    std::string c(t.begin(), t.end());
    c.shrink_to_fit();
    try { from_string(c, v); return true; }
    catch (std::exception const&) { return false; }
    catch (...) { s.fail("threw something that is not a std::exception for ", vf::show(t, 300)); }
  }

  template <typename T>
  void judge(vf::Src& s, std::string const& t, schema const& sch)
  {
    J j;
    bool is_json = parse(t, j);
    std::optional<J> want;
    if (is_json) want = canon(j, sch);
    s.label(!is_json ? "not JSON" : want ? "acceptable" : "wrong shape");
    T v{};
    bool ok = read(s, t, v);
    s.equal(ok, want.has_value(), "accepted or rejected: ", vf::show(t, 500));
    if (!ok) return;
    // JsonCpp itself replaces text that is not UTF-8 when it writes; such
    // strings are outside of what nbdl::String promises
    J again;
    if (!parse(write(*want), again) || !same(again, *want)) { s.label("not UTF-8"); return; }
    std::string w = to_string(v);
    J jw;
    s.check(parse(w, jw) && same(jw, *want), "the value read says what the document says: ", vf::show(t, 300), " -> ", w, " expected ", write(*want));
    T u{};
    from_string(w, u);
    s.check(eq(u, v), "an accepted value survives a further write and read: ", w);
  }

  J random_json(vf::Src& s, int depth)
  {
    switch (s.choose(depth > 0 ? 9 : 7))
    {
      case 0: return J();
      case 1: return J(s.integer<Json::Int64>());
      case 2: return J(real(s));
      case 3: return J(unicode(s));
      case 4: return J(static_cast<bool>(s.boolean()));
      case 5: return J(static_cast<Json::UInt64>(s.u64()));
      case 6: return J(b64(s.bytes(20)));
      case 7: { J r(Json::arrayValue); std::size_t n = s.upto(3); for (std::size_t i = 0; i < n; i++) r.append(random_json(s, depth - 1)); return r; }
      default:
      {
        J r(Json::objectValue);
        std::size_t n = s.upto(3);
        char const* names[] = {"i", "u", "d", "s", "b", "c", "l", "xs", "v", "q", ""};
        for (std::size_t i = 0; i < n; i++) r[names[s.choose(11)]] = random_json(s, depth - 1);
        return r;
      }
    }
  }

  // walk to a random node and change it
  void mutate(vf::Src& s, J& j)
  {
    if ((j.isObject() || j.isArray()) && j.size() && s.chance(80))
    {
      if (j.isObject())
      {
        auto names = j.getMemberNames();
        auto const& k = names[s.choose(names.size())];
        if (s.chance(12)) { j.removeMember(k); return; }
        if (s.chance(6)) { j[k + "x"] = j[k]; j.removeMember(k); return; }
        mutate(s, j[k]);
      }
      else
      {
        Json::ArrayIndex i = static_cast<Json::ArrayIndex>(s.choose(j.size()));
        if (s.chance(10)) { J x; j.removeIndex(i, &x); return; }
        if (s.chance(10)) { j.append(j[i]); return; }
        mutate(s, j[i]);
      }
      return;
    }
    if (j.isIntegral() && s.chance(40)) { j = J(static_cast<Json::Int64>(s.choose(3) ? s.range(-2, 12) : s.integer<Json::Int64>())); return; }
    if (j.isString() && s.chance(40))
    {
      std::string t = j.asString();
      if (s.boolean() || t.empty()) t += "A=$ "[s.choose(4)]; else t.erase(s.choose(t.size()), 1);
      j = J(t);
      return;
    }
    j = random_json(s, 2);
  }

  template <typename T, typename G>
  void shape(vf::Src& s, G gen, schema const& sch)
  {
    T x = gen(s);
    J j;
    s.check(parse(to_string(x), j), "own text is JSON");
    std::size_t n = 1 + s.choose(2);
    for (std::size_t i = 0; i < n; i++) mutate(s, j);
    std::string t = write(j);
    s.note(vf::show(t, 300));
    s.nontrivial();
    judge<T>(s, t, sch);
  }

  std::string mangle(vf::Src& s, std::string t)
  {
    std::size_t n = 1 + s.choose(3);
    for (std::size_t i = 0; i < n && !t.empty(); i++)
    {
      std::size_t at = s.choose(t.size());
      switch (s.choose(5))
      {
        case 0: t.resize(at); break;
        case 1: t.erase(at, 1 + s.choose(3)); break;
        case 2: t.insert(at, 1, "{}[]\",:0-9.eE\\u\0\xff/"[s.choose(19)]); break;
        case 3: t[at] = static_cast<char>(s.byte()); break;
        default: t.insert(at, t.substr(s.choose(t.size()), 1 + s.choose(6)));
      }
    }
    return t;
  }
}

VF_PROP(wrong_shape_leaf, 10000, 250000) { shape<leaf>(s, gen_leaf, leaf_schema()); }
VF_PROP(wrong_shape_inner, 8000, 200000) { shape<inner>(s, gen_inner, inner_schema()); }
VF_PROP(wrong_shape_doc, 2500, 60000) { shape<doc>(s, gen_doc, doc_schema()); }
VF_PROP(wrong_shape_misc, 4000, 100000) { shape<misc>(s, gen_misc, misc_schema()); }

// integral members are never altered to fit the type
VF_PROP(enumerators_in_range, 6000, 100000)
{
  J j;
  parse(to_string(misc{}), j);
  char const* names[] = {"td", "ty", "sm", "wd", "oo"};
  std::size_t k = s.choose(5);
  std::int64_t n = s.pick({0l, 2l, -1l, 127l, 128l, -128l, -129l, 255l, 256l, 300l, 2147483647l, 2147483648l, -2147483648l, -2147483649l,
                           4294967295l, 4294967296l, 9223372036854775807l}) + s.range(-1, 0);
  j[names[k]] = J(static_cast<Json::Int64>(n));
  s.note(std::string(names[k]) + " = " + std::to_string(n));
  s.nontrivial();
  judge<misc>(s, write(j), misc_schema());
}

VF_PROP(mangled_text, 12000, 300000)
{
  std::string t;
  std::size_t which = s.choose(3);
  t = which == 0 ? to_string(gen_leaf(s)) : which == 1 ? to_string(gen_inner(s)) : to_string(gen_doc(s));
  t = mangle(s, t);
  s.note(vf::show(t, 300));
  s.nontrivial(!t.empty());
  if (which == 0) judge<leaf>(s, t, leaf_schema());
  else if (which == 1) judge<inner>(s, t, inner_schema());
  else judge<doc>(s, t, doc_schema());
}

// every proper prefix of a document is rejected
VF_PROP(truncated, 4000, 100000)
{
  std::string t = s.boolean() ? to_string(gen_leaf(s)) : to_string(gen_inner(s));
  std::size_t n = s.choose(t.size());
  std::string cut = t.substr(0, n);
  s.note(vf::show(cut, 300));
  s.nontrivial(n > 0);
  leaf l{}; inner i{};
  s.check(!read(s, cut, l), "truncated document accepted as leaf: ", vf::show(cut, 300));
  s.check(!read(s, cut, i), "truncated document accepted as inner: ", vf::show(cut, 300));
}

VF_PROP(any_text, 20000, 400000)
{
  std::string t = s.chance(50) ? s.bytes(40) : s.text_of("{}[]\":,0123456789.-+eEtruefalsn \\u\n/*", 40);
  s.note(vf::show(t));
  s.nontrivial(!t.empty());
  switch (s.choose(5))
  {
    case 0: judge<leaf>(s, t, leaf_schema()); break;
    case 1: judge<inner>(s, t, inner_schema()); break;
    case 2: judge<std::vector<int>>(s, t, sarr(sc(schema::integer))); break;
    case 3: judge<std::vector<unsigned char>>(s, t, sc(schema::buffer)); break;
    default: judge<doc>(s, t, doc_schema());
  }
}

VF_PROP(any_json, 12000, 300000)
{
  J j = random_json(s, 4);
  std::string t = write(j);
  s.note(vf::show(t));
  s.nontrivial();
  switch (s.choose(6))
  {
    case 0: judge<leaf>(s, t, leaf_schema()); break;
    case 1: judge<inner>(s, t, inner_schema()); break;
    case 2: judge<std::vector<int>>(s, t, sarr(sc(schema::integer))); break;
    case 3: judge<std::array<unsigned char, 4>>(s, t, sc(schema::fixed, 4)); break;
    case 4: judge<std::vector<unsigned char>>(s, t, sc(schema::buffer)); break;
    default: judge<std::vector<std::vector<unsigned int>>>(s, t, sarr(sarr(sc(schema::unsig))));
  }
}
