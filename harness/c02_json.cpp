#include "json_types.hpp"

using namespace jt;
using nbdl::binder::jsoncpp::from_string;
using nbdl::binder::jsoncpp::to_string;

template <typename T>
static void round(vf::Src& s, T const& x, schema const& sc, T other)
{
  std::string t = to_string(x);
  s.note(t.substr(0, 200));
  T y{};
  from_string(t, y);
  s.check(eq(x, y), "from_string(to_string(x)) == x for ", t);
  s.equal(to_string(y), t, "the text of the value read back");
  // the text itself is what the binding prescribes
  J j;
  s.check(parse(t, j), "the text is JSON: ", t);
  auto c = canon(j, sc);
  s.check(c.has_value(), "the text follows the schema: ", t);
  s.check(same(*c, j), "the text is canonical: ", t);
  // formatting and member order of the document do not matter
  Json::StreamWriterBuilder b;
  b["indentation"] = "   ";
  T z{};
  from_string(Json::writeString(b, j), z);
  s.check(eq(x, z), "an indented document reads the same");
  // nor does what the value held before
  from_string(t, other);
  s.check(eq(x, other), "reading into a value that holds something else gives the same");
}

template <typename T>
static void round(vf::Src& s, T const& x, schema const& sc) { round(s, x, sc, x); }

VF_PROP(leaf_round_trip, 12000, 300000)
{
  leaf l = gen_leaf(s);
  s.nontrivial();
  round(s, l, leaf_schema(), gen_leaf(s));
}

VF_PROP(inner_round_trip, 6000, 150000)
{
  inner x = gen_inner(s);
  s.nontrivial();
  s.label("alternative " + std::to_string(x.v.get_type_id()));
  if (x.xs.empty()) s.label("empty container");
  round(s, x, inner_schema(), gen_inner(s));
}

VF_PROP(document_round_trip, 2500, 60000)
{
  doc d = gen_doc(s);
  s.nontrivial();
  round(s, d, doc_schema(), gen_doc(s));
}

VF_PROP(misc_round_trip, 4000, 100000)
{
  misc m = gen_misc(s);
  s.nontrivial();
  s.label("alternative " + std::to_string(m.nest.get_type_id()));
  round(s, m, misc_schema(), gen_misc(s));
}

// long members: nothing is lost or reordered beyond some size
VF_PROP(long_round_trip, 300, 6000)
{
  std::size_t n = s.pick({255u, 256u, 257u, 1000u, 4096u, 5000u});
  s.nontrivial();
  switch (s.choose(5))
  {
    case 0:
    {
      std::string t = unicode(s, 20), u;
      for (std::size_t i = 0; u.size() < n; i++) { u += t; u += std::to_string(i); }
      round(s, nbdl::string(u), sc(schema::str));
      break;
    }
    case 1: round(s, s.bulk(n), sc(schema::buffer)); break;
    case 2:
    {
      std::vector<int> few, v;
      for (int i = 0; i < 7; i++) few.push_back(s.integer<int>());
      for (std::size_t i = 0; i < n; i++) v.push_back(few[i % 7] ^ static_cast<int>(i));
      round(s, v, sarr(sc(schema::integer)));
      break;
    }
    case 3:
    {
      std::vector<nest_t> few, v;
      for (int i = 0; i < 5; i++) few.push_back(gen_nest(s));
      for (std::size_t i = 0; i < n; i++) v.push_back(few[i % 5]);
      round(s, v, sarr(nest_schema()));
      break;
    }
    default:
    {
      doc d = gen_doc(s);
      inner x = gen_inner(s);
      for (std::size_t i = 0; i < n / 10; i++) { x.xs.push_back(static_cast<int>(i)); if (x.xs.size() > 300) x.xs.clear(); d.many.push_back(x); }
      round(s, d, doc_schema(), gen_doc(s));
    }
  }
}

VF_PROP(scalars_round_trip, 20000, 400000)
{
  s.nontrivial();
  switch (s.choose(9))
  {
    case 0: round(s, s.integer<int>(), sc(schema::integer)); break;
    case 7: round(s, s.pick({p_neg, p_0, p_1}), sen<plain>()); break;
    case 1: round(s, s.integer<unsigned>(), sc(schema::unsig)); break;
    case 2: round(s, real(s), sc(schema::real)); break;
    case 3: round(s, nbdl::string(unicode(s, 40)), sc(schema::str)); break;
    case 4: round(s, static_cast<bool>(s.boolean()), sc(schema::boolean)); break;
    case 5: round(s, s.bytes(80), sc(schema::buffer)); break;
    case 6: { std::vector<int> v; fill(s, v, 20, [&] { return s.integer<int>(); }); round(s, v, sarr(sc(schema::integer))); break; }
    default: { std::vector<std::vector<unsigned int>> v; fill(s, v, 4, [&] { std::vector<unsigned int> r; fill(s, r, 4, [&] { return s.integer<unsigned>(); }); return r; });
               round(s, v, sarr(sarr(sc(schema::unsig)))); }
  }
}

// the exact text of simple documents, against text composed by hand
VF_PROP(text_format, 6000, 100000)
{
  leaf l = gen_leaf(s);
  l.d = static_cast<double>(s.range(-1000, 1000)) + 0.5;
  l.s = nbdl::string(s.text_of("abc XYZ-_.", 8));
  inner x{};
  x.l = l;
  fill(s, x.xs, 4, [&] { return static_cast<int>(s.range(-50, 50)); });
  std::string lt;
  {
    std::ostringstream o;
    o << "{\"b\":" << (l.b ? "true" : "false") << ",\"c\":" << static_cast<int>(l.c) << ",\"d\":" << l.d << ",\"i\":" << l.i
      << ",\"s\":\"" << l.s << "\",\"u\":" << l.u << "}";
    lt = o.str();
  }
  std::string vt = "0";
  switch (s.choose(4))
  {
    case 0: break;
    case 1: { int n = static_cast<int>(s.range(-9, 9)); x.v = n; vt = "[1," + std::to_string(n) + "]"; break; }
    case 2: x.v = l; vt = "[3," + lt + "]"; break;
    default: x.v = none{}; vt = "4";
  }
  std::string xt = "[";
  for (std::size_t i = 0; i < x.xs.size(); i++) xt += (i ? "," : "") + std::to_string(x.xs[i]);
  xt += "]";
  std::string want = "{\"l\":" + lt + ",\"v\":" + vt + ",\"xs\":" + xt + "}";
  s.note(want);
  s.nontrivial();
  s.equal(to_string(x), want, "text");
  inner y{};
  from_string(want, y);
  s.check(eq(x, y), "read from hand-written text ", want);
}
