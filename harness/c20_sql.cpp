// C20: SQL statements and their bound values describe the same row
//
// The connector below builds every statement with the library, prepares and
// runs it in an in-memory SQLite, and the rows are then read back with
// hand-written queries.
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/key.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <nbdl/sql_db/select.hpp>
#include <nbdl/sql_db/update.hpp>
#include <nbdl/sql_db/statement/insert.hpp>
#include <nbdl/sql_db/statement/select.hpp>
#include <nbdl/sql_db/statement/update.hpp>
#include <nbdl/string.hpp>
#include <sqlite3.h>
#include <list>
#include <map>
#include <string>
#include <variant>
#include <vector>

namespace hana = boost::hana;

namespace sq
{
  struct foo { int foo_value; };
  struct rich { nbdl::string name; std::int64_t big; bool on; double ratio; std::vector<unsigned char> bytes; };
  struct two { foo left; nbdl::string note; foo right; };
  struct mid { rich detail; int weight; foo point; };
  struct deep { mid inner; int depth; two both; mid other; };
  struct bare { foo a; foo b; };
  struct multi { nbdl::string title; std::vector<foo> foos; std::list<two> twos; };
  struct note { nbdl::string body; int order; };
  struct doc { nbdl::string text; std::vector<note> notes; };
  struct shelf { int floor; doc top; foo mark; doc below; };
  struct wide { int w00, w01, w02, w03, w04, w05, w06, w07, w08, w09, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22; nbdl::string w23; };
  struct link3 { int v; foo end; };
  struct link2 { link3 next; nbdl::string t; };
  struct link1 { link2 next; };
  struct link0 { int v; link1 next; };
  struct outer { multi in; nbdl::string tag; };
}
namespace nbdl
{
  NBDL_ENTITY(sq::foo, foo_value);
  NBDL_ENTITY(sq::rich, name, big, on, ratio, bytes);
  NBDL_ENTITY(sq::two, left, note, right);
  NBDL_ENTITY(sq::mid, detail, weight, point);
  NBDL_ENTITY(sq::deep, inner, depth, both, other);
  NBDL_ENTITY(sq::bare, a, b);
  NBDL_ENTITY(sq::multi, title, foos, twos);
  NBDL_ENTITY(sq::note, body, order);
  NBDL_ENTITY(sq::doc, text, notes);
  NBDL_ENTITY(sq::shelf, floor, top, mark, below);
  NBDL_ENTITY(sq::wide, w00, w01, w02, w03, w04, w05, w06, w07, w08, w09, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23);
  NBDL_ENTITY(sq::link3, v, end);
  NBDL_ENTITY(sq::link2, next, t);
  NBDL_ENTITY(sq::link1, next);
  NBDL_ENTITY(sq::link0, v, next);
  NBDL_ENTITY(sq::outer, in, tag);
}
namespace nbdl::sql_db
{
  // documents have keys that own memory
  template <> struct primary_key_impl<sq::doc> { using type = nbdl::key<sq::doc, std::string>; };
}

namespace sq
{
  using val = std::variant<std::monostate, std::int64_t, double, std::string>;
  using row = std::vector<val>;

  std::string show(val const& v)
  {
    if (auto* p = std::get_if<std::int64_t>(&v)) return std::to_string(*p);
    if (auto* p = std::get_if<double>(&v)) return std::to_string(*p) + "d";
    if (auto* p = std::get_if<std::string>(&v)) return "'" + *p + "'";
    return "NULL";
  }

  template <typename T> val to_val(T const& x)
  {
    if constexpr (std::is_floating_point_v<T>) return static_cast<double>(x);
    else if constexpr (std::is_integral_v<T>) return static_cast<std::int64_t>(x);
    else if constexpr (std::is_same_v<T, std::vector<unsigned char>>) return std::string("x") + std::string(x.begin(), x.end());
    else return std::string(x);
  }
  template <typename T, typename K> val to_val(nbdl::key_impl<T, K> const& x) { return to_val(x.value); }

  struct db
  {
    sqlite3* h = nullptr;
    std::string error, last;
    db()
    {
      sqlite3_open(":memory:", &h);
      exec("PRAGMA foreign_keys=ON");
      exec("CREATE TABLE foo(foo_id INTEGER PRIMARY KEY AUTOINCREMENT, foo_value, multi_id REFERENCES multi(multi_id))");
      exec("CREATE TABLE rich(rich_id INTEGER PRIMARY KEY AUTOINCREMENT, name, big, \"on\", ratio, bytes)");
      exec("CREATE TABLE two(two_id INTEGER PRIMARY KEY AUTOINCREMENT, left_id NOT NULL REFERENCES foo(foo_id), note, right_id NOT NULL REFERENCES foo(foo_id), multi_id REFERENCES multi(multi_id))");
      exec("CREATE TABLE mid(mid_id INTEGER PRIMARY KEY AUTOINCREMENT, detail_id NOT NULL REFERENCES rich(rich_id), weight, point_id NOT NULL REFERENCES foo(foo_id))");
      exec("CREATE TABLE deep(deep_id INTEGER PRIMARY KEY AUTOINCREMENT, inner_id NOT NULL REFERENCES mid(mid_id), depth, both_id NOT NULL REFERENCES two(two_id), other_id NOT NULL REFERENCES mid(mid_id))");
      exec("CREATE TABLE bare(bare_id INTEGER PRIMARY KEY AUTOINCREMENT, a_id NOT NULL REFERENCES foo(foo_id), b_id NOT NULL REFERENCES foo(foo_id))");
      exec("CREATE TABLE multi(multi_id INTEGER PRIMARY KEY AUTOINCREMENT, title)");
      exec("CREATE TABLE note(note_id INTEGER PRIMARY KEY AUTOINCREMENT, body, \"order\", doc_id REFERENCES doc(doc_id))");
      exec("CREATE TABLE doc(n INTEGER PRIMARY KEY AUTOINCREMENT, doc_id TEXT UNIQUE, text)");
      exec("CREATE TABLE shelf(shelf_id INTEGER PRIMARY KEY AUTOINCREMENT, floor, top_id NOT NULL REFERENCES doc(doc_id), mark_id NOT NULL REFERENCES foo(foo_id), below_id NOT NULL REFERENCES doc(doc_id))");
      exec("CREATE TABLE wide(wide_id INTEGER PRIMARY KEY AUTOINCREMENT, w00, w01, w02, w03, w04, w05, w06, w07, w08, w09, w10, w11, w12, w13, w14, w15, w16, w17, w18, w19, w20, w21, w22, w23)");
      exec("CREATE TABLE link3(link3_id INTEGER PRIMARY KEY AUTOINCREMENT, v, end_id NOT NULL REFERENCES foo(foo_id))");
      exec("CREATE TABLE link2(link2_id INTEGER PRIMARY KEY AUTOINCREMENT, t, next_id NOT NULL REFERENCES link3(link3_id))");
      exec("CREATE TABLE link1(link1_id INTEGER PRIMARY KEY AUTOINCREMENT, next_id NOT NULL REFERENCES link2(link2_id))");
      exec("CREATE TABLE link0(link0_id INTEGER PRIMARY KEY AUTOINCREMENT, v, next_id NOT NULL REFERENCES link1(link1_id))");
      exec("CREATE TABLE \"outer\"(outer_id INTEGER PRIMARY KEY AUTOINCREMENT, in_id NOT NULL REFERENCES multi(multi_id), tag)");
    }
    ~db() { sqlite3_close(h); }
    void fail(std::string what) { if (error.empty()) error = what; }
    void exec(char const* sql) { char* e = nullptr; sqlite3_exec(h, sql, nullptr, nullptr, &e); if (e) fail(std::string(e) + " in " + sql); }
    std::vector<row> run(std::string const& sql, row const& args)
    {
      std::vector<row> rows;
      last = sql;
      sqlite3_stmt* st = nullptr;
      char const* tail = nullptr;
      if (sqlite3_prepare_v2(h, sql.c_str(), static_cast<int>(sql.size()), &st, &tail) != SQLITE_OK)
      { fail(std::string(sqlite3_errmsg(h)) + " in " + sql); return rows; }
      if (tail && std::string(tail).find_first_not_of(" ;") != std::string::npos) fail("more than a statement: " + sql);
      if (sqlite3_bind_parameter_count(st) != static_cast<int>(args.size()))
        fail(std::to_string(sqlite3_bind_parameter_count(st)) + " placeholders for " + std::to_string(args.size()) + " values in " + sql);
      else
      {
        for (std::size_t i = 0; i < args.size(); i++)
        {
          int n = static_cast<int>(i + 1);
          if (auto* p = std::get_if<std::int64_t>(&args[i])) sqlite3_bind_int64(st, n, *p);
          else if (auto* p = std::get_if<double>(&args[i])) sqlite3_bind_double(st, n, *p);
          else if (auto* p = std::get_if<std::string>(&args[i])) sqlite3_bind_text(st, n, p->data(), static_cast<int>(p->size()), SQLITE_TRANSIENT);
        }
        int r;
        while ((r = sqlite3_step(st)) == SQLITE_ROW)
        {
          row one;
          for (int i = 0; i < sqlite3_column_count(st); i++)
            switch (sqlite3_column_type(st, i))
            {
              case SQLITE_INTEGER: one.push_back(static_cast<std::int64_t>(sqlite3_column_int64(st, i))); break;
              case SQLITE_FLOAT: one.push_back(sqlite3_column_double(st, i)); break;
              case SQLITE_TEXT: { auto* t = reinterpret_cast<char const*>(sqlite3_column_text(st, i)); one.push_back(std::string(t, static_cast<std::size_t>(sqlite3_column_bytes(st, i)))); break; }
              default: one.push_back({});
            }
          rows.push_back(std::move(one));
        }
        if (r != SQLITE_DONE)
        {
          std::string a;
          for (auto& x : args) a += show(x) + " ";
          fail(std::string(sqlite3_errmsg(h)) + " in " + sql + " with " + a);
        }
      }
      sqlite3_finalize(st);
      return rows;
    }
    val key_of(std::string const& table, val const& v) { (void)table; return v; }
  };

  template <typename Str> std::string text(Str const& s) { return std::string(s.c_str(), hana::length(s)); }
  template <typename Values> row values_of(Values const& v)
  {
    row r;
    hana::for_each(v, [&](auto const& x) { r.push_back(to_val(x)); });
    return r;
  }

  constexpr auto doc_name = BOOST_HANA_STRING("sq::doc");

  // ---- the connector ----
  // entities are named with their namespace; tables without it
  inline std::string local(std::string s)
  {
    for (std::size_t i; (i = s.find("sq::")) != s.npos;) s.erase(i, 4);
    return s;
  }
  struct inserter
  {
    db* d;
    template <typename Name, typename Columns> auto operator()(Name name, Columns&& columns) const
    {
      auto by = hana::to_map(std::forward<Columns>(columns));
      nbdl::sql_db::statement::insert(name, by);
      auto st = nbdl::sql_db::statement::insert(name, by);
      d->run(local(text(hana::first(st))), values_of(hana::second(st)));
      std::int64_t id = sqlite3_last_insert_rowid(d->h);
      if constexpr (decltype(hana::equal(name, hana::plus(BOOST_HANA_STRING(""), nbdl::sql_db::table_name<doc>{})))::value)
      {
        std::string key = "document number " + std::to_string(id) + " of this run";
        d->run("UPDATE doc SET doc_id=? WHERE n=?", {key, id});
        return key;
      }
      else
        return static_cast<std::uint32_t>(id);
    }
  };
  struct selection { std::string columns; std::vector<row> rows; };
  struct selecter
  {
    db* d;
    template <typename Name, typename Columns, typename Joins, typename Keys>
    auto operator()(Name name, Columns columns, Joins joins, Keys&& keys) const
    {
      auto by = hana::to_map(std::forward<Keys>(keys));
      nbdl::sql_db::statement::select(name, columns, joins, by);   // what is given stays as it is
      auto st = nbdl::sql_db::statement::select(name, columns, joins, by);
      return selection{local(text(columns)), d->run(local(text(hana::first(st))), values_of(hana::second(st)))};
    }
  };
  struct updater
  {
    db* d;
    template <typename Name, typename Values, typename Keys>
    auto operator()(Name name, Values&& values, Keys&& keys) const
    {
      auto set = hana::to<hana::basic_tuple_tag>(std::forward<Values>(values));
      auto by = hana::to<hana::basic_tuple_tag>(std::forward<Keys>(keys));
      nbdl::sql_db::statement::update(name, set, by);   // what is given stays as it is
      auto st = nbdl::sql_db::statement::update(name, set, by);
      d->run(local(text(hana::first(st))), values_of(hana::second(st)));
    }
  };

  // ---- the model: what an entity looks like in the tables ----
  using fields = std::map<std::string, val>;      // dotted path to value
  void put(fields& f, std::string p, foo const& x) { f[p + "foo_value"] = to_val(x.foo_value); }
  void put(fields& f, std::string p, rich const& x)
  {
    f[p + "name"] = to_val(x.name); f[p + "big"] = to_val(x.big); f[p + "on"] = to_val(x.on); f[p + "ratio"] = to_val(x.ratio);
    f[p + "bytes"] = to_val(x.bytes);
  }
  void put(fields& f, std::string p, two const& x) { put(f, p + "left.", x.left); f[p + "note"] = to_val(x.note); put(f, p + "right.", x.right); }
  void put(fields& f, std::string p, mid const& x) { put(f, p + "detail.", x.detail); f[p + "weight"] = to_val(x.weight); put(f, p + "point.", x.point); }
  void put(fields& f, std::string p, deep const& x)
  { put(f, p + "inner.", x.inner); f[p + "depth"] = to_val(x.depth); put(f, p + "both.", x.both); put(f, p + "other.", x.other); }
  void put(fields& f, std::string p, bare const& x) { put(f, p + "a.", x.a); put(f, p + "b.", x.b); }
  template <typename L> void put_list(fields& f, std::string p, L const& l) { int i = 0; for (auto& x : l) put(f, p + std::to_string(i++) + ".", x); f[p + "size"] = to_val(i); }
  void put(fields& f, std::string p, note const& x) { f[p + "body"] = to_val(x.body); f[p + "order"] = to_val(x.order); }
  void put(fields& f, std::string p, multi const& x) { f[p + "title"] = to_val(x.title); put_list(f, p + "foos.", x.foos); put_list(f, p + "twos.", x.twos); }
  void put(fields& f, std::string p, doc const& x) { f[p + "text"] = to_val(x.text); put_list(f, p + "notes.", x.notes); }
  void put(fields& f, std::string p, shelf const& x)
  { f[p + "floor"] = to_val(x.floor); put(f, p + "top.", x.top); put(f, p + "mark.", x.mark); put(f, p + "below.", x.below); }
  void put(fields& f, std::string p, wide const& x)
  {
    int i = 0;
    hana::for_each(nbdl::entity_members<wide>, [&](auto m) { f[p + (i < 10 ? "w0" : "w") + std::to_string(i)] = to_val(nbdl::get_member<decltype(m)>(x)); i++; });
  }
  void put(fields& f, std::string p, link3 const& x) { f[p + "v"] = to_val(x.v); put(f, p + "end.", x.end); }
  void put(fields& f, std::string p, link2 const& x) { f[p + "t"] = to_val(x.t); put(f, p + "next.", x.next); }
  void put(fields& f, std::string p, link1 const& x) { put(f, p + "next.", x.next); }
  void put(fields& f, std::string p, link0 const& x) { f[p + "v"] = to_val(x.v); put(f, p + "next.", x.next); }
  void put(fields& f, std::string p, outer const& x) { put(f, p + "in.", x.in); f[p + "tag"] = to_val(x.tag); }

  // the shape of a table: its columns, children and rows that refer to it
  struct table { std::string name, key; std::vector<std::string> values; std::vector<std::pair<std::string, table const*>> children, lists; };
  table const t_foo{"foo", "foo_id", {"foo_value"}, {}, {}}, t_rich{"rich", "rich_id", {"name", "big", "on", "ratio", "bytes"}, {}, {}},
    t_two{"two", "two_id", {"note"}, {{"left", &t_foo}, {"right", &t_foo}}, {}},
    t_mid{"mid", "mid_id", {"weight"}, {{"detail", &t_rich}, {"point", &t_foo}}, {}},
    t_deep{"deep", "deep_id", {"depth"}, {{"inner", &t_mid}, {"both", &t_two}, {"other", &t_mid}}, {}},
    t_bare{"bare", "bare_id", {}, {{"a", &t_foo}, {"b", &t_foo}}, {}},
    t_multi{"multi", "multi_id", {"title"}, {}, {{"foos", &t_foo}, {"twos", &t_two}}},
    t_note{"note", "note_id", {"body", "order"}, {}, {}},
    t_doc{"doc", "doc_id", {"text"}, {}, {{"notes", &t_note}}},
    t_shelf{"shelf", "shelf_id", {"floor"}, {{"top", &t_doc}, {"mark", &t_foo}, {"below", &t_doc}}, {}},
    t_wide{"wide", "wide_id", {"w00", "w01", "w02", "w03", "w04", "w05", "w06", "w07", "w08", "w09", "w10", "w11", "w12", "w13", "w14", "w15", "w16", "w17", "w18", "w19", "w20", "w21", "w22", "w23"}, {}, {}},
    t_link3{"link3", "link3_id", {"v"}, {{"end", &t_foo}}, {}}, t_link2{"link2", "link2_id", {"t"}, {{"next", &t_link3}}, {}},
    t_link1{"link1", "link1_id", {}, {{"next", &t_link2}}, {}}, t_link0{"link0", "link0_id", {"v"}, {{"next", &t_link1}}, {}},
    t_outer{"outer", "outer_id", {"tag"}, {{"in", &t_multi}}, {}};
  template <typename T> table const& shape();
  template <> table const& shape<foo>() { return t_foo; }
  template <> table const& shape<rich>() { return t_rich; }
  template <> table const& shape<two>() { return t_two; }
  template <> table const& shape<mid>() { return t_mid; }
  template <> table const& shape<deep>() { return t_deep; }
  template <> table const& shape<bare>() { return t_bare; }
  template <> table const& shape<multi>() { return t_multi; }
  template <> table const& shape<note>() { return t_note; }
  template <> table const& shape<doc>() { return t_doc; }
  template <> table const& shape<shelf>() { return t_shelf; }
  template <> table const& shape<wide>() { return t_wide; }
  template <> table const& shape<link3>() { return t_link3; }
  template <> table const& shape<link2>() { return t_link2; }
  template <> table const& shape<link1>() { return t_link1; }
  template <> table const& shape<link0>() { return t_link0; }
  template <> table const& shape<outer>() { return t_outer; }

  // reads what refers and is referred to, and counts the rows it passes
  void load(db& d, table const& t, val const& key, std::string p, fields& f, std::map<std::string, int>& rows)
  {
    auto got = d.run("SELECT * FROM \"" + t.name + "\" WHERE " + t.key + "=?", {key});
    if (got.size() != 1) { f[p + "?rows of " + t.name] = to_val(static_cast<int>(got.size())); return; }
    rows[t.name]++;
    for (auto& c : t.values)
    {
      auto v = d.run("SELECT \"" + c + "\" FROM \"" + t.name + "\" WHERE " + t.key + "=?", {key});
      f[p + c] = v.at(0).at(0);
    }
    for (auto& [m, c] : t.children)
    {
      auto v = d.run("SELECT \"" + m + "_id\" FROM \"" + t.name + "\" WHERE " + t.key + "=?", {key});
      load(d, *c, v.at(0).at(0), p + m + ".", f, rows);
    }
    for (auto& [m, c] : t.lists)
    {
      auto v = d.run("SELECT " + c->key + " FROM \"" + c->name + "\" WHERE " + t.key + "=? ORDER BY " + c->key, {key});
      int i = 0;
      for (auto& x : v) load(d, *c, x.at(0), p + m + "." + std::to_string(i++) + ".", f, rows);
      f[p + m + ".size"] = to_val(i);
    }
  }

  std::string diff(fields const& a, fields const& b)
  {
    std::string r;
    for (auto& [k, v] : a) { auto i = b.find(k); if (i == b.end()) r += k + " is extra; "; else if (i->second != v) r += k + " is " + show(v) + " not " + show(i->second) + "; "; }
    for (auto& [k, v] : b) if (!a.count(k)) r += k + " is missing; ";
    return r;
  }

  // ---- generators ----
  void gen(vf::Src& s, int& x) { x = s.chance(60) ? static_cast<int>(s.range(-3, 3)) : static_cast<int>(s.u64()); }
  void gen(vf::Src& s, std::int64_t& x) { x = s.chance(50) ? s.range(-3, 3) : static_cast<std::int64_t>(s.u64()); }
  void gen(vf::Src& s, bool& x) { x = s.boolean(); }
  void gen(vf::Src& s, double& x) { x = s.pick({0.0, 0.5, -1.25, 1e300, 3.5}); }
  void gen(vf::Src& s, nbdl::string& x) { x = nbdl::string(s.text_of("ab'\"?;,%=_ ", s.chance(20) ? 40 : 4)); }
  void gen(vf::Src& s, std::vector<unsigned char>& x) { x.clear(); for (std::size_t n = s.upto(4); n-- > 0;) x.push_back(static_cast<unsigned char>('0' + s.upto(9))); }
  void gen(vf::Src& s, foo& x) { gen(s, x.foo_value); }
  void gen(vf::Src& s, rich& x) { gen(s, x.name); gen(s, x.big); gen(s, x.on); gen(s, x.ratio); gen(s, x.bytes); }
  void gen(vf::Src& s, two& x) { gen(s, x.left); gen(s, x.note); gen(s, x.right); }
  void gen(vf::Src& s, mid& x) { gen(s, x.detail); gen(s, x.weight); gen(s, x.point); }
  void gen(vf::Src& s, deep& x) { gen(s, x.inner); gen(s, x.depth); gen(s, x.both); gen(s, x.other); }
  void gen(vf::Src& s, bare& x) { gen(s, x.a); gen(s, x.b); }
  void gen(vf::Src& s, note& x) { gen(s, x.body); gen(s, x.order); }
  template <typename L> void gen_list(vf::Src& s, L& l) { l.clear(); for (std::size_t n = s.chance(4) ? s.upto(20) : s.upto(4); n-- > 0;) { l.emplace_back(); gen(s, l.back()); } }
  void gen(vf::Src& s, multi& x) { gen(s, x.title); gen_list(s, x.foos); gen_list(s, x.twos); }
  void gen(vf::Src& s, doc& x) { gen(s, x.text); gen_list(s, x.notes); }
  void gen(vf::Src& s, shelf& x) { gen(s, x.floor); gen(s, x.top); gen(s, x.mark); gen(s, x.below); }
  void gen(vf::Src& s, wide& x) { hana::for_each(nbdl::entity_members<wide>, [&](auto m) { gen(s, nbdl::get_member<decltype(m)>(x)); }); }
  void gen(vf::Src& s, link3& x) { gen(s, x.v); gen(s, x.end); }
  void gen(vf::Src& s, link2& x) { gen(s, x.next); gen(s, x.t); }
  void gen(vf::Src& s, link1& x) { gen(s, x.next); }
  void gen(vf::Src& s, link0& x) { gen(s, x.v); gen(s, x.next); }
  void gen(vf::Src& s, outer& x) { gen(s, x.in); gen(s, x.tag); }

  struct stored { table const* t; val key; fields f; std::string extra; val extra_value; };

  struct world
  {
    vf::Src& s;
    db d;
    std::vector<stored> all;
    int changes = 0;

    void audit(char const* after)
    {
      s.equal(d.error, "", after);
      std::map<std::string, int> rows;
      for (auto& x : all)
      {
        fields f;
        load(d, *x.t, x.key, "", f, rows);
        s.equal(diff(f, x.f), "", x.t->name, " ", show(x.key), " after ", after);
      }
      for (char const* t : {"foo", "rich", "two", "mid", "deep", "bare", "multi", "note", "doc", "shelf", "outer", "wide", "link3", "link2", "link1", "link0"})
        s.equal(std::get<std::int64_t>(d.run(std::string("SELECT COUNT(*) FROM \"") + t + "\"", {}).at(0).at(0)), static_cast<std::int64_t>(rows[t]), "rows of ", t, " after ", after);
      s.equal(d.error, "", after);
    }

    template <typename T> void insert()
    {
      T x{};
      gen(s, x);
      fields f;
      put(f, "", x);
      s.note("insert", shape<T>().name);
      std::size_t how = s.choose(3);
      auto key = [&]
      {
        if (how == 0) return nbdl::sql_db::insert(inserter{&d}, x);
        if (how == 1) return nbdl::sql_db::insert(inserter{&d}, static_cast<T const&>(x));
        return nbdl::sql_db::insert(inserter{&d}, std::move(x));
      }();
      static_assert(std::is_same_v<decltype(key), nbdl::sql_db::primary_key<T>>);
      if (how < 2)
      {
        fields g;
        put(g, "", x);
        s.equal(diff(g, f), "", "the inserted object itself");
      }
      all.push_back({&shape<T>(), to_val(key), f, {}, {}});
      changes++;
    }

    // a row that belongs to an existing one, by a key of the caller's
    void insert_owned()
    {
      std::vector<stored*> docs;
      for (auto& x : all) if (x.t == &t_doc) docs.push_back(&x);
      if (docs.empty()) return;
      stored& owner = *docs[s.choose(docs.size())];
      note x{};
      gen(s, x);
      s.note("insert note of", show(owner.key));
      auto k = nbdl::sql_db::insert(inserter{&d}, x, hana::make_tuple(hana::make_pair(nbdl::sql_db::table_key_name<doc>{}, nbdl::sql_db::primary_key<doc>{std::get<std::string>(owner.key)})));
      (void)k;
      int n = static_cast<int>(std::get<std::int64_t>(owner.f["notes.size"]));
      put(owner.f, "notes." + std::to_string(n) + ".", x);
      owner.f["notes.size"] = to_val(n + 1);
      changes++;
    }
    void insert_many()
    {
      std::vector<rich> xs;
      gen_list(s, xs);
      s.note("insert", xs.size(), "rich");
      std::int64_t before = std::get<std::int64_t>(d.run("SELECT COALESCE(MAX(rich_id), 0) FROM rich", {}).at(0).at(0));
      // an AUTOINCREMENT never hands out a key again
      auto seq = d.run("SELECT seq FROM sqlite_sequence WHERE name='rich'", {});
      if (!seq.empty()) before = std::get<std::int64_t>(seq.at(0).at(0));
      nbdl::sql_db::insert(inserter{&d}, xs);
      for (auto& x : xs) { fields f; put(f, "", x); all.push_back({&t_rich, ++before, f, {}, {}}); }
      changes++;
    }

    template <typename T> void update()
    {
      std::vector<stored*> v;
      for (auto& x : all) if (x.t == &shape<T>()) v.push_back(&x);
      if (v.empty()) return;
      stored& target = *v[s.choose(v.size())];
      bool missing = s.chance(10);
      T x{};
      gen(s, x);
      fields f;
      put(f, "", x);
      std::uint32_t id = static_cast<std::uint32_t>(std::get<std::int64_t>(target.key)) + (missing ? 100000 : 0);
      auto pk = hana::make_pair(nbdl::sql_db::table_key_name<T>{}, nbdl::sql_db::primary_key<T>{id});
      bool hit = !missing;
      s.note("update", shape<T>().name, show(target.key), missing ? "(missing)" : "");
      bool given = false;
      switch (s.choose(5))
      {
        case 0: nbdl::sql_db::update(updater{&d}, x, hana::make_tuple(pk)); break;
        case 1:
        {
          // the keys stay with the caller
          auto keys = hana::make_tuple(pk);
          nbdl::sql_db::update(updater{&d}, std::as_const(x), keys);
          nbdl::sql_db::update(updater{&d}, std::as_const(x), std::as_const(keys));
          s.equal(keys == hana::make_tuple(pk), true, "the keys of an update are as they were");
          break;
        }
        case 2: nbdl::sql_db::update(updater{&d}, std::move(x), hana::make_tuple(pk)); given = true; break;
        default:
        {
          // a second condition, which holds or does not
          bool holds = s.boolean();
          bool first = s.boolean();
          s.note(holds ? "if it holds" : "if it does not hold");
          auto go = [&](auto name, auto value)
          {
            auto other = hana::make_pair(name, value);
            if (first) nbdl::sql_db::update(updater{&d}, x, hana::make_tuple(other, pk));
            else nbdl::sql_db::update(updater{&d}, x, hana::make_tuple(pk, other));
          };
          if constexpr (std::is_same_v<T, foo>)
            go(BOOST_HANA_STRING("foo_value"), std::get<std::int64_t>(target.f["foo_value"]) + !holds);
          else if constexpr (std::is_same_v<T, wide>)
            go(BOOST_HANA_STRING("w17"), std::get<std::int64_t>(target.f["w17"]) + !holds);
          else if constexpr (std::is_same_v<T, rich>)
          {
            if (s.boolean()) go(BOOST_HANA_STRING("name"), std::get<std::string>(target.f["name"]) + (holds ? "" : "!"));
            else
            {
              auto a = hana::make_pair(BOOST_HANA_STRING("big"), std::get<std::int64_t>(target.f["big"]));
              auto b = hana::make_pair(BOOST_HANA_STRING("on"), (std::get<std::int64_t>(target.f["on"]) != 0) == holds);
              nbdl::sql_db::update(updater{&d}, x, hana::make_tuple(a, pk, b));
            }
          }
          else
            go(BOOST_HANA_STRING("order"), std::get<std::int64_t>(target.f["order"]) + !holds);
          hit = hit && holds;
        }
      }
      if (!given) { fields now; put(now, "", x); s.equal(diff(now, f), "", "the object of an update itself"); }
      if (hit) target.f = f;
      changes++;
    }

    void check_selection(stored const& x, selection const& got, bool expected)
    {
      s.equal(d.error, "", "select");
      s.equal(got.rows.size(), std::size_t(expected), "rows selected by ", d.last);
      // "alias"."column","alias"."column"
      std::vector<std::string> paths;
      std::string c = got.columns;
      for (std::size_t i = 0; i < c.size();)
      {
        std::size_t a = c.find('"', i + 1), b = a + 2, e = c.find('"', b + 1);
        s.check(c[i] == '"' && c.compare(a, 3, "\".\"") == 0 && e != c.npos, "columns ", c);
        std::string alias = c.substr(i + 1, a - i - 1) + ".", column = c.substr(b + 1, e - b - 1);
        s.check(alias.rfind(x.t->name + ".", 0) == 0, "alias ", alias);
        paths.push_back(alias.substr(x.t->name.size() + 1) + column);
        i = e + 1;
        if (i < c.size()) { s.check(c[i] == ',', "columns ", c); i++; }
      }
      if (!expected) return;
      fields f;
      s.equal(paths.size(), got.rows[0].size(), "columns");
      for (std::size_t i = 0; i < paths.size(); i++) { s.check(!f.count(paths[i]), "column twice: ", paths[i]); f[paths[i]] = got.rows[0][i]; }
      s.equal(diff(f, x.f), "", "selected ", x.t->name);
    }

    // the keys of a selection stay with the caller
    template <typename T, typename Keys> selection ask(Keys keys)
    {
      if (s.boolean()) nbdl::sql_db::select<T>(selecter{&d}, keys);
      return nbdl::sql_db::select<T>(selecter{&d}, std::move(keys));
    }
    template <typename T> void select()
    {
      std::vector<stored*> v;
      for (auto& x : all) if (x.t == &shape<T>()) v.push_back(&x);
      if (v.empty()) return;
      stored& x = *v[s.choose(v.size())];
      bool missing = s.chance(10);
      std::uint32_t id = static_cast<std::uint32_t>(std::get<std::int64_t>(x.key)) + (missing ? 100000 : 0);
      auto pk = hana::make_pair(nbdl::sql_db::select_primary_key_name<T>{}, nbdl::sql_db::primary_key<T>{id});
      s.note("select", shape<T>().name, show(x.key), missing ? "(missing)" : "");
      check_selection(x, ask<T>(hana::make_basic_tuple(pk)), !missing);
      bool holds = s.boolean();
      bool first = s.boolean();
      auto go = [&](auto name, auto value)
      {
        auto other = hana::make_pair(name, value);
        check_selection(x, first ? ask<T>(hana::make_basic_tuple(other, pk))
                                 : ask<T>(hana::make_basic_tuple(pk, other)), holds && !missing);
      };
      if constexpr (std::is_same_v<T, rich>)
        go(BOOST_HANA_STRING("\"rich\".\"name\""), std::get<std::string>(x.f["name"]) + (holds ? "" : "!"));
      // by the key of a row it refers to
      auto nested = [&](auto name, char const* table_sql, auto entity)
      {
        using E = typename decltype(entity)::type;
        auto id = d.run(table_sql, {x.key});
        s.equal(id.size(), std::size_t(1), "rows of ", table_sql);
        auto k = nbdl::sql_db::primary_key<E>{static_cast<std::uint32_t>(std::get<std::int64_t>(id[0][0]) + (holds ? 0 : 1))};
        go(name, k);
      };
      if constexpr (std::is_same_v<T, two>)
      {
        if (first) nested(nbdl::sql_db::select_nested_key_name<two, NBDL_MEMBER(&two::left)>{}, "SELECT left_id FROM two WHERE two_id=?", hana::type_c<foo>);
        else nested(nbdl::sql_db::select_nested_key_name<two, NBDL_MEMBER(&two::right)>{}, "SELECT right_id FROM two WHERE two_id=?", hana::type_c<foo>);
      }
      if constexpr (std::is_same_v<T, deep>)
      {
        switch (s.choose(4))
        {
          case 0: nested(nbdl::sql_db::select_nested_key_name<deep, NBDL_MEMBER(&deep::inner)>{}, "SELECT inner_id FROM deep WHERE deep_id=?", hana::type_c<mid>); break;
          case 1: nested(nbdl::sql_db::select_nested_key_name<deep, NBDL_MEMBER(&deep::other), NBDL_MEMBER(&mid::point)>{},
                         "SELECT point_id FROM deep JOIN mid ON other_id=mid_id WHERE deep_id=?", hana::type_c<foo>); break;
          case 2: nested(nbdl::sql_db::select_nested_key_name<deep, NBDL_MEMBER(&deep::both), NBDL_MEMBER(&two::right)>{},
                         "SELECT right_id FROM deep JOIN two ON both_id=two_id WHERE deep_id=?", hana::type_c<foo>); break;
          default: nested(nbdl::sql_db::select_nested_key_name<deep, NBDL_MEMBER(&deep::inner), NBDL_MEMBER(&mid::detail)>{},
                         "SELECT detail_id FROM deep JOIN mid ON inner_id=mid_id WHERE deep_id=?", hana::type_c<rich>);
        }
        go(BOOST_HANA_STRING("\"deep.inner.point\".\"foo_value\""), std::get<std::int64_t>(x.f["inner.point.foo_value"]) + !holds);
        auto a = hana::make_pair(BOOST_HANA_STRING("\"deep.both\".\"note\""), std::get<std::string>(x.f["both.note"]));
        auto b = hana::make_pair(BOOST_HANA_STRING("\"deep\".\"depth\""), std::get<std::int64_t>(x.f["depth"]) - !holds);
        check_selection(x, ask<T>(hana::make_basic_tuple(a, b, pk)), holds && !missing);
      }
    }
  };
}

VF_PROP(tables, 3000, 100000)
{
  sq::world w{s};
  w.audit("start");
  std::size_t steps = 1 + s.size(14);
  for (std::size_t i = 0; i < steps; i++)
  {
    switch (s.choose(24))
    {
      case 0: w.insert<sq::foo>(); break;
      case 1: w.insert<sq::rich>(); break;
      case 2: w.insert<sq::two>(); break;
      case 3: w.insert<sq::mid>(); break;
      case 4: w.insert<sq::deep>(); break;
      case 5: w.insert<sq::bare>(); break;
      case 6: w.insert<sq::multi>(); break;
      case 7: w.insert<sq::doc>(); break;
      case 8: w.insert<sq::shelf>(); break;
      case 9: w.insert<sq::outer>(); break;
      case 10: w.insert_owned(); break;
      case 11: w.insert_many(); break;
      case 12: w.update<sq::foo>(); break;
      case 13: w.update<sq::rich>(); break;
      case 14: w.insert<sq::note>(); break;
      case 15: w.update<sq::note>(); break;
      case 16: s.boolean() ? w.select<sq::foo>() : w.select<sq::rich>(); break;
      case 17: s.boolean() ? w.select<sq::two>() : w.select<sq::bare>(); break;
      case 18: case 19: w.insert<sq::wide>(); break;
      case 20: s.boolean() ? w.insert<sq::link0>() : s.boolean() ? w.insert<sq::link1>() : w.insert<sq::link2>(); break;
      case 21: s.boolean() ? w.update<sq::wide>() : w.select<sq::wide>(); break;
      case 22: s.boolean() ? w.select<sq::link0>() : s.boolean() ? w.select<sq::link1>() : w.select<sq::link2>(); break;
      default: s.boolean() ? w.select<sq::mid>() : w.select<sq::deep>();
    }
    w.audit("the last step");
  }
  s.nontrivial(w.changes > 1);
}
