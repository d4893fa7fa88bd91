// C18: session and auth tokens are found in cookies exactly where they are
#include "vf.hpp"
#include <boost/hana.hpp>
#include <nbdl/app/detail/cookie_parser.hpp>
#include <nbdl/websocket/detail/get_auth_token.hpp>
#include <memory>
#include <string>
#include <vector>

namespace
{
  // a cookie header has a pair between any two semicolons; blanks before a name do not count
  bool find_cookie(std::string const& cookies, std::string const& name, char const* blanks, std::string& value)
  {
    std::size_t pos = 0;
    while (pos <= cookies.size())
    {
      std::size_t e = std::min(cookies.find(';', pos), cookies.size());
      std::string c = cookies.substr(pos, e - pos);
      c.erase(0, std::min(c.find_first_not_of(blanks), c.size()));
      if (c.compare(0, name.size() + 1, name + "=") == 0) { value = c.substr(name.size() + 1); return true; }
      pos = e + 1;
    }
    return false;
  }

  std::string header(vf::Src& s, std::string const& name)
  {
    std::string r;
    for (std::size_t n = s.upto(6); n-- > 0;)
    {
      switch (s.choose(14))
      {
        case 0: case 1: r += name + "="; break;
        case 2: r += name; break;
        case 3: r += name.substr(0, s.upto(name.size())) + "="; break;
        case 4: r += "x" + name + "="; break;
        case 5: r += name + "x="; break;
        case 6: r += s.text_of("abc=", 5); break;
        case 7: r += "a=" + name + "=v"; break;
        case 8: r += ";"; break;
        case 9: r += "="; break;
        case 10: r += std::string(1 + s.upto(2), ' '); break;
        case 11: r += s.bytes(6); break;
        case 12: r += "\"q\""; break;
        default: r += "name=value"; break;
      }
      switch (s.choose(5))
      {
        case 0: r += s.text_of("v1 =", 6); break;
        case 1: r += ";"; break;
        case 2: case 3: r += "; "; break;
        default: break;
      }
    }
    return r;
  }
}

VF_PROP(auth_cookie, 60000, 3000000)
{
  std::string h = header(s, "nbdl_auth");
  s.note(vf::show(h));
  std::string want;
  find_cookie(h, "nbdl_auth", " ", want);
  auto exact = std::string(h.c_str(), h.size());
  exact.shrink_to_fit();
  s.equal(nbdl::websocket::detail::get_auth_token(exact).value, want, "auth token");
  s.nontrivial(h.find("nbdl_auth") != h.npos);
}

VF_PROP(session_cookie, 60000, 3000000)
{
  std::string h = header(s, "NBDL_SESS");
  s.note(vf::show(h));
  std::string want;
  find_cookie(h, "NBDL_SESS", " \t\n\v\f\r", want);
  // a buffer without a byte to spare
  std::unique_ptr<char[]> exact(new char[h.size()]);
  std::copy(h.begin(), h.end(), exact.get());
  std::string_view view(exact.get(), h.size());
  auto got = nbdl::app::detail::get_session_cookie(view);
  s.equal(std::string(got), want, "session cookie");
  if (!got.empty()) s.check(got.data() >= view.data() && got.data() + got.size() <= view.data() + view.size(), "not a part of the header");
  s.nontrivial(h.find("NBDL_SESS") != h.npos);
}

// everything over a small alphabet
VF_PROP(short_headers_exhaustively, -400000, -2000000)
{
  static char const* const bits[] = {"NBDL_SESS", "=", ";", " ", "v", "nbdl_auth"};
  std::string h;
  std::size_t n = s.upto(6);
  for (std::size_t i = 0; i < n; i++) h += bits[s.choose(6)];
  std::string want;
  find_cookie(h, "NBDL_SESS", " ", want);
  s.note(vf::show(h));
  s.equal(std::string(nbdl::app::detail::get_session_cookie(h)), want, "session cookie of ", h);
  want.clear();
  find_cookie(h, "nbdl_auth", " ", want);
  s.equal(nbdl::websocket::detail::get_auth_token(h).value, want, "auth token of ", h);
  s.nontrivial(n > 1);
}
