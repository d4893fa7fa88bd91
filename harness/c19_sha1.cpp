// C19: the bundled SHA-1 is SHA-1
#include "vf.hpp"
#include <boost/uuid/detail/sha1.hpp>
#include <nbdl/detail/beast_sha1.hpp>
#include <memory>
#include <string>

namespace sha1 = nbdl::detail::beast_sha1;

namespace
{
  std::string digest_of(sha1::sha1_context& c)
  {
    std::unique_ptr<unsigned char[]> d(new unsigned char[20]);
    sha1::finish(c, d.get());
    return std::string(d.get(), d.get() + 20);
  }
  std::string reference(std::string const& m)
  {
    boost::uuids::detail::sha1 h;
    if (!m.empty()) h.process_bytes(m.data(), m.size());
    boost::uuids::detail::sha1::digest_type d;
    h.get_digest(d);
    auto const* p = reinterpret_cast<unsigned char const*>(&d);
    std::string r;
    for (unsigned i = 0; i < 20; i++)
      r += sizeof(d[0]) == 4 ? static_cast<char>(static_cast<unsigned>(d[i / 4]) >> (24 - 8 * (i % 4))) : static_cast<char>(p[i]);
    return r;
  }
  void feed(vf::Src& s, sha1::sha1_context& c, std::string const& m, std::size_t max_piece)
  {
    for (std::size_t pos = 0; pos < m.size() || s.chance(20);)
    {
      std::size_t n = std::min(m.size() - pos, s.upto(max_piece));
      std::unique_ptr<char[]> piece(new char[n + 1]);
      std::copy_n(m.data() + pos, n, piece.get() + (n % 2));      // unaligned at times
      sha1::update(c, piece.get() + (n % 2), n);
      pos += n;
      if (max_piece == 0) break;
    }
  }
}

VF_PROP(any_message_any_pieces, 20000, 1000000)
{
  std::size_t n = s.chance(60) ? 64 * s.upto(4) + s.pick({0, 1, 54, 55, 56, 57, 58, 62, 63}) : s.upto(s.chance(10) ? 5000 : 400);
  std::string m = n < 70 && s.boolean() ? s.text_of(std::string_view("\0\xff\x80za", 5), n) : s.bulk(n);
  s.note("size", m.size());
  sha1::sha1_context c;
  if (s.boolean())
  {
    // something was fed before
    sha1::init(c);
    auto other = s.bulk(s.upto(200));
    sha1::update(c, other.data(), other.size());
    if (s.boolean()) digest_of(c);
  }
  sha1::init(c);
  feed(s, c, m, s.pick({1, 3, 63, 64, 65, 130, 6000}));
  s.equal(vf::show(digest_of(c)), vf::show(reference(m)), "digest of ", m.size(), " bytes");
  s.nontrivial(m.size() > 1);
}

// every length around the block boundaries, in every split into two pieces
VF_PROP(lengths_exhaustively, -40000, -40000)
{
  std::size_t n = s.upto(200);
  std::size_t cut = s.upto(n);
  std::string m;
  for (std::size_t i = 0; i < n; i++) m += static_cast<char>(i * 37 + 11);
  sha1::sha1_context c;
  sha1::init(c);
  sha1::update(c, m.data(), cut);
  sha1::update(c, m.data() + cut, n - cut);
  s.equal(vf::show(digest_of(c)), vf::show(reference(m)), "digest of ", n, " bytes cut at ", cut);
  s.nontrivial(n > 1);
}

// the length in bits needs more than 32 bits
VF_PROP(long_messages, 1, 3)
{
  std::size_t const chunk = 1 << 20, count = 513 + s.upto(3);
  std::string piece = s.bulk(chunk);
  sha1::sha1_context c;
  sha1::init(c);
  boost::uuids::detail::sha1 h;
  for (std::size_t i = 0; i < count; i++)
  {
    sha1::update(c, piece.data(), piece.size());
    h.process_bytes(piece.data(), piece.size());
  }
  boost::uuids::detail::sha1::digest_type d;
  h.get_digest(d);
  auto const* p = reinterpret_cast<unsigned char const*>(&d);
  std::string want;
  for (unsigned i = 0; i < 20; i++)
    want += sizeof(d[0]) == 4 ? static_cast<char>(static_cast<unsigned>(d[i / 4]) >> (24 - 8 * (i % 4))) : static_cast<char>(p[i]);
  s.equal(vf::show(digest_of(c)), vf::show(want), "digest of ", count, " MiB");
  s.nontrivial();
}
