// Files to ingest: writing them (plain or compressed), names, meadows.
#ifndef VERIF_HARNESS_FILES_H_
#define VERIF_HARNESS_FILES_H_
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#include "meadowlark/meadowlark.h"
#include "world.h"
namespace fl {
using namespace cottontail;

inline void put(vp::Ctx &c, const std::string &name, const std::string &bytes) {
  std::ofstream f(name, std::ios::binary | std::ios::trunc);
  f.write(bytes.data(), (std::streamsize)bytes.size());
  f.close();
  c.check(!f.fail(), "harness: cannot write " + name);
}
inline std::string get(const std::string &name) {
  std::ifstream f(name, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
inline std::string gzipped(const std::string &bytes) {
  z_stream z;
  memset(&z, 0, sizeof z);
  deflateInit2(&z, 6, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
  std::string o(deflateBound(&z, bytes.size()) + 64, 0);
  z.next_in = (Bytef *)bytes.data();
  z.avail_in = (uInt)bytes.size();
  z.next_out = (Bytef *)o.data();
  z.avail_out = (uInt)o.size();
  deflate(&z, Z_FINISH);
  o.resize(z.total_out);
  deflateEnd(&z);
  return o;
}
inline bool zipped(const std::string &name) {
  for (std::string e : {".gz", ".z", ".Z", ".GZ"})
    if (name.size() > e.size() && name.substr(name.size() - e.size()) == e) return true;
  return false;
}
// Work in another directory for a while.
struct Here {
  char old[4096];
  explicit Here(const std::string &dir) { if (!getcwd(old, sizeof old) || chdir(dir.c_str())) throw std::runtime_error("harness: chdir"); }
  ~Here() { if (chdir(old)) abort(); }
};
// Names that are easily taken for each other.
inline std::string name(vp::Src &s, const std::string &ext, bool gz) {
  static const std::vector<std::string> stems = {"a", "b", "a b", "a  b", "ab", "a.b", "a-b", "b a", "A", "a\"b", "a\\b", "a\\\"b", "a\\", "a\\\\", "it's", "\xC3\xA9t\xC3\xA9", "a(b)", "$HOME a", "-a", "a;b", "x/a", "x/a b", "y/a/b", "a*", "(a", "a\tb", "@a", "\"a\""};
  std::string n = s.pick(stems);
  if (s.chance(1, 2)) n += ext;
  if (gz) n += s.chance(1, 3) ? s.pick(std::vector<std::string>{".z", ".Z", ".GZ"}) : ".gz";
  return n;
}
inline std::shared_ptr<Warren> meadow(vp::Ctx &c, const std::string &dir) { // without background work: cases reopen in one process
  std::string err;
  wd::configure(c, dir, [&](const std::string &made) {
    auto w = meadowlark::create_meadow(made, &err);
    c.check_f(w != nullptr, [&] { return "create_meadow: " + err; });
    return w;
  });
  auto w = meadowlark::open_meadow(dir, &err);
  c.check_f(w != nullptr, [&] { return "open_meadow: " + err; });
  return w;
}
inline std::shared_ptr<Warren> reopen(vp::Ctx &c, const std::string &dir) {
  std::string err;
  auto w = meadowlark::open_meadow(dir, &err);
  c.check_f(w != nullptr, [&] { return "open_meadow: " + err; });
  return w;
}
} // namespace fl
#endif
