// Helpers shared by the checks that build indexes.
#ifndef VERIF_HARNESS_WORLD_H_
#define VERIF_HARNESS_WORLD_H_
#include <fstream>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include "ref.h"
#include "src/cottontail.h"
#include "vp.h"
namespace wd {
using namespace cottontail;
inline std::shared_ptr<Bigwig> memory(vp::Ctx &c, const std::string &tok = "utf8", const std::string &tokr = "") {
  std::string err;
  auto b = Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make(tok, tokr), nullptr, &err);
  c.check(b != nullptr, "bigwig in memory: " + err);
  return b;
}
inline std::shared_ptr<Bigwig> disk(vp::Ctx &c, const std::string &dir, const std::string &options = "") {
  std::string err;
  auto b = Bigwig::make(dir, options, &err);
  c.check(b != nullptr, "bigwig: " + err);
  return b;
}
// Without background merging, ever: creating an index starts a worker that may
// see shards stored before merging is switched off, so the index is created
// elsewhere and its configuration taken from there.
template <class F> void configure(vp::Ctx &c, const std::string &dir, F create) {
  std::string err, made = c.dir() + ".made" + std::to_string(getpid());
  {
    std::shared_ptr<Warren> w = create(made);
    auto b = std::dynamic_pointer_cast<Bigwig>(w);
    c.check(b != nullptr, "not a dynamic index");
    b->merge(false);
  }
  c.check_f(Working::mkdir(dir, &err) != nullptr, [&] { return "directory: " + err; });
  std::ifstream in(made + "/dna", std::ios::binary);
  std::ofstream out(dir + "/dna", std::ios::binary);
  out << in.rdbuf();
  out.close();
  c.check(in.good() && out.good(), "harness: cannot copy the configuration");
  unlink((made + "/dna").c_str());
  rmdir(made.c_str());
}
inline std::shared_ptr<Bigwig> quiet(vp::Ctx &c, const std::string &dir, const std::string &options = "") {
  configure(c, dir, [&](const std::string &made) { return disk(c, made, options); });
  std::string err;
  auto b = Bigwig::make(dir, &err);
  c.check_f(b != nullptr, [&] { return "bigwig: " + err; });
  return b;
}
inline std::shared_ptr<Warren> open(vp::Ctx &c, const std::string &dir) {
  std::string err;
  auto w = Warren::make(dir, &err);
  c.check_f(w != nullptr, [&] { return "opening the index: " + err; });
  return w;
}
inline ref::List annotations(std::shared_ptr<Warren> w, addr feature) {
  auto h = w->idx()->hopper(feature);
  return ref::enumerate(h.get());
}
inline ref::List annotations(std::shared_ptr<Warren> w, const std::string &feature) {
  return annotations(w, w->featurizer()->featurize(feature));
}
} // namespace wd
#endif
