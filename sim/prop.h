// Property modules: generator + oracle per property, run inside one child process per execution.
#pragma once
#include "models.h"
struct Op { std::string fn; Params p; };
struct Scenario {
  std::string prop; uint64_t seed = 0; Params sim; std::vector<Op> ops;
  std::string text() const;
  static bool parse(const std::string &t, Scenario &s);
};
struct Prop {
  const char *id; const char *host; const char *kind;   // host executable, module build kind
  std::vector<std::string> mods;
  void (*gen)(sim::Rng &, Scenario &, long idx);
  void (*run)(Scenario &);
  bool mem_fatal;
  const char *rule;
  std::vector<std::pair<const char *, const char *>> comps;  // real / stub components
};
extern std::vector<Prop> props;
extern const char *probe_names[32];
void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
