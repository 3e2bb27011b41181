#include "scen.hh"
using namespace scen;
using namespace sim;
static void gen(Plan& p, Rng& r) { for (int i = 0; i < 20; i++) p.add("op", {"SET", "k" + std::to_string(r.below(5)), "v" + std::to_string(i)}); }
static void run(const Plan& p) {
  Server s[3];
  for (int i = 0; i < 3; i++) { s[i].id = i + 1; if (!s[i].bootstrap("cl", {"n1:7777", "n2:7777", "n3:7777"})) violation("boot", "failed"); }
  for (int i = 0; i < 3; i++) s[i].start();
  for (int i = 0; i < 3; i++) if (!s[i].waitUp(10 * SEC)) violation("boot", "not up");
  sleepFor(10 * SEC);
  for (int i = 0; i < 3; i++) {
  Conn c;
  if (!c.open(s[i].host(), 7777)) violation("x", "connect");
  Reply r; c.call({"RAFT-INFO"}, r); trace(r.str(2000));
  for (auto& l : p.lines) { Reply r; if (!c.call(l.a, r)) violation("x", "no reply"); trace(show(l.a) + " -> " + r.str()); }
  c.call({"GET", "k1"}, r); trace(r.str());
  }
  for (int i = 0; i < 3; i++) if (!s[i].stop()) violation("stop", "hang");
}
static Reg reg("smoke", gen, run);
