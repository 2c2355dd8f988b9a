// P33 memory confinement: any call sequence of the other properties, judged only on memory accesses
#include "lib.h"

static void p33(Tape &t) {
  std::vector<const Prop *> c;
  for (auto &p : all_props()) if (!p.threads && strcmp(p.id, "P33") && strcmp(p.id, "P16") && strcmp(p.id, "P07") && strcmp(p.id, "P29") && strcmp(p.id, "P30") && strcmp(p.id, "P34") && strcmp(p.id, "P35") && strcmp(p.id, "P37")) c.push_back(&p);
  const Prop *p = c[t.below(c.size())];
  for (int i = 1, m = 1 + (int)t.below(3); i <= m; i++) {
    t.label(p->name);
    t.nested = true;
    try { p->fn(t); }
    catch (Fail &f) { if (f.msg.find("wrote past the end") != std::string::npos || f.msg.find("wrote before the start") != std::string::npos) throw; return; }
    catch (Discard &) { }
    if (i < m) p = c[t.below(c.size())];
  }
  t.nontrivial(true);
}
PROPERTY("P33", "memory confinement", p33, "every case runs one to three operations drawn from all interfaces with buffers of the exact documented size", 600, 150);
