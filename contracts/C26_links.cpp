// The link registry counts the links between components and tells their sources.
// @sources: src/Xsmp/Services/XsmpLinkRegistry.cpp src-gen/Xsmp/Services/XsmpLinkRegistryGen.cpp src/Xsmp/Component.cpp src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp src/Smp/AnySimple.cpp src/Xsmp/cstring.cpp
// @nativesources: src/Xsmp/DateTime.cpp src/Xsmp/Duration.cpp src/Smp/StreamOperators.cpp src/Smp/Uuid.cpp src/Xsmp/EventSource.cpp src/Xsmp/Field.cpp src/Xsmp/Reference.cpp src/Xsmp/Aggregate.cpp src/Xsmp/Composite.cpp src/Xsmp/Container.cpp src/Xsmp/EventProvider.cpp src/Xsmp/FallibleModel.cpp src/Xsmp/EntryPoint.cpp src/Xsmp/EntryPointPublisher.cpp
// @flags: -I$V/smp -I$R/src-gen
// @native: locks.cpp
// @models: models_pthread.cpp models_exceptions.cpp models_ctype.cpp models_stream.cpp models_tree.cpp
// @bounded: histories.*|remove_links | three components and at most three operations
#include "smp_common.h"
#include "lock_ghost.h"
#include <Smp/ILinkingComponent.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
using Xsmp::Services::XsmpLinkRegistry;
namespace {
int below(int n, const char *name) {
  int i = 0;
  while (i < n - 1 && __spec_choose(name))
    ++i;
  return i;
}
struct Sim : Named<Smp::MockISimulator> {};
struct World;
struct Plain : Named<Smp::MockIComponent> {};
// a component that knows its links, and gives them back when asked
struct Linking : Named<Smp::MockILinkingComponent> {
  World *w = nullptr;
  int number = 0, asked = 0;
  void RemoveLinks(const Smp::IComponent *target) override;
};
struct World {
  Sim sim;
  XsmpLinkRegistry r;
  Linking l[3];
  Plain p;
  Smp::IComponent *c[4];
  unsigned count[4][4] = {};
  // sources of each target, in the order they were linked first
  int order[4][4] = {}, n[4] = {};
  World() : r("links", "", nullptr, &sim) {
    static const char *names[] = {"a", "b", "c"};
    for (int i = 0; i < 3; ++i) {
      l[i].w = this;
      l[i].number = i;
      l[i].name_ = names[i];
      c[i] = &l[i];
    }
    p.name_ = "p";
    c[3] = &p;
  }
  void add(int s, int t) {
    r.AddLink(c[s], c[t]);
    if (count[s][t]++ == 0)
      order[t][n[t]++] = s;
  }
  void remove(int s, int t) {
    bool known = count[s][t] > 0;
    ENSURES(r.RemoveLink(c[s], c[t]) == known);
    if (known && --count[s][t] == 0) {
      int k = 0;
      while (order[t][k] != s)
        ++k;
      for (--n[t]; k < n[t]; ++k)
        order[t][k] = order[t][k + 1];
    }
  }
  void check(int s, int t) {
    ENSURES(r.GetLinkCount(c[s], c[t]) == count[s][t]);
    auto *sources = r.GetLinkSources(c[t]);
    ENSURES(sources && sources->size() == size_t(n[t]));
    bool linking = true;
    for (int i = 0; i < n[t]; ++i) {
      ENSURES(sources->at(size_t(i)) == c[order[t][i]]);
      linking = linking && order[t][i] < 3;
    }
    ENSURES(r.CanRemove(c[t]) == linking);
  }
};
void Linking::RemoveLinks(const Smp::IComponent *target) {
  ++asked;
  for (int t = 0; t < 4; ++t)
    if (w->c[t] == target)
      while (w->count[number][t])
        w->remove(number, t);
}
template <int N> void links() {
  World w;
  for (int i = 0; i < N; ++i) {
    bool remove = i && __spec_choose("remove");
    int s = below(3, "source") + 1, t = below(2, "target");
    remove ? w.remove(s, t) : w.add(s, t);
    w.check(s, t);
  }
  w.check(1, 0);
  w.check(2, 0);
  w.check(3, 1);
}
// all that can be removed is removed: each linking source is asked, once
template <int N> void links_removed() {
  World w;
  for (int i = 0; i < N; ++i)
    w.add(below(i ? 4 : 3, "source"), i ? below(2, "target") * 2 : 0);
  bool source[4];
  for (int s = 0; s < 4; ++s)
    source[s] = w.count[s][0] > 0;
  unsigned others[4];
  for (int s = 0; s < 4; ++s)
    others[s] = w.count[s][2];
  w.r.RemoveLinks(w.c[0]);
  for (int s = 0; s < 3; ++s)
    ENSURES(w.l[s].asked == source[s] && w.count[s][0] == 0);
  for (int s = 0; s < 4; ++s)
    ENSURES(w.count[s][2] == others[s]);
  w.check(0, 0);
  w.check(3, 0);
  w.check(1, 2);
}
} // namespace
CONTRACT_T(C26, histories_of_two, links<2>)
CONTRACT_T(C26, histories_of_three, links<3>)
CONTRACT_T(C26, remove_links, links_removed<3>)
CONTRACT(C26, sources_are_live) {
  World w;
  auto *early = w.r.GetLinkSources(w.c[1]);
  ENSURES(early && early->size() == 0);
  w.add(0, 1);
  w.add(2, 1);
  ENSURES(w.r.GetLinkSources(w.c[1]) == early && early->size() == 2);
  w.remove(0, 1);
  ENSURES(early->size() == 1 && early->at(size_t(0)) == w.c[2]);
  ENSURES(!w.r.RemoveLink(w.c[0], w.c[1]) && !w.r.RemoveLink(w.c[1], w.c[2]));
  ENSURES(w.r.GetLinkCount(w.c[1], w.c[2]) == 0 && w.r.CanRemove(w.c[3]));
  w.r.RemoveLinks(w.c[3]);
  w.check(2, 1);
}
