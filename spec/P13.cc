// P13: grouping is a partition by group name that keeps order.
#include "assess.h"
using namespace kws::core;
typedef std::map<std::string, std::string> OMap;
typedef std::map<int32_t, int32_t> IMap;
typedef std::unordered_map<int32_t, int32_t> IUMap;
typedef std::vector<Ms> Gs;
typedef std::vector<IMs> IGs;

template <class Q, class T, class Map>
void Partition(const std::vector<T> &ms, const Map &group_of, std::vector<std::vector<T>> *out) {
  std::vector<std::vector<T>> groups;
  std::unordered_map<Q, size_t> at;
  for (size_t i = 0; i < ms.size(); ++i) {
    const T &m = ms[i];
    Q name = m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query();
    if (group_of.count(name)) name = group_of.at(name);
    if (!at.count(name)) { const size_t n = at.size(); at[name] = n; }  // order of first occurrence
    const size_t n = at[name];
    if (n < groups.size()) {
      groups[n].push_back(m);
    } else {
      groups.push_back(std::vector<T>(1, m));
    }
  }
  *out = groups;
}

PAIR(group, void, (const Ms &m, const OMap &g, Gs *out), GroupMatchesByQueryGroup(m, g, out), Partition<std::string>(m, g, out))
PAIR(group_hash, void, (const Ms &m, const SMap &g, Gs *out), GroupMatchesByQueryGroup(m, g, out), Partition<std::string>(m, g, out))
PAIR(group_int, void, (const IMs &m, const IMap &g, IGs *out), GroupMatchesByQueryGroup(m, g, out), Partition<int32_t>(m, g, out))
PAIR(group_int_hash, void, (const IMs &m, const IUMap &g, IGs *out), GroupMatchesByQueryGroup(m, g, out), Partition<int32_t>(m, g, out))
