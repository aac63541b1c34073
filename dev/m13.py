# behaviour-preserving refactorings: the checks must stay quiet
import json
L=[]
A='core/Assessment.h'; G='tools/GenericKwsEvalTool.h'; B='core/BoundingBox.h'; X='core/DocumentBoundingBoxEventSet.h'
SM='matcher/SimpleMatcher.h'; BS='core/Bootstrapping.h'
SRC={}
def span(f,a,b):
    s=SRC.setdefault(f,open('/repo/'+f).read()); i=s.index(a); j=s.index(b,i)+len(b); return s[i:j]
def m(name,f,a,b,new,props,extra=()):
    L.append(dict(name=name,edits=[dict(file=f,old=span(f,a,b),new=new)]+[dict(file=f,old=o,new=n) for o,n in extra],props=props if isinstance(props,list) else [props],expect='quiet'))
def e(name,edits,props):
    L.append(dict(name=name,edits=[dict(file=f,old=o,new=n) for f,o,n in edits],props=props if isinstance(props,list) else [props],expect='quiet'))

m('r group by index',A,'    const size_t pos = group2pos.emplace','      matches_by_group->back().push_back(m);\n    }\n','''    auto ins = group2pos.insert(std::make_pair(group, matches_by_group->size()));
    if (ins.second) matches_by_group->resize(matches_by_group->size() + 1);
    (*matches_by_group)[ins.first->second].push_back(m);
''','P13')
m('r group find first',A,'    const size_t pos = group2pos.emplace','      matches_by_group->back().push_back(m);\n    }\n','''    auto g = group2pos.find(group);
    if (g == group2pos.end()) {
      group2pos[group] = matches_by_group->size();
      matches_by_group->push_back(std::vector<M>(1, m));
      continue;
    }
    (*matches_by_group)[g->second].push_back(m);
''','P13')
m('r collapse direct',A,'  std::vector<std::pair<MatchErrorCounts, float>> collapsed_matches;','  return output;\n}\n','''  std::vector<MatchErrorCounts> output;
  float last_score = 0;
  for (const auto &m : matches) {
    const float score = m.HasHyp() ? m.GetHyp().Score() : -std::numeric_limits<float>::infinity();
    if (output.empty() || score != last_score) {
      output.push_back(MatchErrorCounts(m.GetError()));
      last_score = score;
    } else {
      output.back() += m.GetError();
    }
  }
  return output;
}
''',['P10'])
m('r collapse groups',A,'  std::vector<std::pair<MatchErrorCounts, float>> collapsed_matches;','  return output;\n}\n','''  std::vector<MatchErrorCounts> output;
  for (auto it = matches.begin(); it != matches.end();) {
    const float score = ScoreOf(*it);
    MatchErrorCounts c(it->GetError());
    for (++it; it != matches.end() && ScoreOf(*it) == score; ++it) c += it->GetError();
    output.push_back(c);
  }
  return output;
}
''',['P10'],[('template <typename Container>\nsize_t NumTotalReferences','''template <typename M>
inline float ScoreOf(const M& m) {
  if (!m.HasHyp()) return -std::numeric_limits<float>::infinity();
  return m.GetHyp().Score();
}

template <typename Container>
size_t NumTotalReferences''')])
m('r errors transform',A,'  std::vector<MatchError> output;\n','  return output;\n}','''  std::vector<MatchError> output;
  output.reserve(matches.size());
  std::transform(matches.begin(), matches.end(), std::back_inserter(output),
                 [](const typename Container::value_type& m) { return m.GetError(); });
  return output;
}''',['P14','P15'])
m('r sort cmp',A,'              if (a.HasHyp() && b.HasHyp()) {','                return a.HasHyp();\n              }\n','''              if (!a.HasHyp()) return false;
              if (!b.HasHyp()) return true;
              return b.GetHyp().Score() < a.GetHyp().Score();
''',['P14','P15'])
m('r pr two passes',A,'  size_t sumNR = 0, sumNH = 0;','    rc->push_back(r);\n  }\n','''  size_t sumNH = 0;
  Real sumFP = 0;
  for (const auto &e : errors) {
    sumNH += e.NH();
    sumFP += e.FP();
    pr->push_back(sumNH > 0 ? 1.0 - sumFP / sumNH : 1.0);
  }
  size_t sumNR = 0;
  Real sumFN = 0;
  for (const auto &e : errors) {
    sumNR += e.NR();
    sumFN += e.FN();
    rc->push_back(TR > 0 ? (sumNR - sumFN) / TR : 1.0);
  }
''',['P09','P25'])
m('r interp reverse iter',A,'  if (interpolate && errors.size() > 1) {','    }\n  }\n','''  if (interpolate) {
    for (auto it = pr->rbegin(); it != pr->rend(); ++it) {
      if (it != pr->rbegin()) *it = std::max(*it, *(it - 1));
    }
  }
''',['P09','P25'])
m('r interp running max',A,'  if (interpolate && errors.size() > 1) {','    }\n  }\n','''  if (interpolate && !pr->empty()) {
    Real best = pr->back();
    for (size_t i = pr->size(); i-- > 0;) {
      if (best < (*pr)[i]) best = (*pr)[i];
      (*pr)[i] = best;
    }
  }
''',['P09','P25'])
m('r pr collapse ternary',A,'  pr->clear();\n  rc->clear();\n  if (collapse_matches) {','    ComputePrecisionAndRecall(errors, interpolate_precision, pr, rc);\n  }\n','''  if (!collapse_matches) {
    ComputePrecisionAndRecall(GetMatchErrors(matches), interpolate_precision, pr, rc);
    return;
  }
  ComputePrecisionAndRecall(CollapseMatches(matches), interpolate_precision, pr, rc);
''',['P14','P09','P15'])
m('r ap early',A,'  Real sumAP = 0.0;\n  for (size_t i = 0; i < pr.size(); ++i) {\n    const Real tp','  return TR > 0 ? sumAP / TR : 0.0f;','''  if (TR == 0) return 0;
  Real sumAP = 0.0, prev = 0.0;
  for (size_t i = 0; i < errors.size(); ++i) {
    const Real tp = errors[i].NH() - errors[i].FP();
    const Real h = (trapezoid && i != 0) ? (pr[i] + prev) / 2 : pr[i];
    sumAP += h * tp;
    prev = pr[i];
  }
  return sumAP / TR;''',['P11','P25'])
m('r ap single loop',A,'  Real AP1 = 0.0;','  return AP1 - AP2;','''  Real ap = 0.0;
  for (size_t i = 0; i < pr.size(); ++i) {
    const Real h = i > 0 && trapezoid ? (pr[i] + pr[i - 1]) * 0.5 : pr[i];
    const Real d = i > 0 ? rc[i] - rc[i - 1] : rc[i];
    ap += h * d;
  }
  return ap;''',['P11','P25'])
m('r ap helper',A,'  Real AP1 = 0.0;','  return AP1 - AP2;','''  if (pr.empty()) return 0;
  auto height = [&pr, trapezoid](size_t i) -> Real {
    return trapezoid && i > 0 ? 0.5 * (pr[i - 1] + pr[i]) : pr[i];
  };
  Real ap = rc[0] * height(0);
  for (size_t i = 1; i != pr.size(); i++) ap += (rc[i] - rc[i - 1]) * height(i);
  return ap;''',['P11','P25'])
m('r ndcg helper vars',A,'  const auto TR = NumTotalReferences(errors);\n  if (TR > 0) {','  } else {\n    return 0;\n  }\n','''  const auto TR = NumTotalReferences(errors);
  if (TR == 0) return 0;
  Real dcg = 0;
  size_t rank = 0;
  for (const auto& e : errors) {
    if (e.NH() == 0) continue;
    const Real gain = exp2(1 - e.FP() / e.NH()) - 1;
    const size_t last = rank + e.NH();
    while (rank < last) {
      ++rank;
      dcg += gain / log2(rank + 1);
    }
  }
  Real z = 0;
  for (size_t j = 0; j < TR; ++j) z += 1 / log2(j + 2);
  return dcg / z;
''',['P12','P25'])
m('r mean ap helper',A,'  double sumAP = 0.0;\n  for (auto matches_vector','  return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0;','''  if (matches_by_query.empty()) return 0.0;
  double sumAP = 0.0;
  for (const auto& group : matches_by_query) {
    std::vector<Match> copy(group);
    if (sort_matches) SortMatchesDecreasingScore(&copy);
    sumAP += ComputeGlobalAP(copy, collapse_matches, interpolate_precision, trapezoid_integral);
  }
  return sumAP / matches_by_query.size();''',['P14','P15','P25'])
m('r global insert',A,'  std::vector<Match> all_matches;\n  for','      all_matches.push_back(match);\n    }\n  }\n','''  std::vector<Match> all_matches;
  for (size_t g = 0; g < matches_by_query.size(); ++g) {
    all_matches.insert(all_matches.end(), matches_by_query[g].begin(), matches_by_query[g].end());
  }
''',['P14','P15'])
m('r global ndcg delegates',A,'  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }\n  if (collapse_matches) {','    return ComputeNDCG<double>(GetMatchErrors(all_matches));\n  }\n','''  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  return ComputeGlobalNDCG(all_matches, collapse_matches);
''',['P14','P15'])
m('r sample while',A,'  for (size_t i = 0, j = 0; i < dst_x.size(); ++i) {','      dst_y->push_back(t * src_y[j - 1] + (1 - t) * src_y[j]);\n    }\n  }\n','''  size_t j = 0;
  for (const Real x : dst_x) {
    while (j < src_x.size() && src_x[j] < x) ++j;
    Real y = 0;
    if (j < src_x.size()) {
      y = src_y[j];
      if (linear_interpolation && j > 0) {
        const Real w0 = src_x[j] - x;
        const Real t = w0 / (w0 + (x - src_x[j - 1]));
        y = t * src_y[j - 1] + (1 - t) * src_y[j];
      }
    }
    dst_y->push_back(y);
  }
''',['P24','P25'])
m('r even',A,'  x->clear();\n  if (num_points > 1) {','    }\n  }\n','''  x->clear();
  if (num_points < 2) return;
  x->resize(num_points);
  const Real last = num_points - 1;
  for (size_t k = 0; k < num_points; ++k) (*x)[k] = k / last;
''',['P24','P25'])
# matcher
m('r matcher erase',SM,'          if (unmatched_refs.find(ref) != unmatched_refs.end()) {','            repeated_matches_.push_back(m);\n          }\n','''          if (unmatched_refs.erase(ref) == 0) {
            repeated_matches_.push_back(m);
            continue;
          }
          result.push_back(m);
          break;
''',['P05','P06'])
m('r matcher helper',SM,'      const auto overlapping_refs','MakeFalsePositive(hyp));\n      }\n','''      if (!TryMatch(hyp, &unmatched_refs, &result)) {
        result.push_back(kws::core::Match<RE,HE>::MakeFalsePositive(hyp));
      }
''',['P05','P06'],[(' private:\n  Scorer<RE, HE>* scorer_;',''' private:
  bool TryMatch(const HE& hyp, std::set<RE>* free_refs, Result* result) {
    bool matched = false;
    for (const RE& ref : refs_set_->FindOverlapping(hyp)) {
      const auto errors = (*scorer_)(ref, hyp);
      if (errors.FP() >= 1.0f) continue;
      matched = true;
      const kws::core::Match<RE, HE> m(ref, hyp, errors);
      const auto it = free_refs->find(ref);
      if (it == free_refs->end()) {
        repeated_matches_.push_back(m);
      } else {
        free_refs->erase(it);
        result->push_back(m);
        return true;
      }
    }
    return matched;
  }

  Scorer<RE, HE>* scorer_;''')])
m('r matcher insert range',SM,'    std::set<RE> unmatched_refs(refs.begin(), refs.end());','    std::set<RE> unmatched_refs(refs.begin(), refs.end());','''    std::set<RE> unmatched_refs;
    for (const RE& ref : refs) unmatched_refs.insert(ref);''',['P05','P06'])
m('r index brackets',X,'    DocumentToEventsMap &p = documents_by_query_.emplace(','      ++size_;\n    }\n','''    EventSetInternal& bucket = documents_by_query_[event.Query()][event.Location().document];
    const size_t before = bucket.size();
    bucket.insert(event);
    size_ += bucket.size() - before;
''',['P04'])
m('r index remove erase empties',X,'        size_ -= l->second.erase(event);','        size_ -= l->second.erase(event);','''        size_ -= l->second.erase(event);
        if (l->second.empty()) p->second.erase(l);''',['P04'])
m('r index early returns',X,'    auto p = documents_by_query_.find(event.Query());\n    if (p != documents_by_query_.end()) {\n      auto l = p->second.find(event.Location().document);\n      if (l != p->second.end()) {\n        size_','      }\n    }\n','''    const auto p = documents_by_query_.find(event.Query());
    if (p == documents_by_query_.end()) return;
    const auto l = p->second.find(event.Location().document);
    if (l == p->second.end()) return;
    const auto it = l->second.find(event);
    if (it == l->second.end()) return;
    l->second.erase(it);
    --size_;
''',['P04'])
m('r overlap greater lambda',X,'    std::sort(aux.begin(), aux.end(),','    return result;','''    typedef std::pair<typename LType::Type, EventType> Item;
    std::sort(aux.begin(), aux.end(), [](const Item& a, const Item& b) { return b < a; });
    EventList result;
    std::transform(aux.begin(), aux.end(), std::back_inserter(result),
                   [](const Item& a) { return a.second; });
    return result;''',['P04'])
m('r overlap rbegin',X,'    std::sort(aux.begin(), aux.end(),','    return result;','''    std::sort(aux.begin(), aux.end());
    EventList result;
    for (auto it = aux.rbegin(); it != aux.rend(); ++it) result.push_back(it->second);
    return result;''',['P04'])
# bootstrap
m('r sampler helper ref',BS,'      const size_t q = qdist(rng_);','        (*sampled)[i].push_back(m);\n      }\n','''      const auto& source = original[qdist(rng_)];
      auto& target = (*sampled)[i];
      target.reserve(source.size());
      std::uniform_int_distribution<size_t> mdist(0, source.size() - 1);
      while (target.size() < source.size()) target.push_back(source[mdist(rng_)]);
''',['P16','P17'])
m('r sampler push groups',BS,'    sampled->clear();\n    sampled->resize(num_queries);','        (*sampled)[i].push_back(m);\n      }\n    }\n','''    sampled->clear();
    for (size_t i = 0; i < num_queries; ++i) {
      const auto& source = original[qdist(rng_)];
      std::uniform_int_distribution<size_t> mdist(0, source.size() - 1);
      typename Container::value_type group;
      for (size_t j = 0; j < source.size(); ++j) group.push_back(source[mdist(rng_)]);
      sampled->push_back(std::move(group));
    }
''',['P16'])
m('r ci sort samples',BS,'  std::vector<double> statistics_diffs;','    statistics_diffs.push_back(sample_statistic - observed_statistic);\n  }\n','''  std::vector<double> statistics_diffs(repetitions);
  Container bootstrapped_sample;
  for (auto& d : statistics_diffs) {
    bootstrapped_sample.clear();
    (*sampler)(original_samples, &bootstrapped_sample);
    d = statistic(bootstrapped_sample) - observed_statistic;
  }
''',['P16'])

R='reader/PlainTextMapEventReader.h'
m('r inter minmax diff',B,'    const T x1 = std::max<T>','(x2 - x1) * (y2 - y1);','''    const T left = x < other.x ? other.x : x;
    const T top = y < other.y ? other.y : y;
    const T right = std::min<T>(x + w, other.x + other.w);
    const T bottom = std::min<T>(y + h, other.y + other.h);
    return left <= right && top <= bottom ? (right - left) * (bottom - top) : 0;''',['P02','P03'])
m('r inter helper',B,'    const T x1 = std::max<T>','(x2 - x1) * (y2 - y1);','''    if (x + w < other.x || other.x + other.w < x) return 0;
    if (y + h < other.y || other.y + other.h < y) return 0;
    return Overlap(x, w, other.x, other.w) * Overlap(y, h, other.y, other.h);''',['P02'],
 [('  inline T Area() const {','''  static inline T Overlap(T a, T la, T b, T lb) {
    return std::min<T>(a + la, b + lb) - std::max<T>(a, b);
  }

  inline T Area() const {''')])
m('r box tie',B,'    if (x != other.x) return x < other.x;','    return h < other.h;','    return std::tie(x, y, w, h) < std::tie(other.x, other.y, other.w, other.h);',['P01'],[('#include <algorithm>','#include <algorithm>\n#include <tuple>')] if '#include <algorithm>' in open('/repo/'+B).read() else [('#ifndef CORE_BOUNDINGBOX_H_\n#define CORE_BOUNDINGBOX_H_','#ifndef CORE_BOUNDINGBOX_H_\n#define CORE_BOUNDINGBOX_H_\n#include <tuple>')])
m('r reader first char',R,'      // Skip whitespaces','events->push_back((*mapper_)(event));','''      if (IsSkipped(&iss)) continue;
      E1 event;
      if (!(iss >> event) || !AtEnd(&iss)) {
        std::cerr << "ERROR: Failed to read event from line " << n << std::endl;
        return false;
      }
      events->emplace_back((*mapper_)(event));''',['P07'],[(' protected:\n  Mapper* mapper_;''',''' protected:
  static bool IsSkipped(std::istream* line) {
    *line >> std::ws;
    return line->peek() == '#' || line->eof();
  }
  static bool AtEnd(std::istream* line) {
    if (line->eof()) return true;
    *line >> std::ws;
    return line->eof();
  }
  Mapper* mapper_;''')])
m('r reader while',R,'    for (size_t n = 1; std::getline(*is, buff); ++n) {','      std::istringstream iss(buff);','''    size_t n = 0;
    while (std::getline(*is, buff)) {
      ++n;
      std::istringstream iss(buff);''',['P07'])
m('r reader file',R,'    std::ifstream fs(filepath','    return r;','''    std::ifstream fs;
    fs.open(filepath.c_str());
    return fs.is_open() && Read(&fs, events);''',['P07','P19'])
m('r tool read helper',G,'    std::vector<HypEvent> hyp_events;','      return 1;\n    }\n','''    std::vector<HypEvent> hyp_events;
    const bool from_stdin = hyp_filename.empty();
    bool read_ok = false;
    if (from_stdin) {
      read_ok = hyp_reader_->Read(&std::cin, &hyp_events);
    } else {
      read_ok = hyp_reader_->Read(hyp_filename, &hyp_events);
    }
    if (!read_ok) {
      if (argc == 2) {
        std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
      } else {
        std::cerr << "ERROR: Failed reading file \\"" << hyp_filename << "\\"!"
                  << std::endl;
      }
      return 1;
    }
'''.replace('\\\\','\\'),['P15','P19','P20','P26'])
m('r tool sort fn',G,'    if (sort_criterion == "desc") {','Hypotheses won\'t be sorted." << std::endl;\n    }\n','''    SortHypotheses(sort_criterion, &hyp_events);
''',['P26','P15','P19'],[('  int Main(int argc, const char **argv) {','''  static void SortHypotheses(const std::string& criterion, std::vector<HypEvent>* hyps) {
    if (criterion == "none") return;
    const bool desc = criterion == "desc";
    if (!desc && criterion != "asc") {
      std::cerr << "WARN: Ignoring sorting criterion \\"" << criterion
                << "\\". Hypotheses won't be sorted." << std::endl;
      return;
    }
    std::sort(hyps->begin(), hyps->end(),
              [desc](const HypEvent& a, const HypEvent& b) { return desc ? b < a : a < b; });
  }

  int Main(int argc, const char **argv) {'''.replace('\\\\','\\'))])
m('r tool stat merged',G,'    if (bootstrap) {\n      auto bootstrap_statistic','      std::cout << "m" << statistic_name << " = " << value << std::endl;\n    }\n','''    if (!bootstrap) {
      std::cout << "m" << statistic_name << " = " << statistic(grouped_matches, false) << std::endl;
      return;
    }
    double lower = 0.0, upper = 0.0;
    const double value = ComputePercentileBootstrapCI(
        grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
        [&statistic](const std::vector<std::vector<MatchType>> &s) { return statistic(s, true); },
        &lower, &upper);
    std::cout << "m" << statistic_name << " = " << value;
    std::cout << " [" << lower << ", " << upper << "]" << std::endl;
''',['P15','P19','P17'])
m('r tool mean curve running',G,'    std::vector<std::vector<double>> sampled_pr;\n','    core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);','''    std::vector<double> mean(sampled_rc.size(), 0.0);
    for (const auto& matches : matches_by_group) {
      std::vector<double> pr, rc, sampled;
      core::ComputePrecisionAndRecall(
          matches, collapse_matches, interpolated_precision, &pr, &rc);
      core::SampleCurveAtGivenPoints(rc, pr, sampled_rc, &sampled, trapezoid_integral);
      for (size_t i = 0; i < mean.size(); ++i) mean[i] += sampled[i];
    }
    if (!matches_by_group.empty()) {
      for (double& v : mean) v /= matches_by_group.size();
    }
    core::WriteCurveToFile(filename, sampled_rc, mean);''',['P24','P15','P25'])
m('r tool count accumulate',G,'      size_t nh = 0;\n','nh += m.GetError().NH(); }','''      const size_t nh = std::accumulate(
          matches.begin(), matches.end(), size_t(0),
          [](size_t n, const MatchType& m) { return n + m.GetError().NH(); });''',['P19','P15'])
m('r tool filter twice',G,'      // Filter out reference events.','                  << hyp_events.size() << std::endl;\n      }\n','''      const size_t num_ref_events = ref_events.size(), num_hyps = hyp_events.size();
      filter_events(query2group, &hyp_events);
      filter_events(query2group, &ref_events);
      if (num_ref_events != ref_events.size()) {
        std::cerr << "INFO: Number of kept reference events = "
                  << ref_events.size() << std::endl;
      }
      if (num_hyps != hyp_events.size()) {
        std::cerr << "INFO: Number of kept hypothesis events = "
                  << hyp_events.size() << std::endl;
      }
''',['P20','P15'])
json.dump(L,open('/verif/dev/m13.json','w'),indent=1)
print(len(L))
