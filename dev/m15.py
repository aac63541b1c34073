# more behaviour-preserving refactorings
import json
L=[]
A='core/Assessment.h'; P='cmd/Parser.h'; O='cmd/Option.h'; MT='core/Match.h'; SI='mapper/StringToIntMapper.h'; IU='scorer/IntersectionOverUnionAreaScorer.h'
BS='core/Bootstrapping.h'; ST='core/Statistic.h'; MC='core/MatchErrorCounts.h'; SM='matcher/SimpleMatcher.h'
SRC={}
def span(f,a,b):
    s=SRC.setdefault(f,open('/repo/'+f).read()); i=s.index(a); j=s.index(b,i)+len(b); return s[i:j]
def m(name,f,a,b,new,props,extra=()):
    L.append(dict(name=name,edits=[dict(file=f,old=span(f,a,b),new=new)]+[dict(file=f,old=o,new=n) for o,n in extra],props=props if isinstance(props,list) else [props],expect='quiet'))
def e(name,edits,props):
    L.append(dict(name=name,edits=[dict(file=f,old=o,new=n) for f,o,n in edits],props=props if isinstance(props,list) else [props],expect='quiet'))
MP=['P22','P05','P13','P28']
m('copy with ternaries',MT,'  Match(const Match& other) : error_','  }\n','''  Match(const Match& other)
      : ref_(other.ref_ ? new RE(*other.ref_) : nullptr),
        hyp_(other.hyp_ ? new HE(*other.hyp_) : nullptr),
        error_(other.error_) {}
''',MP)
m('assign by copy and swap',MT,'    if (this == &other) return *this;','    return *this;\n','''    Match copy(other);
    std::swap(error_, copy.error_);
    ref_.swap(copy.ref_);
    hyp_.swap(copy.hyp_);
    return *this;
''',MP)
m('assign by move',MT,'    if (this == &other) return *this;','    return *this;\n','''    if (this != &other) *this = Match(other);
    return *this;
''',MP)
m('match eq helper',MT,'    return error_ == other.error_ &&','GetHyp() == other.GetHyp());\n','''    return error_ == other.error_ && Same(ref_, other.ref_) && Same(hyp_, other.hyp_);
''',MP,extra=[(''' private:
  std::unique_ptr<RE> ref_;''',''' private:
  template <class E>
  static bool Same(const std::unique_ptr<E>& a, const std::unique_ptr<E>& b) {
    if (!a || !b) return !a && !b;
    return *a == *b;
  }

  std::unique_ptr<RE> ref_;''')])
m('make fp ctor',MT,'    Match<RE, HE> m;\n    m.SetError(MatchError{1.0f, 0.0f});','    return m;\n','''    Match<RE, HE> m(1.0f, 0.0f);
    m.SetHyp(hyp);
    return m;
''',MP)
e('counts ne',[(MC,'''    return std::tie(fp_, fn_, nh_, nr_) !=
        std::tie(other.fp_, other.fn_, other.nh_, other.nr_);''','''    return !(*this == other);''')],['P23','P22'])
e('counts plus via eq',[(MC,'''    return MatchErrorCounts(fp_ + other.FP(), fn_ + other.FN(),
                            nh_ + other.NH(), nr_ + other.NR());''','''    MatchErrorCounts sum(*this);
    sum += other;
    return sum;''')],['P23','P22','P10'])
m('parse options helper',P,'    bool show_help = false;','    // If --help was used, just exit.\n','''    bool show_help = false;
    int i = 1; // skip argv[0]
    if (!ParseOptions(argc, argv, &i, &show_help)) return false;
    // If --help was used, just exit.
''',['P18','P19','P15'],extra=[('''  const std::string prog_;
''','''  bool ParseOptions(const int argc, const char** argv, int* i, bool* show_help) {
    for (; *i < argc;) {
      const std::string arg(argv[*i]);
      if (arg.size() < 2 || arg.front() != '-') return true;
      ++*i;
      if (arg == "--") return true;
      if (arg == "--help") {
        *show_help = true;
      } else {
        auto opt = arg[1] == '-' ? opts_.find(arg.substr(2)) : opts_.end();
        if (opt == opts_.end()) {
          std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
          return false;
        }
        if (!ParseValue(opt->second, argc, argv, i)) {
          std::cerr << "ERROR: Invalid value for option '" << arg << "'" << std::endl;
          return false;
        }
      }
    }
    return true;
  }

  static bool ParseValue(BaseOption* opt, const int argc, const char** argv, int* i) {
    const bool more = *i < argc;
    if (opt->IsBoolean()) {
      if (!more || argv[*i][0] == '-') return opt->Parse("");
      return opt->Parse(argv[(*i)++]);
    }
    if (!more) return false;
    const char* value = argv[*i];
    ++*i;
    return opt->Parse(value);
  }

  const std::string prog_;
''')])
m('positional range loops',P,'    size_t j = 0;\n    for (j = 0;','    // Check that all the mandatory positional','''    size_t j = 0;
    for (auto a : args_) {
      if (i >= argc) break;
      if (!a->Parse(argv[i])) {
        std::cerr << "ERROR: Invalid value for " << j + 1
                  << "positional argument" << std::endl;
        return false;
      }
      ++i;
      ++j;
    }
    // Check that all the mandatory positional''',['P18','P19'])
e('option parse peek',[(O,'''    return !iss.fail() && iss.eof();''','''    if (iss.fail()) return false;
    return iss.eof();''')],['P18'])
m('option bool sets',O,'  if (str == "" || str == "true"','    return false;\n  }\n','''  const bool yes = str.empty() || str == "true" || str == "1";
  const bool no = str == "false" || str == "0";
  if (yes || no) *value_ = yes;
  return yes || no;
''',['P18'])
m('mapper early return',SI,'    const auto it = impl_->find(input);','      }\n    }\n','''    const auto it = impl_->find(input);
    if (it != impl_->end()) return it->second;
    const size_t next = impl_->size();
    if (next >= kMaxSize) {
      throw std::range_error("Max size reached (" + std::to_string(kMaxSize) + ")");
    }
    return impl_->emplace(input, next).first->second;
''',['P21','P15'])
m('mapper count brackets',SI,'    const auto it = impl_->find(input);','      }\n    }\n','''    if (impl_->count(input) == 0) {
      const size_t next = impl_->size();
      if (next == kMaxSize)
        throw std::range_error("Max size reached (" + std::to_string(kMaxSize) + ")");
      (*impl_)[input] = static_cast<Int>(next);
    }
    return impl_->at(input);
''',['P21','P15'])
m('iou early',IU,'    if (ref.Query() == hyp.Query() && hyp.Area() > 0) {\n','    return MatchError{1.0f, 1.0f};\n','''    const MatchError miss{1.0f, 1.0f};
    if (!(ref.Query() == hyp.Query()) || !(hyp.Area() > 0)) return miss;
    const float inter = IntersectionArea(ref, hyp);
    const float share = inter / (1.0f * UnionArea(ref, hyp));
    return share >= threshold_ ? MatchError{0.0f, 0.0f} : miss;
''',['P03','P27'])
m('ci reserve nth',BS,'  std::vector<double> statistics_diffs;','  if (statistics_diffs.empty()) {\n','''  std::vector<double> statistics_diffs(repetitions);
  Container bootstrapped_sample;
  for (auto& d : statistics_diffs) {
    (*sampler)(original_samples, &bootstrapped_sample);
    d = statistic(bootstrapped_sample) - observed_statistic;
  }
  if (repetitions == 0) {
''',['P16','P15'])
m('ci early return',BS,'  std::vector<double> statistics_diffs;','  if (statistics_diffs.empty()) {\n    *lower_bound = *upper_bound = observed_statistic;\n    return observed_statistic;\n  }\n','''  if (repetitions == 0) {
    *lower_bound = observed_statistic;
    *upper_bound = observed_statistic;
    return observed_statistic;
  }
  std::vector<double> statistics_diffs;
  statistics_diffs.reserve(repetitions);
  for (size_t r = repetitions; r > 0; --r) {
    Container resampled;
    (*sampler)(original_samples, &resampled);
    statistics_diffs.emplace_back(statistic(resampled) - observed_statistic);
  }
''',['P16','P15'])
m('sampler resized transform',BS,'    sampled->clear();\n    for (size_t i = 0; i < num_matches; ++i) {','    }\n','''    sampled->clear();
    sampled->reserve(num_matches);
    std::generate_n(std::back_inserter(*sampled), num_matches,
                    [&]() { return original[mdist(rng_)]; });
''',['P16'],extra=[])
m('global via flat helper',A,'''  // Put matches per query into a single vector.
  std::vector<Match> all_matches;''','''  return ComputeAP(pr, rc, trapezoid_integral);
}
''','''  std::vector<Match> flat;
  for (size_t q = 0; q != matches_by_query.size(); ++q)
    flat.insert(flat.end(), matches_by_query[q].begin(), matches_by_query[q].end());
  if (sort_matches) SortMatchesDecreasingScore(&flat);
  return ComputeGlobalAP(flat, collapse_matches, interpolate_precision, trapezoid_integral);
}
''',['P14','P15','P25'])
m('mean via global',A,'''  double sumNDCG = 0.0;''','''  // Average NDCG accross all queries.
''','''  double sumNDCG = 0.0;
  for (const auto &group : matches_by_query) {
    std::vector<Match> copy(group);
    if (sort_matches) SortMatchesDecreasingScore(&copy);
    sumNDCG += ComputeGlobalNDCG(copy, collapse_matches);
  }
''',['P14','P15','P25'])
m('ap two accumulators',A,'  Real AP1 = 0.0;','  return AP1 - AP2;\n','''  Real plus = 0.0, minus = 0.0;
  for (size_t i = 0; i < pr.size(); ++i) {
    const Real height = trapezoid && i > 0 ? 0.5 * (pr[i] + pr[i - 1]) : pr[i];
    plus += rc[i] * height;
    if (i > 0) minus += rc[i - 1] * height;
  }
  return plus - minus;
''',['P11','P25','P14'])
m('interp reverse',A,'  if (interpolate && errors.size() > 1) {','    }\n  }\n','''  if (!interpolate) return;
  for (size_t i = pr->size(); i > 1; --i) {
    Real &left = (*pr)[i - 2];
    if (left < (*pr)[i - 1]) left = (*pr)[i - 1];
  }
''',['P09','P25'])
m('ndcg while',A,'    size_t i = 1;\n    for (auto it','    // Compute normalization factor\n','''    size_t i = 1;
    for (const auto &e : errors) {
      const size_t nh = e.NH();
      if (nh == 0) continue;
      const Real gain = exp2(1 - e.FP() / nh) - 1;
      const size_t stop = i + nh;
      while (i < stop) {
        dcg += gain / log2(i + 1);
        ++i;
      }
    }
    // Compute normalization factor
''',['P12','P25'])
m('write curve while',A,'  for (size_t i = 0; i < x.size(); ++i) {\n    fs <<','  fs.close();\n','''  fs << std::scientific;
  auto yi = y.begin();
  for (const Real &xi : x) {
    fs << xi << " " << *yi++ << std::endl;
  }
  fs.close();
''',['P24','P25'])
m('sample curve helper',A,'    if (j == src_x.size()) {\n      dst_y','      dst_y->push_back(t * src_y[j - 1] + (1 - t) * src_y[j]);\n    }\n','''    Real value = 0;
    if (j < src_x.size()) {
      value = src_y[j];
      if (linear_interpolation && j > 0) {
        const Real w0 = src_x[j] - dst_x[i];
        const Real w1 = dst_x[i] - src_x[j - 1];
        const Real t = w0 / (w0 + w1);
        value = t * src_y[j - 1] + (1 - t) * value;
      }
    }
    dst_y->push_back(value);
''',['P24','P25'])
m('sample curve while',A,'  for (size_t i = 0, j = 0; i < dst_x.size(); ++i) {','src_x[j] < dst_x[i]; ++j) {}\n','''  size_t j = 0;
  for (size_t i = 0; i < dst_x.size(); ++i) {
    while (j < src_x.size() && src_x[j] < dst_x[i]) ++j;
''',['P24','P25'])
m('matcher erase count',SM,'          if (unmatched_refs.find(ref)','          } else {\n','''          if (unmatched_refs.erase(ref) > 0) {
            result.push_back(m);
            break;
          } else {
''',['P05','P06'])
m('matcher fresh list',SM,'    refs_set_->Clear();\n','    repeated_matches_.clear();\n','''    std::set<RE> unmatched_refs;
    refs_set_->Clear();
    for (auto it = refs.begin(); it != refs.end(); ++it) {
      refs_set_->Insert(*it);
      unmatched_refs.insert(*it);
    }
    repeated_matches_ = Result();
''',['P05','P06'])
json.dump(L,open('/verif/dev/m15.json','w'),indent=1)
print(len(L))
