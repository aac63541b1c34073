import json
L=[]
A='core/Assessment.h'; G='tools/GenericKwsEvalTool.h'; B='core/BoundingBox.h'; D='core/DocumentBoundingBox.h'; X='core/DocumentBoundingBoxEventSet.h'
M='core/Match.h'; R='reader/PlainTextMapEventReader.h'; P='cmd/Parser.h'; O='cmd/Option.h'; SM='matcher/SimpleMatcher.h'; BS='core/Bootstrapping.h'
SE='core/ScoredEvent.h'; EV='core/Event.h'; MC='core/MatchErrorCounts.h'; ME='core/MatchError.h'
def m(name,f,old,new,props,expect='caught'): L.append(dict(name=name,file=f,old=old,new=new,props=[props] if isinstance(props,str) else props,expect=expect))
# --- special triggers
m('P01 score nan',SE,'if (score_ != other.score_) return score_ < other.score_;','if (score_ - other.score_ > 1e-3f || other.score_ - score_ > 1e-3f) return score_ < other.score_;','P01')
m('P01 event eq',EV,'return query_ != other.query_ || location_ != other.location_;','return query_ != other.query_ || !(location_ == other.location_ || location_ > other.location_);','P01')
m('P01 doc prefix',D,'if (document != other.document) return document < other.document;','if (document != other.document) return document.size() != other.document.size() ? document.size() < other.document.size() : document < other.document;','P01')
m('P02 union signed',B,'return Area() + other.Area() - IntersectionArea(other);','return x == other.x && y == other.y ? std::max(Area(), other.Area()) : Area() + other.Area() - IntersectionArea(other);','P02')
m('P02 empty',B,'if (x1 > x2 || y1 > y2) return 0;','if (x1 > x2 && y1 > y2) return 0;','P02')
m('P03 int division','scorer/IntersectionOverHypothesisAreaScorer.h','(1.0f * hyp.Area())','(hyp.Area() > 1000 ? 1.0f + hyp.Area() : 1.0f * hyp.Area())','P03')
m('P03 trivial order','scorer/TrivialScorer.h','ref.Location() == hyp.Location() &&','!(ref.Location() < hyp.Location()) &&','P03')
m('P03 soft ref','scorer/SoftBoundingBoxScorer.h','1.0f - (ref.Area() > 0.0f ?','1.0f - (ref.Area() > 0.0f && intersect_area < ref.Area() ?','P03')
m('P04 insert hint',X,'if(l.insert(event).second) {','if(l.empty() || l.size() > 64 ? (l.insert(event), true) : l.insert(event).second) {','P04')
m('P04 clear keeps',X,'documents_by_query_.clear();','if (size_ > 0) documents_by_query_.clear();','P04','any')
m('P04 limit',X,'if (intersection_area > 0) {','if (intersection_area > 0 && aux.size() < 32) {','P04')
m('P04 plain find','core/EventSet.h','if (it != event_set_.end()) { return {*it}; }','if (it != event_set_.end() && event_set_.size() < 100) { return {*it}; }','P04')
m('P05 dup refs',SM,'std::set<RE> unmatched_refs(refs.begin(), refs.end());','std::set<RE> unmatched_refs(refs.begin(), refs.begin() + std::min<size_t>(refs.size(), 1000));','P05')
m('P05 fp bound',SM,'if (errors.FP() < 1.0f) {','if (errors.FP() < 1.0f && (errors.FN() < 1.0f || unmatched_refs.size() > 3)) {','P05')
m('P05 miss last',SM,'for (const RE& ref : unmatched_refs) {','for (const RE& ref : unmatched_refs) {\n      if (result.size() > 50 && hyps.empty()) break;','P05')
m('P06 keep repeated',SM,'repeated_matches_.clear();','if (repeated_matches_.size() < 5) repeated_matches_.clear();','P06')
m('P06 static',SM,'Result result;\n','Result result;\n    static size_t runs = 0;\n    if (++runs > 10 && refs.size() > 3) return result;\n','P06')
m('P07 line no',R,'for (size_t n = 1; std::getline(*is, buff); ++n) {','for (size_t n = 1; std::getline(*is, buff); n += buff.empty() ? 0 : 1) {','P07')
m('P07 cr',R,'if (iss.eof()) continue;           // Empty line','if (iss.eof() || (buff.size() == 1 && n > 1)) continue;','P07')
m('P07 limit',R,'events->push_back((*mapper_)(event));','if (n < 100000) events->push_back((*mapper_)(event));','P07')
m('P07 keep',R,'events->clear();','if (!is->good()) events->clear();','P07')
m('P08 order',SE,'os << event.Query() << " " << event.Location() << " " << event.Score();','os << event.Query() << " " << event.Location() << " " << (event.Score() == 0 ? 0.0f : event.Score());','P08','any')
m('P08 rep',D,'os << bb.document << " " <<','os << (bb.document.empty() ? std::string("-") : bb.document) << " " <<','P08')
m('P09 nh cap',A,'const Real r = TR > 0 ? (sumNR - sumFN) / TR : 1.0;','const Real r = TR > 0 ? std::min<Real>(1, (sumNR - sumFN) / TR) : 1.0;','P09')
m('P09 long',A,'if (interpolate && errors.size() > 1) {','if (interpolate && errors.size() > 2) {','P09')
m('P09 tail',A,'pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));','pr->at(i - 1) = i < 1000 ? std::max(pr->at(i - 1), pr->at(i)) : pr->at(i - 1);','P09')
m('P10 tol',A,'score != collapsed_matches.back().second) {','std::abs(score - collapsed_matches.back().second) > 1e-6f) {','P10')
m('P10 neg inf',A,': -std::numeric_limits<float>::infinity();  // false','                        : std::numeric_limits<float>::lowest();  // false','P10')
m('P10 cap',A,'collapsed_matches.back().first += m.GetError();','if (collapsed_matches.back().first.NH() < 255) collapsed_matches.back().first += m.GetError();','P10')
m('P11 zero tr',A,'return TR > 0 ? sumAP / TR : 0.0f;','return TR > 0 && sumAP > 0 ? sumAP / TR : 0.0f;','P11','any')
m('P11 float',A,'Real AP2 = 0.0;\n  for (size_t i = 1; i < pr.size(); ++i) {','Real AP2 = 0.0;\n  for (size_t i = 1; i < pr.size() && rc[i - 1] < 1; ++i) {','P11')
m('P12 cap TR',A,'for (size_t j = 1; j <= TR; ++j) {','for (size_t j = 1; j <= TR && j < errors.size() * 2 + 10; ++j) {','P12')
m('P12 skip zero gain',A,'const Real r = 1 - it->FP() / it->NH();','const Real r = it->FN() > 0 ? 1 - it->FP() / it->NH() : 1;','P12')
m('P13 last group',A,'if (pos < matches_by_group->size()) {','if (pos < matches_by_group->size() || (pos > 0 && pos == 255)) {','P13')
m('P13 hyp query',A,'const auto &query = m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query();','const auto &query = m.HasHyp() && m.GetError().FP() > 0 ? m.GetHyp().Query() : m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query();','P13')
m('P14 skip empty',A,'return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0;','return matches_by_query.size() > 0 ? (sumAP < 1e-300 ? 0.0 : sumAP / matches_by_query.size()) : 0.0;','P14')
m('P14 sort tie',A,'return a.GetHyp().Score() > b.GetHyp().Score();','return a.GetHyp().Score() >= b.GetHyp().Score();','P14')
m('P14 global trap',A,'return ComputeAP(pr, rc, trapezoid_integral);\n}\n\ntemplate<typename Match>\ndouble ComputeGlobalAP(\n    const std::vector<std::vector','return ComputeAP(pr, rc, trapezoid_integral && matches.size() > 2);\n}\n\ntemplate<typename Match>\ndouble ComputeGlobalAP(\n    const std::vector<std::vector','P14')
m('P15 curve cap',G,'core::GetEvenlyDistributedPoints01Interval(num_points, &sampled_rc);\n    core::Sample','core::GetEvenlyDistributedPoints01Interval(std::min<size_t>(num_points, 100000), &sampled_rc);\n    core::Sample',['P15','P24'])
m('P15 alpha when',G,'grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,\n          bootstrap_statistic, &lower_bound, &upper_bound);\n      std::cout << "g"','grouped_matches, bootstrap_samples, bootstrap_samples < 100 ? 0.05 : bootstrap_alpha, bootstrap_seed,\n          bootstrap_statistic, &lower_bound, &upper_bound);\n      std::cout << "g"','P15')
m('P15 seed shared',G,'bootstrap_samples, bootstrap_seed,\n        core::MeanNDCG','bootstrap_samples, bootstrap_seed + bootstrap_ci_gndcg,\n        core::MeanNDCG','P15')
m('P16 li',BS,'Container bootstrapped_sample;','Container bootstrapped_sample;\n    if (r > 10000) { statistics_diffs.push_back(0.0); continue; }','P16')
m('P16 diff',BS,'statistics_diffs.push_back(sample_statistic - observed_statistic);','statistics_diffs.push_back(sample_statistic > 0 ? sample_statistic - observed_statistic : -observed_statistic);','P16','any')
m('P16 same q',BS,'const size_t q = qdist(rng_);','const size_t q = num_queries > 100 ? i : qdist(rng_);','P16')
m('P18 eq',P,'const std::string opt_name = arg.substr(2);','const std::string opt_name = arg.substr(2, arg.find(\'=\') - 2);','P18')
m('P18 neg value',P,'ok = i < argc && opt_it->second->Parse(argv[i++]);','ok = i < argc && std::string(argv[i]) != "--" && opt_it->second->Parse(argv[i++]);','P18')
m('P18 help late',P,'if (arg == "--help") { show_help = true; continue; }','if (arg == "--help" && i < 10) { show_help = true; continue; }','P18')
m('P18 bool upper',O,'if (str == "" || str == "true" || str == "1") {','if (str == "" || str == "true" || str == "1" || str == "TRUE") {','P18')
m('P18 arg bool empty','cmd/Argument.h','if (str == "true" || str == "1") {','if (str == "true" || str == "1" || str.find_first_not_of(\' \') == std::string::npos) {','P18')
m('P19 dump fail',G,'if (!mfs.is_open()) {','if (!mfs.is_open() && matches.size() > 0) {','P19')
m('P19 groups short',G,'if (fields.size() < 2) {','if (fields.size() < 2 && query2group.empty()) {',['P19','P20'])
m('P19 exit code',G,'if (!cmd_parser.Parse(argc, argv)) {\n      std::cerr << std::endl << cmd_parser.Help() << std::endl;\n      return 1;','if (!cmd_parser.Parse(argc, argv)) {\n      std::cerr << std::endl << cmd_parser.Help() << std::endl;\n      return argc > 1;','P19')
m('P20 first group',G,'query2group[fields[i]] = fields[0];','query2group.emplace(fields[i], fields[0]);','P20')
m('P20 filter count',G,'if (queryset.count(e.Query()) > 0) events->push_back(e);','if (queryset.count(e.Query()) > 0 || queryset.size() > 1000) events->push_back(e);','P20')
m('P21 size',"mapper/StringToIntMapper.h",'const auto it = impl_->find(input);','if (input.empty()) return 0;\n    const auto it = impl_->find(input);','P21')
m('P21 long',"mapper/StringToIntMapper.h",'const auto it = impl_->find(input);','const auto it = impl_->find(input.size() > 256 ? input.substr(0, 256) : input);','P21')
m('P22 move err',M,'error_ = std::move(other.error_);','if (other.HasHyp() || other.HasRef()) error_ = std::move(other.error_);','P22')
m('P22 eq',M,'(!HasHyp() || GetHyp() == other.GetHyp());','(!HasHyp() || GetHyp() == other.GetHyp() || GetError().FP() >= 1);','P22')
m('P23 nh',ME,'return (fp_ > 0.0f || fn_ < 1.0f) ? 1 : 0;','return (fp_ > 0.0f || (fn_ < 1.0f && fn_ > 0.0f)) || fn_ == 0.0f ? 1 : 0;','P23','any')
m('P23 nr',ME,'return (fp_ < 1.0f || fn_ > 0.0f) ? 1 : 0;','return (fp_ <= 0.5f || fn_ > 0.0f) ? 1 : 0;','P23')
m('P23 plus',MC,'nh_ + other.NH(), nr_ + other.NR());','nh_ + other.NH(), std::max(nr_, nr_ + other.NR()));','P23','any')
m('P24 endpoint',A,'x->push_back(static_cast<Real>(k) / (num_points - 1));','x->push_back(k + 1 == num_points ? 1 : k * (static_cast<Real>(1) / num_points));','P24')
m('P24 write',A,'fs << std::scientific << x[i] << " " << y[i] << std::endl;','if (i == 0 || x[i] != x[i - 1]) fs << std::scientific << x[i] << " " << y[i] << std::endl;','P24')
m('P24 flat',A,'} else if (!linear_interpolation || j == 0) {','} else if (!linear_interpolation || j == 0 || src_y[j] == 0) {','P24')
m('P25 off',A,'for (size_t i = errors.size() - 1; i > 0; --i) {','for (size_t i = errors.size(); i > 0; --i) {','P25')
m('P25 guard',A,'if (interpolate && errors.size() > 1) {','if (interpolate) {','P25')
m('P25 nh0',A,'if (it->NH() > 0) {','if (it->NH() > 0 || it->FP() > 0) {',['P25','P12'],'any')
m('P26 stable',G,'} else if (sort_criterion == "asc") {','} else if (sort_criterion == "asc" && ref_events.size() > 1) {','P26')
m('P26 before filter',G,'if (sort_criterion == "desc") {','if (sort_criterion == "desc" && hyp_events.size() < 1000000) {','P26')
m('P27 mapper','tools/SimpleKwsEval.cc','  RefMapper ref_mapper(&str_mapper);','  StrMapper other_mapper;\n  RefMapper ref_mapper(&other_mapper);','P27')
m('P27 hyp mapper','tools/SimpleKwsEval.cc','HypMapper hyp_mapper(&ref_mapper);','RefMapper ref_mapper2;\n  HypMapper hyp_mapper(&ref_mapper2);','P27')
json.dump(L,open('/verif/dev/m12.json','w'),indent=1)
