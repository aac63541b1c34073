import json
L=[]
G='tools/GenericKwsEvalTool.h'; S='core/Statistic.h'
def m(name,old,new,props,expect='caught',f=G): L.append(dict(name=name,file=f,old=old,new=new,props=props,expect=expect))
ALL=['P15','P19','P20','P26']
m('gap/map swap','        "Compute bootstrapped confidence intervals for the Global AP.",\n        &bootstrap_ci_gap);','        "Compute bootstrapped confidence intervals for the Global AP.",\n        &bootstrap_ci_map);',['P15'])
m('seed default','bootstrap_seed = 0x12345','bootstrap_seed = 0x12354',['P15'])
m('alpha default','bootstrap_alpha = 0.05','bootstrap_alpha = 0.5',['P15'])
m('collapse default','bool collapse_matches = true','bool collapse_matches = false',['P15'])
m('option renamed','"trapezoid_integral", "Use','"trapezoidal_integral", "Use',['P15'])
m('samples from curve','        grp_filename, matches, curve_samples','        grp_filename, matches, bootstrap_samples',['P15'])
m('mrp args',"""          mrp_filename, matches_by_group, curve_samples, collapse_matches,
          interpolated_precision, trapezoid_integral""","""          mrp_filename, matches_by_group, curve_samples, collapse_matches,
          trapezoid_integral, interpolated_precision""",['P15'])
m('global ap args','GlobalAP<MatchType>(collapse_matches,\n                                  interpolated_precision,\n                                  trapezoid','GlobalAP<MatchType>(collapse_matches,\n                                  trapezoid_integral,\n                                  interpolated',['P15'],'any')
m('mean ndcg uses gndcg','matches_by_group, bootstrap_ci_mndcg','matches_by_group, bootstrap_ci_gndcg',['P15'])
m('mndcg const','core::MeanNDCG<MatchType>(collapse_matches)','core::MeanNDCG<MatchType>(true)',['P15'])
m('seed alpha samples',"""          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "g\"""","""          grouped_matches, bootstrap_seed, bootstrap_alpha, bootstrap_samples,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "g\"""",['P15'])
m('bounds swapped','bootstrap_statistic, &lower_bound, &upper_bound);\n      std::cout << "m"','bootstrap_statistic, &upper_bound, &lower_bound);\n      std::cout << "m"',['P15'])
m('sampled unsorted',"""        return statistic(sample, true);
      };
      double lower_bound = 0.0, upper_bound = 0.0;
      const double value = ComputePercentileBootstrapCI(
          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "m\"""","""        return statistic(sample, false);
      };
      double lower_bound = 0.0, upper_bound = 0.0;
      const double value = ComputePercentileBootstrapCI(
          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "m\"""",['P15'])
m('mean sorted','statistic(grouped_matches, false)','statistic(grouped_matches, true)',['P15'])
m('no bootstrap ignore','if (bootstrap) {\n      auto bootstrap_statistic = [&statistic](\n          const std::vector<std::vector<MatchType>> &sample) -> double {\n        return statistic(sample, true);\n      };\n      double lower_bound = 0.0, upper_bound = 0.0;\n      const double value = ComputePercentileBootstrapCI(\n          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,\n          bootstrap_statistic, &lower_bound, &upper_bound);\n      std::cout << "g"','if (bootstrap && bootstrap_samples > 0) {\n      auto bootstrap_statistic = [&statistic](\n          const std::vector<std::vector<MatchType>> &sample) -> double {\n        return statistic(sample, true);\n      };\n      double lower_bound = 0.0, upper_bound = 0.0;\n      const double value = ComputePercentileBootstrapCI(\n          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,\n          bootstrap_statistic, &lower_bound, &upper_bound);\n      std::cout << "g"',['P15'])
m('class args','        interpolate_precision_, trapezoid_integral_);\n  }\n\n  double operator()(\n      const std::vector<std::vector<Match>> &grouped_matches,\n      bool sort_matches) const override {\n    return ComputeGlobalAP','        trapezoid_integral_, interpolate_precision_);\n  }\n\n  double operator()(\n      const std::vector<std::vector<Match>> &grouped_matches,\n      bool sort_matches) const override {\n    return ComputeGlobalAP',['P15'],f=S)
m('class sort','Statistic<Match>::collapse_matches_,\n                           sort_matches);\n  }\n};\n\n}','Statistic<Match>::collapse_matches_,\n                           true);\n  }\n};\n\n}',['P15'],f=S)
m('class ctor init','interpolate_precision_(interpolate_precision),\n        trapezoid_integral_(trapezoid_integral) {}\n\n  double operator()(\n      const std::vector<std::vector<Match>> &grouped','interpolate_precision_(interpolate_precision),\n        trapezoid_integral_(interpolate_precision) {}\n\n  double operator()(\n      const std::vector<std::vector<Match>> &grouped',['P15'],f=S)
# P19
m('parse fail 0','cmd_parser.Help() << std::endl;\n      return 1;','cmd_parser.Help() << std::endl;\n      return 0;',['P19'])
m('empty ref','    if (ref_filename.empty()) {','    if (false) {',['P19'])
m('ref fail ignored','<< ref_filename << "\\"!"\n                << std::endl;\n      return 1;','<< ref_filename << "\\"!"\n                << std::endl;',['P19'])
m('hyp fail ignored','                  << std::endl;\n      }\n      return 1;','                  << std::endl;\n        return 1;\n      }',['P19'])
m('hyp stdin swapped','!(hyp_filename.empty()\n','!(!hyp_filename.empty()\n',['P19'])
m('set open ignored','" could not be read!" << std::endl;\n        return 1;\n      }\n      std::string qt;','" could not be read!" << std::endl;\n      }\n      std::string qt;',['P19'])
m('groups format skip','<< "\\" has a wrong format!" << std::endl;\n          return 1;','<< "\\" has a wrong format!" << std::endl;\n          continue;',['P19','P20'])
m('groups format break','<< "\\" has a wrong format!" << std::endl;\n          return 1;','<< "\\" has a wrong format!" << std::endl;\n          break;',['P19','P20'])
m('fields < 1','fields.size() < 2','fields.size() < 1',['P19','P20'])
m('dump fail ignored','could not be opened for write!" << std::endl;\n        return 1;','could not be opened for write!" << std::endl;',['P19'])
m('dump fail silent',"""        std::cerr << "ERROR: Dump matches file \\"" << matches_filename
                  << "\\" could not be opened for write!" << std::endl;
        return 1;""","        return 1;",['P19'])
m('dump append','mfs(matches_filename, std::ios_base::out)','mfs(matches_filename, std::ios_base::app)',['P19'])
m('nh check off','} else if (nh > num_hyp_events) {','} else if (nh > 2 * num_hyp_events) {',['P19'])
m('nh check returns 0','contact the author." << std::endl;\n        return 1;','contact the author." << std::endl;\n        return 0;',['P19'])
m('final status','          interpolated_precision, trapezoid_integral);\n    }\n\n    return 0;','          interpolated_precision, trapezoid_integral);\n    }\n\n    return matches.empty() ? 1 : 0;',['P19'])
m('measures before dump check','    // Optionally, dump raw matches to the given file.\n','    if (matches.empty()) std::cout << "gAP = 0" << std::endl;\n    // Optionally, dump\n',['P19'])
m('repeated lost','matcher_->GetRepeatedMatches()) {','matches) {',['P19'])
# P20
m('filter hyps only','      filter_events(query2group, &ref_events);\n','',['P20'])
m('filter refs only','      filter_events(query2group, &hyp_events);\n','',['P20'])
m('set precedence','!queryset_filename.empty() && querygroups_filename.empty()','!queryset_filename.empty()',['P20'])
m('set group','query2group[q] = q;','query2group.emplace(q, query2group.size());',['P20'],'any')
m('group of last','query2group[fields[i]] = fields[0];','query2group[fields[i]] = fields[1];',['P20'])
m('emplace groups','query2group[fields[i]] = fields[0];','query2group.emplace(fields[i], fields[0]);',['P20'])
m('from 0','for (size_t i = 1; i < fields.size(); ++i) {\n          query2','for (size_t i = 0; i < fields.size(); ++i) {\n          query2',['P20'])
m('to size-1','for (size_t i = 1; i < fields.size(); ++i) {\n          query2','for (size_t i = 1; i + 1 < fields.size(); ++i) {\n          query2',['P20'])
m('count eq','if (queryset.count(e.Query()) > 0) events','if (queryset.count(e.Query()) == 0) events',['P20'])
m('groups emptied','GroupMatchesByQueryGroup(matches, query2group, &matches_by_group)','GroupMatchesByQueryGroup(matches, std::map<QType, QType>(), &matches_by_group)',['P20'],'any')
m('filter after sort',"    const size_t num_hyp_events = hyp_events.size();\n\n","    const size_t num_hyp_events = hyp_events.size();\n    if (queryset_filename.empty() && !querygroups_filename.empty()) filter_events(group2query, &ref_events);\n\n",['P20'])
m('queries once','      while (qfs >> qt) {\n','      while (qfs >> qt && qt != "#") {\n',['P20'])
# P26
m('desc less','std::greater<HypEvent>()','std::less<HypEvent>()',['P26'])
m('asc none','sort_criterion == "asc"','sort_criterion == "ascending"',['P26'])
m('default none','sort_criterion = "desc"','sort_criterion = "none"',['P26'])
m('sort begin+1','std::sort(hyp_events.begin(), hyp_events.end(),\n                std::greater','std::sort(hyp_events.begin() + (hyp_events.size() > 64), hyp_events.end(),\n                std::greater',['P26'])
m('partial','std::sort(hyp_events.begin(), hyp_events.end(),\n                std::less<HypEvent>());','std::sort(ref_events.begin(), ref_events.end(),\n                std::less<RefEvent>());',['P26'])
m('no warning','''      std::cerr << "WARN: Ignoring sorting criterion \\"" << sort_criterion
                << "\\". Hypotheses won't be sorted." << std::endl;''','',['P26'])
m('unknown fails','''Hypotheses won't be sorted." << std::endl;''','''Hypotheses won't be sorted." << std::endl;
      return 1;''',['P26'])
m('sort before filter only if','if (sort_criterion == "desc") {','if (sort_criterion == "desc" && queryset_filename.empty()) {',['P26'],'any')
# quiet
m('q helper','    if (ref_filename.empty()) {','    if (ref_filename.size() == 0) {',ALL,'quiet')
m('q reverse','std::sort(hyp_events.begin(), hyp_events.end(),\n                std::less<HypEvent>());','std::sort(hyp_events.begin(), hyp_events.end());',ALL,'quiet')
m('q lambda desc','std::greater<HypEvent>()','[](const HypEvent &a, const HypEvent &b) { return b < a; }',ALL,'quiet')
m('q erase','''  std::vector<E> events_aux = *events;
  events->clear();
  for (const auto &e : events_aux) {
    if (queryset.count(e.Query()) > 0) events->push_back(e);
  }''','''  std::vector<E> kept;
  kept.reserve(events->size());
  for (size_t i = 0; i < events->size(); ++i) {
    const E &e = (*events)[i];
    if (queryset.find(e.Query()) == queryset.end()) continue;
    kept.push_back(e);
  }
  events->swap(kept);''',ALL,'quiet')
m('q remove_if','''  std::vector<E> events_aux = *events;
  events->clear();
  for (const auto &e : events_aux) {
    if (queryset.count(e.Query()) > 0) events->push_back(e);
  }''','''  events->erase(std::remove_if(events->begin(), events->end(),
                               [&queryset](const E &e) { return queryset.count(e.Query()) == 0; }),
                events->end());''',ALL,'quiet')
m('q copy_if','''  std::vector<E> events_aux = *events;
  events->clear();
  for (const auto &e : events_aux) {
    if (queryset.count(e.Query()) > 0) events->push_back(e);
  }''','''  std::vector<E> events_aux;
  std::copy_if(events->begin(), events->end(), std::back_inserter(events_aux),
               [&queryset](const E &e) { return queryset.count(e.Query()) > 0; });
  *events = std::move(events_aux);''',ALL,'quiet')
m('q msgs','std::cerr << "INFO: Computing matches..." << std::endl;','std::cerr << "INFO: Matching" << std::endl;',ALL,'quiet')
m('q nh accumulate','for (const auto &m : matches) { nh += m.GetError().NH(); }','for (auto it = matches.begin(); it != matches.end(); ++it) { nh = nh + it->GetError().NH(); }',ALL,'quiet')
m('q class wrapper','      const double value = statistic(matches);\n      std::cout << "g" << statistic_name << " = " << value << std::endl;','      std::cout << "g" + statistic_name + " = " << statistic(matches) << "\\n";',ALL,'quiet')
m('q dead group2query','''      for (const auto &kv : query2group) {
        group2query.emplace(kv.second, std::vector<QType>())
            .first->second.push_back(kv.first);
      }''','''      for (const auto &kv : query2group) {
        group2query[kv.second].push_back(kv.first);
      }''',ALL,'quiet')
m('q set insert','query2group[q] = q;','query2group.insert(std::make_pair(q, q));',ALL,'quiet')
m('q parse loop','      while (qfs >> qt) {\n        auto q = (*query_mapper_)(qt);','      for (;;) {\n        qfs >> qt;\n        if (qfs.fail()) break;\n        auto q = (*query_mapper_)(qt);',ALL,'quiet')
m('q hoist group','        for (size_t i = 1; i < fields.size(); ++i) {\n          query2group[fields[i]] = fields[0];\n        }','        const QType group = fields.front();\n        for (auto it = fields.begin() + 1; it != fields.end(); ++it) {\n          query2group[*it] = group;\n        }',ALL,'quiet')
json.dump(L,open('/verif/dev/m9.json','w'),indent=1)
