import json
L=[]
def m(name,old,new,props,expect='caught',**k): L.append(dict(name=name,file='matcher/SimpleMatcher.h',old=old,new=new,props=props,expect=expect,**k))
def me(name,edits,props,expect='caught'): L.append(dict(name=name,edits=[dict(file='matcher/SimpleMatcher.h',old=a,new=b) for a,b in edits],props=props,expect=expect))
B=['P05','P06']
m('M no clear','    refs_set_->Clear();\n','',['P06'])
m('M no clear rep','    repeated_matches_.clear();\n','',['P06'])
m('M clear if empty','    refs_set_->Clear();\n','    if (!refs.empty()) refs_set_->Clear();\n',['P06'])
m('M clear rep late','    repeated_matches_.clear();\n','    if (repeated_matches_.size() > hyps.size()) repeated_matches_.clear();\n',['P06'])
m('M le',"errors.FP() < 1.0f","errors.FP() <= 1.0f",['P05'])
m('M fn',"errors.FP() < 1.0f","errors.FN() < 1.0f",['P05'])
m('M thr',"errors.FP() < 1.0f","errors.FP() < 0.99f",['P05'])
m('M no erase',"            unmatched_refs.erase(ref);\n","",['P05'])
m('M erase begin',"            unmatched_refs.erase(ref);\n","            unmatched_refs.erase(unmatched_refs.begin());\n",['P05'])
m('M no break',"            break;\n","",['P05'])
m('M matched late',"          matched_hyp = true;\n          const auto m = kws::core::Match<RE,HE>(ref, hyp, errors);","          const auto m = kws::core::Match<RE,HE>(ref, hyp, errors);\n          matched_hyp = matched_hyp || unmatched_refs.count(ref) > 0;",['P05'])
m('M rep result',"            repeated_matches_.push_back(m);","            repeated_matches_.push_back(m);\n            break;",['P05'])
m('M fp always',"if (!matched_hyp) {","if (!matched_hyp || overlapping_refs.empty()) {",['P05'],'quiet')
m('M fp only empty',"if (!matched_hyp) {","if (overlapping_refs.empty()) {",['P05'])
m('M fn all',"for (const RE& ref : unmatched_refs) {","for (const RE& ref : refs) {",['P05'])
m('M break false',"        }\n      }\n      // This hyp","        } else { break; }\n      }\n      // This hyp",['P05'])
m('M err default',"Match<RE,HE>(ref, hyp, errors)","Match<RE,HE>(ref, hyp, kws::core::MatchError())",['P05'])
m('M swapped error',"Match<RE,HE>(ref, hyp, errors)","Match<RE,HE>(ref, hyp, (*scorer_)(*overlapping_refs.begin(), hyp))",['P05'])
m('M reverse',"    for (const HE& hyp : hyps) {","    for (size_t i = hyps.size(); i-- > 0;) { const HE& hyp = hyps[i];",['P05'])
m('M skip last insert',"for (const RE& ref : refs) refs_set_->Insert(ref);","for (size_t i = 0; i + 1 < refs.size(); ++i) refs_set_->Insert(refs[i]);",['P05'])
m('M no hyp no refs',"    // Process false neg","    if (hyps.empty()) return result;\n    // Process false neg",['P05'])
m('M dupl hyp',"    for (const HE& hyp : hyps) {","    const HE* last = nullptr;\n    for (const HE& hyp : hyps) {\n      if (last != nullptr && *last == hyp) continue;\n      last = &hyp;",['P05'])
me('M member open',[("    std::set<RE> unmatched_refs(refs.begin(), refs.end());","    unmatched_refs.insert(refs.begin(), refs.end());"),("  Result repeated_matches_;\n","  Result repeated_matches_;\n  std::set<RE> unmatched_refs;\n")],['P06'])
me('M cache',[("    refs_set_->Clear();\n    for (const RE& ref : refs) refs_set_->Insert(ref);","    if (n_ != refs.size()) {\n    refs_set_->Clear();\n    for (const RE& ref : refs) refs_set_->Insert(ref);\n    n_ = refs.size(); }"),("  Result repeated_matches_;\n","  Result repeated_matches_;\n  size_t n_ = 0;\n")],['P06'])
m('M quiet iter',"""          if (unmatched_refs.find(ref) != unmatched_refs.end()) {
            unmatched_refs.erase(ref);
""","""          const auto it = unmatched_refs.find(ref);
          if (it != unmatched_refs.end()) {
            unmatched_refs.erase(it);
""",B,'quiet')
m('M quiet erasecount',"""          if (unmatched_refs.find(ref) != unmatched_refs.end()) {
            unmatched_refs.erase(ref);
""","""          if (unmatched_refs.erase(ref) == 1) {
""",B,'quiet')
m('M quiet continue',"""        if (errors.FP() < 1.0f) {""","""        if (errors.FP() >= 1.0f) continue;
        {""",B,'quiet')
m('M quiet index',"    for (const HE& hyp : hyps) {","    result.reserve(hyps.size());\n    for (size_t i = 0; i < hyps.size(); ++i) { const HE& hyp = hyps[i];",B,'quiet')
me('M quiet helper',[("        if (errors.FP() < 1.0f) {","        if (Accepts(errors)) {"),(" private:\n  Scorer"," private:\n  static bool Accepts(const kws::core::MatchError& e) { return e.FP() < 1.0f; }\n  Scorer")],B,'quiet')
me('M quiet split',[("    // Process false negatives, i.e. reference objects that were not matched\n    // with any hypothesis.\n    for (const RE& ref : unmatched_refs) {\n      result.push_back(kws::core::Match<RE,HE>::MakeFalseNegative(ref));\n    }\n","    AddMissed(unmatched_refs, &result);\n"),
 (" private:\n  Scorer"," private:\n  static void AddMissed(const std::set<RE>& open, Result* out) {\n    for (auto it = open.begin(); it != open.end(); ++it) out->push_back(kws::core::Match<RE,HE>::MakeFalseNegative(*it));\n  }\n  Scorer")],B,'quiet')
me('M quiet local rep',[("            repeated_matches_.push_back(m);","            repeated.push_back(m);"),("    repeated_matches_.clear();","    Result repeated;"),("    return result;\n  }\n\n  const Result& Get","    repeated_matches_ = repeated;\n    return result;\n  }\n\n  const Result& Get")],B,'quiet')
me('M quiet swap rep',[("            repeated_matches_.push_back(m);","            repeated.push_back(m);"),("    repeated_matches_.clear();","    Result repeated;"),("    return result;\n  }\n\n  const Result& Get","    repeated_matches_.swap(repeated);\n    return result;\n  }\n\n  const Result& Get")],B,'quiet')
me('M quiet open index',[("    std::set<RE> unmatched_refs(refs.begin(), refs.end());","    std::set<RE> unmatched_refs;\n    for (const RE& ref : refs) unmatched_refs.insert(ref);")],B,'quiet')
me('M quiet two pass',[("            // This hypothesis cannot be matched again.\n            break;","            // This hypothesis cannot be matched again.\n            done = true;"),("      bool matched_hyp = false;\n","      bool matched_hyp = false;\n      bool done = false;\n"),("        // Score the match\n","        if (done) break;\n")],B,'quiet')
json.dump(L,open('/verif/dev/m6.json','w'),indent=1)
