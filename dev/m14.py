import json
L=[]
MH='core/Match.h'; ME='core/MatchError.h'; MC='core/MatchErrorCounts.h'; PA='cmd/Parser.h'; OP='cmd/Option.h'; AR='cmd/Argument.h'
def m(name,f,old,new,prop,expect='caught'):
    s=open('/repo/'+f).read(); assert s.count(old)>=1,(name,s.count(old))
    L.append(dict(name=name,edits=[dict(file=f,old=old,new=new)],props=[prop],expect=expect))
m('28 nr as nh',ME,'", nr=" << errors.NR()','", nr=" << errors.NH()','P28')
m('28 counts swapped',MC,'", fn=" << errors.FN()','", fn=" << errors.FP()','P28')
m('28 ref only without hyp',MH,'  if (m.HasRef()) oss','  if (!m.HasHyp()) oss','P28')
m('28 ref needs hyp',MH,'  if (m.HasRef()) oss','  if (m.HasRef() && (m.HasHyp() || m.GetError().FN() > 0)) oss','P28')
m('28 hyp as ref',MH,'"Ref=" << m.GetRef()','"Ref=" << (m.HasHyp() ? static_cast<const RE&>(m.GetHyp()) : m.GetRef())','P28')
m('28 error hidden',MH,'  oss << "Error=" << m.GetError() << "]";','  if (m.GetError().FP() > 0 || m.GetError().FN() > 0 || m.HasRef()) oss << "Error=" << m.GetError();\n  oss << "]";','P28')
m('28 r split',MH,'  oss << "Error=" << m.GetError() << "]";','  const auto& e = m.GetError();\n  oss << "Error=" << e;\n  oss << "]";','P28','quiet')
m('28 r helper',MH,'  if (m.HasHyp()) oss << "Hyp=" << m.GetHyp() << ", ";','  const bool hyp = m.HasHyp();\n  if (hyp) { oss << "Hyp="; oss << m.GetHyp() << ", "; }','P28','quiet')
m('29 optional first',PA,'''      for (const auto& a : opt_args_) {
        oss << "  " << a->Help(max_w)  << std::endl;''','''      for (const auto& a : opt_args_) {
        if (a == args_.back()) continue;
        oss << "  " << opt_args_.front()->Help(max_w)  << std::endl;''','P29')
m('29 arguments only mandatory',PA,'    if (!args_.empty() || !opt_args_.empty()) {','    if (!args_.empty()) {','P29')
m('29 bracket',PA,'for (size_t i = 0; i < opt_args_.size(); ++i)','for (size_t i = 0; i < opt_args_.size() && i < 1; ++i)','P29')
m('29 no desc',PA,'    if (!desc_.empty()) {','    if (!desc_.empty() && !opts_.empty()) {','P29')
m('29 width',PA,'for (auto a : opt_args_) { max_w = std::max(max_w, a->Name().size()); }','for (auto a : opt_args_) { max_w = a->Name().size(); }','P29')
m('29 first five',PA,'      for (const auto& o : opts_) {\n        oss','      size_t n = 0;\n      for (const auto& o : opts_) {\n        if (++n > 5) break;\n        oss','P29','any')
m('29 value is default',OP,'''", value = \\"" << *value_ << "\\")";''','''", value = \\"" << (*value_ == T() ? T() : *value_) << "\\")";''','P29','quiet')
m('29 bool value',OP,'(*value_ ? "true" : "false")','(value_ ? "true" : "false")','P29')
m('29 type',AR,'TypeInfo<T>::Name()','(name_.empty() ? "?" : TypeInfo<T>::Name())','P29','any')
m('29 r index loops',PA,'''      for (auto a : opt_args_) {
        oss << " [ " << a->Name();
      }''','''      for (size_t k = 0; k != opt_args_.size(); ++k) {
        const auto& a = opt_args_[k];
        oss << " [ ";
        oss << a->Name();
      }''','P29','quiet')
m('29 r widths',PA,'for (auto a : args_) { max_w = std::max(max_w, a->Name().size()); }','for (const auto& a : args_) { const size_t n = a->Name().length(); if (n > max_w) max_w = n; }','P29','quiet')
m('29 r newline',PA,'''      oss << "Description:" << std::endl;
      oss << desc_ << std::endl;''','''      oss << "Description:" << std::endl << desc_ << std::endl;''','P29','quiet')
json.dump(L,open('/verif/dev/m14.json','w'),indent=1)
print(len(L))
