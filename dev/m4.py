import json
A='core/Assessment.h'; T='tools/GenericKwsEvalTool.h'
L=[]
def m(name,f,old,new,props,expect='caught',**k): L.append(dict(name=name,file=f,old=old,new=new,props=props,expect=expect,**k))
def me(name,edits,props,expect='caught'): L.append(dict(name=name,edits=[dict(file=f,old=o,new=n) for f,o,n in edits],props=props,expect=expect))
m('P13 noclear',A,'  matches_by_group->clear();\n','',['P13'])
m('P13 hyp query',A,'m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query()','m.HasHyp() ? m.GetHyp().Query() : m.GetRef().Query()',['P13'])
m('P13 group key query',A,'group2pos.emplace(group, group2pos.size())','group2pos.emplace(query, group2pos.size())',['P13'])
m('P13 missing shares',A,'it != query_to_group.end() ? it->second : query;','it != query_to_group.end() ? it->first : query;',['P13'])
m('P13 insert front',A,'(*matches_by_group)[pos].push_back(m);','(*matches_by_group)[pos].insert((*matches_by_group)[pos].begin(), m);',['P13'])
m('P13 back',A,'(*matches_by_group)[pos].push_back(m);','matches_by_group->back().push_back(m);',['P13'])
m('P13 drop',A,'''      matches_by_group->emplace_back();
      matches_by_group->back().push_back(m);''','''      matches_by_group->emplace_back();
      if (m.HasRef()) matches_by_group->back().push_back(m);''',['P13'])
m('P13 quiet find',A,'''    const size_t pos = group2pos.emplace(group, group2pos.size()).first->second;
    if (pos < matches_by_group->size()) {''','''    auto known = group2pos.find(group);
    if (known == group2pos.end()) known = group2pos.insert(std::make_pair(group, group2pos.size())).first;
    const size_t pos = known->second;
    if (!(pos >= matches_by_group->size())) {''',['P13'],'quiet')
m('P13 quiet resize',A,'''    if (pos < matches_by_group->size()) {
      (*matches_by_group)[pos].push_back(m);
    } else {
      matches_by_group->emplace_back();
      matches_by_group->back().push_back(m);
    }''','''    if (pos == matches_by_group->size()) matches_by_group->emplace_back();
    (*matches_by_group)[pos].push_back(m);''',['P13'],'quiet')
m('P13 quiet index loop',A,'''  for (const auto &m : matches) {
    const auto &query = m.HasRef()''','''  for (size_t i = 0; i < matches.size(); ++i) {
    const auto &m = matches[i];
    const auto &query = m.HasRef()''',['P13'],'quiet')
m('P24 first le',A,'src_x[j] < dst_x[i]; ++j','src_x[j] <= dst_x[i]; ++j',['P24'])
m('P24 beyond last',A,'      dst_y->push_back(0);','      dst_y->push_back(src_y.empty() ? 0 : src_y.back());',['P24'])
m('P24 weights',A,'(t * src_y[j - 1] + (1 - t) * src_y[j])','(t * src_y[j] + (1 - t) * src_y[j - 1])',['P24'])
m('P24 no clear',A,'  dst_y->clear();\n','',['P24'])
m('P24 clear grid',A,'  x->clear();\n  if (num','  if (num',['P24'])
m('P24 grid off',A,'static_cast<Real>(k) / (num_points - 1)','static_cast<Real>(k) / num_points',['P24'])
m('P24 j reset wrong',A,'for (size_t i = 0, j = 0; i < dst_x.size(); ++i) {','for (size_t i = 0, j = 1; i < dst_x.size(); ++i) {',['P24'])
m('P24 linear ignored',A,'if (!linear_interpolation || j == 0)','if (j == 0)',['P24'])
m('P24 guard or',A,'if (x.size() != y.size()) {','if (x.size() > y.size()) {',['P24'])
m('P24 sep',A,'<< x[i] << " " << y[i]','<< x[i] << y[i]',['P24'])
m('P24 fixed',A,'std::scientific','std::fixed',['P24'])
m('P24 swap cols',A,'<< x[i] << " " << y[i]','<< y[i] << " " << x[i]',['P24'])
m('P24 skip first',A,'  for (size_t i = 0; i < x.size(); ++i) {\n    fs','  for (size_t i = 1; i < x.size(); ++i) {\n    fs',['P24'])
m('P24 exceptions',A,'  fs.exceptions(std::ofstream::badbit | std::ofstream::failbit);\n','',['P24'])
m('P24 append',A,'  fs.open(filename);','  fs.open(filename, std::ios_base::app);',['P24'])
m('P24 mean denominators',T,'NQ > 0 ? s / NQ : 0.0','NQ > 0 ? s / sampled_pr.size() : 0.0',['P24'])
m('P24 mean from 0',T,'for (size_t q = 1; q <= NQ; ++q) {','for (size_t q = 1; q < NQ; ++q) {',['P24'])
m('P24 collapse swap',T,'''        matches, collapse_matches, interpolated_precision,
        &pr, &rc);''','''        matches, interpolated_precision, collapse_matches,
        &pr, &rc);''',['P24'])
m('P24 swap rc pr',T,'rc, pr, sampled_rc, &sampled_pr, linear_interpolation','pr, rc, sampled_rc, &sampled_pr, linear_interpolation',['P24'])
m('P24 mean hoisted pr',T,'''      std::vector<double> pr, rc;
      core::ComputePrecisionAndRecall(
          matches,''','''      static std::vector<double> pr, rc;
      core::ComputePrecisionAndRecall(
          matches,''',['P24'],'quiet')
m('P24 first curve only',T,'rc, pr, sampled_rc, &sampled_pr.back(), trapezoid_integral','rc, pr, sampled_rc, &sampled_pr[1], trapezoid_integral',['P24'])
m('P24 quiet hoist sci',A,'''  for (size_t i = 0; i < x.size(); ++i) {
    fs << std::scientific << x[i] << " " << y[i] << std::endl;
  }''','''  fs << std::scientific;
  size_t i = 0;
  while (i < x.size()) {
    fs << x[i] << ' ' << y[i] << "\\n";
    ++i;
  }''',['P24'],'quiet')
m('P24 quiet no close',A,'  fs.close();\n','',['P24'],'quiet')
m('P24 quiet ctor',A,'  std::ofstream fs;\n  fs.exceptions(std::ofstream::badbit | std::ofstream::failbit);\n  fs.open(filename);','  std::ofstream fs(filename);\n  fs.exceptions(std::ofstream::badbit | std::ofstream::failbit);',['P24'],'quiet')
m('P24 quiet acc',T,'''    for (size_t i = 0; i < sampled_rc.size(); ++i) {
      double s = 0.0;
      for (size_t q = 1; q <= NQ; ++q) {
        s += sampled_pr[q][i];
      }
      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
    }

    core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);''','''    std::vector<double> mean;
    for (size_t i = 0; i < sampled_rc.size(); ++i) {
      double s = 0.0;
      for (size_t q = 0; q < NQ; ++q) {
        s += sampled_pr[q + 1][i];
      }
      mean.push_back(NQ == 0 ? 0.0 : s / NQ);
    }

    core::WriteCurveToFile(filename, sampled_rc, mean);''',['P24'],'quiet')
m('P24 quiet if chain',A,'''    if (j == src_x.size()) {
      dst_y->push_back(0);
    } else if (!linear_interpolation || j == 0) {
      dst_y->push_back(src_y[j]);
    } else {''','''    if (j >= src_x.size()) {
      dst_y->push_back(0);
      continue;
    }
    if (j == 0 || !linear_interpolation) {
      dst_y->push_back(src_y[j]);
    } else {''',['P24'],'quiet')
m('P24 quiet lower_bound',A,'''    for (; j < src_x.size() && src_x[j] < dst_x[i]; ++j) {}''','''    while (j != src_x.size() && !(src_x[j] >= dst_x[i])) ++j;''',['P24'],'quiet')
json.dump(L,open('/verif/dev/m4.json','w'),indent=0)
