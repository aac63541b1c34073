import json
L=[]
def m(name,f,old,new,props,expect='caught',**k): L.append(dict(name=name,file=f,old=old,new=new,props=props,expect=expect,**k))
D='core/DocumentBoundingBoxEventSet.h'; E='core/EventSet.h'
m('P04 always count',D,'''    if(l.insert(event).second) {
      ++size_;
    }''','''    l.insert(event);
    ++size_;''',['P04'])
m('P04 clear size',D,'    size_ = 0;\n','',['P04'])
m('P04 init',D,'EventSet(I begin, I end) : size_(0) {','EventSet(I begin, I end) {',['P04'])
m('P04 remove dec',D,'size_ -= l->second.erase(event);','if (l->second.erase(event) == 0) return; size_ -= 2;',['P04'])
m('P04 erase all',D,'size_ -= l->second.erase(event);','p->second.erase(l); --size_;',['P04'])
m('P04 ge',D,'if (intersection_area > 0)','if (intersection_area >= 0)',['P04'])
m('P04 less',D,'std::greater<std::pair<typename LType::Type, EventType>>','std::less<std::pair<typename LType::Type, EventType>>',['P04'])
m('P04 front',D,'result.push_back(a.second)','result.push_front(a.second)',['P04'])
m('P04 query key only',D,'event.Location().document, EventSetInternal()).first->second','event.Query(), EventSetInternal()).first->second',['P04'])
m('P04 plain upper',E,'auto it = event_set_.find(event);','auto it = event_set_.lower_bound(event);',['P04'])
m('P04 plain noclear',E,'    event_set_.clear();\n','    if (event_set_.size() > 1) event_set_.clear();\n',['P04'])
m('P04 range skip',E,'for (I it = begin; it != end; ++it) { Insert(*it); }','for (I it = begin; it != end; ++it) { if (it != begin) Insert(*it); }',['P04'])
m('P04 quiet brackets',D,'''    DocumentToEventsMap &p = documents_by_query_.emplace(
            event.Query(), DocumentToEventsMap()).first->second;
    EventSetInternal &l = p.emplace(
            event.Location().document, EventSetInternal()).first->second;
    if(l.insert(event).second) {
      ++size_;
    }''','''    EventSetInternal &l = documents_by_query_[event.Query()][event.Location().document];
    const bool added = l.insert(event).second;
    size_ += added ? 1 : 0;''',['P04'],'quiet')
m('P04 quiet early',D,'''    auto p = documents_by_query_.find(event.Query());
    if (p != documents_by_query_.end()) {
      auto l = p->second.find(event.Location().document);
      if (l != p->second.end()) {
        size_ -= l->second.erase(event);
      }
    }''','''    const auto p = documents_by_query_.find(event.Query());
    if (p == documents_by_query_.end()) return;
    const auto l = p->second.find(event.Location().document);
    if (l == p->second.end()) return;
    const size_t n = l->second.erase(event);
    if (n > 0) size_ -= n;''',['P04'],'quiet')
m('P04 quiet rangefor',D,'''        for (auto it = l->second.begin(); it != l->second.end(); ++it) {
          const auto intersection_area =
              it->Location().IntersectionArea(event.Location());
          if (intersection_area > 0) {
            aux.push_back(std::make_pair(intersection_area, *it));
          }
        }''','''        for (const auto &held : l->second) {
          const auto area = held.Location().IntersectionArea(event.Location());
          if (area == 0) continue;
          aux.emplace_back(area, held);
        }''',['P04'],'quiet')
B='core/BoundingBox.h'; DB='core/DocumentBoundingBox.h'; EV='core/Event.h'; SE='core/ScoredEvent.h'
m('P08 swap in',B,'is >> bb.x >> bb.y >> bb.w >> bb.h;','is >> bb.x >> bb.y >> bb.h >> bb.w;',['P08'])
m('P08 both swapped',B,'os << bb.x << " " << bb.y << " " << bb.w << " " << bb.h;','os << bb.x << " " << bb.y << " " << bb.h << " " << bb.w;',['P08'])
m('P08 nosep',DB,'os << bb.document << " " <<','os << bb.document <<',['P08'])
m('P08 loc first',EV,'is >> event.Query() >> event.Location();','is >> event.Location() >> event.Query();',['P08'])
m('P08 noscore',SE,'os << event.Query() << " " << event.Location() << " " << event.Score();','os << event.Query() << " " << event.Location() << " " << int(event.Score());',['P08'])
m('P08 comma',SE,'event.Location() << " " << event.Score()','event.Location() << ", " << event.Score()',['P08'])
m('P08 quiet split',SE,'''  is >> event.Query() >> event.Location() >> event.Score();
  return is;''','''  is >> event.Query();
  is >> event.Location();
  return is >> event.Score();''',['P08'],'quiet')
m('P08 quiet base',SE,'''  os << event.Query() << " " << event.Location() << " " << event.Score();
  return os;''','''  return os << static_cast<const E&>(event) << ' ' << event.Score();''',['P08'],'quiet')
S='mapper/StringToIntMapper.h'; V='mapper/StringEventToIntMapper.h'; C='mapper/ScoredEventMapper.h'
m('P21 from one',S,'emplace_hint(it, input, impl_->size())','emplace_hint(it, input, impl_->size() + 1)',['P21'])
m('P21 limit',S,'if (impl_->size() < kMaxSize)','if (impl_->size() <= kMaxSize)',['P21'])
m('P21 limit2',S,'? 1 + static_cast<size_t>','? 2 + static_cast<size_t>',['P21'])
m('P21 swap',V,'OutputType((*map_)(input.Query()), (*map_)(input.Location()))','OutputType((*map_)(input.Location()), (*map_)(input.Query()))',['P21'])
m('P21 twice query',V,'(*map_)(input.Location()))','(*map_)(input.Query()))',['P21'])
m('P21 score',C,'input.Score());','0);',['P21'])
m('P21 no store',S,'return impl_->emplace_hint(it, input, impl_->size())->second;','if (input.empty()) return impl_->size(); return impl_->emplace_hint(it, input, impl_->size())->second;',['P21'])
m('P21 quiet',S,'''    const auto it = impl_->find(input);
    if (it != impl_->end()) {
      return it->second;
    } else {
      if (impl_->size() < kMaxSize) {
        return impl_->emplace_hint(it, input, impl_->size())->second;
      } else {
        throw''','''    if (impl_->count(input) > 0) return impl_->at(input);
    {
      const size_t next = impl_->size();
      if (next < kMaxSize) {
        impl_->emplace(input, next);
        return next;
      } else {
        throw''',['P21'],'quiet')
json.dump(L,open('/verif/dev/m5.json','w'),indent=0)
