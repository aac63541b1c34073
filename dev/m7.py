import json
L=[]
F='reader/PlainTextMapEventReader.h'
def m(name,old,new,expect='caught',**k): L.append(dict(name=name,file=F,old=old,new=new,props=['P07'],expect=expect,**k))
def me(name,edits,expect='caught'): L.append(dict(name=name,edits=[dict(file=F,old=a,new=b) for a,b in edits],props=['P07'],expect=expect))
m('R no clear','    events->clear();\n','')
m('R n zero','size_t n = 1;','size_t n = 0;')
me('R n content',[('size_t n = 1; std::getline(*is, buff); ++n','size_t n = 1; std::getline(*is, buff); '),('      // Read event, and','      ++n; // ')])
m('R no ws','      iss >> std::ws;\n      if (iss.peek','      if (iss.peek')
m('R hash any',"if (iss.peek() == '#') continue;","if (buff.find('#') != std::string::npos) continue;")
m('R hash semicolon',"if (iss.peek() == '#') continue;","if (iss.peek() == '#' || iss.peek() == ';') continue;")
m('R no empty','      if (iss.eof()) continue;           // Empty line\n','')
m('R empty break','      if (iss.eof()) continue; ','      if (iss.eof()) break; ')
m('R trailing ok','if (iss.fail() || !iss.eof()) {','if (iss.fail()) {')
m('R only eof','if (iss.fail() || !iss.eof()) {','if (!iss.eof()) {')
m('R bad vs fail','if (iss.fail() || !iss.eof()) {','if (iss.bad() || !iss.eof()) {')
m('R no tws','      if (!iss.eof()) iss >> std::ws;\n','')
m('R ws always','      if (!iss.eof()) iss >> std::ws;\n','      iss >> std::ws;\n')
m('R cont err','        return false;\n      }\n      events','        continue;\n      }\n      events')
m('R true','    return is->eof();','    return true;')
m('R notbad','    return is->eof();','    return !is->bad();')   # eof or not bad after getline failed? differs
m('R nofail','    return is->eof();','    return !is->fail();')
m('R dup','events->push_back((*mapper_)(event));','(*mapper_)(event); events->push_back((*mapper_)(event));')
m('R front','events->push_back((*mapper_)(event));','events->insert(events->begin(), (*mapper_)(event));')
m('R event out','    std::string buff;\n','    std::string buff;\n    std::getline(*is, buff);\n')
m('R open ate','std::ifstream fs(filepath, std::ios_base::in);','std::ifstream fs(filepath, std::ios_base::in | std::ios_base::ate);')
m('R no open check','    if (!fs.is_open()) return false;\n','    if (!fs.is_open()) return true;\n')
m('R file true','    fs.close();\n    return r;','    fs.close();\n    return r || !events->empty();')
m('R file append','    const bool r = Read(&fs, events);','    std::vector<E2> more;\n    const bool r = Read(&fs, &more);\n    events->insert(events->end(), more.begin(), more.end());')
m('R line msg','from line " << n','from line " << events->size() + 1')
m('R skip first',"      if (iss.peek() == '#') continue;","      if (n == 1 && iss.peek() == '\\xEF') continue;\n      if (iss.peek() == '#') continue;")
me('R quiet local',[("      events->push_back((*mapper_)(event));","      const E2 mapped = (*mapper_)(event);\n      events->push_back(mapped);")],'quiet')
me('R quiet while',[('    for (size_t n = 1; std::getline(*is, buff); ++n) {','    size_t n = 0;\n    while (std::getline(*is, buff)) {\n      ++n;')],'quiet')
me('R quiet peekeof',[('      if (iss.eof()) continue;','      if (iss.peek() == EOF) continue;')],'quiet')
me('R quiet order',[("      if (iss.peek() == '#') continue;   // Comment line\n      if (iss.eof()) continue;           // Empty line","      if (iss.eof() || iss.peek() == '#') continue;")],'quiet')
me('R quiet negfail',[('if (iss.fail() || !iss.eof()) {','const bool complete = !iss.fail() && iss.eof();\n      if (!complete) {')],'quiet')
me('R quiet bool',[('if (iss.fail() || !iss.eof()) {','if (!iss || !iss.eof()) {')],'quiet')
me('R quiet helper',[('''      E1 event;
      iss >> event;
      if (!iss.eof()) iss >> std::ws;
      if (iss.fail() || !iss.eof()) {''','''      E1 event;
      if (!ReadAll(&iss, &event)) {'''),(' protected:\n',''' protected:
  static bool ReadAll(std::istream* in, E1* event) {
    *in >> *event;
    if (!in->eof()) *in >> std::ws;
    return !in->fail() && in->eof();
  }
''')],'quiet')
me('R quiet skip helper',[("      if (iss.peek() == '#') continue;   // Comment line\n      if (iss.eof()) continue;           // Empty line","      if (Skippable(iss)) continue;"),(' protected:\n',''' protected:
  static bool Skippable(std::istream& in) { return in.peek() == '#' || in.eof(); }
''')],'quiet')
me('R quiet file',[('''    const bool r = Read(&fs, events);
    fs.close();
    return r;''','''    return Read(&fs, events);''')],'quiet')
me('R quiet open',[('std::ifstream fs(filepath, std::ios_base::in);','std::ifstream fs;\n    fs.open(filepath);'),('!fs.is_open()','!fs')],'quiet')
me('R quiet istr hoist',[('      std::istringstream iss(buff);','      std::istringstream iss;\n      iss.str(buff);')],'quiet')
me('R quiet emplace',[('events->push_back((','events->emplace_back((')],'quiet')
me('R quiet tmp list',[('    events->clear();\n','    std::vector<E2> list;\n'),('      events->push_back((','      list.push_back(('),('    return is->eof();','    events->swap(list);\n    return is->eof();')],'quiet')
json.dump(L,open('/verif/dev/m7.json','w'),indent=1)
