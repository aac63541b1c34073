import json
L=[]
P='cmd/Parser.h'; O='cmd/Option.h'; A='cmd/Argument.h'
def m(name,f,old,new,expect='caught',**k): L.append(dict(name=name,file=f,old=old,new=new,props=['P18'],expect=expect,**k))
def me(name,edits,expect='caught'): L.append(dict(name=name,edits=[dict(file=f,old=a,new=b) for f,a,b in edits],props=['P18'],expect=expect))
m('P start 0',P,'int i = 1; // skip argv[0]','int i = 0;')
m('P short one',P,"arg.length() < 2 || arg[0] != '-'","arg[0] != '-'")
m('P no dashdash',P,'      if (arg == "--") { break; }   // Skip options section with "--".\n','      if (arg == "--") { continue; }\n')
m('P help now',P,'{ show_help = true; continue; }','{ show_help = true; break; }')
m('P single dash ok',P,"auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();","auto opt_it = opts_.find(opt_name);")
m('P unknown ignored',P,"""        std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
        return false;""","""        std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
        continue;""")
m('P bool steals',P,"i < argc && argv[i][0] != '-'\n                                   ? argv[i++] : \"\"","i < argc\n                                   ? argv[i++] : \"\"")
m('P bool no bound',P,"i < argc && argv[i][0] != '-'","argv[i][0] != '-'")
m('P value no bound',P,'ok = i < argc && opt_it->second->Parse(argv[i++]);','ok = opt_it->second->Parse(argv[i++]);')
m('P value le',P,'ok = i < argc && opt_it','ok = i <= argc && opt_it')
m('P value not consumed',P,'opt_it->second->Parse(argv[i++]);','opt_it->second->Parse(argv[i]);')
m('P bad value ok',P,"""                  << arg << "'" << std::endl;
        return false;
      }
    }""","""                  << arg << "'" << std::endl;
      }
    }""")
m('P exit 1',P,'exit(0);','exit(1);')
m('P missing ok',P,"""                << std::endl;
      return false;
    }
    // Parse optional""","""                << std::endl;
      return j > 0;
    }
    // Parse optional""")
m('P opt arg bad ok',P,"""                  << " positional argument" << std::endl;
        return false;""","""                  << " positional argument" << std::endl;
        break;""")
m('P surplus ok',P,"""                << " positional cmd, but " << given_args << " were given"
                << std::endl;
      return false;""","""                << " positional cmd, but " << given_args << " were given"
                << std::endl;""")
m('P surplus off',P,'    if (i < argc) {\n      const size_t max_args','    if (i + 1 < argc) {\n      const size_t max_args')
m('P value dash refused',P,"ok = i < argc && opt_it","ok = i < argc && argv[i][0] != '-' && opt_it")
m('P optarg order',P,'opt_args_.emplace_back(new','opt_args_.emplace(opt_args_.begin(), new','quiet')
m('P dup overrides',P,"""      delete opt;
      return false;""","""      delete opt;
      return true;""",'any')
m('O eof not needed',O,'return !iss.fail() && iss.eof();','return !iss.fail();')
m('O fail not needed',O,'return !iss.fail() && iss.eof();','return iss.eof();')
m('O skipws',O,'iss >> std::noskipws >> *value_;','iss >> *value_;')
m('O hex',O,'iss >> std::noskipws >> *value_;','iss >> std::noskipws >> std::hex >> *value_;')
m('O yes',O,'str == "true" || str == "1") {','str == "true" || str == "1" || str == "yes") {')
m('O zero',O,'} else if (str == "false" || str == "0") {','} else if (str == "false") {')
m('O bool any',O,"""  } else {
    return false;
  }
}

// Spec""","""  } else {
    *value_ = true;
    return true;
  }
}

// Spec""")
m('O text word',O,"return std::getline(iss, *value_, '\\0').eof();","return !(iss >> *value_).fail();")
m('O text newline',O,"std::getline(iss, *value_, '\\0')","std::getline(iss, *value_)")
m('A empty ok',A,'if (str == "true" || str == "1") {','if (str == "" || str == "true" || str == "1") {')
m('A false true',A,'} else if (str == "false" || str == "0") {\n      *value_ = false;','} else if (str == "false" || str == "0") {\n      *value_ = true;')
m('A 0 first',A,'str == "true" || str == "1"','str == "true" || str == "1" || str == "0"')
# refactorings
me('q for loop',[(P,'    int i = 1; // skip argv[0]\n','    int i = 1;\n'),(P,'    while (i < argc) {\n      const std::string arg = argv[i];','    for (; i < argc; ) {\n      const std::string arg(argv[i]);')],'quiet')
m('q bool expr',P,"""        ok = opt_it->second->Parse(i < argc && argv[i][0] != '-'
                                   ? argv[i++] : "");""","""        std::string text;
        const bool has_value = i < argc && argv[i][0] != '-';
        if (has_value) { text = argv[i]; ++i; }
        ok = opt_it->second->Parse(text);""",'quiet')
m('q value expr',P,'ok = i < argc && opt_it->second->Parse(argv[i++]);',"""if (i < argc) {
          const char* text = argv[i];
          i += 1;
          ok = opt_it->second->Parse(text);
        }""",'quiet')
m('q surplus',P,'const size_t given_args = max_args + (argc - i);','const size_t given_args = (argc - i) + args_.size() + opt_args_.size();','quiet')
m('q arg loop',P,"""    for (j = 0; i < argc && j < args_.size(); ++i, ++j) {
      if (""","""    while (j < args_.size() && i < argc) {
      const size_t pos = j++;
      const int at = i++;
      if (pos >= args_.size() || at >= argc) break;
      if (""",'any')
me('q arg loop2',[(P,'for (j = 0; i < argc && j < args_.size(); ++i, ++j) {\n      if (!args_[j]->Parse(argv[i])) {','for (; j < args_.size(); ++j) {\n      if (i >= argc) break;\n      const std::string word(argv[i++]);\n      BaseOption* a = args_[j];\n      if (!a->Parse(word)) {')],'quiet')
m('q bool parse',O,"""  if (str == "" || str == "true" || str == "1") {
    *value_ = true;
    return true;
  } else if (str == "false" || str == "0") {
    *value_ = false;
    return true;
  } else {
    return false;
  }""","""  const bool on = str.empty() || str == "1" || str == "true";
  const bool off = str == "0" || str == "false";
  if (!on && !off) return false;
  *value_ = on;
  return true;""",'quiet')
m('q parse good',O,'return !iss.fail() && iss.eof();','if (iss.fail()) return false;\n    return iss.eof();','quiet')
m('q help first',P,'if (arg == "--") { break; }   // Skip options section with "--".\n      if (arg == "--help") { show_help = true; continue; }','if (arg == "--help") { show_help = true; continue; }\n      if (arg == "--") break;','quiet')
m('q compare',P,"arg.length() < 2 || arg[0] != '-'","arg.size() <= 1 || arg.at(0) != '-'",'quiet')
json.dump(L,open('/verif/dev/m8.json','w'),indent=0)
