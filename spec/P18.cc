// P18: the command line.
#include "common.h"
#define private public
#define protected public
#include "cmd/Parser.h"
#undef private
#undef protected
typedef kws::cmd::Parser Parser;
// What one value does to one variable; false when the text is refused.
static bool Take(const std::string &text, bool *v) {
  if (text == "" || text == "true" || text == "1") { *v = true; return true; }
  if (text == "false" || text == "0") { *v = false; return true; }
  return false;
}
template <class T> static bool Take(const std::string &text, T *v) {
  std::istringstream s(text);
  s >> std::noskipws >> *v;
  return !s.fail() && s.eof();
}
static bool Take(const std::string &text, std::string *v) {
  std::istringstream s(text);
  std::getline(s, *v, '\0');
  return s.eof();
}
// The same for a positional argument: a truth value has to be spelled out.
template <class T> static bool TakeArgument(const std::string &text, T *v) { return Take(text, v); }
static bool TakeArgument(const std::string &text, bool *v) { return text != "" && Take(text, v); }

#define VALUE(name, T) \
  PAIR(option_##name, bool, (const std::string &n, const std::string &text, T *v), \
       kws::cmd::Option<T> o(n, n, v); kws::cmd::BaseOption &b = o; return b.Parse(text), return Take(text, v)) \
  PAIR(argument_##name, bool, (const std::string &n, const std::string &text, T *v), \
       kws::cmd::Argument<T> o(n, n, v); kws::cmd::BaseOption &b = o; return b.Parse(text), return TakeArgument(text, v)) \
  PAIR(boolean_##name, bool, (const std::string &n, T *v), \
       kws::cmd::Option<T> o(n, n, v); kws::cmd::BaseOption &b = o; return b.IsBoolean(), return IsFlag(v)) \
  PAIR(name_##name, std::string, (const std::string &n, const std::string &h, T *v), \
       kws::cmd::Option<T> o(n, h, v); kws::cmd::BaseOption &b = o; return b.Name(), return n)
static bool IsFlag(bool *) { return true; }
template <class T> static bool IsFlag(T *) { return false; }
typedef unsigned long ulong_t;
VALUE(flag, bool)
VALUE(number, int)
VALUE(count, ulong_t)
VALUE(real, float)
VALUE(real2, double)
VALUE(text, std::string)
// A parser with the options and arguments whose variable is given.
struct Vars { bool *flag; int *num; std::string *text; std::string *first; std::string *second; std::string *third; std::string *fourth; };
static void Setup(Parser *p, const Vars &v) {
  if (v.flag) p->RegisterOption("flag", "", v.flag);
  if (v.num) p->RegisterOption("num", "", v.num);
  if (v.text) p->RegisterOption("text", "", v.text);
  if (v.first) p->RegisterArgument("first", "", v.first);
  if (v.second) p->RegisterArgument("second", "", v.second);
  if (v.third) p->RegisterOptArgument("third", "", v.third);
  if (v.fourth) p->RegisterOptArgument("fourth", "", v.fourth);
}
static bool Expected(const Parser &p, int argc, const char **argv, const Vars &v) {
  int next = 1;
  bool wants_help = false;
  while (next < argc) {
    const std::string word = argv[next];
    if (word.length() < 2 || word[0] != '-') break;
    ++next;
    if (word == "--") break;
    if (word == "--help") { wants_help = true; continue; }
    const std::string name = word.substr(2);
    bool known = word[1] == '-';
    bool ok = false;
    if (known && v.flag && name == "flag") {
      if (next < argc && argv[next][0] != '-') {
        ok = Take(argv[next], v.flag);
        ++next;
      } else {
        ok = Take(std::string(""), v.flag);
      }
    } else if (known && v.num && name == "num") {
      if (next < argc) { ok = Take(argv[next], v.num); ++next; }
    } else if (known && v.text && name == "text") {
      if (next < argc) { ok = Take(argv[next], v.text); ++next; }
    }
    if (!ok) return false;
  }
  if (wants_help) {
    std::cerr << p.Help() << std::endl;
    exit(0);
  }
  if (v.first) {
    if (next >= argc || !Take(argv[next], v.first)) return false;
    ++next;
  }
  if (v.second) {
    if (next >= argc || !Take(argv[next], v.second)) return false;
    ++next;
  }
  if (v.third && next < argc) {
    if (!Take(argv[next], v.third)) return false;
    ++next;
  }
  if (v.fourth && next < argc) {
    if (!Take(argv[next], v.fourth)) return false;
    ++next;
  }
  return next >= argc;
}
#define PARSE(name, params, flag, num, text, first, second, third, fourth) \
  PAIR(name, bool, params, \
     Parser p("prog"); Vars v = {flag COMMA num COMMA text COMMA first COMMA second COMMA third COMMA fourth}; Setup(&p, v); return p.Parse(argc, argv), \
     Parser p("prog"); Vars v = {flag COMMA num COMMA text COMMA first COMMA second COMMA third COMMA fourth}; Setup(&p, v); return Expected(p, argc, argv, v))
#define COMMA ,
PARSE(parse_flag, (int argc, const char **argv, bool *flag, std::string *ref), flag, nullptr, nullptr, ref, nullptr, nullptr, nullptr)
PARSE(parse_num, (int argc, const char **argv, int *num), nullptr, num, nullptr, nullptr, nullptr, nullptr, nullptr)
PARSE(parse_text, (int argc, const char **argv, std::string *text), nullptr, nullptr, text, nullptr, nullptr, nullptr, nullptr)
PARSE(parse_none, (int argc, const char **argv), nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr)
PARSE(parse_arguments, (int argc, const char **argv, std::string *a, std::string *b, std::string *c, std::string *d), nullptr, nullptr, nullptr, a, b, c, d)
PARSE(parse, (int argc, const char **argv, bool *flag, int *num, std::string *text, std::string *ref, std::string *hyp), flag, num, text, ref, nullptr, hyp, nullptr)
// Names: the reserved one and a repeated one are refused and change nothing.
PAIR(reserved, bool, (bool *flag),
     Parser p("prog"); bool r = p.RegisterOption("help", "", flag); return r || !p.opts_.empty(), return false)
PAIR(repeated, bool, (int argc, const char **argv, bool *flag, bool *other),
     Parser p("prog"); if (!p.RegisterOption("flag", "", flag) || p.RegisterOption("flag", "", other)) return true; return p.Parse(argc, argv),
     Parser p("prog"); Vars v = {flag COMMA nullptr COMMA nullptr COMMA nullptr COMMA nullptr COMMA nullptr COMMA nullptr}; Setup(&p, v); return Expected(p, argc, argv, v))
