// P29: the usage text lists every registered option and argument.
#include "common.h"
#include <algorithm>
#define private public
#define protected public
#include "cmd/Parser.h"
#undef private
#undef protected
typedef kws::cmd::Parser Parser;
typedef std::string S;
typedef unsigned long ulong_t;
static const char *Type(bool *) { return "bool"; }
static const char *Type(int *) { return "int32_t"; }
static const char *Type(ulong_t *) { return "uint64_t"; }
static S Type(float *) { return kws::core::TypeInfo<float>::Name(); }
static S Type(double *) { return kws::core::TypeInfo<double>::Name(); }
static const char *Type(S *) { return "string"; }
static void Value(std::ostream &os, bool *v) { if (*v) os << "true"; else os << "false"; }
template <class T> void Value(std::ostream &os, T *v) { os << *v; }
template <class T> S OptionLine(const S &name, const S &help, T *v, size_t w) {
  std::ostringstream os;
  os << std::setw(w) << std::left << name;
  os << " : " << help;
  os << " (type = " << Type(v) << ", value = \"";
  Value(os, v);
  os << "\")";
  return os.str();
}
template <class T> S ArgumentLine(const S &name, const S &help, T *v, size_t w) {
  std::ostringstream os;
  os << std::setw(w) << std::left << name;
  os << " : " << help;
  os << " (type = " << Type(v) << ")";
  return os.str();
}
#define LINES(n, T) \
  PAIR(option_##n, S, (const S &name, const S &help, T *v, size_t w), kws::cmd::Option<T> o(name, help, v); kws::cmd::BaseOption &b = o; return b.Help(w), \
       return OptionLine(name, help, v, w)) \
  PAIR(argument_##n, S, (const S &name, const S &help, T *v, size_t w), kws::cmd::Argument<T> o(name, help, v); kws::cmd::BaseOption &b = o; return b.Help(w), \
       return ArgumentLine(name, help, v, w))
LINES(flag, bool)
LINES(number, int)
LINES(count, ulong_t)
LINES(real, float)
LINES(real2, double)
LINES(text, S)
static void Section(std::ostream &os, const char *title) { os << std::endl << title << std::endl; }
static S Usage(const S &prog, const S &desc, int *num, S *text, S *first, S *second, S *third, S *fourth) {
  std::ostringstream os;
  os << "Usage: " << prog;
  if (num || text) os << " [ options ]";
  if (first) os << " first";
  if (second) os << " second";
  if (third) os << " [ third";
  if (fourth) os << " [ fourth";
  if (third) os << " ]";
  if (fourth) os << " ]";
  os << std::endl;
  if (desc != "") { Section(os, "Description:"); os << desc << std::endl; }
  size_t w = 0;
  if (num) w = 5;
  if (first) w = std::max(w, (size_t)5);
  if (text || second || fourth) w = 6;
  if (third) w = std::max(w, (size_t)5);
  if (first || second || third || fourth) Section(os, "Arguments:");
  if (first) os << "  " << ArgumentLine("first", "help a", first, w) << std::endl;
  if (second) os << "  " << ArgumentLine("second", "help b", second, w) << std::endl;
  if (third) os << "  " << ArgumentLine("third", "help c", third, w) << std::endl;
  if (fourth) os << "  " << ArgumentLine("fourth", "help d", fourth, w) << std::endl;
  if (num || text) Section(os, "Options:");
  if (num) os << "  " << OptionLine("--num", "help n", num, w) << std::endl;
  if (text) os << "  " << OptionLine("--text", "help t", text, w) << std::endl;
  return os.str();
}
#define USAGE(name, params, num, text, first, second, third, fourth) \
  PAIR(name, S, params, Parser p(prog COMMA desc); \
       Register(&p, num, text, first, second, third, fourth); return p.Help(), \
       return Usage(prog, desc, num, text, first, second, third, fourth))
#define COMMA ,
static void Register(Parser *p, int *num, S *text, S *first, S *second, S *third, S *fourth) {
  if (text) p->RegisterOption("text", "help t", text);
  if (num) p->RegisterOption("num", "help n", num);
  if (third) p->RegisterOptArgument("third", "help c", third);
  if (first) p->RegisterArgument("first", "help a", first);
  if (second) p->RegisterArgument("second", "help b", second);
  if (fourth) p->RegisterOptArgument("fourth", "help d", fourth);
}
USAGE(usage_none, (const S &prog, const S &desc), nullptr, nullptr, nullptr, nullptr, nullptr, nullptr)
USAGE(usage_options, (const S &prog, const S &desc, int *n, S *t), n, t, nullptr, nullptr, nullptr, nullptr)
USAGE(usage_arguments, (const S &prog, const S &desc, S *a, S *b), nullptr, nullptr, a, b, nullptr, nullptr)
USAGE(usage_optional, (const S &prog, const S &desc, S *c, S *d), nullptr, nullptr, nullptr, nullptr, c, d)
USAGE(usage_all, (const S &prog, const S &desc, int *n, S *t, S *a, S *b, S *c, S *d), n, t, a, b, c, d)
USAGE(usage_text, (const S &prog, const S &desc, S *t, S *a, S *c), nullptr, t, a, nullptr, c, nullptr)
USAGE(usage_second, (const S &prog, const S &desc, S *b, S *c), nullptr, nullptr, nullptr, b, c, nullptr)
USAGE(usage_last, (const S &prog, const S &desc, int *n, S *a, S *d), n, nullptr, a, nullptr, nullptr, d)
// more of each sort
PAIR(usage_many_optional, S, (const S &prog, S *a), Parser p(prog); p.RegisterOptArgument("a", "h", a); p.RegisterOptArgument("bb", "i", a);
     p.RegisterOptArgument("c", "j", a); p.RegisterOptArgument("d", "k", a); return p.Help(),
     std::ostringstream os; os << "Usage: " << prog << " [ a [ bb [ c [ d ] ] ] ]" << std::endl; Section(os, "Arguments:");
     os << "  " << ArgumentLine("a", "h", a, 2) << std::endl; os << "  " << ArgumentLine("bb", "i", a, 2) << std::endl;
     os << "  " << ArgumentLine("c", "j", a, 2) << std::endl; os << "  " << ArgumentLine("d", "k", a, 2) << std::endl; return os.str())
PAIR(usage_many_arguments, S, (const S &prog, S *a), Parser p(prog); p.RegisterArgument("a", "h", a); p.RegisterArgument("bb", "i", a);
     p.RegisterArgument("c", "j", a); p.RegisterArgument("d", "k", a); return p.Help(),
     std::ostringstream os; os << "Usage: " << prog << " a bb c d" << std::endl; Section(os, "Arguments:");
     os << "  " << ArgumentLine("a", "h", a, 2) << std::endl; os << "  " << ArgumentLine("bb", "i", a, 2) << std::endl;
     os << "  " << ArgumentLine("c", "j", a, 2) << std::endl; os << "  " << ArgumentLine("d", "k", a, 2) << std::endl; return os.str())
// options in the order of their names
PAIR(usage_many_options, S, (const S &prog, int *a), Parser p(prog); p.RegisterOption("c", "h", a); p.RegisterOption("bb", "i", a);
     p.RegisterOption("a", "j", a); p.RegisterOption("d", "k", a); return p.Help(),
     std::ostringstream os; os << "Usage: " << prog << " [ options ]" << std::endl; Section(os, "Options:");
     os << "  " << OptionLine("--a", "j", a, 4) << std::endl; os << "  " << OptionLine("--bb", "i", a, 4) << std::endl;
     os << "  " << OptionLine("--c", "h", a, 4) << std::endl; os << "  " << OptionLine("--d", "k", a, 4) << std::endl; return os.str())
// without a description
PAIR(usage_short, S, (const S &prog, int *n), Parser p(prog); p.RegisterOption("num", "help n", n); return p.Help(),
     return Usage(prog, "", n, nullptr, nullptr, nullptr, nullptr, nullptr))
