// P07: reading events line by line.
#include <sstream>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#define private public
#define protected public
#include "reader/PlainTextMapEventReader.h"
#include "reader/PlainTextReader.h"
#undef private
#undef protected
#include "common.h"
// An event of two fields, read like the repository's own.
struct In {
  std::string name;
  int value;
};
inline std::istream &operator>>(std::istream &is, In &e) { return is >> e.name >> e.value; }
struct Out {
  std::string name;
  int value;
  size_t rank;
};
// A mapper with a memory: the order of its calls shows in what it returns.
struct Mp {
  typedef In InputType;
  typedef Out OutputType;
  size_t calls;
  Out operator()(const In &e) { Out o; o.name = e.name; o.value = e.value; o.rank = calls; ++calls; return o; }
};
typedef kws::reader::PlainTextMapEventReader<Mp> Rd;
typedef kws::reader::Reader<Out> RdBase;
typedef std::vector<Out> Outs;
template class kws::reader::PlainTextMapEventReader<Mp>;

template <class E, class M, class O>
static bool ExpectedRead(M &mapper, std::istream *is, std::vector<O> *events) {
  std::vector<O> out;
  std::string line;
  size_t number = 0;
  while (std::getline(*is, line)) {
    ++number;
    std::istringstream s(line);
    s >> std::ws;
    const int first = s.peek();
    if (first == '#') continue;
    if (s.eof()) continue;
    E e;
    s >> e;
    if (!s.eof()) s >> std::ws;
    if (s.fail() || !s.eof()) {
      std::cerr << "ERROR: Failed to read event from line " << number << std::endl;
      return false;
    }
    out.push_back(mapper(e));
  }
  if (!is->eof()) return false;
  *events = out;
  return true;
}
PAIR(stream, bool, (Mp * m, std::istream *is, Outs *events), Rd r(m); Outs v(*events); const bool ok = r.Read(is, &v);
     if (ok) *events = v; return ok, return ExpectedRead<In>(*m, is, events))
PAIR(stream_reference, bool, (Mp & m, std::istream *is, Outs *events), Rd r(m); Outs v(*events); const bool ok = r.Read(is, &v);
     if (ok) *events = v; return ok, return ExpectedRead<In>(m, is, events))
PAIR(stream_interface, bool, (Mp * m, std::istream *is, Outs *events), Rd r(m); const RdBase &b = r; Outs v(*events); const bool ok = b.Read(is, &v);
     if (ok) *events = v; return ok, return ExpectedRead<In>(*m, is, events))
static bool ExpectedFile(Mp &m, const std::string &path, Outs *events) {
  std::ifstream fs(path);
  if (!fs.is_open()) return false;
  return ExpectedRead<In>(m, &fs, events);
}
PAIR(file, bool, (Mp * m, const std::string &path, Outs *events), Rd r(m); Outs v(*events); const bool ok = r.Read(path, &v);
     if (ok) *events = v; return ok, return ExpectedFile(*m, path, events))
PAIR(file_interface, bool, (Mp * m, const std::string &path, Outs *events), Rd r(m); const RdBase &b = r; Outs v(*events); const bool ok = b.Read(path, &v);
     if (ok) *events = v; return ok, return ExpectedFile(*m, path, events))
// The reader without a mapper.
struct Id {
  In operator()(const In &e) { return e; }
};
typedef std::vector<In> Ins;
PAIR(plain, bool, (std::istream *is, Ins *events), kws::reader::PlainTextReader<In> r; Ins v(*events); const bool ok = r.Read(is, &v);
     if (ok) *events = v; return ok, Id m; return ExpectedRead<In>(m, is, events))
template <class T> struct Same {
  T operator()(const T &e) { return e; }
};
typedef std::vector<Ev> Evs;
typedef std::vector<SEv> SEvs;
typedef std::vector<TSEv> TSEvs;
PAIR(references, bool, (std::istream *is, Evs *events), kws::reader::PlainTextReader<Ev> r; Evs v(*events); const bool ok = r.Read(is, &v);
     if (ok) *events = v; return ok, Same<Ev> m; return ExpectedRead<Ev>(m, is, events))
PAIR(hypotheses, bool, (std::istream *is, SEvs *events), kws::reader::PlainTextReader<SEv> r; SEvs v(*events); const bool ok = r.Read(is, &v);
     if (ok) *events = v; return ok, Same<SEv> m; return ExpectedRead<SEv>(m, is, events))
PAIR(words, bool, (std::istream *is, TSEvs *events), kws::reader::PlainTextReader<TSEv> r; TSEvs v(*events); const bool ok = r.Read(is, &v);
     if (ok) *events = v; return ok, Same<TSEv> m; return ExpectedRead<TSEv>(m, is, events))
