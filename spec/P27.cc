// P27: what the two tools are made of.
#define main icdar_main
#include "tools/Icdar17KwsEval.cc"
#undef main
#define main simple_main
#include "tools/SimpleKwsEval.cc"
#undef main
#include "common.h"
namespace expect {
inline int Icdar(int argc, const char **argv) {
  typedef kws::core::ShapedEvent<std::string, kws::core::DocumentBoundingBox<uint32_t>> Ref;
  typedef kws::core::ScoredEvent<Ref> Hyp;
  typedef kws::reader::PlainTextReader<Ref> Refs;
  typedef kws::reader::PlainTextReader<Hyp> Hyps;
  typedef kws::matcher::SimpleMatcher<Ref, Hyp> Pairing;
  typedef kws::mapper::IdentityMapper<std::string> Names;
  Refs refs;
  Hyps hyps;
  Names names;
  kws::scorer::IntersectionOverHypothesisAreaScorer<Ref, Hyp> half(0.5);
  Pairing pairing(&half);
  kws::tools::GenericKwsEvalTool<Refs, Hyps, Pairing, Names> tool(&refs, &hyps, &pairing, &names);
  return tool.Main(argc, argv);
}
inline int Simple(int argc, const char **argv) {
  typedef kws::core::Event<int32_t, int32_t> Ref;
  typedef kws::core::ScoredEvent<Ref> Hyp;
  typedef kws::mapper::StringToIntMapper<int32_t> Names;
  typedef kws::mapper::StringEventToIntMapper<int32_t> Events;
  typedef kws::mapper::ScoredEventMapper<Events> Scored;
  typedef kws::reader::PlainTextMapEventReader<Events> Refs;
  typedef kws::reader::PlainTextMapEventReader<Scored> Hyps;
  typedef kws::matcher::SimpleMatcher<Ref, Hyp> Pairing;
  Names names;
  Events events(&names);
  Scored scored(&events);
  Refs refs(&events);
  Hyps hyps(&scored);
  kws::scorer::TrivialScorer<Ref, Hyp> same;
  Pairing pairing(&same);
  kws::tools::GenericKwsEvalTool<Refs, Hyps, Pairing, Names> tool(&refs, &hyps, &pairing, &names);
  return tool.Main(argc, argv);
}
}  // namespace expect
PAIR(icdar, int, (int argc, const char **argv), return icdar_main(argc, argv), return expect::Icdar(argc, argv))
PAIR(simple, int, (int argc, const char **argv), return simple_main(argc, argv), return expect::Simple(argc, argv))
