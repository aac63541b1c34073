#include "match.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"
typedef kws::scorer::IntersectionOverHypothesisAreaScorer<Ev, SEv> IoH;
typedef kws::scorer::IntersectionOverUnionAreaScorer<Ev, SEv> IoU;
typedef kws::scorer::SoftIntersectionOverHypothesisAreaScorer<Ev, SEv> Soft;
typedef kws::scorer::TrivialScorer<Ev, SEv> Triv;
typedef kws::scorer::TrivialScorer<IEv, ISEv> TrivI;
typedef kws::scorer::TrivialScorer<TEv, TSEv> TrivS;
template class kws::scorer::IntersectionOverHypothesisAreaScorer<Ev, SEv>;
template class kws::scorer::IntersectionOverUnionAreaScorer<Ev, SEv>;
template class kws::scorer::SoftIntersectionOverHypothesisAreaScorer<Ev, SEv>;
template class kws::scorer::TrivialScorer<Ev, SEv>;
template class kws::scorer::TrivialScorer<IEv, ISEv>;
template class kws::scorer::TrivialScorer<TEv, TSEv>;
using kws::core::IntersectionArea;
using kws::core::UnionArea;
#define AREA(b) ((b).w * (b).h)
ME ioh(float t, const Ev& ref, const SEv& hyp) {
  const DBu& h = hyp.Location();
  if (!(ref.Query() == hyp.Query())) return ME(1, 1);
  if (!(AREA(h) > 0)) return ME(1, 1);
  float i = IntersectionArea(ref.Location(), h);
  float a = AREA(h);
  if (i / a >= t) return ME(0, 0);
  return ME(1, 1);
}
ME iou(float t, const Ev& ref, const SEv& hyp) {
  const DBu& h = hyp.Location();
  if (!(ref.Query() == hyp.Query())) return ME(1, 1);
  if (!(AREA(h) > 0)) return ME(1, 1);
  float i = IntersectionArea(ref.Location(), h);
  float a = UnionArea(ref.Location(), h);
  if (i / a >= t) return ME(0, 0);
  return ME(1, 1);
}
ME soft(const Ev& ref, const SEv& hyp) {
  if (!(ref.Query() == hyp.Query())) return ME(1, 1);
  const DBu& h = hyp.Location();
  const DBu& r = ref.Location();
  float i = IntersectionArea(r, h);
  float fp = 1, fn = 1;
  if (AREA(h) > 0) fp = 1 - i / AREA(h);
  if (AREA(r) > 0) fn = 1 - i / AREA(r);
  return ME(fp, fn);
}
PAIR(ioh, ME, (float t, const Ev& ref, const SEv& hyp), return IoH(t)(ref, hyp), return ioh(t, ref, hyp))
PAIR(iou, ME, (float t, const Ev& ref, const SEv& hyp), return IoU(t)(ref, hyp), return iou(t, ref, hyp))
PAIR(soft, ME, (const Ev& ref, const SEv& hyp), return Soft()(ref, hyp), return soft(ref, hyp))
PAIR(trivial_box, ME, (const Ev& ref, const SEv& hyp), return Triv()(ref, hyp),
     if (ref.Query() == hyp.Query() && ref.Location() == hyp.Location()) return ME(0, 0); return ME(1, 1))
PAIR(trivial_int, ME, (const IEv& ref, const ISEv& hyp), return TrivI()(ref, hyp),
     if (ref.Query() == hyp.Query() && ref.Location() == hyp.Location()) return ME(0, 0); return ME(1, 1))
PAIR(trivial_str, ME, (const TEv& ref, const TSEv& hyp), return TrivS()(ref, hyp),
     if (ref.Query() == hyp.Query() && ref.Location() == hyp.Location()) return ME(0, 0); return ME(1, 1))
