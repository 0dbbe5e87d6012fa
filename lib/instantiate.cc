// Type-checked only (never compiled to code or run): instantiates the public
// member templates of the library the way its users do, so that their bodies
// are part of the analysed program.
#include <memory>
#include <string>
#include <vector>

#include "prometheus/counter.h"
#include "prometheus/detail/utils.h"
#include "prometheus/exposer.h"
#include "prometheus/family.h"
#include "prometheus/gateway.h"
#include "prometheus/gauge.h"
#include "prometheus/histogram.h"
#include "prometheus/info.h"
#include "prometheus/registry.h"
#include "prometheus/summary.h"

namespace verif_witness {
using namespace prometheus;

Counter& add_counter(Family<Counter>& f, const Labels& l) { return f.Add(l); }
Gauge& add_gauge(Family<Gauge>& f, const Labels& l, double v) { return f.Add(l, v); }
Info& add_info(Family<Info>& f, const Labels& l) { return f.Add(l); }
Histogram& add_histogram(Family<Histogram>& f, const Labels& l,
                         const Histogram::BucketBoundaries& b) {
  return f.Add(l, b);
}
Summary& add_summary(Family<Summary>& f, const Labels& l,
                     const Summary::Quantiles& q, std::chrono::milliseconds a,
                     int n) {
  return f.Add(l, q, a, n);
}
Histogram& add_histogram_rvalue(Family<Histogram>& f, const Labels& l,
                                Histogram::BucketBoundaries& b) {
  return f.Add(l, std::move(b));
}
Summary& add_summary_rvalue(Family<Summary>& f, const Labels& l,
                            Summary::Quantiles& q, std::chrono::milliseconds a,
                            int n) {
  return f.Add(l, std::move(q), std::move(a), std::move(n));
}
}  // namespace verif_witness
