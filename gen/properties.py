#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CI, CS = "core/include/prometheus/", "core/src/"

p("C01", "Metric, registry, scrape and push objects are free of data races",
  "Any public operations of counters, gauges, histograms, summaries, families, registries, exposers, scrape handlers and push gateways may run concurrently on the same object without a data race: every piece of mutable state that such an operation reaches is atomic, immutable after construction, or only touched while one common lock of its owner is held. This includes the shared HTTP client handle and its header list, and everything work handed to background threads touches.",
  ["schedules"], "all interleavings of all public operations on one object from any number of threads",
  "Unit tests are single threaded apart from one smoke benchmark; a race needs a particular interleaving.",
  [CI+"counter.h", CI+"gauge.h", CI+"histogram.h", CI+"summary.h", CI+"family.h", CI+"registry.h", "pull/include/prometheus/exposer.h", "pull/src/handler.h", "push/include/prometheus/gateway.h", "push/src/detail/curl_wrapper.h"],
  [("per-object mutex held by a scoped guard in every public operation", CS+"histogram.cc, "+CS+"summary.cc, "+CS+"family.cc, "+CS+"registry.cc, pull/src/handler.cc, pull/src/exposer.cc, push/src/gateway.cc, push/src/detail/curl_wrapper.cc"),
   ("atomic value", CI+"gauge.h"), ("const members", CI+"family.h, "+CI+"registry.h")])

p("C02", "Concurrent gauge and counter updates are never lost",
  "Every increment or decrement of a gauge, and every accepted increment of a counter, changes the stored value by exactly the requested amount (one when no amount is given) in a single indivisible read-modify-write, so no update that runs concurrently with others is lost or applied twice. Setting stores exactly the given value, and reading or collecting reports the stored value itself.",
  ["schedules", "inputs"], "all interleavings of updates and all amounts",
  "Tests update from one thread; a lost update needs another update between the load and the store. The atomic-add variant of newer standard libraries is not even compiled by the test build.",
  [CS+"gauge.cc", CS+"counter.cc", CI+"gauge.h"],
  [("compare-and-exchange retry loop or atomic fetch-add", CS+"gauge.cc"), ("counter delegates to its gauge", CS+"counter.cc")],
  observe=["Gauge::Value", "Counter::Value", "Collect"])

p("C03", "A counter only ever grows, except by an explicit reset",
  "Incrementing a counter by a negative amount has no effect at all; any other amount is added once. No operation other than the explicit reset, which sets it to zero, can lower or overwrite a counter.",
  ["inputs", "histories", "schedules"], "every amount (including zero, infinities and NaN) and every sequence of operations",
  "Tests try a couple of amounts in one order.",
  [CS+"counter.cc", CI+"counter.h"],
  [("negative amounts return before the update", CS+"counter.cc"), ("the value is private and only reachable through the counter operations", CI+"counter.h")])

p("C04", "Histogram and summary updates and snapshots are atomic",
  "Each observation, bulk observation or reset of a histogram and each observation of a summary updates all of the count, sum, bucket and quantile state inside one uninterrupted critical section, and collecting reads all of it inside one critical section of the same lock. So a collected snapshot never shows part of an observation (for example a sum that includes it and buckets that do not).",
  ["schedules"], "all interleavings of observing, resetting and collecting",
  "Needs a collection between two halves of an update; the tests are sequential.",
  [CS+"histogram.cc", CS+"summary.cc"],
  [("one scoped lock covers the whole update and the whole snapshot", CS+"histogram.cc, "+CS+"summary.cc")])

p("C05", "A histogram observation lands in exactly the bucket that bounds it",
  "Observing a value adds it once to the sum and one to exactly one bucket: the first bucket whose upper bound is greater than or equal to the value, or the implicit last (+Inf) bucket if there is none. An observed NaN, which no finite bound covers, is counted in the last bucket only.",
  ["inputs", "configurations"], "every observed value, NaN, infinities and exact boundary hits included, and every list of boundaries",
  "Tests use a few values and boundary lists.",
  [CS+"histogram.cc"],
  [("binary search over the sorted boundaries", CS+"histogram.cc")])

p("C06", "Histogram snapshots are cumulative and complete",
  "A collected histogram lists one bucket per configured boundary in order, followed by one bucket with bound +Inf; each bucket's count is the total of all observations counted in it and in all earlier buckets. The sample count equals the count of the last bucket, and the sample sum is the sum of all observed values since construction or the last reset.",
  ["inputs", "configurations", "histories"], "every list of boundaries and every history of observations",
  "Tests check a few boundary lists and short histories.",
  [CS+"histogram.cc"],
  [("running total over the per-bucket counters", CS+"histogram.cc")])

p("C07", "Histograms reject unusable input and apply bulk updates completely",
  "Constructing a histogram whose boundaries are not strictly increasing (duplicates, descending pairs, or NaN next to another boundary) fails. A bulk observation whose number of increments differs from the number of buckets fails without changing anything; a valid one adds every increment to its own bucket and the given sum to the sum, and a reset zeroes every bucket and the sum.",
  ["inputs", "configurations"], "every boundary list and every increment vector",
  "Tests use single examples of valid and invalid input.",
  [CS+"histogram.cc", CI+"histogram.h"],
  [("strict ordering check in both constructors", CS+"histogram.cc"), ("size check before the lock is taken", CS+"histogram.cc")])

p("C08", "A summary reports its totals and one value per configured quantile",
  "Every observation of a summary adds one to its count, the value to its sum and the value to its quantile window, exactly once each. Collecting reports that count and sum and, in the configured order, exactly one entry per configured quantile whose value is the window's estimate for that same quantile.",
  ["inputs", "configurations", "histories"], "every list of quantiles and every history of observations",
  "Tests sample one list of quantiles and one distribution.",
  [CS+"summary.cc", CI+"summary.h"],
  [("single update and snapshot functions", CS+"summary.cc")])

p("C09", "Summary quantiles rotate through every age bucket",
  "Every observation goes into all age buckets and quantiles are read from the current one; whenever one rotation interval (window length divided by number of buckets) has passed since the last rotation, the current bucket is emptied, the next one (cyclically) becomes current, and the rotation time advances by exactly one interval, repeated until it has caught up. Both observing and reading catch up first, so a quantile never includes observations older than the window.",
  ["histories", "configurations"], "every sequence of observations, reads and elapsed times, for any positive window and number of buckets",
  "Tests use one window with real sleeps; wrap-around and multi-interval gaps are barely reached.",
  [CS+"detail/time_window_quantiles.cc", CI+"detail/time_window_quantiles.h"],
  [("rotation loop run before each insert and read", CS+"detail/time_window_quantiles.cc")])

p("C10", "The quantile estimator neither loses nor duplicates observations",
  "Every observation is stored in the bounded insertion buffer within its bounds and, when the buffer fills up or a quantile is read, all buffered observations (and nothing else) are moved into the sample with weight one and the buffer is emptied. Merging neighbouring samples keeps the total weight, resetting discards samples, count and buffer together, and reading a quantile with no observations yields NaN.",
  ["histories", "inputs"], "every sequence of insertions, reads and resets",
  "Tests reach only a few buffer fill levels and no interleaving of resets and reads with a partly filled buffer.",
  [CS+"detail/ckms_quantiles.cc", CI+"detail/ckms_quantiles.h"],
  [("buffer flush on full and before read", CS+"detail/ckms_quantiles.cc"), ("merge adds the dropped weight to its neighbour", CS+"detail/ckms_quantiles.cc")])

p("C11", "Metric and label name checks accept exactly the legal names",
  "A metric name is accepted if and only if it is non-empty, starts with a letter, underscore or colon, continues with letters, digits, underscores or colons only, and does not start with two underscores. A label name follows the same rule without colons, and additionally the reserved label of histograms (le) and of summaries (quantile) is rejected for that metric type and only for it; letters and digits are ASCII only, whatever the locale.",
  ["inputs", "configurations"], "every byte string and every metric type",
  "Tests try about a dozen names.",
  [CS+"check_names.cc"],
  [("character predicates applied to every character", CS+"check_names.cc")])

p("C12", "No invalid or clashing label or name enters a family",
  "Creating a family with an invalid metric name or an invalid constant label name fails, and adding a new metric with an invalid label name, or one that also is a constant label of the family, fails. A failed addition leaves the family exactly as it was; label checks use the family's own metric type.",
  ["inputs", "configurations", "histories"], "every name, label set and metric type",
  "Tests sample one bad label per rule and do not look at the state after a failure with several labels.",
  [CS+"family.cc", CI+"family.h"],
  [("validation loop over all labels with rollback", CS+"family.cc")])

p("C13", "A family has one stable metric per label set, until it is removed",
  "Adding a metric with a label set that is already present returns a reference to the existing metric and changes nothing; adding a new label set stores the new metric and returns a reference to that very object, which stays valid until it is removed. Removing erases the metric it is given and no other, and membership queries answer whether exactly that label set is present.",
  ["inputs", "histories", "schedules"], "every sequence of additions, removals and queries",
  "Tests exercise short fixed sequences.",
  [CS+"family.cc", CI+"family.h"],
  [("hash map from label set to owned metric", CI+"family.h"), ("removal by object identity", CS+"family.cc")])

p("C14", "Collecting a family reports every metric with all of its labels",
  "Collecting a non-empty family yields exactly one metric family carrying its name, help text and metric type and exactly one entry per contained metric; each entry holds that metric's own current value and the constant labels followed by the metric's own labels, names and values unaltered. Collecting an empty family yields nothing.",
  ["inputs", "histories", "configurations"], "every family content, label set and metric type",
  "Tests check one or two metrics of one type.",
  [CS+"family.cc"],
  [("one pass over all metrics, one pass over each label list", CS+"family.cc")])

p("C15", "Collecting a registry reports every family exactly once",
  "Collecting a registry returns what each registered family of each of the five metric types reports, each exactly once and unmodified. Removing a family removes exactly that family and reports whether it was present; all other families remain.",
  ["histories", "configurations"], "every set of registered families and every removal",
  "Tests register at most a few families, never all types together.",
  [CS+"registry.cc", CI+"registry.h"],
  [("one list of families per metric type, all visited on collection", CS+"registry.cc")])

p("C16", "Family names are unique in a registry across all metric types",
  "Registering a family whose name is in use by a family of another metric type always fails. For a name in use by the same type, a registry that merges returns the existing family if the constant labels are equal and fails otherwise, and a registry that throws always fails; in every failing case the registry is unchanged, and otherwise exactly one new family with the given name, help and labels is added and returned.",
  ["inputs", "configurations", "histories", "schedules"], "every ordered pair of metric types, both insert policies, every name and label set",
  "Tests try a few of the twenty ordered pairs of metric types.",
  [CS+"registry.cc"],
  [("name lookup in all other type lists before insertion, under the registry lock", CS+"registry.cc")])

p("C17", "Text exposition is well formed whatever the content",
  "In the text format every line feed or backslash of a help text, and every line feed, backslash or double quote of a label value is escaped, every label value is enclosed in double quotes, labels are separated by single commas inside one pair of braces (no braces when there is no label), and every line ends with exactly one line feed. So no content of names, help texts or label values can break out of its line or add another sample.",
  ["inputs"], "every help text and label value (all bytes), any number of labels, every metric type",
  "Tests look for a few substrings.",
  [CS+"text_serializer.cc"],
  [("per character escaping", CS+"text_serializer.cc"), ("head and tail writers shared by all metric types", CS+"text_serializer.cc")])

p("C18", "Text exposition contains every sample of every metric",
  "Serializing writes, for each family in order, the help line (only if there is help text), one type line naming the family's type (gauge for info), and then for each of its metrics all samples of that type: the value for counter, gauge, info (suffix _info) and untyped; _count, _sum and one quantile sample per quantile for a summary; _count, _sum, one _bucket sample per bucket and, unless the last listed bound is infinite, a final +Inf bucket with the sample count for a histogram. Every sample carries all labels of its metric, its own number (NaN as Nan, infinities as +Inf and -Inf), and the timestamp exactly if it is non-zero.",
  ["inputs", "configurations"], "every list of metric families",
  "Tests look for a few substrings for one metric of each type.",
  [CS+"text_serializer.cc"],
  [("one serializer function per metric type", CS+"text_serializer.cc")])

p("C19", "Serialization ignores and preserves the formatting state of its stream",
  "Numbers are written in the classic locale, in default floating point and decimal integer notation with at least 16 significant digits, whatever locale, precision or format flags the caller's stream (or the process) has. When serialization returns, the stream's locale, precision and format flags are what they were before.",
  ["inputs", "configurations"], "every initial state of the output stream and every list of metric families",
  "Tests cover one non-default locale with the default flags.",
  [CS+"text_serializer.cc"],
  [("save, set and restore around the writing loop", CS+"text_serializer.cc")])

p("C20", "Every scrape gets a correctly framed HTTP response",
  "A scrape is answered with a 200 status line, a text content type, exactly one content length header, one empty line and then the body, and the content length is the number of body bytes that follow. The body is announced as gzip encoded if and only if what follows is the compressed form, and it is compressed only if the request accepts gzip and compression succeeded; otherwise the plain serialization is sent.",
  ["inputs", "fault_sequences", "configurations"], "every request header, every body, success or failure of compression, with or without compression support compiled in",
  "Tests request once with and once without compression and never make compression fail.",
  ["pull/src/handler.cc"],
  [("header and body are written from the same buffer on each branch", "pull/src/handler.cc")])

p("C21", "Compressed bodies are complete gzip streams or are not used",
  "The compressor is fed the whole input, runs with the finish request until the stream end is reported, and its result is exactly the bytes produced; output space is provided before every step and no step writes outside it. If set-up fails or the stream end is not reached, no compressed body is used, and a successfully set up compressor is released on every path.",
  ["inputs", "fault_sequences"], "every input size and every result of each compression step",
  "Tests compress one small body; multi-round output and failures are not reached.",
  ["pull/src/handler.cc"],
  [("round based deflate loop growing the output", "pull/src/handler.cc")])

p("C22", "Authentication fails closed",
  "A request to a protected endpoint is authorized if and only if it carries a Basic authorization header whose credentials decode to user and password (split at the first colon) and the configured callback accepts exactly that user and password. In every other case (header missing, other scheme, undecodable credentials, no colon, callback refusal) it is denied and answered with 401 and a Basic challenge naming the configured realm.",
  ["inputs"], "every authorization header and every callback",
  "Integration tests try a handful of headers.",
  ["pull/src/basic_auth.cc"],
  [("single decision function with default denial", "pull/src/basic_auth.cc")])

p("C23", "The HTTP server never calls into a destroyed or replaced handler",
  "A handler is registered with the server only once it is fully constructed, and it is unregistered (or replaced by its successor) before it is destroyed; replacing the credentials check of an endpoint installs the new check before the old one is destroyed, so the endpoint is never unprotected in between. Destroying an exposer removes all of its handlers from the server while the server is still alive.",
  ["schedules", "histories"], "every order of registration, re-registration and destruction, with requests arriving at any moment",
  "Needs a request in the window between destruction and removal.",
  ["pull/src/endpoint.cc", "pull/src/endpoint.h", "pull/include/prometheus/exposer.h"],
  [("constructor and destructor ordering, member order", "pull/src/endpoint.cc, pull/src/endpoint.h, pull/include/prometheus/exposer.h")])

p("C24", "Registered collectables are collected exactly once while they live",
  "Scraping and pushing consult every registered collectable that is still alive, exactly once each and in registration order, use what it reports unmodified, and hold it alive while doing so; expired ones are skipped without affecting the others. Registering adds exactly the given collectable and drops only expired ones, and removing drops the given one (and expired ones) but no other live one.",
  ["histories", "schedules"], "every sequence of registrations, removals and destructions of collectables, at any moment",
  "Tests register one or two collectables and do not destroy one during collection.",
  ["pull/src/metrics_collector.cc", "pull/src/handler.cc", "push/src/gateway.cc"],
  [("weak pointers promoted before use", "pull/src/metrics_collector.cc, push/src/gateway.cc"), ("clean up of expired pointers", "pull/src/handler.cc, push/src/gateway.cc")])

p("C25", "Locks are always released and never deadlock",
  "Every lock that an operation takes is released on every exit, exceptions thrown by user code included. No operation takes a lock it already holds, and no two operations take two locks of the library in opposite orders, collection callbacks from exposer and gateway into registries and families included.",
  ["schedules", "fault_sequences"], "all interleavings and an exception at any call",
  "Deadlocks need particular interleavings; tests throw from no callback.",
  [CS+"registry.cc", CS+"family.cc", "pull/src/handler.cc", "pull/src/exposer.cc", "push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"],
  [("scoped guards", "all of the listed files"), ("layered lock order: exposer, handler or gateway, registry, family, metric", "all of the listed files")])

p("C26", "A push reports failure whenever any part of it failed",
  "A push performs one request per live collectable; it returns 200 only if every request ended with a status from 100 to 399, and otherwise returns the status of a request that failed (negative for a transport error). The asynchronous forms report by the same rule over all of their requests.",
  ["inputs", "fault_sequences", "schedules"], "every sequence of response codes and transport errors, any number of collectables",
  "The integration test pushes to a refusing endpoint once.",
  ["push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"],
  [("status check after each request", "push/src/gateway.cc"), ("transport errors mapped to negative numbers", "push/src/detail/curl_wrapper.cc")])

p("C27", "Each push operation sends its own request to its own group URL",
  "A push sends, per live collectable, the serialization of what it reports to the URL of the job followed by the gateway's grouping labels and that collectable's own grouping labels; deleting addresses the job URL and deleting for the instance the job URL with the grouping labels, both without a body. Push uses POST, push-add PUT and delete DELETE, and each asynchronous operation uses the same method, URL and body rule as its synchronous form.",
  ["inputs", "configurations", "schedules"], "every operation, job, label set and set of collectables",
  "There is no push test against a server that records requests.",
  ["push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"],
  [("shared URL builder and method parameter", "push/src/gateway.cc"), ("method switch", "push/src/detail/curl_wrapper.cc")])

p("C28", "Requests on the shared HTTP client do not influence each other",
  "Every request starts from a reset client handle and sets its own URL, headers, body size and data (or no body) and method before it is sent; the handle is used by at most one request at a time, from the reset until the response code has been read. User supplied set-up is applied to every request after the reset, and added headers apply to all later requests.",
  ["histories", "schedules", "fault_sequences"], "every sequence and interleaving of requests on one gateway",
  "Tests never issue two different requests on one gateway.",
  ["push/src/detail/curl_wrapper.cc"],
  [("reset at the start of each request under a lock", "push/src/detail/curl_wrapper.cc")])

p("C29", "Grouping labels and job name survive URL encoding",
  "A job name or grouping label value is written literally into the push URL only if it consists of unreserved URL characters and is not empty or a dot segment; an empty value is written as a single equals sign and any other value as URL-safe base64, both marked with the base64 suffix after the name. The URL consists of the base URL (joined with exactly one slash), metrics, the job and then every label in order, so distinct groups never share a URL.",
  ["inputs"], "every job name, label set and base URL",
  "Tests encode three values.",
  ["push/src/detail/label_encoder.cc", "push/src/gateway.cc"],
  [("character classification and base64 fallback", "push/src/detail/label_encoder.cc")])

p("C30", "Base64 coding is exact and rejects malformed input",
  "Encoding produces the standard base64 form (with padding) of every byte string, and the URL-safe variant differs only by using - and _ for + and /. Decoding inverts it exactly, and fails on any input whose length is not a multiple of four, that contains a character outside the alphabet, or that has padding anywhere but as the last one or two characters.",
  ["inputs"], "every byte string",
  "Tests use about twenty strings.",
  ["util/include/prometheus/detail/base64.h"],
  [("lookup table and bit slicing per three byte group", "util/include/prometheus/detail/base64.h")])

p("C31", "The HTTP client's resources are acquired and released in pairs",
  "Constructing the push client either succeeds with library, handle and header list all acquired, or fails having released whatever it had acquired, exceptions from user supplied set-up included. Destroying it releases each of them exactly once, and a failed header addition keeps the existing header list.",
  ["fault_sequences"], "failure of any single acquisition or of the user supplied set-up",
  "Tests never make an acquisition fail.",
  ["push/src/detail/curl_wrapper.cc"],
  [("constructor clean up paths and destructor", "push/src/detail/curl_wrapper.cc")])

p("C32", "Builders register exactly what was configured",
  "A family registered through a builder has exactly the name, help text and constant labels last given to that builder, is of the metric type the builder was created for, and is added to exactly the registry passed in. Arguments given when adding a metric to a family reach the metric's constructor unchanged, and a metric's constructor arguments (boundaries, quantiles, window, initial value) are what the metric uses.",
  ["inputs", "configurations"], "every configuration and each of the five metric types",
  "Tests check some types with one configuration.",
  [CS+"detail/builder.cc", CI+"detail/builder.h", CI+"family.h", CS+"registry.cc"],
  [("setters store, registration forwards", CS+"detail/builder.cc")])

p("C33", "Objects with identity cannot be copied or moved",
  "Registries, families, counters, gauges, histograms, summaries, exposers, endpoints, gateways and HTTP clients can be neither copied nor moved nor assigned, so references handed out to users can never come to denote a stale copy.",
  ["programs"], "every program using the library",
  "Tests cannot contain code that must not compile.",
  [CI+"registry.h", CI+"family.h", CI+"counter.h", CI+"gauge.h", CI+"histogram.h", CI+"summary.h", "pull/include/prometheus/exposer.h", "pull/src/endpoint.h", "push/include/prometheus/gateway.h", "push/src/detail/curl_wrapper.h"],
  [("deleted special members, atomic and mutex members", "the listed headers")])

p("C34", "Every scrape is accounted for in the exposer's own metrics",
  "Each served scrape increments the scrape counter by one, adds the number of body bytes sent to the byte counter and records one latency in microseconds, measured from the start of handling to the end of sending. These three metrics are part of what every endpoint exposes.",
  ["histories", "inputs", "configurations"], "every served scrape, compressed or not",
  "Tests look at the scrape counter after one or two scrapes.",
  ["pull/src/handler.cc", "pull/src/endpoint.cc"],
  [("updates at the end of the request handler", "pull/src/handler.cc"), ("endpoint registry registered with its own handler", "pull/src/endpoint.cc")])

p("C35", "Collecting and serializing do not change any metric",
  "Collecting a metric, family, registry or list of collectables and serializing the result never changes a value, a label, a registration or a pending observation, so collecting twice without updates in between yields the same counts, sums and buckets. Only time based expiry of summary quantiles may take effect.",
  ["histories"], "every state and every sequence of collections",
  "Tests hardly ever collect twice.",
  [CS+"counter.cc", CS+"gauge.cc", CS+"info.cc", CS+"histogram.cc", CS+"summary.cc", CS+"family.cc", CS+"registry.cc", "pull/src/metrics_collector.cc", CS+"text_serializer.cc"],
  [("const collection functions that copy values out", "the listed files")])

p("C36", "Registrations reach exactly the endpoint of their URI",
  "All operations naming the same URI address one and the same endpoint, which is created on first use and registered with the server under exactly that URI; operations naming different URIs address different endpoints. Registering, removing and authentication requests are passed on unchanged to that endpoint only, and the same URI is used when the endpoint is taken down.",
  ["histories", "inputs"], "every sequence of operations over any set of URIs",
  "Tests use two URIs in one order.",
  ["pull/src/exposer.cc", "pull/src/endpoint.cc"],
  [("lookup by URI before creation", "pull/src/exposer.cc")])

p("C37", "The label hash is a function of the label set",
  "Two equal label sets always have the same hash and every label's name and value takes part in it, in a way that does not depend on addresses, insertion order or mutable state. So lookups of a label set in a family never miss an existing equal one.",
  ["inputs"], "every pair of equal label sets",
  "Tests hash a few sets.",
  [CS+"detail/utils.cc", CS+"detail/hash.h", CI+"labels.h"],
  [("ordered label map folded into a seed", CS+"detail/utils.cc")])

p("C38", "A gateway applies its credentials, timeout, set-up and headers to every request",
  "A gateway built with a user name authenticates with HTTP basic authentication as exactly that user and password, one without a user name sends no credentials, and its timeout in seconds limits every request. A gateway built with a set-up function applies that function to the client of every request instead. A header added to a gateway is added unchanged to the headers of the requests made after it, next to the content type, and the answer says whether it was added.",
  ["configurations", "inputs"], "every user name, password, timeout, set-up function and header, for all constructors",
  "There is no push test against a server that records requests.",
  ["push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"],
  [("SetupAdapter", "push/src/gateway.cc"), ("presetupCurl_ applied after each reset", "push/src/detail/curl_wrapper.cc")])

p("C39", "No operation touches memory that is not there",
  "Whatever values, histories and requests the library is given, every index it uses lies inside the container or string it is used with (the quantile sampler's buffer and samples, the ring of age buckets, the histogram's counters, the base64 groups, the bytes handed to compression and to the server); the result of a search is used only where something was found; a pointer that may be null (an absent HTTP header, an expired collectable, a failed C call) is followed only after it was found not to be; pointers that objects keep and follow are set by every constructor; no reference, pointer or iterator is used after the container it points into has been changed in a way that invalidates it or after the object it points to has ended, which includes the request body that the HTTP client keeps a pointer to; and no operation returns or keeps a reference to one of its own variables, nor does a public object keep a reference to an argument of a call. Summaries have at least one age bucket.",
  ["inputs", "histories"], "every value, size, history, header and credential, for all functions of the library",
  "Tests use small histories and well-formed requests; out-of-range accesses often go unnoticed without sanitizers.",
  [CS+"detail/ckms_quantiles.cc", CS+"detail/time_window_quantiles.cc", CS+"histogram.cc", CS+"family.cc", CS+"registry.cc",
   "util/include/prometheus/detail/base64.h", "pull/src/handler.cc", "pull/src/basic_auth.cc", "pull/src/exposer.cc",
   "pull/src/endpoint.cc", "pull/src/metrics_collector.cc", "push/src/gateway.cc", "push/src/detail/curl_wrapper.cc"],
  [("sample and buffer indices", CS+"detail/ckms_quantiles.cc"), ("ring index", CS+"detail/time_window_quantiles.cc"),
   ("bucket index", CS+"histogram.cc"), ("four-character groups", "util/include/prometheus/detail/base64.h"),
   ("header may be null", "pull/src/basic_auth.cc"), ("expired collectables", "pull/src/metrics_collector.cc")])

# not applicable to static analysis (see DESIGN.md)
p("C50", "Quantile estimates stay within the configured rank error",
  "For every configured quantile the reported value has a rank that differs from the exact one by at most the configured error times the number of observations in the window.",
  ["inputs", "histories"], "every sequence of observed values",
  "Tests use one or two distributions.",
  [CS+"detail/ckms_quantiles.cc"], [("targeted quantile invariant", CS+"detail/ckms_quantiles.cc")])
p("C51", "Serialized numbers read back as the value that was stored",
  "Parsing a serialized sample value yields the stored number, to the precision the format provides.",
  ["inputs"], "every double",
  "Tests look at a few numbers.",
  [CS+"text_serializer.cc"], [("stream precision", CS+"text_serializer.cc")])
p("C52", "Observations leave the window within one rotation of their maximum age",
  "In real time, an observation stops influencing the quantiles no later than the maximum age and no earlier than the maximum age minus one rotation interval after it was made.",
  ["histories"], "every timing of observations and reads",
  "Tests sleep for fixed times.",
  [CS+"detail/time_window_quantiles.cc"], [("rotation by elapsed time", CS+"detail/time_window_quantiles.cc")])
p("C53", "Asynchronous pushes complete before the gateway goes away",
  "No background request touches a gateway that has been destroyed.",
  ["schedules"], "every lifetime of gateway and futures",
  "Needs the gateway to be destroyed while a background request runs.",
  ["push/src/gateway.cc"], [("futures block on destruction", "push/src/gateway.cc")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
