#!/usr/bin/env python3
"""The properties and what decides them: writes properties.jsonl and MANIFEST.json."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
T = "tower/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, note="", state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [T + f if not f.startswith("tower") else f for f in files],
                          "mechanism": [{"name": a, "where": (T + b) if not b.startswith("tower") else b} for a, b in mech],
                          **({"state": [{"name": a, "meaning": b, "where": T + c} for a, b, c in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None},
              "note": note})


SH = ["schedules", "histories"]

p("P01", "Buffer delivers each accepted request once, in order, to its caller",
  "Every request accepted by a buffered service while the buffer works is handed to the inner service exactly once, in the order of acceptance over all clones and only after the inner service said it was ready; one whose caller dropped the response before that is never handed over. The caller that sent it gets exactly the inner service's response or error to that request. The worker is woken whenever there is work it can do, and a caller waiting for a response is woken when it is there.",
  SH, "every interleaving of callers on any number of clones, worker polls, inner readiness changes, completions, cancellations and handle drops",
  "tests poll one or two requests in a fixed order; they never explore interleavings of several clones with cancellation and inner back-pressure",
  ["buffer/service.rs", "buffer/worker.rs", "buffer/future.rs", "buffer/message.rs"],
  [("worker loop: current message, poll_ready, call", "buffer/worker.rs"), ("send on a reserved slot", "buffer/service.rs"), ("response channel state machine", "buffer/future.rs")],
  state=[("current_message", "request taken from the queue while the inner service is not ready", "buffer/worker.rs")])
p("P02", "Buffer never holds more than its bound and never strands a free slot",
  "The number of requests waiting in a buffer plus the slots reserved by handles that were told ready never exceeds the configured bound. A handle is told ready exactly when a slot is free or was assigned to it, handles that wait are served in the order in which they began to wait, and a slot freed by the worker, by dropping a handle or otherwise immediately wakes the first waiting handle. Readiness, once given, lasts until the handle is used or dropped.",
  SH, "every interleaving of poll, call, clone, drop of any number of handles with the worker, for every bound",
  "the capacity test fills one bound once; leaked or duplicated slots need particular drop/poll orders",
  ["buffer/service.rs", "buffer/worker.rs"], [("PollSender reservation in poll_ready", "buffer/service.rs"), ("receiver frees the slot on take", "buffer/worker.rs")])
p("P03", "Buffer failure reaches every caller and no request is lost in silence",
  "When the inner service fails to become ready, the worker is dropped or the inner service panics, every outstanding request that was not handed over and every later poll or call ends with an error: the inner service's own error if there is one, a closed error otherwise. All waiting callers are woken, nothing waits for ever, and no request reaches the inner service after its failure.",
  ["schedules", "fault_sequences"], "every point at which the inner service fails, panics or the worker is dropped, in every interleaving with pending and reserved slots",
  "tests fail the service at one or two points; requests sent on a slot reserved before the failure are not covered",
  ["buffer/worker.rs", "buffer/service.rs", "buffer/error.rs", "buffer/future.rs"],
  [("failed(): store the error, close, drain", "buffer/worker.rs"), ("Handle::get_error_on_closed", "buffer/worker.rs"), ("is_closed check before sending", "buffer/service.rs")])
p("P04", "Concurrency limits bound the requests in flight and never lose a permit",
  "With a concurrency limit of n, over all services that share the limit (clones, or everything made by one global layer) at most n requests or ready reservations are outstanding, and a handle becomes ready only if it holds a permit and its inner service is ready. A permit returns when the response future finishes or is dropped, or the handle that holds it is dropped, never earlier, and then wakes the handle that has waited longest.",
  SH, "every interleaving of polls, calls, completions, cancellations, clones and drops, for every limit including zero",
  "tests run a handful of scripted sequences with limits 1 and 2",
  ["limit/concurrency/service.rs", "limit/concurrency/future.rs", "limit/concurrency/layer.rs"],
  [("permit acquired in poll_ready and moved into the future", "limit/concurrency/service.rs"), ("permit dropped with the future", "limit/concurrency/future.rs"), ("shared semaphore of the global layer", "limit/concurrency/layer.rs")])
p("P05", "Rate limit lets at most num requests start per period and always recovers",
  "A rate-limited service passes at most num requests in each window of length per, which starts with the first request after the previous window ended or when a caller that had to wait is let through; when the allowance is used up it is not ready until the window has ended, and then wakes the waiting caller and allows num requests again. It is ready only if its inner service is ready, and readiness checks and inner errors use up no allowance.",
  ["schedules", "inputs"], "every timing of polls, calls, inner readiness changes and elapsed time, for every num and per",
  "tests cover one window with num = 1 or 2 and a single timing",
  ["limit/rate/service.rs", "limit/rate/rate.rs", "limit/rate/layer.rs"], [("State::Ready{until,rem}/Limited", "limit/rate/service.rs"), ("window restart in call", "limit/rate/service.rs")])
p("P06", "Load shedding never waits and sheds exactly when the inner service is not ready",
  "A load-shedding service always reports itself ready unless its inner service reports an error, which is passed on unchanged. A request is passed to the inner service if and only if the inner service was ready at this handle's last readiness check since its previous request; otherwise it fails at once with an overloaded error and the inner service is not called.",
  SH, "every sequence of readiness polls, readiness changes, calls and clones",
  "two tests cover one ready and one not-ready call",
  ["load_shed/mod.rs", "load_shed/future.rs", "load_shed/layer.rs"], [("is_ready flag", "load_shed/mod.rs"), ("overloaded future", "load_shed/future.rs")])
p("P07", "Timeout gives the response if it is there in time, an elapsed error otherwise",
  "A request under a timeout ends with the inner service's response or error if that is available when it is polled, even at or after the deadline, and with an elapsed error exactly when the deadline, counted from the call, has passed and no response is available; it never fails early and never stays pending past the deadline, at which it wakes the waiting caller. Readiness of the inner service is passed through unchanged and dropping the response drops the inner one.",
  ["schedules", "inputs"], "every timing of call, completion, polls and deadline, for every timeout including zero",
  "the timeout has no unit tests of its own beyond documentation",
  ["timeout/mod.rs", "timeout/future.rs", "timeout/layer.rs"], [("response polled before the sleep", "timeout/future.rs")])
p("P08", "Retry does what its policy decided, with the right request, once per attempt",
  "After each attempt the policy is asked exactly once with that attempt's outcome, and the caller gets the outcome, as the policy left it, as soon as the policy declines or the request could not be copied; otherwise, after the policy's decision has completed and the inner service is ready, exactly one further attempt is made with the copied request as the policy left it, under the policy with the state its earlier decisions and copies left in it. An error of the inner service's readiness before a further attempt is the answer, and each caller's first attempt uses the policy and request it was given.",
  SH, "every sequence of attempt outcomes, policy decisions, asynchronous decision timings, inner readiness and cancellations",
  "tests use fixed policies that decide immediately and at most a few attempts",
  ["retry/mod.rs", "retry/future.rs", "retry/policy.rs", "retry/layer.rs"], [("State::Called/Waiting/Retrying", "retry/future.rs"), ("clone_request before each attempt", "retry/mod.rs")])
p("P09", "A retry budget never grants more retries than deposits and reserve allow",
  "A retry budget grants a withdrawal exactly when the balance of the deposits and withdrawals of the last time-to-live plus the reserve covers it, where each deposit buys the configured fraction of a retry and old entries expire slot by slot. Concurrent withdrawals never overdraw it, and deposits are never lost.",
  ["schedules", "inputs", "configurations"], "every sequence and timing of deposits and withdrawals, for every ttl, minimum and percentage, from any number of threads",
  "tests check six scripted sequences in one thread",
  ["retry/budget/tps_budget.rs", "retry/budget/mod.rs"], [("slot generations and expire()", "retry/budget/tps_budget.rs"), ("sum and compare in withdraw", "retry/budget/tps_budget.rs")])
p("P10", "Exponential backoff stays between its bounds and doubles from one to the next",
  "The n-th wait of an exponential backoff is the minimum doubled n times capped at the maximum, plus a random jitter between zero and the configured fraction of that wait, the sum never exceeding the maximum; waits complete when that time has passed and not earlier. A maker accepts exactly the configurations whose minimum is not above their maximum, whose maximum is above zero and whose jitter fraction is a finite number from 0 to 100, and each backoff it makes starts anew.",
  ["inputs", "configurations", "histories"], "every minimum, maximum and jitter, every number of steps, interleaved backoffs of one maker",
  "property tests cover a narrow range of durations and never the sub-second part of the jitter",
  ["retry/backoff.rs"], [("base()", "retry/backoff.rs"), ("jitter()", "retry/backoff.rs"), ("validation in new()", "retry/backoff.rs")])
p("P11", "Hedge sends a second attempt only when due, allowed and backed by enough data",
  "A hedged request is sent a second time only if the policy copied it, enough latencies were recorded in the previous period, the configured percentile of those latencies has passed without the first attempt's answer being taken, the inner service is ready, and the policy agrees to the retry when asked at that moment; never more than once. The answer of whichever attempt is found complete first, the first attempt winning ties, is returned exactly once and the other attempt is dropped. Latencies of successful attempts are recorded, and recorded data are used for exactly the period after the one they were recorded in.",
  SH, "every timing of completions, polls and periods, every percentile and amount of data, failures and cancellations at every point",
  "tests use pre-filled latencies and never rotate the periods or change inner readiness",
  ["hedge/mod.rs", "hedge/delay.rs", "hedge/select.rs", "hedge/latency.rs", "hedge/rotating_histogram.rs"],
  [("clone_request filter on min_data_points", "hedge/mod.rs"), ("delay then oneshot", "hedge/delay.rs"), ("race of the two futures", "hedge/select.rs"), ("maybe_rotate", "hedge/rotating_histogram.rs")])
p("P16", "Steer is ready only when all services are, and routes each request to the pick",
  "A steering service reports ready only when every one of its services has reported ready since it was last used, reports the error of a service that fails, and otherwise waits and is woken when a service it waits for becomes ready. Each request goes to exactly the service the picker chose for it, and to no other, and its response or error comes back unchanged.",
  SH, "every order of readiness changes over any number of services, clones included, and every pick",
  "tests cover two services that are always or never ready",
  ["steer/mod.rs"], [("not_ready queue", "steer/mod.rs"), ("marking the used service not ready in call", "steer/mod.rs")])
p("P17", "Reconnect makes one connection at a time and reports each failed attempt once",
  "A reconnecting service starts a connection attempt only when it has no connection and none is being made, and replaces a connection only after that reported an error while becoming ready. A failed attempt is reported to exactly one request, as its error, the service staying ready until then; after that the next readiness check tries again, and an error of the connector's own readiness is reported by the readiness check. While a connection is being made or becomes ready the service waits and is woken when that progresses; responses and errors come back unchanged.",
  ["histories", "fault_sequences"], "every sequence of connect successes, failures and delays, connection failures, polls, calls and cancellations",
  "tests cover one failure each; repeated polls after a failed attempt are not covered",
  ["reconnect/mod.rs", "reconnect/future.rs"], [("State::Idle/Connecting/Connected and error", "reconnect/mod.rs")])
p("P18", "SpawnReady drives readiness in the background and never loses the service",
  "A spawning service whose inner service is not ready at once drives it to readiness in the background, independently of further polls, and then becomes ready with that same inner service and wakes the waiting caller; an inner error during this is reported by the next poll. Requests are passed to the inner service only when it is ready, and dropping the service stops the background work.",
  SH, "every order of polls, background progress, failures, calls and drops",
  "tests cover one pending-then-ready sequence and one failure",
  ["spawn_ready/service.rs", "spawn_ready/layer.rs", "spawn_ready/future.rs"], [("Inner::Service/Inner::Future and the spawned task", "spawn_ready/service.rs")])
p("P19", "A filter passes exactly the requests its predicate accepts, as rewritten by it",
  "A filter asks its predicate exactly once per request, passes a request to the inner service if and only if the predicate accepted it, with the request the predicate returned, and otherwise answers with the predicate's error without the inner service being called. An asynchronous filter uses, for the request, the very inner service instance that had reported ready, and dropping the response drops the inner one.",
  ["inputs", "schedules", "histories"], "every predicate verdict, its timing, inner readiness, several handles and cancellations",
  "tests cover a single accepted and a single rejected request",
  ["filter/mod.rs", "filter/future.rs", "filter/layer.rs", "filter/predicate.rs"], [("check before call", "filter/mod.rs"), ("mem::replace of the ready service", "filter/mod.rs"), ("Check/WaitResponse", "filter/future.rs")])
p("P12", "ReadyCache hands out only ready services and keeps the newest for each key",
  "A ready cache holds for each key at most one ready and one pending service and uses only a service that has reported ready. A newer service pushed under a key replaces the older one once it is ready, or when the older one is used or no longer ready; a used service goes back to pending, a failed one is removed and reported with its key exactly once, an evicted one is gone, and no service is lost or kept otherwise. The poller of the pending services is woken when one of them becomes ready.",
  SH, "every sequence of push, poll, check, call and evict over any number of keys, with readiness won, lost and failing at any point",
  "tests push at most two services and never lose readiness between poll and check or replace a used service",
  ["ready_cache/cache.rs", "ready_cache/error.rs"], [("ready / pending / pending_cancel_txs maps", "ready_cache/cache.rs"), ("Pending future and cancellation", "ready_cache/cache.rs")])
p("P13", "The balancer sends each request to one live, ready member of the discovered set",
  "A balancer takes up every queued insertion and removal before it reports readiness: a removed endpoint gets no request after that, a replaced one none once its successor is ready, and an endpoint that fails or is no longer ready is passed over without the request failing. It is ready exactly if some member is, sends each request to exactly one member that was ready, gives back that endpoint's answer, and otherwise waits and is woken by a membership change or an endpoint becoming ready. A discovery error is reported by the readiness check, and after the end of the discovery stream the stream is left alone and the known endpoints stay in use.",
  SH, "every history of insertions, replacements, removals, failures and losses of readiness interleaved with polls and calls",
  "tests use one or two endpoints that change state at one point each",
  ["balance/p2c/service.rs", "balance/p2c/make.rs", "balance/p2c/layer.rs", "balance/error.rs", "ready_cache/cache.rs"],
  [("update_pending_from_discover / promote_pending_to_ready", "balance/p2c/service.rs"), ("check_ready_index loop in poll_ready", "balance/p2c/service.rs")],
  state=[("ready_index", "the chosen endpoint", "balance/p2c/service.rs")])
p("P14", "The balancer chooses the less loaded of two distinct random ready endpoints",
  "When it chooses an endpoint the balancer compares the current loads of two different ready endpoints drawn at random, every pair being possible and equally likely, and takes the one with the lower load, so that an endpoint more loaded than all the others is never chosen while another is ready, endpoints with equal loads get equal shares, and a single ready endpoint is always chosen. The choice stands until it is used, it stops being ready or the membership changes; it holds for every random number generator, extreme values included. A random number in a range or a random fraction, asked of any generator, lies in that range or in [0, 1), and is evenly spread if the generator's words are.",
  ["inputs", "histories"], "every assignment of loads, membership history, number of endpoints and random number generator",
  "the test of the load comparison fixes two endpoints; sampling is tested for distinctness only",
  ["balance/p2c/service.rs", "util/rng.rs", "load/mod.rs"], [("p2c_ready_index", "balance/p2c/service.rs"), ("sample_floyd2", "util/rng.rs"), ("ready_index cleared by a removal", "balance/p2c/service.rs")])
p("P15", "Load metrics count every outstanding request and follow round trips as stated",
  "The pending-requests load is the number of requests whose handle is alive: from the call until the response was handed to the completion tracker and it dropped the handle, or the request failed or was dropped. The peak-EWMA load is its latency estimate times one more than that number, where a round trip longer than the estimate replaces it at once, a shorter one pulls it down exponentially with the time since the last update, and reading it without new data decays it towards zero. A constant load never changes, and all of them pass readiness, requests, responses and errors through unchanged, built directly or by their discovery wrappers; the limits report the load of the service they limit.",
  ["histories", "schedules", "inputs"], "every history of calls, completions, failures, cancellations, delayed handle drops, load readings and elapsed time",
  "tests check two overlapping requests without failures or cancellations",
  ["load/pending_requests.rs", "load/peak_ewma.rs", "load/constant.rs", "load/completion.rs", "limit/concurrency/service.rs", "limit/rate/service.rs"],
  [("RefCount of live handles", "load/pending_requests.rs"), ("RttEstimate::update", "load/peak_ewma.rs"), ("TrackCompletionFuture", "load/completion.rs")])

p("P20", "CallAll calls every streamed request in turn and yields every outcome",
  "CallAll hands the requests of its stream to the service once each, in stream order, and only when the service was ready; every response or response error is yielded exactly once, in request order in the ordered form and as soon as it completes in the unordered one, and a failed response does not stop the others. A readiness error is yielded once and ends the taking of requests, the remaining responses still come, and the end is reported only when the requests are exhausted and everything was yielded; the request stream is not polled after its end. The poller is woken when a response it can yield, the next request or the readiness it waits for arrives, and the service can be taken back.",
  SH, "every interleaving of request arrival, stream end, readiness changes and failures, completions in any order, polls and taking the service back",
  "tests complete a few responses in one fixed order",
  ["util/call_all/common.rs", "util/call_all/ordered.rs", "util/call_all/unordered.rs"],
  [("poll_next loop: queue, stream, curr_req, readiness", "util/call_all/common.rs"), ("FuturesOrdered / FuturesUnordered drive", "util/call_all/ordered.rs")])

p("P21", "Layers wrap in the stated order and act once, however they are combined",
  "However layers are put together - ServiceBuilder with its own methods or with layer, layer_fn and option_layer, Stack of an inner and an outer layer, tuples of up to sixteen, nested calls, references, Either and boxed layers - the first (outer) layer sees a request first and its response last, every layer acts exactly once per request, and Identity, the empty tuple and an absent optional layer change nothing. A service built with ServiceBuilder::service or service_fn behaves like the layers applied by hand.",
  ["configurations", "histories"], "every sequence of layers of every kind, every way of combining them, and every history of calls through the result",
  "the builder tests wrap one service in two layers; no test covers tuples, nesting or order of more than two",
  ["builder/mod.rs", "tower-layer/src/stack.rs", "tower-layer/src/tuple.rs", "tower-layer/src/identity.rs", "tower-layer/src/layer_fn.rs", "tower-layer/src/lib.rs", "util/either.rs", "util/mod.rs"],
  [("ServiceBuilder::layer: Stack::new(layer, self.layer)", "builder/mod.rs"), ("Stack::layer: outer(inner(service))", "tower-layer/src/stack.rs"), ("tuple impls", "tower-layer/src/tuple.rs")])
p("P22", "Combinators apply their function once, to their own outcome, and only to it",
  "map_request, map_response, map_err, map_result, map_future, then, and_then and filter call their function exactly once for each request, response or error it is meant for and never otherwise, and yield what the function (or its future, once it is done) yields; everything else passes through unchanged. Readiness is that of the inner service, a readiness error passes with map_err's function applied and no other, the poller is woken when the inner response or the function's future is done, dropping the response drops what is running, and all this holds built by the extension method, constructor, layer or builder, for clones and in any nesting.",
  SH, "every nesting of combinators, every interleaving of calls, completions, errors, polls, cancellations and clones",
  "their documentation examples run one successful call each",
  ["util/map_request.rs", "util/map_response.rs", "util/map_err.rs", "util/map_result.rs", "util/map_future.rs", "util/then.rs", "util/and_then.rs", "filter/mod.rs", "util/mod.rs", "builder/mod.rs"],
  [("call / poll_ready of each combinator", "util/then.rs"), ("error mapping on readiness", "util/map_err.rs")])
p("P23", "Adapters for readiness, boxing and choice do not change what a service does",
  "oneshot waits until its service is ready, calls it exactly once, drops it and gives its answer; ready and ready_oneshot complete exactly when the service is ready and give back that same, still ready service, or its error. A future service is pending until its future ends, then is the service it gave (or reports its error), and boxed services of every kind, Either, an optional service that is present, service_fn and boxed layers behave exactly as the service inside - readiness, answers, errors, wake-ups, cancellation and clones - while an absent optional service is always ready and fails every request with its own error.",
  SH, "every interleaving of readiness changes and errors, polls, calls, completions, cancellations and clones",
  "tests drive one request through a box or a oneshot",
  ["util/oneshot.rs", "util/ready.rs", "util/future_service.rs", "util/service_fn.rs", "util/either.rs", "util/optional/mod.rs", "util/optional/future.rs", "util/boxed/sync.rs", "util/boxed/unsync.rs", "util/boxed_clone.rs", "util/boxed_clone_sync.rs", "util/boxed/layer.rs", "util/boxed/layer_clone.rs", "util/boxed/layer_clone_sync.rs"],
  [("NotReady / Called / Done", "util/oneshot.rs"), ("Future / Service", "util/future_service.rs")])
p("P24", "The test mock delivers requests in order and readies callers as the test allows",
  "Requests sent through a test mock and its clones reach the test handle once each in the order they were sent, and each caller gets exactly the response or error the test sent for its request, or a closed error if the test dropped the request or the handle. A mock is ready while the allowance the test set is not used up (a readiness once given stays), fails the next readiness check once when the test sends an error, reports closed after the handle is gone, and panics when called without readiness. Every caller that waits is woken when the test allows requests, sends an error or drops its handle, and when its response is there; spawned mocks report that wake-up.",
  SH, "every interleaving of checks, calls, clones and drops of mocks with receiving, answering, allowing, failing and dropping by the test",
  "the mock's own tests run two short scripts",
  ["tower-test/src/mock/mod.rs", "tower-test/src/mock/future.rs", "tower-test/src/mock/spawn.rs", "tower-test/src/macros.rs"],
  [("rem / can_send / tasks", "tower-test/src/mock/mod.rs"), ("Spawn", "tower-test/src/mock/spawn.rs")])
p("P25", "Service makers and discovery sources pass on exactly what they are given",
  "MakeService, IntoService, AsService, MakeConnection and MakeBalance have the readiness of the maker they adapt, call it once per target with that target and yield the service it made (for MakeBalance a balancer over the discovery it made) or its error; Shared is always ready and makes a clone of its service for every target. A stream of changes used as a discovery source yields its changes, errors and end unchanged and in order, and a service list inserts its services once each, in order, under their positions and then ends.",
  SH, "every interleaving of readiness changes, calls, completions, errors, cancellations and clones; every list and every stream of changes",
  "two tests make one service each",
  ["make/make_service.rs", "make/make_service/shared.rs", "make/make_connection.rs", "balance/p2c/make.rs", "balance/p2c/layer.rs", "discover/mod.rs", "discover/list.rs"],
  [("blanket impls", "make/make_service.rs"), ("MakeFuture", "balance/p2c/make.rs"), ("enumerate", "discover/list.rs")])
p("P26", "A stack of limits keeps the bounds of all its layers at the same time",
  "In a stack of concurrency limits, rate limits, load shedding, timeouts, retries and a buffer, in any order, each layer's bounds hold at the same time, and the inner service is called only through an instance that reported ready. Permits, slots and allowance are used by exactly the requests that got through to that layer and are given back however a request ends (answered, failed, timed out, cancelled or retried), and an inner failure reaches the caller as the layers define. Whenever a waiting caller, response or buffer worker can proceed it is woken.",
  SH, "every order of the layers, every interleaving of readiness changes, calls, completions, errors, timers, cancellations, clones and worker runs",
  "no test composes these layers",
  ["builder/mod.rs", "limit/concurrency/service.rs", "limit/concurrency/future.rs", "limit/rate/service.rs", "load_shed/mod.rs", "timeout/mod.rs", "timeout/future.rs", "retry/mod.rs", "retry/future.rs", "buffer/service.rs", "buffer/worker.rs", "buffer/layer.rs"],
  [("permit in the response future", "limit/concurrency/future.rs"), ("clone for further attempts", "retry/future.rs"), ("worker", "buffer/worker.rs")])

TECH = "TLA+ specification checked with TLC; its transition graph replayed on the real code and recorded traces validated against it"
NOTE = ("Exhaustive for the finite constants of each suite (every transition of the specification's state graph is executed on the real code and "
        "results, inner calls, drops and required wake-ups compared), sampled beyond them by randomly driven executions that TLC validates against the "
        "specification. Trusts TLC, the harness's mock inner services and virtual clock, and that the small constants are representative. ")
NA = []


def main():
    import suites
    P.sort(key=lambda x: x['id'])
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if k != "note"}, ensure_ascii=False) + "\n")
    checks = []
    for x in P:
        if x["id"] in suites.PROPS:
            checks.append({"property": x["id"], "quick_cmd": f"./check.sh {x['id']} quick", "thorough_cmd": f"./check.sh {x['id']} thorough",
                           "technique": TECH, "level": "model_checking", "level_note": (NOTE + x["note"]).strip()})
    claimed = {c["property"] for c in checks}
    na = NA + [{"property": x["id"], "reason": "check not built yet"} for x in P if x["id"] not in claimed and x["id"] not in {n["property"] for n in NA}]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks: everything is observed through the public API."}
    open(os.path.join(VERIF, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
    ids = [x["id"] for x in P]
    assert len(ids) == len(set(ids))
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        import re
        n = len(re.findall(r"[.](?:\s|$)", x["statement"]))
        assert n <= 3, (x["id"], n)
        for fn in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
    for k in suites.PROPS:
        assert k in ids, k


main()
