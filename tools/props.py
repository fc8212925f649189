PATHS = 'path-partitioned interprocedural dataflow (abstract interpretation over go/ssa), compared with a per-path specification table'
NOTE = ('Decides the stated clauses for every abstract path of the anchored code, loops summarised for an arbitrary iteration; '
        'trusts the models of third-party and standard-library calls (checker/intrinsics.go, checker/stubs) and that the type-checked source is what is built. ')
PROPS = []
NA = []

def P(id, title, statement, over, qtext, why, files, mech, technique=PATHS, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=NOTE + note))

# ---------------------------------------------------------------- client

P('C01', 'Client.Read returns exactly the envelopes the server sent, or an error',
  'Over HTTP and gRPC alike, a read asks the configured server for exactly the requested source, start time and options, and returns exactly the batch decoded from a successful reply, none when the reply has no batch. Every transport failure, unexpected status and undecodable body surfaces as an error, with no data and never as a panic.',
  ['inputs', 'fault_sequences', 'configurations'],
  'Every source id, start time, option list, server reply (status, body, transport error) and transport.',
  'Tests sample a few replies and option sets; the claim is over every reply status, every failing step and every option order.',
  ['pkg/client/client.go'],
  [('request construction and reply decoding', 'pkg/client/client.go (Client).Read'), ('gRPC request mapping', 'pkg/client/client.go (Client).grpcRead'), ('read options', 'pkg/client/client.go WithEndTime/WithEnvelopeTypes/WithLimit/WithDescending/WithNameFilter')])
P('C02', 'Client Meta, PromQL and version calls return the reply or an error',
  'Meta, instant and range PromQL queries (typed and raw) and the version call return exactly what the server replied on both transports. They report an error, and no data, whenever the request, the status or the decoding fails, and never report an error for a reply the protocol accepts.',
  ['inputs', 'fault_sequences', 'configurations'],
  'Every argument, reply and failing step of each call, HTTP and gRPC.',
  'Tests cover a handful of statuses per call; agreement between sibling calls over all failure points is not sampled.',
  ['pkg/client/client.go'],
  [('HTTP calls', 'pkg/client/client.go Meta, PromQL, PromQLRange, PromQLRaw, PromQLRangeRaw, LogCacheVersion'), ('gRPC calls', 'pkg/client/client.go grpcMeta, grpcPromQL, grpcPromQLRange')])
P('C03', 'Every HTTP response body that is received is released',
  'Whenever a component receives an HTTP response, its body is closed on every path, including error statuses and decode failures, unless the response itself is handed to the caller, and never before it has been read. No sequence of failing replies can therefore exhaust connections.',
  ['fault_sequences', 'inputs'],
  'Every path through every function that sends an HTTP request, for every reply.',
  'A leak shows only as exhaustion after many failing replies; tests use in-memory bodies and never look.',
  ['pkg/client/client.go', 'pkg/client/oauth2_http_client.go', 'internal/auth/uaa_client.go', 'internal/auth/capi_client.go'],
  [('deferred close after each Do', 'every call site of Do(*http.Request)')],
  'ownership/typestate dataflow over all response-producing call sites (go/ssa)')
P('C04', 'Client calls carry the caller\'s context to the server',
  'Every request or RPC the client library issues on behalf of a call, on either transport and including the version probe, is bound to the context the caller passed. Cancelling that context therefore always reaches the outstanding request. A client built without its own HTTP client gives up after five seconds even when the context never ends.',
  ['inputs', 'schedules', 'configurations'],
  'Every client call, transport and path, including the version probe.',
  'Tests check cancellation on some calls; a call that drops its context behaves identically unless cancelled at the right moment.',
  ['pkg/client/client.go'],
  [('request.WithContext / RPC context argument', 'pkg/client/client.go all calls')])
P('C05', 'The client negotiates the API location from the server\'s version',
  'The client uses the current API base path for servers that report version 2.0.0 or later and the old base path for earlier ones; a server without the info endpoint counts as 1.4.7, and a failed or malformed probe is reported as an error instead of guessed. Reads and Meta on one client therefore always address the API the server actually serves, from any number of goroutines.',
  ['inputs', 'fault_sequences', 'histories'],
  'Every info reply (status, version text, decode result) and every call that depends on it.',
  'Tests use three fixed version strings; the claim ranges over all versions and replies.',
  ['pkg/client/client.go'],
  [('version probe', 'pkg/client/client.go LogCacheVersion'), ('base path selection', 'pkg/client/client.go Read, Meta')])
P('C06', 'PromQL calls send exactly the query and time parameters the caller gave',
  'An instant or range PromQL call sends the caller\'s query and each given time, start, end and step unchanged, on both transports and in the typed and raw variants. No parameter is invented, dropped, duplicated or renamed.',
  ['inputs', 'configurations'],
  'Every query text and every combination of options, four calls, two transports.',
  'Tests use one or two literal parameter sets.',
  ['pkg/client/client.go'],
  [('query parameters', 'pkg/client/client.go PromQL*, WithPromQL*')])
P('C07', 'The OAuth2 client attaches, fetches and drops tokens correctly',
  'A request without an Authorization header is sent with the cached token, or with a token just obtained from the OAuth2 server with the configured grant; when no token can be obtained the request is not sent and nothing is cached. A reply outside 2xx drops the cached token, any other reply keeps it, and concurrent callers never touch the token without the lock that guards it.',
  ['inputs', 'fault_sequences', 'schedules', 'histories'],
  'Every token-server reply, data reply, grant type, cached state and interleaving of callers.',
  'Tests run single requests in one goroutine with a handful of statuses.',
  ['pkg/client/oauth2_http_client.go'],
  [('token cache and grants', 'pkg/client/oauth2_http_client.go Do, getToken, doTokenRequest'), ('mutex', 'pkg/client/oauth2_http_client.go mu')],
  PATHS + '; lockset analysis of the token cell')
P('C08', 'Walk delivers every old-enough envelope once and resumes after it',
  'Each pass of a walk reads from exactly one nanosecond after the last delivered envelope (initially from the configured start), discards only envelopes newer than now minus the delay (unless a bounded walk just read nothing) or at or past the end time, and hands every remaining non-empty batch to the visitor exactly once. Failed and empty reads never move the start, and the configured end, limit, types and name filter reach every read.',
  ['inputs', 'histories', 'fault_sequences'],
  'Every reader behaviour, batch content, start/end/delay/limit configuration and history of passes.',
  'Tests replay a few batches; losing or repeating envelopes needs specific timestamps, pruning and error sequences.',
  ['pkg/client/walk.go'],
  [('pruning and resumption', 'pkg/client/walk.go Walk'), ('walk options', 'pkg/client/walk.go WithWalk*')],
  note='Relies on readers returning envelopes in timestamp order, as documented.')
P('C09', 'Walk stops, retries and reports to its backoff exactly as documented',
  'After a failed read a walk ends if its context is done and otherwise follows the backoff\'s answer to that error; after an empty read it follows the backoff\'s answer to emptiness; after a delivered batch it resets the backoff once and continues unless the visitor declines or the next start has reached the end time. No other event ends or prolongs it.',
  ['histories', 'fault_sequences', 'inputs'],
  'Every sequence of read results, backoff answers, visitor answers and cancellations.',
  'Tests drive a few scripted sequences; the decision table has to hold for every pass.',
  ['pkg/client/walk.go'],
  [('control decisions', 'pkg/client/walk.go Walk')])
P('C10', 'Backoff strategies retry, sleep and give up exactly as configured',
  'The retry strategies allow exactly the configured number of consecutive failures, sleeping the configured interval once before each retry and never when giving up, and a reset restores the full allowance. The error-only variant gives up on the first empty read, the always-retry strategy never gives up, and the always-done strategy never retries.',
  ['histories', 'configurations'],
  'Every interval, maximum and current retry count, every method.',
  'Tests use one interval and maximum; off-by-one and counting faults hide behind other values and orders.',
  ['pkg/client/walk.go'],
  [('Backoff implementations', 'pkg/client/walk.go RetryBackoff, AlwaysRetryBackoff, AlwaysDoneBackoff')])
P('C11', 'Window walks consecutive windows and hands each to the visitor',
  'At every tick of the configured interval, Window walks exactly [start, start+width) under a deadline of one interval derived from the caller\'s context, passes the result to the visitor once, and advances start by one interval until the visitor declines; width and interval default to an hour and a minute, the first start to now minus the width. A built walker returns everything the underlying walk delivered between its bounds.',
  ['histories', 'configurations', 'inputs'],
  'Every start, width, interval, tick history and visitor answer.',
  'Tests run a few ticks with one configuration.',
  ['pkg/client/window.go'],
  [('tick loop', 'pkg/client/window.go Window'), ('walker', 'pkg/client/window.go BuildWalker')])

# ---------------------------------------------------------------- marshaler

P('C12', 'PromQL results are encoded completely, in order, in Prometheus format',
  'Marshalling or stream-encoding an instant or range PromQL result of any kind writes one success document with the right result type, holding every sample, series and point in order, each with its own metric, its time to millisecond precision and its value as an exact decimal string. An unusable point or a failing step yields an error instead of a partial document, and all other messages go through the wrapped marshaler unchanged.',
  ['inputs', 'configurations'],
  'Every result of every variant (any number of samples, series, points, labels) through both encoders.',
  'Tests encode a few fixed results; dropped, repeated, aliased or re-labelled elements depend on the shape and size of the input.',
  ['pkg/marshaler/marshaler.go'],
  [('encoding', 'pkg/marshaler/marshaler.go Marshal, NewEncoder, assemble*')])
P('C13', 'PromQL documents are decoded strictly, completely and without panics',
  'Unmarshalling or stream-decoding a PromQL document yields exactly the samples, series and points it contains, in order and with their own metrics, for each result type the target can hold. Unknown result types, malformed points and undecodable input are reported as errors that leave the target untouched, and no document can crash the decoder.',
  ['inputs', 'configurations'],
  'Every JSON document and target type through both decoders.',
  'Tests decode a few fixed documents; hostile or unusual shapes are unbounded.',
  ['pkg/marshaler/marshaler.go'],
  [('decoding', 'pkg/marshaler/marshaler.go Unmarshal, NewDecoder, disassemble*, unmarshal*')])

# ---------------------------------------------------------------- gateway

P('C14', 'Failed REST queries get a Prometheus error document with the mapped status',
  'An error on /api/v1/query or /api/v1/query_range, and on no other path, is answered exactly once with the Prometheus error document (status "error", errorType "internal", error = the RPC error\'s description), the marshaler\'s content type and the HTTP status mapped from the gRPC code. When that document cannot be marshalled the answer is status 500 with a fixed JSON error body; every other path keeps the default error answer.',
  ['inputs', 'fault_sequences'],
  'Every request path, RPC error, marshaler and marshalling outcome.',
  'Tests provoke one error per endpoint; duplicate, late-header and wrong-path answers need particular paths and faults.',
  ['internal/gateway/gateway.go'],
  [('error handler', 'internal/gateway/gateway.go httpErrorHandler'), ('installation before serving', 'internal/gateway/gateway.go listenAndServe')])
P('C15', 'Each REST route issues its RPC once with the request\'s own parameters',
  'GET on the read, meta, query and query_range routes issues the corresponding RPC at most once, on the gateway\'s log-cache connection, with exactly the parameters of that request\'s path and query string and a context derived from that request. The client gets exactly one answer, the RPC\'s reply or one error, encoded with original field names and defaults, and the info route reports the version and VM uptime as JSON strings.',
  ['inputs', 'fault_sequences', 'schedules'],
  'Every request on every route, every failing step and RPC outcome.',
  'Tests call each route once with fixed parameters; double answers, detached contexts and unchecked parameter errors show only under faults and cancellation.',
  ['internal/gateway/gateway.go', 'pkg/rpc/logcache_v1/egress.pb.gw.go', 'pkg/rpc/logcache_v1/promql.pb.gw.go', 'pkg/rpc/logcache_v1/egress.pb.go', 'pkg/rpc/logcache_v1/promql.pb.go'],
  [('routes', 'pkg/rpc/logcache_v1/*.pb.gw.go'), ('mux, marshaler and info document', 'internal/gateway/gateway.go listenAndServe, handleInfoEndpoint')])
P('C16', 'Gateway serves only TLS, from the configured log cache, and fails closed',
  'The gateway listens on its configured address only, serves that listener only over TLS with the configured certificate and never exposes the diagnostic handlers on it, and dials only the configured log cache with the configured options; started from its command, that dial verifies the peer as "log-cache" against the configured CA under TLS 1.2 or later. An invalid configuration, or a failure to listen or to load credentials, ends the process before anything is served, and so does a server that fails.',
  ['configurations', 'fault_sequences'],
  'Every configuration, and every failing start-up step, of the gateway and its command.',
  'Tests use one working configuration and never a failing start.',
  ['internal/gateway/gateway.go', 'cmd/gateway/main.go', 'cmd/gateway/config.go', 'internal/tls/tls.go'],
  [('start and serve', 'internal/gateway/gateway.go NewGateway, Start, listenAndServe'), ('wiring', 'cmd/gateway/main.go, cmd/gateway/config.go'), ('credentials', 'internal/tls/tls.go')])

# ---------------------------------------------------------------- transport

P('C17', 'Mutual TLS configurations are complete, or not produced at all',
  'Every configuration or credential the TLS helpers hand out is a fresh one that demands TLS 1.2 or later with exactly the approved cipher suites, never skips verification, presents the key pair and trusts the CA pool loaded from the given files, and expects the given peer name. When a file cannot be read, parsed or appended, an error is returned (or the process exits) and no configuration is produced.',
  ['configurations', 'fault_sequences'],
  'Every path, name and outcome of each loading step.',
  'Tests use valid files; a configuration that silently lacks its pool or its floor works in every test.',
  ['internal/tls/tls.go'],
  [('builders', 'internal/tls NewBaseTLSConfig, NewMutualTLSConfig, NewTLSCredentials, TLS.Credentials')])
P('C18', 'Certificate verification is on unless the operator turned it off',
  'No component disables TLS certificate verification except by a boolean setting of its operator, and then only on the connection that setting is about: no component changes the process-wide HTTP client or transport, none permits TLS below 1.2, and none opens a plaintext gRPC connection.',
  ['configurations', 'inputs'],
  'Every TLS configuration, HTTP client and dial option constructed anywhere in the repository.',
  'A relaxed configuration is indistinguishable in tests, which trust their own servers.',
  ['internal/blackbox/blackbox.go', 'internal/tls/tls.go', 'cmd/cf-auth-proxy/main.go', 'cmd/gateway/main.go'],
  [('InsecureSkipVerify settings', 'cmd/*/main.go, internal/blackbox/blackbox.go'), ('dial options', 'cmd/*/main.go')],
  'def-use dataflow query over the SSA of every function in the repository')
P('C19', 'Components reach log cache only over verified mutual TLS',
  'Every command ends before opening a connection when its configuration is invalid, dials only its configured addresses with credentials built from its configured CA, certificate and key expecting its documented peer name, stops when a dial fails, and serves gRPC only with such credentials. Plaintext listeners are bound only to the loopback health port.',
  ['configurations', 'fault_sequences'],
  'Every configuration and failing start-up step of each of the seven commands.',
  'Commands have no unit tests; a fallback to plaintext or a swapped file works until attacked.',
  ['cmd/log-cache/main.go', 'cmd/nozzle/main.go', 'cmd/scheduler/main.go', 'cmd/syslog-server/main.go', 'cmd/gateway/main.go', 'cmd/blackbox/main.go', 'cmd/cf-auth-proxy/main.go'],
  [('wiring', 'cmd/*/main.go'), ('configuration loading', 'cmd/*/config.go')])
P('C20', 'PromQL reads return the whole requested range or an error',
  'A PromQL data read walks exactly the requested source, time range, limit and envelope types of the log cache it was given, under the caller\'s context, and returns every delivered envelope in order. When the walk\'s last read failed or the caller gave up, it returns that error and no data.',
  ['inputs', 'fault_sequences'],
  'Every request, reader behaviour and failing or cancelled read.',
  'Tests fail the first read or none; a failure after some pages, or a range of several pages, is not sampled.',
  ['internal/promql/data_reader/walking_data_reader.go'],
  [('walk options, visitor and error report', 'internal/promql/data_reader/walking_data_reader.go Read')])
P('C21', 'Go bindings implement the published protobuf API exactly',
  'Every message, field, oneof, enum and service method of api/v1/*.proto has the Go binding the protobuf rules prescribe: same name, number, wire type, label and JSON name; same enum tables in both directions; accessors that return the stored value or its zero; client stubs and server handlers that invoke exactly their own method with the caller\'s context and options and hand request and reply on unaltered. Each message is encoded, decoded, sized, merged, reset and described as itself; nothing else is registered.',
  ['inputs'],
  'Every message, field, choice, enum value and RPC of the published API.',
  'Round-trip tests use one binding on both sides, so a wrong number, a missing choice or a swapped name agrees with itself.',
  ['pkg/rpc/logcache_v1/egress.pb.go', 'pkg/rpc/logcache_v1/ingress.pb.go', 'pkg/rpc/logcache_v1/promql.pb.go', 'pkg/rpc/logcache_v1/orchestration.pb.go', 'api/v1/egress.proto'],
  [('bindings', 'pkg/rpc/logcache_v1/*.pb.go'), ('published API', 'api/v1/*.proto')],
  'type-checked comparison of the bindings with the parsed .proto files, and ' + PATHS)
P('C22', 'Blackbox reports measured reliability, never an invented one',
  'Every reliability figure the blackbox reports is the number of points a query over exactly the configured source, window and lag returned, divided by the number emitted in that window; a failed query or an answer without series yields an error and no figure. Each tick emits one test envelope, retried up to five times and never after it was accepted. Measurements are sent once, unaltered, and only when there are any and the log cache is not known to be up for less than ten minutes.',
  ['inputs', 'fault_sequences', 'configurations'],
  'Every configuration, query answer, uptime and failing step.',
  'Tests sample one interval setting and a few answers; a false figure looks like any other figure.',
  ['internal/blackbox/blackbox.go', 'cmd/blackbox/main.go'],
  [('calculation', 'internal/blackbox ReliabilityCalculator.Calculate'), ('emission', 'internal/blackbox EmitMeasuredMetrics, StartEmittingTestMetrics'), ('reporting', 'cmd/blackbox/main.go')])

# ---------------------------------------------------------------- authorisation

P('C23', 'Proxy forwards a read only for an authorised source id',
  'The proxy serves only routes that have an authorisation rule, and forwards a read only when its Authorization header was validated and the caller is an admin or the authorizer allowed exactly the source id of the path. No other parameter of the forwarded request can name another source id. Every other request is answered 404 and never reaches the log cache.',
  ['inputs', 'fault_sequences'],
  'Every request to every route, every answer of the token reader and of the authorizer.',
  'Tests sample one denial per reason; a bypass needs an unusual route, parameter or failing step.',
  ['internal/auth/cf_auth_middleware.go'],
  [('read route and router', 'internal/auth/cf_auth_middleware.go Middleware')])
P('C24', 'Proxy forwards a query only rewritten to source ids its caller may read',
  'A PromQL query is forwarded only after its token was validated and its source ids were extracted and translated. The forwarded query is the original one with every source id replaced by a non-empty set: the id and its related ids, restricted for non-admins to those the authorizer allows. No other parameter can carry another query. A query that does not parse or names no source id is answered 400 with a Prometheus bad_data document, every other refusal 404.',
  ['inputs', 'fault_sequences'],
  'Every request to the query routes and every answer of extractor, translator, token reader and authorizer.',
  'Tests sample one or two source ids; a set that escapes the filter needs particular combinations of ids and answers.',
  ['internal/auth/cf_auth_middleware.go'],
  [('query route', 'internal/auth/cf_auth_middleware.go Middleware, authorizeSourceIds')])
P('C25', 'Proxy answers meta with only the caller\'s source ids',
  'A meta request is answered only after its token was validated: with the whole meta information for admins, and otherwise with exactly the entries of the source ids available to that token. A failed fetch is answered 502, a missing or invalid token 404, and the unfiltered answer of the log cache is never forwarded.',
  ['inputs', 'fault_sequences'],
  'Every meta request, token, meta answer and list of available source ids.',
  'Tests sample one non-admin with overlapping ids.',
  ['internal/auth/cf_auth_middleware.go'],
  [('meta route', 'internal/auth/cf_auth_middleware.go Middleware, onlyAuthorized')])
P('C26', 'Only unexpired RS256 tokens signed by a current UAA key identify a caller',
  'A token identifies a caller only when its signature was verified under RS256 with the RSA key held under its kid header, its payload decoded and its exp claim has not passed. The caller is an admin exactly when a scope is doppler.firehose or logs.admin, and the returned token and expiry are its own. Every other token yields an error and an empty context, and no header can crash the process. A token signed by an unknown key, or failing verification, makes the keys be refreshed.',
  ['inputs', 'fault_sequences'],
  'Every token, header set, payload and key state.',
  'Tests sample a few malformed tokens; forged headers, claim combinations and key rollover are unbounded.',
  ['internal/auth/uaa_client.go'],
  [('validation', 'internal/auth/uaa_client.go Read, loadOrFetchPublicKey, decodeToken')])
P('C27', 'Token keys are exactly those UAA last published, and refreshes are rate limited',
  'A key refresh asks only token_keys of the configured UAA, once, and only when the minimum interval since the last request has passed; the interval starts with the request, so failures are rate limited too. Keys change only after a 200 answer that decodes. After a successful refresh exactly the published keys are held, each under its own id and each a parsed RSA key. No answer can crash the process.',
  ['inputs', 'fault_sequences'],
  'Every prior key state, time since the last refresh and UAA answer.',
  'Tests sample single-key answers; retained or mixed-up keys show only across key rotations and failing refreshes.',
  ['internal/auth/uaa_client.go'],
  [('refresh', 'internal/auth/uaa_client.go NewUAAClient, RefreshTokenKeys')])
P('C28', 'A source id is authorised only by what CAPI lists for that very token',
  'A source id is authorised for a token only when it is among the guids of the apps and service instances CAPI listed for that token, in a live cached list or one just fetched. A listing asks only the configured CAPI, with exactly the caller\'s token, follows every page, and yields no id at all when a request fails, is not answered 200 or does not decode. Cached lists are kept per token for the configured time, a miss asks CAPI again at most three times per list, and only expired lists are pruned. Related ids are the guids of the apps listed under the given names.',
  ['inputs', 'fault_sequences'],
  'Every token, source id, cache content, clock and sequence of CAPI pages.',
  'Tests sample two-page listings and a few cache hits; leaks across tokens, partial listings and stale answers need particular histories.',
  ['internal/auth/capi_client.go'],
  [('listing', 'internal/auth/capi_client.go AvailableSourceIDs, doPaginatedResourceRequest'),
   ('cache', 'internal/auth/capi_client.go IsAuthorized, pruneTokens'),
   ('names', 'internal/auth/capi_client.go GetRelatedSourceIds')])
P('C29', 'Everything the proxy serves passes its authorisation, over verified TLS',
  'Every request the proxy serves goes through the access log and the authorisation middleware, whose token reader, authorizer, meta fetcher and translator are those built from the configured UAA, CAPI and log cache. Only requests that passed them are forwarded, to the configured gateway only. UAA, CAPI and gateway are asked over HTTPS verified against the configured CA, UAA and CAPI unverified exactly when SKIP_CERT_VERIFY is set; clients are served over TLS with the configured key pair, and a server that fails ends the process. Metrics and profiles are served on localhost only.',
  ['configurations', 'fault_sequences', 'inputs'],
  'Every environment the proxy can be started with and every failing step of its start.',
  'No test starts the process; a handler wired around the middleware or a transport without its CA serves ordinary use just as well.',
  ['cmd/cf-auth-proxy/main.go', 'internal/cfauthproxy/cf_auth_proxy.go'],
  [('wiring', 'cmd/cf-auth-proxy/main.go'), ('reverse proxy', 'internal/cfauthproxy/cf_auth_proxy.go Start, reverseProxy')])
P('C30', 'Every proxied request is logged once, on one line, before it is handled',
  'With an access log configured, every request makes exactly one entry, written before the request is handled, and is handled exactly once even when writing fails. The entry is a single line whatever the request contains, and names the request\'s own method, path, query, source address, request id and the host and port of the proxy.',
  ['inputs', 'fault_sequences'],
  'Every request, including paths, queries and headers chosen by an attacker, and every failing write.',
  'Tests sample plain paths; a forged line needs an encoded newline in a particular place.',
  ['internal/auth/access_log.go', 'internal/auth/access_logger.go', 'internal/auth/access_middleware.go'],
  [('entry', 'internal/auth/access_log.go String'), ('writer', 'internal/auth/access_logger.go LogAccess'), ('handler', 'internal/auth/access_middleware.go AccessHandler')])

# ---------------------------------------------------------------- store

P('C31', 'The store keeps every envelope it is given, up to each source\'s newest',
  'Every envelope put into the store is inserted exactly once, under its own source id, in timestamp order, and envelopes that share a timestamp are all kept. An envelope is given up only when its source already holds the configured maximum, and then exactly the oldest one goes. No insertion is lost to a truncation that removes its source at the same moment. The store\'s count, each source\'s oldest, newest and expired figures and the ingress, expired, size and cache-period metrics follow every insertion.',
  ['inputs', 'schedules', 'histories'],
  'Every envelope, source id, store content and interleaving with truncation.',
  'Tests sample a few timestamps and sizes; a lost envelope needs equal timestamps, a full source or a removal at the right moment.',
  ['internal/cache/store/store.go'],
  [('insertion', 'internal/cache/store/store.go (Store).Put, (storage).insertOrSwap, getOrInitializeStorage'), ('order', 'internal/cache/store/store.go compareKeys')])
P('C32', 'A store read returns exactly the matching envelopes, in order',
  'A read of a source returns its envelopes with start <= timestamp < end, of the requested types and names, in timestamp order ascending or descending as asked, and no others; stored envelopes are never changed by a read. It stops at the limit, but never between envelopes that share a timestamp, and never short of the limit while matching envelopes remain. A filtered gauge keeps everything but the metrics whose names do not match. What is returned is counted once as egress.',
  ['inputs', 'histories'],
  'Every tree of envelopes, bound, limit, order, type list and name filter.',
  'Tests sample small trees; a wrong pruning decision shows only for particular shapes and bounds.',
  ['internal/cache/store/store.go'],
  [('read', 'internal/cache/store/store.go (Store).Get'), ('traversal', 'internal/cache/store/store.go treeAscTraverse, treeDescTraverse'), ('filters', 'internal/cache/store/store.go filterByName, validEnvelopeType, checkEnvelopeType')],
  technique='inductive path-partitioned dataflow over the traversals (one arbitrary node, subtree calls opaque) and the visitor, compared with a per-path specification')
P('C33', 'Truncation removes only the oldest envelopes, and no more than asked',
  'The store truncates itself forever at a fixed interval. Each truncation asks the memory consultant once, for the store\'s own count, and removes that many envelopes unless none are left, each the oldest of the source whose oldest is the oldest of all. A source that is emptied leaves the index, marked so that nothing is inserted into it, and no other source does. Counts, meta, size, expired and cache-period figures follow, truncation never blocks on a reader and never panics, and Meta reports every source with its own figures and the size of its tree. The consultant asks for nothing below the memory limit and for the excess share above it.',
  ['histories', 'schedules', 'inputs'],
  'Every store content, quantity asked for and interleaving with insertions.',
  'Tests truncate a few fixed stores; removing from the wrong source, too much, or a source that just got an envelope needs particular histories.',
  ['internal/cache/store/store.go', 'internal/cache/store/prune_consultant.go'],
  [('loop', 'internal/cache/store/store.go truncationLoop, truncate, removeOldestEnvelope'), ('heap', 'internal/cache/store/store.go BuildExpirationHeap, ExpirationHeap'), ('meta', 'internal/cache/store/store.go (Store).Meta'), ('quantity', 'internal/cache/store/prune_consultant.go GetQuantityToPrune')])
P('C34', 'Concurrent store operations never touch a source\'s data unlocked',
  'Every access to a source\'s tree, its nodes, meta, sequence and removed mark, by any store operation or the truncation, happens under that source\'s own lock, changes under the exclusive lock. Locks are released on every path, never taken twice, taken in one global order, and not held while waiting. A field that is accessed atomically anywhere in the repository is accessed only so once its object is shared.',
  ['schedules'],
  'Every interleaving of puts, reads, meta calls and truncation.',
  'A race needs two operations on one source at one moment; tests run too few interleavings to meet it.',
  ['internal/cache/store/store.go'],
  [('locks', 'internal/cache/store/store.go storage.RWMutex, initializationMutex'), ('atomics', 'internal/cache/store/store.go count, oldestTimestamp')],
  technique='lockset dataflow over all operations and the goroutine they share data with; lock-order graph; def-use query for atomic fields')

P('C35', 'Envelopes are sent to exactly the nodes that own their source',
  'Setting ranges replaces the whole routing table by the given ranges of the known nodes, each with its own bounds and node. Looking a source up yields every node with a range that contains the source\'s hash, bounds included, and no other. A send that is not local-only hands every envelope to every node its source maps to, in one request per node that is not routed again, under the caller\'s context; a node that fails does not keep the others from their envelopes. A local-only send goes to this node, as it is.',
  ['inputs', 'configurations', 'fault_sequences'],
  'Every set of ranges, node list, hash, batch and failing node.',
  'Tests use two nodes and a handful of ranges; overlapping or adjacent ranges, unknown nodes and mixed batches need particular values.',
  ['internal/routing/routing_table.go', 'internal/routing/ingress_reverse_proxy.go'],
  [('table', 'internal/routing/routing_table.go NewRoutingTable, SetRanges'), ('lookup', 'internal/routing/routing_table.go Lookup'), ('forwarding', 'internal/routing/ingress_reverse_proxy.go Send')])
P('C36', 'Reads and meta requests are answered by nodes that have the data',
  'A read goes, as it is and once, to this node if it is one of the source\'s nodes and to one of the source\'s nodes otherwise; a source without a node gets an error. A local-only meta request reports this node, any other merges what every node reports of itself, asks no node to ask others, and fails only if every node failed. Meta is answered from a cache only while the cached answer is no older than the configured duration; failures are not cached, the two kinds of answer have separate caches, and a cached answer is never changed.',
  ['inputs', 'configurations', 'fault_sequences', 'histories'],
  'Every node list, owner set, failing node and cache age.',
  'Tests use a spy per node and one failure; wrong owners, a cached failure or an endless fan-out need particular combinations.',
  ['internal/routing/egress_reverse_proxy.go'],
  [('read', 'internal/routing/egress_reverse_proxy.go Read'), ('meta', 'internal/routing/egress_reverse_proxy.go localMeta, remoteMeta'), ('cache', 'internal/routing/egress_reverse_proxy.go metaCache')])
P('C37', 'A node routes by exactly the ranges it was given, whole at a time',
  'The orchestration agent\'s ranges are those added and not removed since: adding appends the given range and refuses a missing one, removing takes out one range equal to the given one and no other, listing returns a copy. Setting ranges is passed on as it is. Every operation of the agent and of the routing table is one critical section: nobody sees a table half set, and no data of theirs is touched without the lock.',
  ['histories', 'schedules', 'inputs'],
  'Every sequence and interleaving of range operations and lookups.',
  'Tests call the operations one after another with few ranges; a lookup during a change of ranges is a matter of schedule.',
  ['internal/routing/orchestrator.go', 'internal/routing/routing_table.go'],
  [('ranges', 'internal/routing/orchestrator.go AddRange, RemoveRange, ListRanges, SetRanges'), ('locks', 'internal/routing/routing_table.go mu, internal/routing/orchestrator.go mu')],
  technique='path-partitioned abstract interpretation of the operations; lockset dataflow over all of them; def-use query for atomic fields')

P('C38', 'A read request means the same to every node: defaults, limits, filters',
  'A read is refused, without the store being read, exactly if it ends before it starts (an end of zero is no end), its limit is negative or above 1000, or its name filter is no regular expression. Any other is answered with what the store returns for its source, start, end (now if there is none), the types it names other than ANY, its compiled name filter (none if empty), its limit (100 if zero) and its direction. Meta answers every source the store reports with the figures of that source.',
  ['inputs'],
  'Every read request: times, limits, types, filters and direction together.',
  'Tests check one refused and one accepted value each; an off-by-one limit or an argument swapped for some combinations passes them.',
  ['internal/routing/local_store_reader.go'],
  [('reader', 'internal/routing/local_store_reader.go Read, Meta, NewLocalStoreReader')])

P('C39', 'The blackbox keeps emitting and sampling until it is stopped',
  'Once started, the blackbox emits a test metric at every tick of the emission interval and takes a sample at every tick of the sample interval, side by side, and nothing but a failed start ends either: no answer, error or missed tick does. It waits for nothing but those ticks; every HTTP request it makes is bounded in time. It writes only through a connection that was made, gives up a start whose dial keeps failing, and asks UAA for tokens under the configured address, id and secret, leaving certificates unverified exactly when SKIP_TLS_VERIFY is set.',
  ['fault_sequences', 'configurations', 'schedules', 'histories'],
  'Every sequence of failing and slow answers, every failing step and configuration.',
  'Tests run one emission or one sample at a time and never main; a loop that ends or stalls shows only after a fault.',
  ['cmd/blackbox/main.go', 'internal/blackbox/blackbox.go'],
  [('emitter', 'internal/blackbox/blackbox.go StartEmittingTestMetrics'), ('sampling', 'cmd/blackbox/main.go main'), ('clients', 'internal/blackbox/blackbox.go NewIngressClient, NewHttpEgressClient, buildHttpClient')])

P('C40', 'Envelopes sent through a batching client are shipped in order, or counted',
  'The batching client takes envelopes from any number of senders at once: Send queues every envelope of its request, in order and without waiting for the network. One background loop, which never ends and does not spin, hands each queued envelope once to a batcher of the given size and interval and flushes what waits while nothing new arrives. Each batch is shipped whole and in order by one request with a deadline, to be routed by the receiver only if the client was made for that. Envelopes that overtook the queue are added to the dropped counter.',
  ['inputs', 'schedules', 'fault_sequences', 'configurations'],
  'Every request, batch, interleaving of senders and failing destination.',
  'Tests send one or two envelopes from one goroutine; a lost, doubled or reordered envelope needs a batch boundary, an overflow or two senders.',
  ['internal/routing/batched_ingress_client.go'],
  [('batching', 'internal/routing/batched_ingress_client.go NewBatchedIngressClient, Send, start, write')])

P('C41', 'The nozzle asks for what it is told to and ships every envelope once, in batches',
  'The nozzle asks the logs provider, once, for its shard and for exactly the configured kinds of envelope, in order and each by its own selector; a kind nobody knows stops it instead of being asked for. Every envelope read is queued and counted once, in order, by as many readers as the queue is made for. Batches are gathered without ever waiting on a full queue of the writers or on new envelopes, are handed over at the latest when the flush interval ends or a bounded size is reached, and are never written to again. Each is sent whole by one request with its own deadline, to be routed by the receiver, and counted as sent or as an error. Nothing but a failure to dial the configured log cache ends any of this.',
  ['inputs', 'schedules', 'fault_sequences', 'configurations', 'histories'],
  'Every configuration, envelope stream, full queue and failing request.',
  'Tests send a few envelopes through a healthy connection; a batch written to after it was handed over, or a flush that never comes again, needs load or timing.',
  ['internal/nozzle/nozzle.go'],
  [('request', 'internal/nozzle/nozzle.go buildBatchReq'), ('pipeline', 'internal/nozzle/nozzle.go Start, envelopeReader, envelopeBatcher, envelopeWriter')])

P('C42', 'A node serves every request with the store and the routes it was configured with',
  'A node made with any options keeps the configured number of envelopes per source, prunes at the configured memory limit by the memory actually in use, listens on the configured address and lets queries take the configured time; what is not configured has its documented default. Sources are hashed by CRC-64 (ECMA). The routing table that ingress and reads are routed by is made for the configured nodes and is the one the scheduler changes. Every node has exactly one ingress and one egress client, in the order of the nodes: this node\'s own put every envelope of a request into its store under its own source and read from that store, the others go through a connection to that node with the configured options, batched, not to be routed on, and with a dropped counter of their own. All four services are registered, before the node serves. A node that cannot listen or dial stops; one that can no longer serve stops too, unless it was closed.',
  ['configurations', 'inputs', 'fault_sequences'],
  'Every set of options, node list, own index in it, request and failing dial.',
  'Tests start one or two nodes with one configuration; a shifted client or an option that gets lost shows with other node lists only.',
  ['internal/cache/log_cache.go', 'internal/cache/memory_analyzer.go'],
  [('wiring', 'internal/cache/log_cache.go New, Start, setupRouting, Close'), ('memory', 'internal/cache/memory_analyzer.go Memory')])

P('C43', 'The syslog server forwards every valid message once, converted faithfully',
  'The syslog server listens, with TLS under the given certificate only, on the configured port and handles every accepted connection on its own, with its own parser, until the peer is silent for the idle timeout; the connection is then closed. A temporary failure to accept does not end the server. Every message that parses and has an app name, process id and timestamp is forwarded to the log cache exactly once as one envelope, not confined to the node that receives it: source id the app name, timestamp the message\'s, instance id the last part of the process id, and a counter, gauge, event or timer with the values of the structured data of that kind, or else a log with the trimmed text (type ERR exactly for priority 11) tagged with the source type. Every other message is not forwarded, and counted as invalid; a message the log cache does not take is counted neither way. No message crashes the server.',
  ['inputs', 'fault_sequences', 'schedules'],
  'Every message, with or without each optional field and kind of structured data, every order of connections and every failure to accept, parse or forward.',
  'Tests send a few well formed messages over one connection; a field left out, a failing accept or a second connection shows only in the field.',
  ['internal/syslog/server.go'],
  [('server', 'internal/syslog/server.go NewServer, Start, handleConnection, parseListener, convertToEnvelope')])

# ---------------------------------------------------------------- promql

P('C44', 'A PromQL selector gets every point of its source ids that matches, and no other',
  'A selector of a PromQL query reads every source id it names (each one a source_id matcher equals, each alternative of one it matches) over the time span the engine asks for, under the query\'s context, counters, gauges and timers included. Every envelope read that has the selector\'s metric (by its sanitized name) and satisfies all of its matchers becomes exactly one point, with the counter\'s total, the gauge\'s value or the timer\'s duration at the envelope\'s whole second; no other envelope does. Labels are the envelope\'s tags with its own source_id and instance_id on top. Points with equal labels form one series, points with different labels never do, and the engine can go over each series, and several times, without missing a point. A selector without source ids, or a failed read, makes the query fail: it is never answered with part of the data.',
  ['inputs', 'fault_sequences'],
  'Every list of matchers, every answer or failure of the data source, every envelope, tag set and metric name, every use of the series by the engine.',
  'Tests query a few series with plain tags; colliding series keys, negative matchers, tags that shadow ids and a failing second read show only for particular inputs.',
  ['internal/promql/promql.go'],
  [('selection', 'internal/promql/promql.go (LogCacheQuerier).Select'), ('series', 'internal/promql/promql.go seriesSetBuilder, concreteSeriesSet, concreteSeries, concreteSeriesIterator'), ('names', 'internal/promql/promql.go SanitizeMetricName')])
P('C45', 'A PromQL query is evaluated as asked, reported whole, or refused',
  'An instant query is evaluated for the given expression at the time asked for, or now if none is given; a range query from the start to the end asked for with the step asked for; both under the request\'s context and the configured timeout. Times and steps that do not parse, an expression that does not parse, a step of zero or less and a range of unreasonably many steps are refused with an error before anything is evaluated. Every scalar, vector or matrix the engine answers is reported whole: every series, label and point, times in seconds with three decimals. An error of the engine, or of the data source (which the engine drops), makes the query fail, and counts as failed; nothing is then reported. No request or result panics.',
  ['inputs', 'fault_sequences', 'configurations'],
  'Every request (absent and malformed fields included), every result and error of the engine and the data source.',
  'Tests evaluate a few queries; a step of zero, an unbounded range, a result of another kind or an error dropped by the engine needs a particular request or failure.',
  ['internal/promql/promql.go', 'internal/promql/parsing.go'],
  [('queries', 'internal/promql/promql.go InstantQuery, RangeQuery, toInstantQueryResult, toRangeQueryResult'), ('parsers', 'internal/promql/parsing.go ParseTime, ParseStep')])
P('C46', 'The source ids taken from a query are exactly those evaluating it would read',
  'The source ids extracted from a PromQL query, by which it is authorised, are exactly the ones evaluating it would read: those of every vector and matrix selector anywhere in the expression, each value a source_id matcher equals and each alternative of one it matches, no more and no fewer. Replacing source ids by the ids they stand for replaces each of them, in every selector, by all of its replacements, matched as alternatives when there are several, and leaves every other matcher, label and part of the expression alone. A query that does not parse is refused.',
  ['inputs'],
  'Every query: every nesting of selectors, matcher kind and set of replacements.',
  'Tests extract from a few expressions; an id missed in one kind of selector or matcher lets a user read logs that were never authorised.',
  ['internal/promql/promql.go'],
  [('extraction', 'internal/promql/promql.go ExtractSourceIds, sourceIDVisitor'), ('replacement', 'internal/promql/promql.go ReplaceSourceIdSets, sourceIdReplacementVisitor')])

# ---------------------------------------------------------------- scheduler

P('C47', 'The scheduler splits all hashes among nodes, and only a leader changes them',
  'The scheduler gives its orchestrator every configured node and exactly the configured number of ranges: equal shares that start at hash zero, follow each other without gap or overlap and end at the highest hash, each to be kept on as many nodes as the replication factor says. Terms run without end, the first at once and the others at the configured interval; after each the leader, and nobody else, sends every node, one failing node not excepted, the complete table of every node\'s ranges by its address, made of what the nodes listed after the changes of the term. A node is asked, given and relieved of exactly the range the orchestrator names, by the leader only; a failed call is reported, never taken for an empty list, and each call is bounded in time. The scheduler is the leader if no election is configured, or if the endpoint answers 200, and not if it cannot be reached or does not answer in time.',
  ['inputs', 'fault_sequences', 'configurations'],
  'Every number of nodes and ranges, every answer and failure of the nodes and of the election endpoint, every list the orchestrator holds.',
  'Tests run a scheduler with a few ranges against nodes that answer; a gap at the seams, a failing node that hides the others or a follower that still changes routes needs particular counts and failures.',
  ['internal/scheduler/scheduler.go', 'cmd/scheduler/main.go'],
  [('ranges and terms', 'internal/scheduler/scheduler.go Start, setRemoteTables, convertWorkerState'), ('orders', 'internal/scheduler/scheduler.go (comm).List, Add, Remove'), ('election and options', 'cmd/scheduler/main.go main')],
  note='Assumes at least one range is configured (a count of zero is a configuration error and stops the scheduler at start).')

# ---------------------------------------------------------------- configuration

P('C48', 'Every component runs with the settings it is given, and keeps its secrets',
  'Each command reads its settings once from the environment variables operators set for it, under their names, with their defaults for those left out, and requires the same ones. Each setting reaches exactly the part it is for, unchanged: addresses, certificates and keys, ports, limits, time-outs, node index and list, shard, selectors and version; what is made of them is started once. The nozzle counts every envelope batch its stream drops, the log cache reports its uptime in seconds, and the access log names the proxy by its configured address and port. Client ids and secrets that are kept out of the start-up report stay out of it, and are not written to any log by the commands.',
  ['configurations'],
  'Every command and every value of its settings.',
  'Tests set up components by hand; the commands that wire settings to them, and what they print, are not run.',
  ['cmd/log-cache/main.go', 'cmd/log-cache/config.go', 'cmd/nozzle/main.go', 'cmd/nozzle/config.go', 'cmd/syslog-server/main.go', 'cmd/syslog-server/config.go', 'cmd/gateway/main.go', 'cmd/gateway/config.go', 'cmd/blackbox/main.go', 'cmd/blackbox/config.go', 'cmd/scheduler/config.go', 'cmd/cf-auth-proxy/main.go', 'cmd/cf-auth-proxy/config.go'],
  [('settings', 'cmd/*/config.go Config, LoadConfig'), ('wiring', 'cmd/*/main.go main')])

P('C49', 'Secrets and tokens never reach logs, errors, replies or addresses',
  'OAuth2 client secrets, user passwords, the access tokens fetched with them and the Authorization headers callers send are only used to authenticate. No component writes one, or a text or encoded value made from one, to a log, standard output, a file, a metric, a panic message or an error, answers a request with it, or puts it into the address of a request or into a header other than Authorization.',
  ['inputs', 'fault_sequences'],
  'Every function of the program, every secret and every failing step.',
  'Tests check what calls return, not what is logged or what the text of an error gives away on a rare path.',
  ['pkg/client/oauth2_http_client.go', 'internal/blackbox/blackbox.go', 'internal/auth/uaa_client.go', 'internal/auth/capi_client.go', 'internal/auth/cf_auth_middleware.go', 'internal/auth/access_log.go', 'cmd/blackbox/main.go', 'cmd/cf-auth-proxy/main.go'],
  [('token requests', 'pkg/client/oauth2_http_client.go doTokenRequest, Do'), ('bearer tokens', 'internal/auth/*.go'), ('settings', 'cmd/*/config.go')],
  technique='interprocedural taint analysis')

P('C50', 'Shared state is never accessed by two goroutines or requests unsynchronised',
  'Whatever the schedule, no two of the goroutines the components start, the HTTP requests and RPCs they serve, the calls users make of one client, walker or option at the same time, and the calls a component\'s owner makes once it is started, access the same state at the same time when one of them changes it: they hold a common lock, use atomic operations, or the state no longer changes once they run. What a request or a walk works with is its own.',
  ['schedules', 'inputs'],
  'Every pair of accesses, by every pair of entry points that can overlap, on every path.',
  'The race detector only sees the schedules a test happens to run, and most tests use a component from one goroutine.',
  ['pkg/client/client.go', 'pkg/client/oauth2_http_client.go', 'pkg/client/window.go', 'pkg/marshaler/marshaler.go', 'internal/gateway/gateway.go', 'internal/routing/routing_table.go', 'internal/routing/orchestrator.go', 'internal/routing/egress_reverse_proxy.go', 'internal/cache/log_cache.go', 'internal/cache/store/store.go', 'internal/cache/memory_analyzer.go', 'internal/auth/uaa_client.go', 'internal/auth/capi_client.go', 'internal/syslog/server.go', 'internal/nozzle/nozzle.go'],
  [('locks', 'pkg/client/oauth2_http_client.go mu; internal/routing/routing_table.go mu; internal/routing/orchestrator.go mu; internal/cache/store/store.go storage; internal/syslog/server.go'), ('atomics', 'internal/auth/uaa_client.go lastQueryTime; internal/routing/egress_reverse_proxy.go meta caches; internal/cache/store/store.go count'), ('entry points', 'every go statement, HTTP handler and RPC method')],
  technique='interprocedural static race detection (must-hold locksets, sharing and entry-point analysis)')

# ---------------------------------------------------------------- not applicable

def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, reason=reason, prop=dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech)))

N('N01', 'The memory the cache uses stays near its limit',
  'Under any ingress, the share of system memory the process uses stays close to the configured memory limit: truncation keeps up, and does not empty the cache needlessly.',
  ['inputs', 'schedules'], 'Every ingress rate, envelope size and machine.',
  'Tests use a fake memory reading.',
  ['internal/cache/store/store.go', 'internal/cache/memory_analyzer.go'], [('control loop', 'internal/cache/store/store.go truncate')],
  'Quantifies over heap sizes, garbage collection and rates at run time, which no static argument in reach bounds. What can be decided from the source (how much is asked for, and that exactly that is removed) is C33.')
N('N02', 'Envelopes become readable within a bounded time, or are counted as dropped',
  'An envelope accepted by any node or nozzle can be read through any node within a bounded time, or is counted as dropped by exactly one of the components it passed.',
  ['schedules', 'fault_sequences'], 'Every schedule and failure of nodes and connections.',
  'End-to-end tests run one healthy schedule.',
  ['internal/routing', 'internal/nozzle'], [('ingress path', 'internal/routing/ingress_reverse_proxy.go Send')],
  'A liveness bound across processes, queues and a network; diodes drop by overtaking, which depends on run-time rates. The static parts (what is forwarded where, what each dropping site counts) are claimed separately.')
N('N03', 'PromQL operators and functions compute what Prometheus defines',
  'For every expression, the value of a query equals what Prometheus defines for the samples of the log cache.',
  ['inputs'], 'Every expression and sample set.',
  'Tests evaluate a few expressions.',
  ['internal/promql'], [('engine', 'internal/promql/promql.go')],
  'Evaluation happens in the vendored Prometheus engine, which is not part of the repository and not available here. What log-cache hands to the engine and takes from it is claimed separately.')
N('N04', 'Reads stay fast while the store is written and truncated',
  'A read returns within a bounded time whatever is put and truncated at the same moment.',
  ['schedules'], 'Every load.',
  'Benchmarks measure one machine.',
  ['internal/cache/store/store.go'], [('locks', 'internal/cache/store/store.go storage.RWMutex')],
  'A latency claim over scheduler and hardware. Its static part, that no lock is held while waiting and that locks are ordered, is C34.')
