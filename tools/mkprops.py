#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

M='onionmsg/messenger.go'; R='routes/blinded.go'; S='rpcserver/server.go'
p('C01','Onion messages reach exactly their destination, with their content intact',
 """When a send is accepted and every node on the way runs this software and relays, the final recipient receives, exactly once,
 every final payload of the request with its type and its exact bytes (also an empty value), together with the exact reply path of the request (or none),
 and hands them to the handlers registered for those types. This holds for a clear destination and for a blinded destination, over any number of
 unblinded hops including none, with direct connect or a queried route. No other node ever hands any of it to a handler.""",
 ['inputs','configurations'],
 'all path lengths the onion can carry, clear or blinded destination (any blinded route length), direct or routed, any set of final payload types/values, with or without reply path',
 """Unit tests build routes with mocked blinding and compare structures hop by hop; no test sends a message through real nodes, and none looks at the payload
 delivered when the sender is directly connected to the introduction node of a blinded route.""",
 [M,R,'lnwire/onion_msg_payload.go','rpcserver/impl_sendonionmessage.go'],
 [('SendMessage builds the blinded onion',M+': SendMessage'),('CreateBlindedRoute / blindedToSphinx / directToBlinded',R),('handleOnionMessage exit-node dispatch',M)],
 [('final payloads','tlvs >= 64 carried for the last hop','lnwire.OnionMessagePayload.FinalHopPayloads')],
 ['custom messages handed to lnd','handler invocations / subscription responses'])
p('C02','Relays forward to exactly the next node with the right blinding',
 """For every onion message that is not addressed to it, a node sends exactly one message, of the onion message type, to exactly the node named in its own encrypted data, carrying the
 peeled onion and the blinding point derived for the next hop - or the override point when its encrypted data contains one.
 If the onion carries final payloads for this intermediate hop, or its encrypted data is missing, undecryptable or names no next node, nothing is forwarded; a failure to forward one message never affects another.""",
 ['inputs','histories'],
 'all onions (path position, override present or not, malformed variants) interleaved in any order with other messages, failing and succeeding relays',
 'Tests call forwardMessage and handleOnionMessage with mocks for one message; the blinding point actually put on the wire is never checked by the node that has to use it.',
 [M,'onionmsg/onion.go','lnwire/route_blinding.go'],
 [('forwardMessage',M),('decryptBlobFunc','onionmsg/onion.go'),('MoreHops branch of handleOnionMessage',M)],
 [('blinding point','ephemeral key that lets the next node derive its blinded key','lnwire.OnionMessage.BlindingPoint')],
 ['custom messages handed to lnd'])
p('C03','A replayed onion is never acted on twice',
 """Once a node has acted on an onion (delivered its payloads or forwarded it), any later copy of that onion - immediately, after other traffic, from another peer, or repeatedly - causes no delivery and no forward.
 Two separate sends of identical content are never mistaken for replays: each one is delivered.""",
 ['histories'],
 'all histories of arrivals with repetitions, over delivering and forwarding nodes and any number of other messages between the copies',
 'No test sends the same onion twice through the real router; the unit tests replace onion processing by a mock.',
 [M], [('router with replay log',M+': NewOnionMessenger, processOnion'),('fresh session and blinding keys per send',M+': SendMessage')],
 [('replay log','shared secrets already seen','sphinx.MemoryReplayLog')], ['handler invocations','custom messages handed to lnd'])
p('C04','No inbound message can take the messenger down or harm other messages',
 """Whatever custom messages arrive - other message types, truncated or random bytes, onions for someone else, malformed payloads, messages whose handler or relay fails -
 the messenger keeps running, asks for no shutdown, and processes every following valid message exactly as if the bad one had never arrived. Messages of other types never reach a handler and are never relayed.""",
 ['inputs','histories','fault_sequences'],
 'all sequences of inbound custom messages mixing valid and invalid ones, with handler and relay failures at any position',
 'Tests feed single bad messages to an internal function; what the event loop does with the message after it is only sampled.',
 [M,'lnwire/onion_message.go','lnwire/onion_msg_payload.go'], [('per-message errors are logged only',M+': manageOnionMessages'),('type filter',M+': manageOnionMessages')],
 observe=['handler invocations','custom messages handed to lnd','shutdown callback'])
p('C05','Payload dispatch follows the handler registry',
 """A message addressed to us is handed, payload by payload in ascending type order, to exactly the handlers registered for those types at that time - once each, with the payload's value, the message's reply path and its encrypted data - and payloads without handler are skipped without affecting the others.
 If a handler fails, the remaining payloads of that message only are dropped. Final payload types below 64 are never delivered.""",
 ['inputs','schedules'],
 'all sets of registered types, all payload sets (including empty values and types the code knows), handler results, and registrations or deregistrations racing with delivery',
 'Tests use one or two fixed payloads and a mocked payload decoder.',
 [M,'lnwire/onion_msg_payload.go'], [('handler map owned by the event loop',M+': manageOnionMessages, registerHandler'),('DecodeOnionMessagePayload','lnwire/onion_msg_payload.go')],
 [('onionMsgHandlers','type -> handler',M)], ['handler invocations'])
p('C06','Handler registration is atomic and exclusive',
 """Concurrent registrations and deregistrations behave as if executed one at a time in some order consistent with real time: a type has at most one handler, registering a taken type fails with 'handler already registered' and leaves the existing handler in place, deregistering a free type fails with 'handler not found', and a handler is called only between its registration and its deregistration.
 Types below 64 are always refused, and any call before start is refused rather than left waiting.""",
 ['schedules','histories'],
 'all interleavings of register/deregister calls by concurrent callers, message deliveries, start and stop',
 'Tests register sequentially from one goroutine.',
 [M], [('hand-off channel to the event loop',M+': handleRegistration, registerHandler')],
 [('onionMsgHandlers','type -> handler',M)], ['RegisterHandler/DeregisterHandler results','handler invocations'])
p('C07','Messenger start and stop: once, complete, and never a hung caller',
 """The messenger starts at most once and stops at most once; a second start or stop fails. Stop waits for work in progress and, after it has returned, no handler runs and no message is relayed; registration calls that are waiting when stop happens, or come later, return an error instead of hanging.
 A stop requested by us is never reported as a failure to the shutdown callback.""",
 ['schedules','histories'],
 'all interleavings of start, stop, registrations, inbound messages and running handlers',
 'Tests start, use and stop in one order; none stops while calls wait or a handler runs.',
 [M], [('started/stopped flags, quit channel, wait group',M+': Start, Stop')], [('quit','closed on stop',M)], ['Start/Stop/Register results','handler invocations','shutdown callback'])
p('C08','Loss of the lnd message stream is reported exactly once',
 """If subscribing to lnd's messages fails, or the message stream ends or reports an error while running, the shutdown callback is called exactly once with an error, whatever else is going on; messages received before the failure are still handled first.
 It is never called otherwise, and handler registrations after the loss return an error instead of waiting. The daemon passes this on to the configured shutdown request (exactly once), and works without one configured.""",
 ['fault_sequences','schedules'],
 'all points in the history of the stream at which it can fail (before, between, during handling of messages, during and after stop), each way of failing',
 'Tests cover two failures of an idle messenger.',
 [M,S,'boltnd.go'], [('requestShutdown in the event loop goroutine',M+': Start'),('Boltnd.requestShutdown','boltnd.go')], observe=['shutdown callback'])
p('C09','Subscribers get every message for their type, in order, once, unaltered',
 """While a subscription is active, each message addressed to us that carries the subscribed payload type (unless handing over another payload of that same message failed first) produces exactly one response on that stream, in arrival order, with the exact payload bytes and reply path (absent when the sender gave none), and messages without that type produce none.
 Concurrent subscriptions for different types do not affect each other's content or order, and a client that reads slowly delays messages but never loses, duplicates or reorders them.""",
 ['schedules','histories'],
 'all interleavings of arrivals, slow and fast readers and several subscriptions',
 'Tests push one or two messages through a mock messenger.',
 ['rpcserver/impl_subscribe_onion_payload.go',M], [('channel between handler and stream loop','rpcserver/impl_subscribe_onion_payload.go: handleSubscribeOnionPayload')], observe=['stream Send calls'])
p('C10','Subscriptions are exclusive per type and always end and release it',
 """At most one subscription per payload type is active: another one is refused with Unavailable and does not disturb the first; types below 64 are refused as InvalidArgument.
 A subscription ends - Canceled when the client leaves, the send error when the stream breaks, Aborted when the server stops - even with messages in flight, as soon as no other subscriber is holding up a message, and once it has ended its type can be subscribed again and other messages keep flowing.""",
 ['schedules','fault_sequences'],
 'all interleavings of arrivals, client cancel, stream failure, server stop and new subscriptions, including failures while messages are queued behind the failing one',
 'Tests end a subscription only when it is idle and use a mock messenger that always deregisters at once.',
 ['rpcserver/impl_subscribe_onion_payload.go',M], [('deferred DeregisterHandler and handler select','rpcserver/impl_subscribe_onion_payload.go')], observe=['RPC results','stream Send calls'])
p('C11','No peer connection without opt-in, and never an unbounded wait',
 """A send makes a peer connection only if direct connect was requested and the target is not already a peer; then it makes exactly one connection request, permanent, to the target's first advertised address, and sends only after the target is seen among the peers.
 If the target has no address, the connection fails or it does not appear within five polls (about one second apart), or the caller cancels, the send fails and nothing is sent.""",
 ['inputs','fault_sequences'],
 'all combinations of request mode, peer state, graph data and lnd failures at every call, and every poll at which the peer can appear',
 'Tests script a handful of call sequences with strict mocks.',
 [M], [('lookupAndConnect',M)], observe=['Connect and SendCustomMessage calls to lnd','RPC status'])
p('C12','A send puts exactly one message on the wire or reports why not',
 """A successful send hands lnd exactly one message of the onion message type, addressed to the first node of the route (to the target itself with direct connect); a failed send hands over none, except that a failure of that very hand-over is reported.
 The route is always asked for the destination or, for a blinded destination, its introduction node, and never limited by fees or liquidity knowledge; no route gives NotFound, any other failure Internal, and every lnd failure surfaces as an error.""",
 ['inputs','fault_sequences'],
 'all request shapes and all outcomes (success, error, absent or malformed data) of every lnd call made on behalf of a send',
 'Tests sample a few failing calls one at a time.',
 [M,'rpcserver/impl_sendonionmessage.go'], [('SendMessage',M),('multiHopPath, queryRoutesRequest',M)], observe=['lnd calls','RPC status'])
p('C13','Invalid send requests are refused before anything happens',
 """A send request that names both or no destination, a malformed key anywhere (destination, introduction node, blinding point, any hop), a blinded destination without hops, or a final payload type below 64 is refused with InvalidArgument and causes no call to lnd; every well-formed request is accepted for sending.""",
 ['inputs'], 'all combinations of present, absent, empty and malformed request fields',
 'Tests check one request per error.',
 ['rpcserver/impl_sendonionmessage.go','rpcserver/common.go',M], [('parseSendOnionMessageRequest','rpcserver/impl_sendonionmessage.go'),('SendMessageRequest.Validate',M)], observe=['RPC status','lnd calls'])
p('C14','Blinded routes start at the best-connected capable active peer',
 """A generated route's introduction node is always a peer with whom we have an active channel (public or private), that is known in the graph with node information, has at least one public channel, and has every required (even) feature requested set exactly - optional (odd) features requested never exclude anyone; among those it has the most channels, the first listed one winning ties.
 Peers unknown to the graph are skipped; any other lookup failure, having no active channel, or no eligible peer is reported as an error (Internal) and no route is returned; a feature above 65535 is InvalidArgument.""",
 ['inputs','configurations'], 'all sets of channels and peers (active/inactive, public/private, features, channel counts, lookup outcomes) in any order, and all feature requests',
 'Tests enumerate about a dozen single-peer cases.',
 [R,'rpcserver/impl_generate_blinded_route.go'], [('getRelayingPeers, createRelayCheck, buildBlindedRoute',R)], observe=['RPC result'])
p('C15','A generated route always works and hides our node',
 """A message sent along any route we generated - by anyone, from any starting point, any number of times - is relayed by the introduction node to us and delivered to our handlers with the sender's payloads and reply path.
 Our node key appears nowhere in the route in the clear, and two generated routes share no blinding point, blinded key or encrypted blob.""",
 ['inputs','histories'], 'all generated routes, all senders (introduction node itself, its neighbours, remote nodes), used repeatedly and as reply paths',
 'No test uses a generated route: only its clear-text shape is compared with mocks; the integration test needs live lnd nodes.',
 [R,'rpcserver/common.go',M], [('BlindedRouteGenerator.ReplyPath',R),('composeBlindedRoute','rpcserver/common.go'),('parseReplyPath','rpcserver/common.go')], observe=['RPC result','handler invocations'])
p('C16','No RPC acts before the server is ready, and none hangs after it stops',
 """Before the server has started, every RPC waits and then either proceeds normally once it has started, or returns Unavailable when its caller gives up; it never acts, panics or answers early, and if start fails it never answers as if ready.
 Once the server stops, waiting and streaming calls return an error instead of hanging, and a start during or after stop fails and leaves nothing running; start and stop each succeed at most once.""",
 ['schedules'], 'all interleavings of RPC arrival, client cancel, start (successful or failing) and stop, for each of the four RPCs',
 'Tests build the server already ready.',
 [S], [('ready and quit channels, waitForReady',S)], [('ready','closed when Start completed',S)], ['RPC results'])
p('C17','The daemon connects to lnd with bounded retries and starts once',
 """Start tries to connect at most retries + 1 times for every configured retry count, waiting the configured time between attempts, stops trying at the first success and then serves, and otherwise returns an error after the last attempt without crashing; start and stop each succeed at most once, and a stop while still trying to connect ends the attempts and leaves nothing running. Configurations without lnd client configuration or with an insufficient lnd version, or with negative wait are refused.""",
 ['configurations','fault_sequences'], 'all retry counts 0..255 and all positions of the first successful attempt, all outcomes of the rpc server start',
 'There are no tests of the daemon at all.',
 ['boltnd.go','config.go'], [('Boltnd.Start retry loop','boltnd.go'),('Config.Validate','config.go')], observe=['connection attempts at lnd','Start/Stop results'])
p('C18','Offer, request and invoice roots are the BOLT 12 merkle root of all their fields',
 """The merkle root of a decoded offer, invoice request or invoice is the BOLT 12 signature root of every record in the encoded stream outside 240..1000 - known or unknown, whatever its length - with tag LnLeaf/LnAll leaf pairs, lesser-hash-first LnBranch nodes, and the tree deepest on the lowest-order leaves for every number of records.
 It does not depend on signature records, and any other change to the stream changes it.""",
 ['inputs'], 'all record streams: any number of records, any subset of known fields with any values, unknown odd records anywhere, empty values, record order of the input to the root function',
 'Existing vectors have at most four records, where every pairing order gives the same tree.',
 ['lnwire/bolt12_merkle.go','lnwire/bolt12_shared.go','lnwire/bolt12_offer.go'], [('CreateTLVLeaves, CreateTLVBranches, CalculateRoot','lnwire/bolt12_merkle.go'),('decodeMerkleRoot','lnwire/bolt12_shared.go')], observe=['MerkleRoot field / function'])
p('C19','A signed offer, request or invoice validates only if its signature covers it',
 """An artifact carrying a signature passes validation only if the signature is a valid BIP-340 signature, by the key it names (node id for offers and invoices, payer key for invoice requests), over the root of exactly its own fields with the tag of its own kind; then it does pass.
 Changing, adding or removing any non-signature field after signing, signing with another key, or with the tag of another kind of message is always refused.""",
 ['inputs'], 'all artifacts x all single-field mutations after signing x signer keys x tags',
 'Tests check one good and one bad signature per artifact.',
 ['lnwire/bolt12_signature.go','lnwire/bolt12_offer.go','lnwire/bolt12_invoice.go','lnwire/bolt12_invoice_request.go'], [('Validate + validateSignature + signatureDigest','lnwire/bolt12_signature.go')], observe=['Validate result','DecodeOffer RPC result'])
p('C20','Only well-formed offers, requests and invoices validate',
 """An offer validates exactly when it has a node id and a non-empty description, its quantity range is not inverted (a bound of zero is no bound), and any signature is valid; an invoice exactly when amount, payment hash, creation time, node id and description are present and any signature is valid; an invoice request exactly when offer id, payer key and a valid signature are present.
 Decoding an encoded artifact gives back every field it had, and the same root.""",
 ['inputs'], 'all combinations of present and absent fields and boundary values for each artifact',
 'Tests drop one field at a time from one example.',
 ['lnwire/bolt12_offer.go','lnwire/bolt12_invoice.go','lnwire/bolt12_invoice_request.go','rpcserver/impl_decodeoffer.go'], [('Validate functions','lnwire/bolt12_*.go'),('records / Decode*','lnwire/bolt12_*.go')], observe=['Validate / decode results','DecodeOffer RPC response'])
p('C21','Invoice requests are created only within the terms of the offer',
 """An invoice request for an offer is created exactly when the amount is at least the offer's minimum and the quantity fits the offer: with any quantity bound set, a quantity of at least one and within the bounds that are set; without bounds, no quantity.
 The request then carries the offer's root as offer id, its chain and features, the given amount, quantity, payer key and note, and a root that a decoder of the encoded request computes as well.""",
 ['inputs'], 'all offers (bounds absent, one-sided, equal, range) x amounts x quantities around every boundary',
 'Tests cover offers with both bounds or none, at a few points.',
 ['lnwire/bolt12_invoice_request.go'], [('NewInvoiceRequest','lnwire/bolt12_invoice_request.go')], observe=['NewInvoiceRequest result'])
p('C22','Offer strings are accepted exactly in their BOLT 12 format',
 """An offer string decodes exactly when, after dropping whitespace around the whole of it and removing each '+' that stands between two bech32 characters together with the whitespace following it, what remains is of one case, has the prefix lno and bech32 characters only, and its data is a valid offer; joining and upper-casing never change the result.
 Leading, trailing or consecutive '+', characters outside the alphabet, mixed case, another prefix and bad padding are refused with an error and never crash.""",
 ['inputs'], 'all placements of +, whitespace, case changes, wrong prefixes and invalid characters in all encoded offers',
 'Tests check a few fixed strings.',
 ['offers/bech32.go','offers/encoding.go','rpcserver/impl_decodeoffer.go'], [('stripOffer, decodeBech32','offers/bech32.go'),('DecodeOfferStr','offers/encoding.go')], observe=['DecodeOfferStr result','DecodeOffer RPC response'])
p('C23','Every RPC requires a macaroon permission, writes a write permission',
 """Every method served by the Offers gRPC service is covered by a non-empty permission requirement that is enforced: sending requires peers write, the other calls offchain read, and the daemon reports exactly these to lnd for registration. lnd leaves the decision about a macaroon to the daemon's validator: whatever a macaroon allows, with whatever caveats, whoever made it and whether or not it has been revoked, it authorises a method if and only if lnd considers it valid for the permission of that method - and nothing is authorised without macaroon, or when lnd can't be asked.""",
 ['configurations','inputs','histories'], 'all methods of the registered service x all macaroon permission sets, caveats, forgeries and revocations, before, during and after startup, lnd answering or not',
 'No test compares the permission table with the service, and none presents a macaroon.',
 ['rpcserver/macaroons.go','boltnd.go'], [('RPCServerPermissions','rpcserver/macaroons.go'),('Permissions, ValidateMacaroon','boltnd.go')], observe=['Permissions()','whether an RPC reaches its handler behind lnd\'s interceptors'])
p('C24','No request or route size crashes the node',
 """Requests the onion cannot carry - routes or blinded destinations with more hops than an onion holds, payloads or encrypted data larger than its space, oversized reply paths - are answered with an error, nothing is sent for them, and the server keeps serving; everything that fits is sent and arrives complete.""",
 ['inputs'], 'all hop counts and payload sizes around and beyond what the onion can carry, for clear and blinded destinations, direct and routed',
 'Tests never exceed three hops or a few dozen bytes.',
 [R,M,'lnwire/onion_msg_payload.go'], [('blindedToSphinx, directToBlinded, createOnionMessage',R)], observe=['RPC status','custom messages handed to lnd'])
p('C25','Onion payload and message encodings round-trip exactly',
 """Decoding an encoded onion payload, onion message or blinded route data gives back exactly what was encoded - reply path with all hops, encrypted data, every final payload of any type from 64 on including empty ones, ordered by type - regardless of the order supplied; payload types below 64 and reply paths without hops are refused on encoding, and truncated or inconsistent encodings are refused on decoding.""",
 ['inputs'], 'all payload structures: reply path absent/1..n hops, encrypted data absent/any length, any set of final payloads, all truncation points',
 'Tests round-trip a few examples.',
 ['lnwire/onion_msg_payload.go','lnwire/onion_message.go','lnwire/route_blinding.go'], [('Encode/DecodeOnionMessagePayload','lnwire/onion_msg_payload.go')], observe=['encode/decode results'])
p('C26','DecodeOffer tells the whole offer, and nothing else',
 """The DecodeOffer RPC answers with an offer exactly for the strings of valid offers, and what it reports is what the offer says: minimum amount, description, features, expiry, issuer, quantity bounds, node id and signature are each those of the encoded offer, for every value they can have, and a field that the offer lacks is left empty. Records that it doesn't know don't change what it reports.""",
 ['inputs'], 'all subsets of fields, all values of them incl. extreme ones, unknown records in between, all ways for an offer to be invalid',
 'The test of the RPC decodes a single offer.',
 ['rpcserver/impl_decodeoffer.go','offers/encoding.go','lnwire/bolt12_offer.go'], [('composeDecodeOfferResponse','rpcserver/impl_decodeoffer.go'),('DecodeOfferStr','offers/encoding.go'),('DecodeOffer','lnwire/bolt12_offer.go')], observe=['DecodeOffer RPC response'])
p('C27','A daemon runs with exactly the configuration that its options describe',
 """Options are applied in order and the last one that says something about a value has the last word: with lnd's own configuration the daemon connects to its first rpc listener with its admin macaroon and TLS certificate on its network, waiting until lnd is unlocked and synced and requiring at least the minimum version; a given client configuration is used as it is; everything that no option says has its default (lnd's default address, certificate and macaroon directory on mainnet, 4 retries, 10 seconds between them, no logging, no shutdown request).
 No daemon is created if an option fails, lnd's configuration has no listener or an unsupported network, there is no client configuration, the version asked for is missing or too low, or the wait is negative. Its five loggers are registered, each once, only where the configuration says, and what one daemon is told has no effect on another.""",
 ['configurations','histories'], 'all lists of options in any order and repetition, over several daemons created one after the other',
 'There are no tests of the daemon or its configuration at all.',
 ['config.go','boltnd.go'], [('DefaultConfig, Validate, Option*','config.go'),('NewBoltnd, setupLoggers','boltnd.go')], observe=['NewBoltnd result','the configuration that options are applied to','calls of the logger setup'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
