#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I = "include/nbdl/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Base64 coding is a faithful, strict, total codec",
 "For every byte container, encoding yields exactly the padded standard-alphabet Base64 text of its bytes, and decoding that text into a vector, a string or an array of the right size gives the bytes back. Decoding succeeds exactly on well-formed Base64 (length a multiple of four, standard alphabet, at most two '=' and only at the end) whose decoded size fits a fixed-size target, and reports failure on everything else. No input makes either direction read or write outside its buffers.",
 ["inputs"], "every byte string of any length and element type (char, unsigned char, arrays) and every candidate text, well-formed or not",
 "The tests encode and decode about a dozen ASCII words and one 16-byte buffer; byte values above 0x7f in char containers, padding placements and empty-output texts are never reached.",
 [I+"util/base64_encode.hpp", I+"util/base64_decode.hpp"],
 [("base64_encode: three-byte fragments, padded length", I+"util/base64_encode.hpp"), ("validate / prepare_output_buffer / decode", I+"util/base64_decode.hpp")],
 ["base64_encode(buffer)", "base64_decode(text)", "base64_decode(text, output)"])

prop("C02", "JSON serialisation round-trips every bound value",
 "For every value built from entities, nested entities, containers, strings, byte buffers, numbers and variants, writing it as JSON and reading the text back yields an equal value, whatever the target held before. This includes empty containers, any Unicode text (embedded NUL, quotes, control characters), extreme numbers, and every variant alternative. Writing the value read back produces the same text.",
 ["inputs"], "every value of the bound types, at any nesting and size",
 "The tests serialise four fixed documents; empty containers, embedded NULs, extreme numbers and most alternatives never occur.",
 [I+"binder/jsoncpp.hpp", I+"bind_sequence.hpp", I+"bind_map.hpp", I+"bind_variant.hpp", I+"entity.hpp", I+"util/base64_encode.hpp", I+"util/base64_decode.hpp"],
 [("reader / writer visitors", I+"binder/jsoncpp.hpp"), ("bind_map / bind_sequence / bind_variant traversal", I+"bind_map.hpp")],
 ["binder::jsoncpp::to_string", "binder::jsoncpp::from_string", "entity equality"])

prop("C03", "Reading foreign JSON either yields a value or throws, never worse",
 "For every text, JSON or not, reading it into a bound value either returns a value or throws a standard exception; it never crashes, reads out of bounds or hangs. A text that is not JSON, lacks a required member, has a member of the wrong JSON kind, a variant type id that names no alternative, or a malformed Base64 buffer is rejected with an exception. An accepted text gives a value that survives a further write and read unchanged.",
 ["inputs"], "every input text, including truncated, mutated and wrongly typed documents",
 "The tests read only documents the library itself could have written, plus a couple of malformed ones.",
 [I+"binder/jsoncpp.hpp", I+"util/base64_decode.hpp"],
 [("reader kind checks and throws", I+"binder/jsoncpp.hpp")],
 ["binder::jsoncpp::from_string"])

prop("C04", "Equal keys hash equal and behave as one key",
 "For every pair of bindable values (entities, nested entities, tuples, variants, containers of plain values, unique ids), values that compare equal have equal hashes, and hashing the same value again gives the same result. Changing any one member of an entity, the alternative of a variant or the order of unequal elements makes the values unequal and, up to rare collisions, changes the hash. Used as unordered-map keys, such values are found again after insertion and never confused with other keys. Typed keys are equal exactly when the values they hold are, and generated unique ids differ.",
 ["inputs", "histories"], "every pair of values and every insert, look-up and erase history of a hash map keyed by them",
 "The tests hash a handful of fixed values; agreement between equality, hash and map look-up needs all pairs.",
 [I+"binder/hash.hpp", I+"detail/hash_combine.hpp", I+"entity.hpp", I+"uid.hpp", I+"variant.hpp", I+"key.hpp"],
 [("hash visitor over members", I+"binder/hash.hpp"), ("hash_combine", I+"detail/hash_combine.hpp"), ("std::hash of uid", I+"uid.hpp")],
 ["std::hash", "hana::equal", "std::unordered_map"])

prop("C05", "Deltas transport exactly the difference between two values",
 "For every two values of an entity, the delta made from them, applied to the second, produces the first; it holds a change for exactly the members that differ. Applying a delta reports a change if and only if the target's value changed, leaves members without a change untouched, and applying it a second time reports none. Applying a delta to another delta and the result to a value equals applying the two in turn.",
 ["inputs", "histories"], "every pair of entity values, every delta over every subset of members, every sequence of deltas",
 "The tests use one entity with a few member combinations; composition, idempotence and the change flag are laws over all pairs and subsets.",
 [I+"delta.hpp", I+"apply_delta.hpp", I+"make_delta.hpp", I+"fwd/delta.hpp"],
 [("apply_delta member-wise set", I+"apply_delta.hpp"), ("make_delta difference", I+"make_delta.hpp"), ("no_change sentinel", I+"delta.hpp")],
 ["make_delta", "apply_delta", "get_member"])

prop("C06", "Optimistic local versions converge to the confirmed value",
 "For every history of local changes, own confirmations and other holders' confirmed changes in any interleaving, a local change and a foreign confirmed change are visible at once, and a confirmation of an own change never alters what is shown while further own changes are unconfirmed. When no own change is unconfirmed, the visible value is the initial value with all confirmed changes applied in the order they were confirmed, so holders fed the same confirmed order end with equal values. A member nobody changed never changes, and applying a message reports a state change exactly when the visible value changed.",
 ["histories", "schedules"], "every interleaving of local upstream changes, foreign confirmations and own confirmations, of any length",
 "The test plays two short scripts; convergence is a statement about all interleavings.",
 [I+"local_version.hpp", I+"apply_delta.hpp", I+"make_delta.hpp", I+"message.hpp"],
 [("local_uids set and pending delta", I+"local_version.hpp")],
 ["apply_message on local_version", "match on local_version"],
 [("pending delta", "confirmed changes that are not visible yet", I+"local_version.hpp"), ("local uids", "own changes that wait for confirmation", I+"local_version.hpp")])

prop("C07", "The map store mirrors what the server said, key by key",
 "For every sequence of upstream and downstream create, read, update and delete messages over any keys, the map store shows for each key exactly what a dictionary model shows: absent, requested but unresolved, not found, or the value last created or updated downstream. An upstream message changes nothing but marking an absent key as unresolved on a read; a downstream read fills only absent or unresolved keys. A change of what is shown is always reported, upstream messages and ignored reads never report one, and no message touches another key.",
 ["histories"], "every message history over every set of keys and values",
 "The tests play fixed scripts over one or two keys.",
 [I+"map_store.hpp", I+"match.hpp", I+"apply_message.hpp", I+"message.hpp", I+"ext/std/unordered_map.hpp"],
 [("basic_map_store apply_action per channel and action", I+"map_store.hpp"), ("element variant with not_found / unresolved / value", I+"map_store.hpp")],
 ["apply_message result", "match(store, key)"])

prop("C08", "A context delivers every message to exactly the right actors, once",
 "For every history of messages, an upstream message reaches exactly the producer that owns its path (a read only if the value is neither held, which is then sent to the consumers instead, nor already requested) and a downstream message reaches each consumer exactly once, after the store already shows its effect. State consumers are told about a path once for every change of the store's state there and never for messages that the store ignores. Messages, their order, their path, payload and uid arrive unaltered, and a message for one path never changes what any other path shows. A store that only takes foreign messages says that its state changed exactly when it told of a change. An echoing producer gives each object it makes a key that no earlier object at that path had.",
 ["histories"], "every sequence of create, read, update and delete messages on every access point of a context with several producers, stores and consumers",
 "The tests send single messages through small fixed contexts and look at the last one received.",
 [I+"context.hpp", I+"apply_message.hpp", I+"send_downstream_message.hpp", I+"send_upstream_message.hpp", I+"notify_state_change.hpp", I+"echo_producer.hpp", I+"apply_foreign_message.hpp", I+"def/builder/context.hpp", I+"def/builder/producer_map.hpp", I+"def/builder/consumer_map.hpp", I+"def/builder/store_map.hpp"],
 [("push_api and dispatch of up- and downstream messages", I+"context.hpp"), ("producer / consumer / store maps", I+"def/builder/context.hpp"), ("echo_producer", I+"echo_producer.hpp")],
 ["producers' and consumers' received messages", "match(context, path)"])

prop("C09", "Messages keep channel, action, path, uid and payload intact",
 "For every message of every action in either direction, each accessor returns exactly what the message was made from, and the queries about it (is it upstream, which action, is it confirmed, has it a private payload) answer truly for exactly that kind. Turning an upstream message downstream, adding the key of a created object, or wrapping a payload preserves every other part. Two messages made differently in kind are never mistaken for one another.",
 ["inputs"], "every action and channel, with and without uid, confirmation flag and private payload, over every path and payload value",
 "The tests build one message per kind with one payload and omit private payloads of created objects.",
 [I+"message.hpp", I+"message_api.hpp", I+"fwd/message.hpp", I+"def/builder/entity_messages.hpp"],
 [("make_upstream_* / make_downstream_*", I+"message.hpp"), ("to_downstream, to_downstream_with_key", I+"message.hpp"), ("get_path, get_uid, get_payload, get_is_confirmed", I+"message.hpp")],
 ["message accessors"])

prop("C10", "A variant always shows exactly one alternative, the last assigned",
 "After any history of construction, assignment, copy, move and visitation, a variant holds exactly the alternative last given to it, with that value; matching calls exactly one branch, the first that accepts the held alternative, exactly once. Two variants are equal exactly when they hold the same alternative with equal values. Binding an alternative by its type id hands the binder a fresh value of that alternative and holds what the binder made of it; an id that names no alternative changes nothing. Every alternative is destroyed exactly once, also for alternatives that own memory.",
 ["histories", "inputs"], "every sequence of assignments, copies, moves, swaps and matches over variants of trivial and owning alternatives",
 "The tests check single assignments for fixed alternatives.",
 [I+"variant.hpp", I+"bind_variant.hpp", I+"match.hpp", I+"variant_holder.hpp"],
 [("variant storage, type_id and helper dispatch", I+"variant.hpp"), ("bind_variant by type id", I+"bind_variant.hpp")],
 ["match", "match_when", "holds-equality", "live object counts"])

prop("C11", "Looking up a path reaches exactly the addressed value",
 "For every store built from structs, nested entities, maps, sequences, variants and composed stores, and every path, matching or getting the path calls the visitor exactly once with the very object that direct member access reaches (no copy, the right constness), or with the documented not-found or alternative value where there is none. Composing a store at a path makes it visible at that path and at no other. Traversing a range of a store visits each element once, in order. Each store is asked for the key as given, and the caller's keys and paths stay as they were.",
 ["inputs", "programs"], "every store content, every path into it, every composition of stores, and every read and write through the matched reference",
 "The tests look up fixed paths in fixed stores.",
 [I+"match.hpp", I+"get.hpp", I+"match_path.hpp", I+"store_compose.hpp", I+"store_range.hpp", I+"ext/std/unordered_map.hpp", I+"entity.hpp", I+"context_store.hpp", I+"make_store.hpp"],
 [("match / get tag dispatch and path recursion", I+"match.hpp"), ("store_compose", I+"store_compose.hpp")],
 ["visitor calls", "addresses of matched objects"])

prop("C12", "Promise pipelines run each step once, in order, and route failures",
 "For every pipeline of synchronous functions, asynchronous promises, taps, try wrappers and catch handlers, and every choice of which steps succeed, fail or finish later, each step runs at most once and in order with exactly the previous step's result. A rejection skips the steps up to the first later handler that accepts its arguments; that handler is called once with them and the run ends there, or ends silently if there is none. An exception thrown in a try step becomes a rejection with that exception. Tap and its side effect never alter the passing value. Steps, pipelines and arguments that the caller keeps can be used again with the same outcome.",
 ["programs", "inputs", "schedules"], "every pipeline shape, every assignment of success, failure and delay to its steps, and every order in which delayed steps of several runs are completed",
 "The tests run a few straight-line pipelines with one handler.",
 [I+"pipe.hpp", I+"promise.hpp", I+"catch.hpp", I+"tap.hpp", I+"try.hpp", I+"run_async.hpp", I+"run_sync.hpp", I+"detail/promise_join.hpp", I+"detail/wrap_promise.hpp", I+"path_promise.hpp"],
 [("promise_join: resolve and reject wiring", I+"detail/promise_join.hpp"), ("catch_ type routing", I+"catch.hpp")],
 ["trace of executed steps and their arguments"])

prop("C13", "Asynchronous runs own their pipeline and release it exactly once",
 "For every pipeline started asynchronously, every stored promise, callback, captured value and lazily made object stays alive until the run has ended and is then released exactly once, whether it ends by success, a handled or unhandled rejection, termination, or being completed much later. A looping run starts over at its first step with the last step's results after every success until it is ended. A held value is resolved by reference to the same object every time, keeping changes; a lazily made one is made anew each round.",
 ["schedules", "histories"], "every completion order and delay of asynchronous steps, and every number of loop iterations",
 "The tests run each construct once to successful completion and do not observe memory.",
 [I+"run_async.hpp", I+"run_async_loop.hpp", I+"hold.hpp", I+"hold_lazy.hpp", I+"pipe.hpp", I+"path_promise.hpp"],
 [("self-owning pipe of run_async", I+"run_async.hpp"), ("loop restart", I+"run_async_loop.hpp"), ("hold / hold_lazy", I+"hold.hpp")],
 ["live object counts, allocation balance, AddressSanitizer"])

prop("C14", "Sent WebSocket messages are valid frames that carry the payload",
 "For every payload, the bytes a server or client endpoint writes form valid RFC 6455 frames: the first carries the opcode asked for (text, binary or control), the rest are continuations, only the last has the final bit, control frames are never fragmented, and lengths are encoded in the minimal form. Concatenating the frame payloads gives the payload exactly. The completion handler is called exactly once, after the last byte was written.",
 ["inputs", "schedules"], "every payload size and content, including zero and exact multiples of the fragment size, over any pattern of partial socket reads",
 "The tests send two fixed payloads, neither at a fragment boundary.",
 [I+"websocket/detail/message_sender.hpp", I+"websocket/detail/endpoint_impl.hpp"],
 [("send_message_impl fragmentation", I+"websocket/detail/message_sender.hpp")],
 ["bytes on the socket"])

prop("C15", "Received WebSocket frames reassemble into exactly the sent messages",
 "For every sequence of valid frames (any fragmentation, any length encoding, masked or not, control frames anywhere between them) arriving in pieces of any size, the reader delivers exactly the sent messages, in order, whole and unmasked. An unknown opcode, an oversized or fragmented control frame, or a cut connection ends the reading with an error or close event. No byte sequence from the peer makes the reader crash, hang, over-read or allocate more than the bytes it sent call for.",
 ["inputs", "fault_sequences"], "every byte stream from the peer, its segmentation and truncation",
 "The tests read a few single frames written in one piece.",
 [I+"websocket/detail/message_reader.hpp", I+"websocket/detail/endpoint_impl.hpp"],
 [("frame header, length and mask parsing; control frames", I+"websocket/detail/message_reader.hpp")],
 ["events delivered by the reader"])

prop("C16", "A WebSocket session delivers in order and closes exactly once",
 "For every schedule of sends and closes from two connected endpoints, the messages that arrive are, in order and intact, those whose sending began before either side closed, and all of them when nobody closes, however they are queued while a write is pending. The close event arrives exactly once on each side and nothing is delivered after it; the close frame is empty or begins with a status code. A server answers a valid opening handshake with the matching accept token and rejects others, so that a client of the library can open a session with it.",
 ["schedules", "histories"], "every interleaving of sends, deliveries and closes on both sides of a connection",
 "The tests exchange one message per session and close from one side.",
 [I+"websocket/detail/endpoint_impl.hpp", I+"websocket/endpoint.hpp", I+"websocket/server_endpoint.hpp", I+"websocket/client_endpoint.hpp", I+"websocket/event.hpp"],
 [("send queue and read loop", I+"websocket/detail/endpoint_impl.hpp")],
 ["events at both endpoints over a real socket pair"])

prop("C17", "The WebSocket opening handshake computes and demands the right tokens",
 "For every well-formed opening request, however its headers are ordered, spaced and segmented, the server extracts the key and the cookies and answers with the accept token RFC 6455 prescribes; the client accepts exactly the library's response with the token for its own key. Every malformed or truncated handshake, and every one with a line beyond 256 bytes or without a key, is rejected through the failure path. No peer bytes make either side crash, hang or read out of bounds.",
 ["inputs", "fault_sequences"], "every request and response byte stream, its segmentation and truncation",
 "The tests parse three fixed requests and one response.",
 [I+"websocket/detail/parse_handshake_request.hpp", I+"websocket/detail/parse_handshake_response.hpp", I+"websocket/detail/send_handshake_request.hpp", I+"websocket/detail/send_handshake_response.hpp", I+"websocket/detail/expect_equal.hpp", I+"detail/beast_sha1.hpp"],
 [("header parser", I+"websocket/detail/parse_handshake_request.hpp"), ("accept token", I+"websocket/detail/send_handshake_response.hpp")],
 ["handshake results over a socket pair"])

prop("C18", "Session and auth tokens are found in cookies exactly where they are",
 "For every cookie header, the value returned for the session or auth cookie is the value of the first cookie with exactly that name, up to the next semicolon or the end, and nothing is returned when no cookie has that name. Names that merely contain or extend the wanted name, values that contain it, and stray separators do not mislead the search. No header makes the search read outside the string.",
 ["inputs"], "every cookie header text",
 "The tests try a handful of headers with the wanted cookie in plain view.",
 [I+"websocket/detail/get_auth_token.hpp", I+"app/detail/cookie_parser.hpp", I+"auth_token.hpp"],
 [("get_auth_token scan", I+"websocket/detail/get_auth_token.hpp"), ("get_session_cookie scan", I+"app/detail/cookie_parser.hpp")],
 ["returned token / position"])

prop("C19", "The bundled SHA-1 is SHA-1",
 "For every byte string and every way of feeding it in pieces, the digest equals that of an independent SHA-1. Feeding the same bytes in other pieces gives the same digest, and a fresh start forgets everything fed before. No length or segmentation makes it read or write out of bounds.",
 ["inputs"], "every message length and content, and every segmentation into updates",
 "Existing tests reach it only through one handshake key of fixed length, so block boundaries and multi-block input are never met.",
 [I+"detail/beast_sha1.hpp"],
 [("init / update / finish", I+"detail/beast_sha1.hpp")],
 ["digest bytes"])

prop("C20", "SQL statements and their bound values describe the same row",
 "For every entity and every set of keys, the insert, select and update statements name exactly the columns to write and to match, with one placeholder per bound value, and the values are bound in the order of the placeholders. Executed against a relational model, an insert followed by a select by key returns equal rows, parents are inserted before the children that refer to their id, and an update changes exactly the entity's own value columns and only in rows matched by the whole key. Objects and keys that are not given away stay as they were.",
 ["inputs", "programs"], "every entity value, nesting of parents and children, key and delta subset",
 "The tests compare statement text for three fixed entities.",
 [I+"sql_db/insert.hpp", I+"sql_db/select.hpp", I+"sql_db/update.hpp", I+"sql_db/statement/insert.hpp", I+"sql_db/statement/select.hpp", I+"sql_db/statement/update.hpp", I+"sql_db/action.hpp", I+"sql_db/traits.hpp"],
 [("statement builders", I+"sql_db/statement"), ("insert / select / update traversal", I+"sql_db/insert.hpp")],
 ["statements and values at a model database"])

prop("C21", "UI specs evaluate to the values their paths address",
 "For every state of the stores, matching a path spec or a list of parameters calls the visitor exactly once with the values that resolving each path by hand gives, in parameter order, following keys read from other paths. A branch takes the alternative of the first true condition and no other. A path that leads nowhere calls nothing and takes no branch; a path promise resolves with what its path addresses, or rejects with a value of another type. Re-evaluating after the state changed uses the new state only.",
 ["inputs", "histories"], "every store state, including absent keys and every alternative of the variants the paths pass, and every sequence of changes",
 "The tests evaluate fixed specs against one fixed store.",
 [I+"ui_spec.hpp", I+"ui_helper/match_path_spec.hpp", I+"ui_helper/match_params_spec.hpp", I+"ui_helper/match_branch.hpp"],
 [("match_path_spec", I+"ui_helper/match_path_spec.hpp"), ("match_params_spec", I+"ui_helper/match_params_spec.hpp")],
 ["visitor calls"])

prop("C22", "Routes convert to text and back without loss, and junk is not found",
 "For every route value with non-empty, slash-free text and positive numbers, of up to nine members, converting it to a URL path and back gives the same alternative with equal members, and the text is the route's name followed by its parameters. For every text, parsing either yields a route whose name and parameters the text spells out, or the not-found alternative: unknown names, wrong parameter counts, non-numeric or zero numbers and numbers that do not fit their member are not found, and a trailing slash says nothing. No text makes it crash or read out of bounds.",
 ["inputs"], "every route value and every text",
 "The route tests are built only for a browser platform and do not run here at all.",
 [I+"webui/route_map.hpp", I+"fwd/webui/route_map.hpp"],
 [("to_string / from_string, make_from_params", I+"webui/route_map.hpp")],
 ["route_map.to_string", "route_map.from_string"])

prop("C23", "Small combinators obey their laws for all arguments",
 "For every argument list: string concatenation equals the plain concatenation of its parts; first-match selection calls the function of the first satisfied predicate and only it, asking the predicates in order up to that one; filtering empties keeps exactly the non-empty elements in order; a view of parameters shows the originals by reference, in order; a message is handed to its queue exactly once, moved or copied as given, and then resolves.",
 ["inputs"], "every argument value, length and combination of types",
 "The tests call each with two or three fixed argument lists.",
 [I+"detail/string_concat.hpp", I+"detail/match_if.hpp", I+"detail/filter_empties.hpp", I+"detail/params_view.hpp", I+"concept/Buffer.hpp"],
 [("string_concat", I+"detail/string_concat.hpp"), ("match_if", I+"detail/match_if.hpp"), ("params_view", I+"detail/params_view.hpp")],
 ["results of the calls"])

prop("C24", "The tile game is only ever permuted by legal moves",
 "After every sequence of requested moves from every reachable board, the board is a permutation of the tiles with exactly one blank, and it differs from the board before the move only by the swap of the blank with the chosen adjacent tile. A request for a tile that is not adjacent to the blank, or for no tile at all, changes nothing. Observers are told exactly about the moves that happened.",
 ["histories"], "every sequence of moves from every reachable board",
 "The test makes a few fixed moves from one board.",
 ["example/tiles/game.hpp"],
 [("get_tile_swap_index and move application", "example/tiles/game.hpp")],
 ["board read through the store", "state change notifications"])

prop("C25", "Compile-time collections and tree queries agree with a reference model",
 "For every compile-time list, map, pair, tree and metastruct expression, the operations (append, concatenation, grouping, look-up, set union of settings, search of a tree, collection along branches) produce what the same operation on plain run-time data produces. Types keep their order and duplicates as specified and nothing is lost. Distinct message interfaces have distinct signatures and equal ones equal signatures.",
 ["programs"], "every generated program over these metafunctions, of any size and nesting",
 "The tests assert a few hand-written expressions per operation.",
 ["include/mpdef/list.hpp", "include/mpdef/map.hpp", "include/mpdef/find_in_tree.hpp", "include/mpdef/collect_settings.hpp", "include/mpdef/group_by.hpp", "include/mpdef/append_if.hpp", "include/mpdef/tree_node.hpp", "include/mpdef/string.hpp", I+"api_signature.hpp"],
 [("list / map metafunctions", "include/mpdef/list.hpp"), ("find_in_tree", "include/mpdef/find_in_tree.hpp"), ("collect_settings", "include/mpdef/collect_settings.hpp")],
 ["types computed at compile time"])

prop("C26", "A context built from any definition routes by the definition",
 "For every valid definition (producers, nested access points with or without store, key and entity, several consumers), the context built from it has exactly one producer per defined name, one store per access point, every consumer, and a message type for exactly the enabled actions of each access point with that entity and path, in the order of the definition. Each actor is made from the argument given under its name, and from none otherwise; once all are made, every producer and then every consumer of messages is initialised once, when it can send and look things up. Sending a message for an access point reaches that definition's own producer, store and consumers and no other.",
 ["programs", "histories"], "every generated definition and message sequences against the contexts built from it",
 "The tests instantiate a few hand-written definitions; routing is computed per definition by metaprograms.",
 [I+"def/builder/context.hpp", I+"def/builder/entity_messages.hpp", I+"def/builder/enumerate_access_points.hpp", I+"def/builder/enumerate_producers.hpp", I+"def/builder/enumerate_consumers.hpp", I+"def/builder/store_map.hpp", I+"def/builder/producer_map.hpp", I+"def/builder/message_api.hpp", I+"context.hpp", I+"make_context.hpp", I+"producer_init.hpp", I+"consumer_init.hpp", I+"context_store.hpp"],
 [("builder metaprograms", I+"def/builder")],
 ["types and run-time routing of the built context"])

prop("C27", "A rendered page shows what its spec says about the current stores",
 "For every page spec (elements, attributes, properties, conditional attributes and classes, texts, raw html, branches, repeated elements, event handlers) and every history of store changes, the tree of the page equals the spec evaluated on the current stores, right after rendering and after every update, and nothing outside of a branch or a repetition is touched by its changes. An event at an element calls the handlers the spec gives it, and only these, once and in order, and sends their messages. When the page is destroyed, nothing stays registered or listening.",
 ["programs", "histories"], "every generated spec and every history of store changes, updates and events",
 "The tests render a few fixed specs in a real browser (none runs here) and compare the html after one or two changes.",
 [I+"webui/renderer.hpp", I+"webui/html.hpp", I+"webui/detail/dom_manips.hpp", I+"webui/detail/flatten_spec.hpp", I+"webui/detail/node_renderer.hpp", I+"webui/detail/event_receiver.hpp", I+"webui/detail/dom_event_listener.hpp", I+"ui_spec.hpp", I+"detail/js_val.hpp", I+"detail/string_concat_view.hpp", I+"js.hpp"],
 [("flatten_spec: spec to a list of manipulations", I+"webui/detail/flatten_spec.hpp"), ("manipulations and branches", I+"webui/detail/dom_manips.hpp"), ("update of the whole list", I+"webui/renderer.hpp"), ("event receiver", I+"webui/detail/event_receiver.hpp")],
 ["document tree", "messages sent by event handlers", "registered values and listeners"],
 hook="NBDL_VERIF_HANDLE: the JavaScript handle of a js::val where an int cannot hold an address")

prop("C28", "Values pass to JavaScript and back unchanged, as their JSON says",
 "For every value of bound types that the JavaScript binding takes (entities, nested entities, containers, variants, tuples, byte buffers, any Unicode text, booleans, enums and integers of up to 32 bits, with their extremes), giving it to JavaScript and reading it back yields an equal value, whatever the target held before. What JavaScript holds is what the JSON of the value says: its JSON text reads back as an equal value, and a document written as JSON and parsed by JavaScript reads as an equal value. Reading changes nothing, one value never alters another, and no handle is left over.",
 ["inputs"], "every value of the bound types",
 "The tests (none runs here) bind one value of each kind with short ASCII texts and small numbers.",
 [I+"binder/js.hpp", I+"detail/js_val.hpp", I+"js.hpp", I+"binder/jsoncpp.hpp", I+"bind_map.hpp", I+"bind_sequence.hpp", I+"bind_variant.hpp", I+"util/base64_encode.hpp", I+"util/base64_decode.hpp"],
 [("bind_to / bind_from per kind", I+"binder/js.hpp"), ("values behind handles", I+"detail/js_val.hpp")],
 ["values read back", "JSON text of what JavaScript holds", "registered handles"],
 hook="NBDL_VERIF_HANDLE: the JavaScript handle of a js::val where an int cannot hold an address")

prop("C29", "The location of the page, the route and its text agree through any history",
 "For any context with a navigation producer and any sequence of routes set as values, texts set as strings, steps back and forth through the page's history, places the page goes to by itself and new starts of the application, with or without a URI prefix: after each step the route a reader is shown is the one its text means under the route map (or none is found), that text is the place of the page's location behind the prefix, and the page's history is the list of places in the order they were gone to. A route or text that is set reads back as itself, whatever characters its parts hold. Readers are told of each change of route and of text, are shown the new route when they are told, and setting no route changes nothing.",
 ["inputs", "histories"], "every history of navigation",
 "The tests (none runs here) follow one link in one map with plain letters.",
 [I+"webui/nav_route.hpp", I+"fwd/webui/nav_route.hpp", I+"webui/route_map.hpp", I+"webui/set_route.hpp", I+"context_store.hpp", I+"apply_message.hpp"],
 [("nav_route producer, stores and location events", I+"webui/nav_route.hpp"), ("routes and their texts", I+"webui/route_map.hpp")],
 ["route and text shown to readers", "location and history of the page", "what readers are told", "registered handles"],
 hook="NBDL_VERIF_HANDLE: the JavaScript handle of a js::val where an int cannot hold an address")

prop("C30", "JavaScript values, functions and promises keep their meaning",
 "Through any history of making, copying, moving, assigning, swapping, transforming and dropping, a js::val holds the JavaScript value it was given last (a moved-from one is undefined), its handle is of that value, equality of values is that of JavaScript, and changing one changes no other. A function made with js::callback runs once per call by JavaScript with the argument of that call, also within other calls and through copies of its value, and an event it listens to goes on unless it is a submit. A promise made with NBDL_JS_PROMISE continues its pipeline once it is settled and not before: with what it was resolved with, in order, or in the handler of its rejection; what it captured are the values at the time it ran. When all of them are gone no handle is left registered and no memory is left allocated.",
 ["inputs", "histories"], "every history of values, calls and settlements",
 "The tests (none runs here) have one promise each of three kinds and one copied value.",
 [I+"js.hpp", I+"fwd/js.hpp", I+"detail/js_val.hpp", I+"macros/NBDL_JS_PROMISE.hpp", I+"webui/detail/event_receiver.hpp"],
 [("values behind handles", I+"detail/js_val.hpp"), ("functions", I+"js.hpp"), ("promises", I+"macros/NBDL_JS_PROMISE.hpp")],
 ["values as JavaScript sees them", "calls", "what pipelines see", "registered handles", "leaks"],
 hook="NBDL_VERIF_HANDLE: the JavaScript handle of a js::val where an int cannot hold an address")

prop("C31", "A WebSocket of the page passes each message on once, whole and in order",
 "For any number of page-side WebSocket endpoints, of JSON or binary payloads, and any sequence of openings, failures, messages of any content in both directions, answers and closes from inside of handlers: each handler is told once that it is ready, once of each message with an equal payload, in the order the messages came, and once of the close; each message that is sent while the socket is open reaches the socket once, whole and in order, and leaves the payload as it was; a text that is not JSON is not handed on as a message; closing an endpoint closes its socket; one endpoint never sees what is another's. No handle is left registered. The headers can be part of more than one translation unit.",
 ["inputs", "histories"], "every sequence of socket events",
 "The tests (none runs here) send one text to an echo server.",
 [I+"websocket_api/client_endpoint.hpp", I+"websocket_api/json_payload.hpp", I+"websocket_api/detail/endpoint_impl.hpp", I+"websocket_api/detail/convert_payload.hpp", I+"websocket_api/detail/event_receiver.hpp", I+"endpoint_handler.hpp", I+"endpoint_open.hpp"],
 [("socket events and sending", I+"websocket_api/detail/endpoint_impl.hpp"), ("payload conversions", I+"websocket_api/detail/convert_payload.hpp")],
 ["what handlers are told", "what sockets are given", "state of sockets", "registered handles"],
 hook="NBDL_VERIF_HANDLE: the JavaScript handle of a js::val where an int cannot hold an address")

prop("C32", "Binding a value visits exactly its own members, in order, by name",
 "For every entity of any number of members, and every tuple, pair, optional, text and map: a binder is called once, with each member that holds something (a map's binder: with every member, and its declared name), in the declared order; what it is given is the member itself, constant exactly when the value is, so that a change made through the binding changes that member and no other; what the binder returns is handed back, and the binder stays as it was for its caller. Each member can be reached alone by its member and by its name. What a binder is shown of a whole tree of values is enough to make an equal one.",
 ["inputs"], "every number and kinds of members, every value, and every place of a member that holds nothing",
 "The tests bind a few entities of up to five members and never ask which member a binder is given.",
 [I+"bind_sequence.hpp", I+"bind_map.hpp", I+"bind_variant.hpp", I+"detail/filter_empties.hpp", I+"entity_members.hpp", I+"fwd/entity_members.hpp", I+"entity.hpp", I+"macros/NBDL_ENTITY.hpp", I+"macros/NBDL_MEMBERS.hpp", I+"macros/NBDL_MEMBER_NAMES.hpp"],
 [("member lists and names", I+"macros/NBDL_ENTITY.hpp"), ("which members are bound", I+"detail/filter_empties.hpp"), ("members by pointer and by name", I+"entity_members.hpp")],
 ["what binders are called with, and where it is", "the value afterwards"])

prop("C33", "An action changes exactly the state it addresses, and tells if it did",
 "For every store, plain, referred to, composed of stores at any depth, of a context, a row of a range, or with versions, and every action: an action that the store can be assigned is assigned to it; any other is run once on the store itself, as the kind of value (lvalue, constant, rvalue) it was handed over as; an action for a key reaches the outermost store of that key, one for a row just that row, any other the base; no other store and no value of the caller's changes. A message given as an action does what the message does to the addressed store; a store of a context changes on downstream updates alone. The answer is true for a value or a step, and for messages true exactly when the addressed state changed.",
 ["inputs", "histories"], "every nesting of stores, every kind of action and every sequence of them",
 "The tests apply a handful of actions to one or two composed stores, ignore the answers and never look at the other stores.",
 [I+"apply_action.hpp", I+"apply_message.hpp", I+"store_compose.hpp", I+"context_store.hpp", I+"store_range.hpp", I+"local_version.hpp"],
 [("assign or run", I+"apply_action.hpp"), ("actions by key", I+"store_compose.hpp"), ("updates of a context's stores", I+"context_store.hpp"), ("actions on rows", I+"store_range.hpp")],
 ["every store after each action", "the answer of apply_action / apply_message", "where and as what a step runs", "the caller's copies"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
