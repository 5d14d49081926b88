#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, I, HI, F, C = 'schedules', 'inputs', 'histories', 'fault_sequences', 'configurations'
GC, GH, CX, CH = 'rmw_dds_common/src/graph_cache.cpp', 'rmw_dds_common/include/rmw_dds_common/graph_cache.hpp', 'rmw_dds_common/src/context.cpp', 'rmw_dds_common/include/rmw_dds_common/context.hpp'
GU, QO, QH, SE, TU = 'rmw_dds_common/src/gid_utils.cpp', 'rmw_dds_common/src/qos.cpp', 'rmw_dds_common/include/rmw_dds_common/qos.hpp', 'rmw_dds_common/src/security.cpp', 'rmw_dds_common/src/time_utils.cpp'
P = []


def p(pid, title, statement, over, qtext, why, files, mech, note, observe=()):
    assert len(title) <= 80, title
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = list(observe)
    P.append((d, note))


p('P01', 'The endpoint registry is an exact set keyed by identifier and kind',
  'Adding a discovered reader or writer returns true and stores it exactly when no endpoint of that kind with the same 16-byte identifier is known (a rejected addition changes nothing), and removing one returns true and forgets exactly that endpoint when it is known. Readers and writers are independent of each other, and the reader and writer counts of a topic are always the numbers of endpoints of that kind currently known on exactly that topic name.',
  [HI, I], 'Every history of additions and removals, with arbitrary identifiers and topic names, including repeats and the same identifier used for a reader and a writer.',
  'The tests use a handful of fixed identifiers and topics and one order of operations; identifiers that differ in one byte, re-adding, or crossing kinds are not sampled.',
  [GC, GH, GU], [('add_writer/add_reader/remove_writer/remove_reader/add_entity/remove_entity', GC), ('__get_count', GC), ('Compare_rmw_gid_t', GU)],
  'every history of 3 operations with symbolic identifiers (3 of 16 bytes) and topic names', ['add_*/remove_* results', 'get_reader_count, get_writer_count'])
p('P02', 'Topic endpoint information is complete, exact and correctly attributed',
  'Querying the readers (or writers) of a topic returns exactly one entry for each known endpoint of that kind on exactly that topic name, with its own identifier, kind, demangled type, type hash (the zero hash if it was added without one) and QoS. The entry names the node of the owning participant that claims the identifier as an endpoint of that kind; it is marked unknown when that participant is known but none of its nodes claims it, and marked as a bare DDS endpoint when the participant is not known.',
  [HI, I], 'Every history of discovery updates of endpoints and participants in any order, with arbitrary identifiers, names, topics, types, hashes and QoS values.',
  'Tests query a few populated graphs; stale or out-of-order discovery, several participants, identifiers claimed as the other kind and arbitrary QoS and hash values are not sampled.',
  [GC, GH], [('__get_entities_info_by_topic', GC), ('__find_name_and_namespace_from_entity_gid', GC), ('add_entity', GC)],
  'histories of 2 to 4 operations, all identifiers, names, types, hashes and QoS symbolic; up to 2 nodes with 2 endpoints of each kind per participant', ['get_readers_info_by_topic', 'get_writers_info_by_topic'])
p('P03', 'Topic names and types are the exact union over all known endpoints',
  'The global listing of topic names and types contains every pair of demangled topic and demangled type of some known reader or writer exactly once, grouped under one entry per demangled topic, and nothing else. Endpoints whose topic demangles to the empty string are left out.',
  [HI, I], 'Every set of endpoints reached by additions and removals, with topic and type names that may coincide before or after demangling.',
  'Tests use fixed topics with identity demangling; several types per topic, distinct names that demangle to the same one, hidden topics and removals are not covered together.',
  [GC, GH], [('__get_names_and_types', GC), ('__populate_rmw_names_and_types', GC)],
  'histories of 3 operations with symbolic topic and type names and a demangling that hides and merges names', ['get_names_and_types'])
p('P04', 'Per-node topic listings show exactly the endpoints that node owns',
  'Listing the readers (or writers) of a node by name and namespace returns exactly the demangled topic and type pairs of the known endpoints of that kind whose identifiers that node claims, each pair once; claimed identifiers that are not (or no longer) known contribute nothing. A node that does not exist gives the node-name-non-existent error and leaves the result empty; several nodes of the same name give the listing of one of them.',
  [HI, I], 'Every history of endpoint and participant discovery, and every queried node name and namespace.',
  'Tests query a few names in one fixed graph; same name in another namespace, nodes spread over participants, identifiers claimed but unknown and updated participants are not sampled.',
  [GC, GH], [('__get_names_and_types_by_node', GC), ('__find_node', GC), ('__get_names_and_types_from_gids', GC)],
  'histories of 3 operations, symbolic names, namespaces, identifiers and query', ['get_reader_names_and_types_by_node', 'get_writer_names_and_types_by_node'])
p('P05', 'The node listing is exactly the nodes of the known participants',
  'The number of nodes and the parallel lists of node names, namespaces and enclaves contain one entry for each node of each known participant, and nothing else; in each entry name, namespace and enclave belong to the same node and its participant. Without an enclave array the same names and namespaces are returned.',
  [HI, I], 'Every history of adding, updating and removing participants and nodes, with arbitrary (also repeated) names and enclaves.',
  'Tests check a few fixed participants; interleaved updates, re-announcement, empty participants and repeated names are not sampled.',
  [GC, GH], [('get_number_of_nodes/get_node_names', GC), ('add_participant/update_participant_entities', GC)],
  'histories of 3 to 4 operations, symbolic identifiers, names, namespaces and enclaves', ['get_number_of_nodes', 'get_node_names'])
p('P06', 'Local changes return the full participant state; remote graphs converge to it',
  'Adding or removing a local node, and associating or dissociating a reader or writer with a node, changes exactly one node of that name in that participant and returns a message that lists the complete state of that participant after the change and nothing else. A remote graph that applies these messages, and learns the endpoints at any time before or after, shows the same nodes with the same endpoints as the local one.',
  [HI, I], 'Every sequence of local operations on existing nodes (also nodes of the same name) with arbitrary identifiers and names, and every order in which the remote side learns of endpoints.',
  'Tests run one scripted sequence per operation; sequences that mix removal, re-adding, duplicates and several participants are not sampled.',
  [GC, GH], [('add_node/remove_node', GC), ('associate_*/dissociate_* via __modify_node_info', GC), ('update_participant_entities', GC)],
  'histories of 5 to 7 operations (from a curated set of operation sequences) with symbolic identifiers and names', ['returned ParticipantEntitiesInfo', 'queries of a second cache fed with the messages'])
p('P07', 'Participants are isolated: each update or removal affects that participant only',
  'Announcing a participant sets its enclave and keeps its nodes, a discovery message replaces exactly the nodes of its participant and keeps its enclave (whichever arrives first), and removing a participant forgets exactly its enclave and nodes and returns whether it was known. The nodes and enclaves of other participants and the registered endpoints themselves are unaffected, and a participant that comes back starts empty.',
  [HI, I], 'Every interleaving of announcements, discovery messages and removals of participants with arbitrary identifiers.',
  'Tests create each participant once and remove it at the end; late announcements, message-before-participant, removal followed by a late message, and re-creation are not sampled.',
  [GC, GH], [('add_participant/remove_participant/update_participant_entities', GC), ('participants_ map ordered by Compare_rmw_gid_t', GU)],
  'histories of 3 to 4 operations over symbolic participant identifiers, all queries compared', ['get_node_names', 'by-node and by-topic queries'])
p('P08', 'The on-change callback runs once for every change and never for a rejected one',
  'While an on-change callback is set, every call that changes the graph calls it exactly once, after the change, whatever kind of change it is. Additions of known endpoints and removals of unknown endpoints or participants do not call it, and after clearing the callback nothing does.',
  [HI, I], 'Every history of the 13 graph operations with arbitrary identifiers, including repeats.',
  'Tests count callbacks for one successful call of some operations; rejected calls and repeats with coinciding identifiers are not covered. (A call that leaves the graph as it was, but is not a rejected one, may or may not notify.)',
  [GC, GH], [('GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK(_IF)', GC), ('set_on_change_callback', GH)],
  'histories of 3 to 4 operations, the last two of any kind, symbolic identifiers', ['calls of the callback'])
p('P09', 'Concurrent use of one graph is free of data races and linearizable',
  'When threads update and query one graph at the same time there is no data race and no deadlock, every result (including returned messages and listings) is one that some sequential order of the operations would give, and the final graph is the one that order leaves. This holds for every mix of discovery updates, local changes, queries, printing and changing the callback.',
  [S, I], 'Every interleaving, at the granularity of lock operations, of two threads with any pair of the 23 operations on a populated graph (three threads and two operations each in the thorough tier).',
  'The tests are single-threaded.',
  [GC, GH], [('mutex_ taken by every public operation', GC)],
  'all schedules at lock granularity with happens-before race detection on every access; 2 threads x 1 operation, every pair of operations', ['results of all threads', 'final queries'])
p('P10', 'A query that runs out of memory fails cleanly and leaves the graph intact',
  'If any allocation made through the given allocator fails during a graph query, whether once or from then on, the query returns an error, releases everything it allocated with that allocator and leaves the output in a state that can be finalised and reused. The graph is unchanged and the same query succeeds later; successful results are released completely by their fini function.',
  [F, I], 'Every index of the failing allocation, transient or persistent, for every introspection query.',
  'The tests inject a few allocation failures at fixed positions; failures deep inside a partially built result are not all reached.',
  [GC], [('rcpputils scope exits in get_node_names, __get_names_and_types, __get_entities_info_by_topic', GC)],
  'the index of the failing allocation is symbolic; graphs with up to 2x2x2 participants, nodes and endpoints', ['return codes', 'allocator balance'])
p('P11', 'Unusable query arguments are rejected without side effects',
  'Node, topic and by-node listings and the counts reject a null or incomplete allocator, null results and results that are not zero-initialised with an invalid-argument error; a rejected query allocates nothing and modifies none of its arguments. Everything else is accepted (the enclave list of the node listing is optional).',
  [I], 'Every combination of null, incomplete and non-empty arguments.',
  'Tests try each wrong argument alone, with fixed values, and do not check that arguments are left untouched.',
  [GC], [('RCUTILS_CHECK_ALLOCATOR_WITH_MSG, rmw_names_and_types_check_zero, rmw_check_zero_rmw_string_array', GC)],
  'all combinations symbolic', ['return codes', 'arguments after the call'])
p('P12', 'Each local graph operation of a context publishes exactly the resulting state',
  'Each of the ten add and remove operations of a context (nodes, subscriptions, publishers, clients, services) publishes exactly one message through the publisher of the context, and the message is the complete state of the local participant after the operation, clients and services with both of their endpoints. The operation returns OK exactly when the publication succeeded and an error otherwise, also when there is no publisher or no publish callback.',
  [HI, I, F], 'Every sequence of operations on existing nodes with arbitrary identifiers and names and an arbitrary result of every publication.',
  'No test exercises the context at all.',
  [CX, CH, GC], [('Context::add_*_graph/remove_*_graph', CX), ('call_publish_callback', CX)],
  'sequences of 3 to 4 operations, symbolic identifiers, names and publication results', ['publish callback'])
p('P13', 'A failed addition is rolled back completely, a failed removal still takes effect',
  'When the publication of an addition (node, subscription, publisher, client, service) fails, the local graph is exactly as before the call, including nodes of the same name and their endpoints, and other participants. When the publication of a removal fails, the removal stays in effect; no failure leaves half of a client or service behind.',
  [HI, F, I], 'Every sequence of operations with publication failing at any of them, arbitrary identifiers and names, including names that are already in use.',
  'No test exercises the context; failures of publication and repeated names are not reachable from the existing tests.',
  [CX, GC], [('roll-back branches of Context::add_*_graph', CX), ('remove_node/dissociate_*', GC)],
  'sequences of 3 to 4 operations, symbolic publication results and identifiers', ['local graph after every operation'])
p('P14', 'Concurrent local operations publish their states in the order they take effect',
  'When several threads change the local graph through one context, each published message is the state right after its operation, in the order of publication, so that the last message published successfully (or rolled back) leaves remote and local graph in agreement. Each operation reports the result of its own publication, nothing races or deadlocks, and concurrent discovery updates and queries are unaffected.',
  [S, F], 'Every interleaving of two threads with any pair of context operations (three threads in part), with publication failing or not, preempted while publishing.',
  'No test exercises the context, let alone from several threads.',
  [CX, CH], [('node_update_mutex held from the change to its publication', CX)],
  'all schedules at lock and publish granularity; 2 threads x 1 operation, every pair, with failures; selected triples', ['publish callback', 'local graph'])
p('P15', 'Identifiers are totally ordered by all their bytes and nothing else',
  'The comparison used to key the graph is a strict total order on the 16 identifier bytes (irreflexive, asymmetric, transitive), two identifiers are equivalent exactly when all 16 bytes are equal, and equality agrees with it. The implementation identifier plays no part in either.',
  [I], 'All values of all 16 bytes of three identifiers.',
  'Tests compare a few pairs that differ in one position.',
  [GU], [('Compare_rmw_gid_t', GU), ('operator==', GU)],
  'all 16 bytes of 3 identifiers symbolic; use as map key with 3 insertions', ['results of the comparison'])
p('P16', 'Identifier conversion to and from messages is lossless',
  'Converting an identifier to its message form copies each of the 16 bytes to its place and converting back restores them, for all byte values; distinct identifiers give distinct messages. Only the bytes are written: the source and the implementation identifier of the destination are left alone.',
  [I], 'All values of all bytes.',
  'Tests convert one identifier with small byte values.',
  [GU], [('convert_gid_to_msg/convert_msg_to_gid', GU)],
  'all 16 bytes symbolic', ['converted values'])
p('P17', 'The text form of an identifier shows every byte and leaves the stream as it was',
  'An identifier is printed as its 16 bytes in order, in lower-case hexadecimal without padding, separated by dots, for all byte values. Numbers printed afterwards are decimal, and all other formatting of the stream (flags, precision, fill) is left as it was.',
  [I], 'All values of each byte.',
  'A test prints one identifier.',
  [GU], [('operator<<', GU)],
  'every pair of adjacent bytes symbolic, one job per position', ['text'])
p('P18', 'Clamping a time to DDS range keeps the duration or saturates, never wraps',
  'The clamped time always has at most 2^31-1 seconds and less than 10^9 nanoseconds. It is exactly the given duration, normalised, whenever that duration is at most 2^31-1 seconds and 999999999 nanoseconds, and exactly that maximum for every longer one; no intermediate value wraps around.',
  [I], 'Every pair of 64-bit seconds and nanoseconds.',
  'Tests check a few values; wrap-around in intermediate results needs extreme ones.',
  [TU], [('clamp_rmw_time_to_dds_time', TU)],
  'both 64-bit words fully symbolic', ['result'])
p('P19', 'A cleared or replaced on-change callback is not called any more',
  'Once clearing the on-change callback, or setting another one, has returned, the previous callback is not running and is never called again, whatever other threads are doing to the graph. Setting and clearing are free of races with the calls.',
  [S, I], 'Every interleaving of clearing or replacing with each of the operations that change the graph, preempted inside the callback.',
  'The tests are single-threaded.',
  [GC, GH], [('on_change_callback_ read, called and written under mutex_', GC), ('set_on_change_callback', GH)],
  'all schedules at lock granularity of one change against one clear or replace, preempted inside the callback', ['calls of the callback'])
p('P20', 'The QoS compatibility verdict is exact for all pairs of profiles',
  'The check reports an error exactly when some policy is certainly incompatible: reliable subscription of a best-effort publisher, transient-local subscription of a volatile publisher, manual-by-topic subscription of an automatic publisher, or a requested deadline or lease that is shorter than the offered one or requested while none is offered. Otherwise it reports a warning exactly when reliability, durability or liveliness of one side is unknown or system-default so that the other side may not match, and OK otherwise; history, depth and lifespan never matter.',
  [I], 'All pairs of profiles: every policy value including unset and unknown ones, all durations.',
  'Tests check some 30 pairs; the combinations of doubtful and incompatible policies and boundary durations are not covered.',
  [QO, QH], [('qos_profile_check_compatible', QO), ('rmw_time comparison operators', QO)],
  'both profiles symbolic in every field; 64-bit durations with normalised nanoseconds', ['compatibility'])
p('P21', 'The compatibility reason is complete, bounded and independent of the verdict',
  'The reason is empty when the profiles are compatible; otherwise, given enough space, it names every incompatible policy (on an error) or every doubtful one (on a warning). A buffer of any size is terminated and never overrun, holds the beginning of the full reason, and its presence or size never changes the verdict; a null verdict, or a size without a buffer, is rejected as an invalid argument without writing anything.',
  [I], 'All combinations of policy values and every buffer size around the length of the text.',
  'Tests check some reasons with ample or one-byte buffers, not the truncation in the middle of a message or several policies at once.',
  [QO], [('_append_to_buffer', QO), ('qos_profile_check_compatible', QO)],
  'policies symbolic in groups; buffer sizes: 1, several in the middle, exact, exact plus one', ['reason buffer'])
p('P22', 'Best-available policies of a subscription follow the publishers as documented',
  'For every set of publishers, each best-available policy of a subscription becomes what the documentation says: reliable, transient-local and manual-by-topic when all publishers are, otherwise best-effort, volatile and automatic; deadline and lease the largest of the publishers, or the default if all are default. Policies that are not best-available, and history, depth and lifespan, are not touched, nor are the publishers.',
  [I], 'Up to four publishers with arbitrary policies and durations, and every initial profile.',
  'Tests use one to three endpoints with few fixed durations.',
  [QO, QH], [('qos_profile_get_best_available_for_subscription', QO)],
  'n up to 4 endpoints, policies and 64-bit durations symbolic (policy by policy for n > 2)', ['adapted profile'])
p('P23', 'Best-available policies of a publisher follow the subscriptions as documented',
  'For every set of subscriptions, each best-available policy of a publisher becomes what the documentation says: reliable; transient-local; manual-by-topic if at least one subscription is, otherwise automatic; deadline and lease the smallest non-default one of the subscriptions, or the default if all are default. Policies that are not best-available, and history, depth and lifespan, are not touched, nor are the subscriptions.',
  [I], 'Up to four subscriptions with arbitrary policies and durations, and every initial profile.',
  'Tests use one to three endpoints with few fixed durations.',
  [QO, QH], [('qos_profile_get_best_available_for_publisher', QO)],
  'n up to 4 endpoints, policies and 64-bit durations symbolic (policy by policy for n > 2)', ['adapted profile'])
p('P24', 'A fully adaptive endpoint is compatible with every endpoint it adapted to',
  'A profile whose policies are all best-available, adapted to any set of endpoints with concrete policies that either all have or all lack a deadline (likewise a lease), is judged compatible with each of them. Adapting it again to the same endpoints changes nothing.',
  [I], 'Up to three endpoints with arbitrary concrete policies and durations.',
  'Tests never combine adaptation with the compatibility check over more than fixed examples.',
  [QO], [('qos_profile_get_best_available_for_subscription/publisher', QO), ('qos_profile_check_compatible', QO)],
  'n up to 3 endpoints, both directions', ['verdict for the adapted profile'])
p('P25', 'Topic-level adaptation queries the graph only when needed and is all-or-nothing',
  'Adapting a profile to a topic queries the endpoints of that topic exactly once when some policy is best-available, and then adapts the profile by the documented rules; without best-available policies the graph is not queried and the profile not touched. A failing query is reported with its own error and leaves the profile unchanged, everything allocated is released with the allocator of the context, and null arguments are rejected.',
  [I, F], 'Every profile, up to two endpoints, every result of the query.',
  'Tests use a query that always succeeds or fails in one way, and do not check the profile after a failure.',
  [QO, QH], [('qos_profile_get_best_available_for_topic_subscription/publisher', QO)],
  'profile, endpoints and the result of the query symbolic', ['query callback', 'allocator balance', 'profile'])
p('P26', 'Service profiles replace exactly the best-available policies by service defaults',
  'Updating a profile for services replaces each best-available policy (reliability, durability, liveliness, deadline, lease) by the default for services and leaves every other policy and field as it was. The result has no best-available policy, and the argument is not modified.',
  [I], 'All profiles.',
  'One test checks two profiles.',
  [QO, QH], [('qos_profile_update_best_available_for_services', QO)],
  'the profile is symbolic in every field', ['returned profile'])
p('P27', 'Type hashes survive USER_DATA, and malformed USER_DATA is handled safely',
  'A type hash is encoded as "typehash=<text of the hash>;" (nothing for an unset one), and parsing that text, alone or between other keys, gives the same hash back for all values. For arbitrary bytes parsing never reads outside the data: without the exact key it succeeds with the zero hash, a key with a malformed hash is an error, null data is an invalid argument, and failures to build the text are reported.',
  [I], 'All 32 bytes of the hash; arbitrary surrounding keys; every single-byte alteration and truncation of a valid text; short arbitrary data.',
  'Tests check one hash and three texts.',
  [QO, QH], [('parse_type_hash_from_user_data', QO), ('encode_type_hash_for_user_data_qos', QO)],
  'hash fully symbolic; one altered byte at every position, every truncation, short arbitrary data', ['results'])
p('P28', 'The printed graph shows everything that is known and nothing that is gone',
  'Printing the graph shows every known endpoint with its identifier, topic and type, every participant with its enclave, and every node with its name, namespace and the identifiers of its readers and writers, and shows no endpoint that was removed. The stream stays usable and its number format as it was.',
  [HI, I], 'Graphs reached by up to three operations with arbitrary identifiers, topics and names.',
  'Tests only check that printing gives some output.',
  [GC, GU], [('operator<<', GC)],
  'histories of 1 to 3 operations, symbolic last identifier byte, names and topics', ['printed text'])
p('P30', 'Security files are all or nothing, for every state of the enclave',
  'Looking up the security files of an enclave succeeds exactly when each of the six required attributes (identity CA, certificate, private key, permissions CA, governance, permissions) has an acceptable file, a regular file possibly behind a symbolic link or an accepted PKCS#11 URI, and then sets exactly these attributes plus the optional revocation list in the result (all of it, when the caller passed an empty result). Otherwise it returns false and an empty result, whatever the result held before; missing files, directories, devices, dangling or looping links never make it throw, and no file stays open.',
  [C, I], 'Every combination of present and absent files, and every kind of file for the governance and permissions files.',
  'Tests create a few directories with regular files.',
  [SE], [('required_files/optional_files loops', SE)],
  'symbolic file system: presence of all 11 files, 8 kinds of file', ['return value', 'result map'])
p('P31', 'PKCS#11 URIs are preferred when supported, verbatim, and safely rejected',
  'When the caller supports PKCS#11, an attribute with a .p11 file whose first whitespace-delimited word starts with "pkcs11:" is that word, verbatim and without prefix, and is preferred over the .pem file. In every other case (not supported, missing, not a readable regular file, empty, other content) the .pem file is used if it is a regular file, and the content of the .p11 file has no influence.',
  [I, C], 'Arbitrary content of the .p11 file within the bounds, every kind of file for both alternatives, for each of the four attributes.',
  'Tests check two contents; white space, truncated or embedded prefixes and odd kinds of files are not sampled.',
  [SE], [('process_pkcs_uri_security_file/process_file_uri_security_file', SE)],
  'up to 5 arbitrary bytes, arbitrary bytes around the prefix, every single-byte alteration and truncation, long values', ['result map'])
p('P32', 'File attributes are the prefix and the path below the given root, exactly',
  'Each attribute that is found as a file is reported as the given prefix followed by the path of that file in the given root directory, for every prefix (also empty) and every spelling of the root (trailing or repeated separators, relative, absolute, empty, long, unusual characters). Attributes of an earlier lookup in the same result are replaced, and the short form of the function behaves as the long one without PKCS#11 support.',
  [I, C], 'Arbitrary prefixes of up to 18 bytes, arbitrary short roots and a list of unusual spellings, mixed with PKCS#11 attributes.',
  'Tests use one prefix and one root.',
  [SE], [('full_path composition', SE)],
  '3 arbitrary bytes of root, 18 of prefix, 14 spellings', ['result map'])
p('P33', 'A revocation list is reported exactly when it is there, and never hidden',
  'The revocation list is part of a successful result, as prefix and path, exactly when crl.pem is a regular file (possibly behind a symbolic link); its absence alone never makes the lookup fail. When it cannot be determined whether it is there, the lookup fails with an empty result rather than go on without it.',
  [C], 'Every kind of file for crl.pem combined with every presence of the required files.',
  'Tests check its presence once.',
  [SE], [('optional_files loop', SE)],
  'symbolic file system, 8 kinds of file', ['result map'])
p('P34', 'Functions without an object can be called from several threads at once',
  'The compatibility check, the adaptation of profiles (to given endpoints, to a topic, to services), the type hash functions, the lookup of security files, time clamping, and comparison, conversion and printing of identifiers are reentrant: calls in different threads on different data never race, and each gives exactly the result it gives when it is called alone, whatever the others do and whether or not the function was used before.',
  [S, I], 'Every pair of these functions at the same time, on different data, with or without earlier calls; every schedule at the granularity of locks, atomic accesses and callbacks.',
  'All tests are single-threaded; hidden shared state (static buffers, caches, lazily built tables) shows only under concurrency.',
  [QO, SE, GU, TU], [('all functions', QO), ('get_security_files', SE), ('clamp_rmw_time_to_dds_time', TU), ('operators and conversions', GU)],
  'two threads, one call each; profiles from a small set with symbolic deadlines, hashes, times and identifiers symbolic', ['results of each thread', 'accesses of each thread'])
p('P35', 'An exception in the middle of an operation never wedges the graph',
  'When a callback given to the graph cache or the context throws (on-change, demangling, publishing, the stream printed to), or C++ memory runs out at any point of any operation, the caller gets the exception (or an error), no lock stays held, no memory is lost and the results of a query are left empty: the graph can still be queried, printed, changed and destroyed, and later changes are still notified. A throwing on-change callback does not undo the change, and a query that throws changes nothing in the graph.',
  [F, C], 'Every operation with a fault at every callback and at every one of its first 12 allocations.',
  'Tests have no throwing callbacks and never run out of memory.',
  [GC, GH, CX], [('lock_guard in every operation', GC), ('call_publish_callback', CX), ('get_writers_info_by_topic/get_readers_info_by_topic', GC)],
  'fault at every callback, stream operation (up to 120) and allocation (up to 12) of one operation on a small graph, symbolic identifier', ['exceptions', 'locks', 'allocations', 'later queries'])

TECH = 'symbolic execution of the clang LLVM IR of the real sources; Z3 decides every branch and assertion; counterexamples replayed natively'
NA = []


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, n in P:
            f.write(json.dumps(d) + '\n')
    checks = []
    for d, n in P:
        i = d['id']
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i, technique=TECH, level='model_checking',
                           level_note='Exhaustive within the bounds: %s (exact bounds per job in the evidence file). Trusts the '
                           'executor (checked by running explored paths natively), the models of ROS packages, libstdc++ '
                           'internals and system calls, clang and Z3.' % n))
    json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=NA,
                   notes='See DESIGN.md. No hooks in /repo are needed.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
