"""Which simulator binaries decide which property, and how evidence describes it."""
READER_REAL = ['MessageReader (src/message_reader.cc)', 'MessageStream adapter (src/message_stream.cc)', 'protobuf LimitingInputStream/CodedInputStream', 'absl::Status']
READER_STUB = ['byte source (simulated TranscoderInputStream: arrivals, stalls, cuts, failures)', 'message source (simulated MessageStream)', 'operator new (failure injection)']
R_RULE = ('one evaluation = one simulated session: 1-4 connections with their own frame lists, executed from a generated plan of arrivals, polls, reads, faults, '
          'then healed and drained; non-trivial = at least one frame delivered or an end/error reached; distinct = distinct sequence of (poll outcome, message length)')
A_RULE = ('one evaluation = one simulated session: 1-4 byte views over message sources, executed from a generated plan of availability, reads, give-backs, queries, faults, '
          'then drained; non-trivial = at least one byte delivered; distinct = distinct sequence of (read outcome, size)')
STREAM = [('stream_fast', 5), ('stream_asan', 3)]
R_ASSUME = ['sources follow the ZeroCopyInputStream contract (Finished() means no byte will be added; BytesAvailable() counts bytes that Next() returns without waiting)',
            'callers read a message to its end and release it before the next poll, as the header requires']


def _r(rule=R_RULE, **k):
    d = dict(workers=STREAM, rule=rule, real=READER_REAL, stub=READER_STUB, assumptions=R_ASSUME)
    d.update(k)
    return d


ROUTER = [('router_thr', 6), ('router_asan', 2)]
ROUTER_REAL = ['PathMatcher / PathMatcherBuilder (path_matcher.h)', 'PathMatcherNode (src/path_matcher_node.cc)', 'HttpTemplate (src/http_template.cc)',
               'PathMatcherUtility (path_matcher_utility.h)', 'percent_encoding.h', 'OS threads (one runs at a time)']
ROUTER_STUB = ['thread scheduler (decides at every access to shared memory and every lock operation)', 'mutexes, once, condition variables and sleeps while simulated threads run',
               'operator new (failure injection, deterministic addresses, seeded address reuse)']
ROUTER_RULE = ('one evaluation = one simulated session: 1-3 rule tables, 1-3 matcher slots, 1-6 threads with operation lists (lookups, bursts, builder fills, builds, reloads), '
               'executed under a plan of operation order and preemption points; non-trivial = at least one lookup matched a rule; '
               'distinct = distinct sequence of (thread, operation, lookup answer) in execution order')
ROUTER_ASSUME = ['sequentially consistent execution: the happens-before model flags unordered accesses, but no value that only a weaker memory order could produce is simulated',
                 'accesses made inside libstdc++.so, libc and prebuilt libraries are not preemption points (their inline code is)',
                 'a builder is used by one thread at a time, as documented']


def _t(rule=ROUTER_RULE, **k):
    d = dict(workers=ROUTER, rule=rule, real=ROUTER_REAL, stub=ROUTER_STUB,
             states='distinct (instruction at which a thread was switched out, instruction at which the next one resumes) pairs, plus lookup outcome classes', assumptions=ROUTER_ASSUME)
    d.update(k)
    return d


TRANS = [('trans_fast', 5), ('trans_asan', 3)]
CONV_STUB = ['protobuf converter classes, reached through thin wrappers over the copies inside the installed libprotobuf.a (its own JSON parser and proto writer)',
             'TypeInfo cache (own implementation over the resolver)']
Q_REAL = ['JsonRequestTranslator, RequestStreamTranslator, RequestMessageTranslator, RequestWeaver, PrefixWriter, StatusErrorListener, TypeHelper (src/*.cc)',
          'MessageStream byte view (src/message_stream.cc)', 'protobuf JSON parser and proto writer (installed library)']
Q_STUB = ['HTTP connection (simulated ZeroCopyInputStream: arrivals, stalls, cuts, corruption)'] + CONV_STUB
P_REAL = ['ResponseToJsonTranslator, MessageReader, TypeHelper (src/*.cc)', 'MessageStream byte view (src/message_stream.cc)', 'protobuf binary-to-JSON printer (installed library)']
P_STUB = ['gRPC connection (simulated TranscoderInputStream: arrivals, stalls, cuts, bad flags, unparsable frames)'] + CONV_STUB
Q_RULE = ('one evaluation = one simulated session: 1-4 interleaved translations (unary or streaming, random body path, bindings, elements), executed from a generated plan of '
          'arrivals, polls or byte-view reads with give-backs, closes, abandonment and faults, then drained; non-trivial = a message delivered or an error reached; '
          'distinct = distinct sequence of delivered messages')
P_RULE = ('one evaluation = one simulated session: 1-4 interleaved response translations (unary, array, newline; random messages and print options), executed from a generated plan of '
          'arrivals, polls or byte-view reads with give-backs, closes, abandonment and faults, then drained; non-trivial = output delivered or an error reached; '
          'distinct = distinct sequence of delivered pieces')
T_ASSUME = ['the installed protobuf 3.21 converter (behind wrappers checked with the repository\'s own translator tests) stands for the newer one the sources name',
            'what the JSON printer and scalar conversions of that library produce is taken as right; field values, element order, framing and bindings are judged by an own model']


def _q(rule=Q_RULE, real=Q_REAL, stub=Q_STUB, **k):
    d = dict(workers=TRANS, rule=rule, real=real, stub=stub, assumptions=T_ASSUME)
    d.update(k)
    return d


E2E = [('e2e_thr', 6), ('e2e_asan', 2)]
LOCK_STUB = ['thread scheduler (decides at every access to shared memory and every lock operation)', 'mutexes, once, condition variables and sleeps while simulated threads run',
             'operator new (deterministic addresses, seeded address reuse)']
TYPES = dict(workers=E2E, real=['TypeHelper, LockedTypeInfo, SimpleTypeResolver (src/type_helper.cc)', 'percent_encoding.h', 'OS threads (one runs at a time)'],
             stub=['TypeInfo cache (own implementation over the resolver, without locks of its own, instrumented like the code under test)', 'an application\'s own type source (slow)'] + LOCK_STUB,
             rule='one evaluation = one simulated session: 1-2 random schemas, 1-3 shared helpers, 1-6 threads with question lists (field paths, type and enum look-ups, replacement of helpers), executed '
                  'under a plan of operation order and preemption points; non-trivial = at least one question answered; distinct = distinct sequence of (thread, answer) in execution order',
             states='distinct (instruction at which a thread was switched out, instruction at which the next one resumes) pairs, plus question outcome classes',
             assumptions=ROUTER_ASSUME[:2] + ['protobuf\'s own caching TypeInfo is represented by a stand-in with the same unlocked lazy caches'])
FLOW = dict(workers=E2E, real=sorted(set(ROUTER_REAL[:-1] + Q_REAL + P_REAL)) + ['OS threads (one runs at a time)'],
            stub=['HTTP client and gRPC server of every call (echoing every request message, extra messages, cuts, bad frames)'] + CONV_STUB + LOCK_STUB,
            rule='one evaluation = one simulated session: 1-5 routes, 2-7 calls on 1-4 threads, each driven step by step from a generated plan (arrivals, polls, byte-view reads, closes, '
                 'abandonment, replacement of the tables, preemption at memory accesses and lock operations), healed, finished, then replayed alone; non-trivial = a message or error reached a '
                 'client or server; distinct = distinct sequence of delivered messages and thread switches',
            states='distinct (instruction at which a thread was switched out, instruction at which the next one resumes) pairs, plus call-step outcome classes',
            assumptions=ROUTER_ASSUME[:2] + T_ASSUME + ['protobuf library code runs without preemption inside, except where it calls back into the code under test'])
KEEP = dict(workers=[('soak_fast', 2), ('stream_fast', 1), ('trans_fast', 2), ('router_thr', 1), ('e2e_thr', 2)],
            real=sorted(set(READER_REAL + ROUTER_REAL[:-1] + Q_REAL + P_REAL)), stub=sorted(set(READER_STUB + ROUTER_STUB + Q_STUB + P_STUB)),
            rule='one evaluation = one simulated session: a session of any other scenario with its schedule and faults (memory held before and after is compared; what stays is only reported if it stays '
                 'on every one of four runs of the session), or a long session of one kind (reader, byte view, request, response, row of calls, row of look-ups) measured every round; non-trivial and '
                 'distinct as in the scenario',
            assumptions=['memory is what operator new hands out; malloc called directly is not counted', 'memory that only the first run of a session keeps is a lazily initialised static',
                         'growth shows as more than a few KiB within a session of 80 to 1500 rounds'])
CHECKS = {
    'C16': TYPES, 'C17': FLOW,
    'C20': _q(), 'C22': KEEP,
    'C12': _q(), 'C13': _q(), 'C14': _q(P_RULE, P_REAL, P_STUB), 'C15': _q(P_RULE, P_REAL, P_STUB),
    'C08': _t(), 'C09': _t(),
    'C10': _t(ROUTER_RULE + '; calls run with the k-th allocation failing, then retried or abandoned'),
    'C01': _r(), 'C02': _r(), 'C03': _r(), 'C04': _r(), 'C05': _r(),
    'C06': _r(A_RULE), 'C07': _r(A_RULE),
    'C11': _r(R_RULE + '; plus sessions of the adapter scenario', level='fault_enumeration' if False else 'exploration'),
}

TECH = 'deterministic simulation with fault injection (seeded schedule and fault search, model oracle, minimised replay)'
NOTE = ('Seeded sampling of schedules and fault sequences against an executable model: evidence, not proof. Trusts the model, the simulated sources\' '
        'adherence to the stream contracts, and the installed protobuf/absl libraries.')
PURE = 'a pure function of its arguments: no schedule, clock, I/O, fault or interleaving to simulate; '
NA = {
    'C18': PURE + 'its effect on routing is exercised inside C08/C09',
    'C19': PURE + 'its effect on bindings is exercised inside C08/C09',
    'C21': PURE + 'it only forwards to registration, which C09/C10 exercise',
}
