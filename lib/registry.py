"""Which jobs decide which property."""


class Job:
    def __init__(self, harness, variant, mode="", quick=100, thorough=2000, batch=0, scale=0, timeout=120, tiers=("quick", "thorough"),
                 extra=(), nosubst=False, serial=False, leaks=True, dns_san=False, optional=False, same_seed=False, keys=None):
        self.harness, self.variant, self.mode = harness, variant, mode
        self.quick, self.thorough, self.batch, self.scale, self.timeout = quick, thorough, batch, scale, timeout
        self.tiers, self.extra, self.nosubst, self.serial, self.leaks, self.dns_san = tiers, extra, nosubst, serial, leaks, dns_san
        self.same_seed = same_seed
        self.keys = keys            # regular expression: only failures with these keys concern the property
        self.optional = optional    # skipped if it does not build (it uses internal functions)

    def name(self):
        return "%s/%s/%s%s" % (self.harness, self.variant, self.mode, "/%d" % self.scale if self.scale else "")


PROPS = {}
TECH = "runtime monitoring: "


def prop(pid, jobs, technique, rule, note, need=None, level="exploration", assumptions=(), budget=240, compare=False):
    PROPS[pid] = dict(jobs=jobs, technique=TECH + technique, rule=rule, level_note=note, need=need or {}, level=level,
                      assumptions=list(assumptions), budget=budget, compare=compare)


CORE_RULE = ("A case is a random program: coroutines (some on supplied stacks) that launch others, open and close bundles, wait, "
             "sleep, yield, send, receive, choose, transfer and close handles, each step drawn from the case's seed with the weights of the "
             "mode. Non-trivial: at least 4 coroutines and 20 context switches. Distinct: by a hash of the sequence of steps, their virtual times and wake-ups.")
CORE_NOTE = ("Every call's result and the order of all resumptions are compared with an executable model in exact virtual time; "
             "held on the programs generated, which are bounded in size. Trusts the model, the substituted clock and wait call.")
CORE_ASSUME = ["The kernel wait is replaced by a non-blocking one and virtual time advances by the requested timeout; single thread."]


def core(mode, q, t, scales=((0, 1.0),), variants=("asan", "plain", "asan-poll")):
    js = []
    w = {"asan": 1.0, "asan-poll": 0.4, "plain": 3.0, "msan": 0.7, "gasan": 0.5, "clang-O2": 1.0, "archfb": 1.0}
    for sc, f in scales:
        for v in variants:
            js.append(Job("core", v, mode, max(1, int(q * f * w[v])), max(1, int(t * f * w[v])), scale=sc))
    return js


prop("C01", core("s", 9000, 150000) + core("m", 6000, 100000) + core("s", 60, 3000, ((60, 1),)),
     "online scheduler model over random programs in virtual time", CORE_RULE, CORE_NOTE,
     need={"switches": 100000, "yields": 10000, "rendezvous": 3000, "kernel_waits": 1000}, assumptions=CORE_ASSUME)

prop("C02", [Job("stack", v, "", q, t) for v, q, t in (("plain", 300, 8000), ("gcc-O0", 150, 4000), ("gcc-O3", 150, 4000), ("clang-O2", 150, 4000),
                                                     ("archfb", 150, 4000), ("asan", 100, 3000), ("nothreads", 100, 3000))],
     "register, local and stack canaries checked around every context switch under several compilers",
     "A case runs a random set of coroutines on library and supplied stacks, each keeping live values in locals, registers and arrays across "
     "switches of every kind. Non-trivial: at least two coroutines interleaved. Distinct: by hash of stack layout choices and interleaving.",
     "Canaries compared after every switch, stacks checked for disjointness and supplied buffers for out-of-bounds writes; six compiler configurations.",
     assumptions=["x86-64 only; the portable configuration stands for the other processors"])

prop("C03", core("x", 10000, 120000) + core("x", 40, 2000, ((60, 1),)),
     "online cancellation model over random programs", CORE_RULE, CORE_NOTE, assumptions=CORE_ASSUME)
prop("C04", core("w", 10000, 120000) + core("w", 40, 2000, ((60, 1),)),
     "online bundle-wait model over random programs", CORE_RULE, CORE_NOTE, assumptions=CORE_ASSUME)
GROW = [Job("core", v, "g", q, t, batch=3) for v, q, t in (("asan", 200, 6000), ("plain", 400, 12000))]
prop("C05", core("h", 10000, 120000) + core("h", 40, 2000, ((60, 1),)) + GROW,
     "online handle-table model over random histories", CORE_RULE, CORE_NOTE, assumptions=CORE_ASSUME)
prop("C06", core("c", 10000, 120000) + core("c", 40, 2000, ((60, 1),)),
     "online channel model (exactly-once, order, content) over random programs", CORE_RULE, CORE_NOTE, assumptions=CORE_ASSUME)
prop("C07", core("d", 10000, 120000) + core("d", 40, 2000, ((60, 1),)),
     "online channel-shutdown model over random programs", CORE_RULE, CORE_NOTE, assumptions=CORE_ASSUME)
prop("C08", core("o", 10000, 120000) + core("o", 40, 2000, ((60, 1),)),
     "online choice model over random programs", CORE_RULE, CORE_NOTE, need={"choose_immediate": 5000, "choose_woken": 5000, "choose_long": 1000}, assumptions=CORE_ASSUME)
prop("C11", core("t", 10000, 120000) + core("t", 80, 3000, ((60, 1),)),
     "online timer-set model in exact virtual time", CORE_RULE, CORE_NOTE, assumptions=CORE_ASSUME)
prop("C10", [j for m in "sxwhcdotm" for j in core(m, 1200, 12000, variants=("asan", "asan-poll", "msan"))]
     + core("m", 20, 800, ((60, 1),), ("asan", "msan")) + GROW,
     "AddressSanitizer, UBSan, LeakSanitizer and MemorySanitizer over random core programs", CORE_RULE,
     "Sanitizer-clean on the programs generated.", assumptions=CORE_ASSUME)

FD_RULE = ("A case is a random program of coroutines waiting for socket pairs, pipes and event descriptors with random deadlines while others write, "
           "drain, shut down, forget, close and reuse them and cancel each other (mode n: hundreds of descriptors ready at once; mode b: coroutines that "
           "never stop running). Non-trivial: more than 40 steps executed. Distinct: by hash of results and times.")
FD_NOTE = ("The kernel's own answer, sampled with poll() right before each kernel wait of the library, is the oracle for every wake-up, time-out and refusal; "
           "both event back ends. Held on the generated histories. kqueue cannot be run here.")


def fdj(mode, q, t):
    return [Job("fd", v, mode, max(1, int(q * f)), max(1, int(t * f))) for v, f in (("asan", 0.5), ("plain", 1), ("asan-poll", 0.5), ("plain-poll", 1), ("msan-poll", 0.2))]


prop("F01", fdj("f", 2500, 120000) + fdj("n", 40, 1500) + fdj("c", 800, 30000), "online monitor of descriptor waits against sampled kernel readiness", FD_RULE, FD_NOTE,
     need={"in_ready": 5000, "out_ready": 5000, "timed_out": 5000, "busy_refused": 500, "wait_cancelled": 500}, assumptions=CORE_ASSUME)
prop("F02", fdj("c", 4000, 200000), "online monitor of forget, close and number reuse against sampled kernel readiness", FD_RULE, FD_NOTE,
     need={"cleaned": 20000, "clean_busy": 1000, "number_reused": 10000}, assumptions=CORE_ASSUME)
prop("T03", fdj("b", 250, 12000), "online lateness monitor of timers and descriptors under busy coroutines in virtual time", FD_RULE,
     "Lateness of every wake-up bounded by 1001 ms plus two rounds of the busy coroutines' own steps.",
     need={"timers_served": 500, "fds_served": 500, "burns": 20000}, assumptions=CORE_ASSUME)
prop("T02", [Job("clock", v, "v", q, t) for v, q, t in (("plain", 3000, 150000), ("asan", 1000, 40000), ("nothreads", 1000, 40000))] +
     [Job("clock", v, "r", 4, 150, serial=True, batch=4) for v in ("plain", "clang-O2", "threadfb")],
     "online monitor of reported time against the simulated and the real monotonic clock",
     "A case takes many readings of the time between passages of simulated time of random size, sleeps and time-outs, for clocks of 1 to 10 ms resolution and "
     "cycle counters of 1 to 10 GHz that may jump; mode r reads the real clock from several threads. Distinct: by hash of the deviations seen.",
     "Bounds: never decreasing, never ahead of the clock, at most the clock's resolution plus 1 ms behind (15 ms for the real clock).",
     assumptions=["A cycle counter of at least 1 GHz, as the implementation documents."])

prop("C09", [Job("threads", v, "p", q, t) for v, q, t in (("tsan", 150, 6000), ("tsan-fb", 100, 4000), ("plain", 300, 20000), ("threadfb", 200, 10000), ("asan", 100, 5000), ("threadfb-asan", 50, 3000))] +
     [Job("threads", v, "f", q, t, batch=2) for v, q, t in (("tsan", 60, 2000), ("plain", 60, 3000), ("threadfb", 40, 2000), ("tsan-fb", 40, 1000))],
     "ThreadSanitizer, and comparison of each thread's trace with the trace of the same program running alone",
     "A case starts 2 to 8 threads that run random programs (coroutines, channels, timers, descriptors, local and TCP connections, UDP, WebSocket, name "
     "resolution) at the same time and then alone, in virtual time per thread; mode f has a fresh process per two cases so that every thread is a first user. "
     "Non-trivial: more than 100 events compared. Distinct: by hash of the traces.",
     "Race-free and identical traces on the interleavings the machine produced; memory and descriptors return to the level before the threads.",
     need={"threads": 1000, "events_compared": 50000}, assumptions=["Interleavings come from the real scheduler of an 8-core machine."])


def net(h, mode, q, t, variants=(("plain", 1), ("asan", 0.3), ("asan-poll", 0.2), ("msan", 0.15), ("clang-O2", 0.3))):
    return [Job(h, v, mode, max(1, int(q * f)), max(1, int(t * f))) for v, f in variants]


NET_ASSUME = ["Loopback sockets of the machine's real kernel; short transfers, EAGAIN, EINTR and failures are injected at the system-call boundary; virtual time."]
ST_RULE = ("A case is a pair of connected TCP or local sockets on which coroutines send and receive random amounts in random lists (empty elements, many elements, "
           "dropped elements) with random deadlines, short transfers and cancellation; %s. Non-trivial: more than 200 bytes moved. Distinct: by hash of results.")
ST_NOTE = ("Bytes carry their position in the stream, so that loss, duplication, reordering and corruption show at once; lists and buffers are guarded on both sides. "
           "Held on the generated histories.")
LAY = (("plain", 1), ("asan", 0.4), ("asan-poll", 0.2), ("clang-O2", 0.3), ("gcc-O0", 0.2))
LAYB = (("plain", 1), ("asan", 0.4), ("clang-O2", 0.3), ("plain-poll", 0.2))
TLSV = (("plain", 1), ("asan", 0.4), ("plain-poll", 0.2), ("clang-O2", 0.3))
prop("B01", net("stream", "s", 6000, 200000) + net("stream", "c", 1000, 30000), "online byte-position monitor of streams over random programs, with sanitizers",
     ST_RULE % "both sides transfer and finish", ST_NOTE, need={"bytes_sent": 10**7, "lists_sent": 20000, "recvs": 50000}, assumptions=NET_ASSUME)
prop("B02", net("stream", "c", 6000, 200000) + net("stream", "e", 2500, 80000), "online monitor of half-close and close handshakes over random programs",
     ST_RULE % "each side finishes, closes with the handshake or abruptly at a random point", ST_NOTE,
     need={"dones": 1000, "clean_closes": 1000, "failed_closes": 300, "epipes": 1000}, assumptions=NET_ASSUME)
prop("B03", net("stream", "e", 5000, 150000) + net("stream", "k", 400, 10000) + net("layers", "k", 6000, 200000, LAYB), "online monitor of failed stream operations with fault injection, at the kernel interface and between a protocol and the stream beneath it",
     ST_RULE % "operations are cancelled, time out, the peer disappears and the kernel reports injected errors; mode k: the peer never stops sending; or a prefix, suffix, WebSocket or TLS socket lies over a layer that fails once, before or after doing its work, and then works again", ST_NOTE,
     need={"beneath_failed": 3000, "beneath_busy": 300, "other_direction": 6000, "sends_failed": 2000, "recvs_failed": 2000, "faults_reported": 300, "floods": 50}, assumptions=NET_ASSUME)
prop("B04", net("stream", "b", 2500, 80000) + net("tls", "b", 1500, 40000, TLSV) + net("layers", "b", 2500, 80000, LAYB), "online monitor of concurrent operations on one direction",
     ST_RULE % "further coroutines attempt operations on directions that are in use, on streams, on message protocols above them and on TLS sockets (sending, receiving and tls_done); or a random stack of up to four protocols (prefix, suffix, terminal message, WebSocket, HTTP, TLS, counting layers) through which both sides send messages, while every attempt to send, receive or finish in a direction in use must fail with EBUSY without effect", ST_NOTE,
     need={"busy_send_refused": 1000, "busy_recv_refused": 1000, "tls_busy_send_refused": 200, "tls_busy_recv_refused": 1000, **{"busy_%s_%s" % (o, k): n for o, n in (("send", 400), ("recv", 150), ("done", 150)) for k in ("term", "http", "ws", "tls")}, "busy_send_prefix": 300, "busy_recv_prefix": 100, "busy_send_suffix": 100, "busy_recv_suffix": 100, "busy_ends": 1000}, assumptions=NET_ASSUME)
prop("B05", net("iol", "x", 4000, 150000, (("plain", 1), ("asan", 0.3), ("clang-O2", 0.4), ("plain-poll", 0.2))) + [Job("iolh", v, "x", 3000, 100000, optional=True) for v in ("plain", "asan", "msan", "clang-O2")]
     + net("layers", "k", 1500, 50000, (("plain", 1), ("asan", 0.3))),
     "online monitor of refused calls on sockets of eight kinds and of the lists after calls that succeed or fail, list helpers against byte-wise reference, with sanitizers",
     "A case is a pair of sockets (TCP, local, UDP, prefix, suffix, terminal message, WebSocket, TLS) on which valid transfers alternate with calls given malformed lists: missing ends, ends that are not last, chains that end early or run backwards, "
     "cycles anywhere, elements in use, with and without data waiting. A second harness applies the list helpers to random lists; a third sends and receives over protocols whose stream fails. Non-trivial: all. Distinct: by hash of kinds, sizes and directions.",
     "Lists, buffers and time are compared around every refused call, and the valid transfers around them show that nothing was consumed or sent. Held on the generated lists (up to 6 elements when malformed).",
     need={"malformed": 30000, "malformed_with_data_pending": 10000, "good": 30000, "lists_intact": 8000}, assumptions=NET_ASSUME)
prop("B06", net("conn", "a", 1500, 50000) + net("conn", "c", 2500, 100000) + net("conn", "w", 2500, 100000), "online matching of connects with accepts, of results with the kernel's view and of descriptor and block counts, with fault injection",
     "A case is (a) up to 60 clients connecting, in part with deadlines, cancellation and early closing, to up to 3 listeners (TCP over IPv4 and IPv6, local) accepted by several coroutines; (c) a series of connects, listens and accepts "
     "that fail: nobody listening, nobody answering, wrong paths and kinds, full queues, injected failures, cancellation; (w) descriptors of 17 kinds given to the four wrapping functions. Non-trivial: more than 3 clients or any series. Distinct: by hash of results.",
     "Clients identify themselves and expect a personal reply, so each accepted connection is matched with one connect; reported addresses are compared with getsockname; descriptors, blocks and flags are compared around every failing call. Held on the generated histories.",
     need={"accepted": 4000, "matched": 4000, "addresses_checked": 1000, "closed_in_backlog": 300, "silent_timeouts": 500, "silent_cancelled": 500, "refused": 2000, "wrapped": 2000, "faults": 1000, "accepted_after_fault": 100, "accept_aborts": 3000}, assumptions=NET_ASSUME)
prop("B07", net("stream", "d", 8000, 300000), "online monitor of passed descriptors (identity by fstat) and of the stream around them, with fault injection",
     ST_RULE % "descriptors of distinct files are passed between the bytes; some peers pass several at once, none, or break off", ST_NOTE,
     need={"fds_received": 5000, "multi_fd_messages": 50, "broken_peers": 50}, assumptions=NET_ASSUME)

MSG_RULE = ("A case is a pair of sockets with the protocol attached (randomly a model-driven raw peer that encodes and decodes by itself) over a local or TCP stream, on which coroutines send and "
            "receive messages of sizes around every boundary in random lists and buffers, %s, ending by detaching both sides, by a handshake or by the end of the stream at a random byte. "
            "Non-trivial: more than 4 messages delivered. Distinct: by hash of results.")
MSG_NOTE = ("Every message is compared byte by byte with the one sent; the raw peer checks the wire form; buffers and lists are guarded. Held on the generated histories.")
prop("M02", net("msg", "p", 4000, 150000) + net("msg", "pe", 3000, 100000), "online queue model of PREFIX sockets with a reference codec peer, with sanitizers",
     MSG_RULE % "with random header widths, byte orders, deadlines and cancellation", MSG_NOTE,
     need={"wire_checked": 3000, "positions_checked": 1000, "emsgsize": 300, "too_long": 300, "dropped": 1000, "truncated": 200}, assumptions=NET_ASSUME)
prop("M03", net("msg", "s", 4000, 150000) + net("msg", "se", 3000, 100000), "online queue model of SUFFIX sockets with a reference codec peer, with sanitizers",
     MSG_RULE % "with random delimiters and messages made of pieces of the delimiter, deadlines and cancellation", MSG_NOTE,
     need={"wire_checked": 3000, "positions_checked": 1000, "emsgsize": 300, "dropped": 1000, "truncated": 200}, assumptions=NET_ASSUME)
prop("M04", net("msg", "t", 5000, 150000) + net("msg", "te", 3000, 100000), "online queue model of TERM sockets over PREFIX and SUFFIX, with sanitizers",
     MSG_RULE % "with random terminal messages of 0 to 32 bytes and messages resembling them; some peers send the bare terminal message", MSG_NOTE,
     need={"dones": 2000, "epipes": 1000, "detached": 300, "bare_terminals": 30, "detach_alone": 100}, assumptions=NET_ASSUME)
prop("M01", net("udp", "u", 5000, 200000), "online model of the datagrams in flight between UDP sockets, with sanitizers and fault injection",
     "A case is 2 to 4 UDP sockets (IPv4 or IPv6, some with a default remote) whose coroutines send and receive datagrams of 0 to 100000 bytes in random lists, with failures injected, "
     "further receivers, cancellation and special cases (used, foreign and mixed addresses, wrong kinds of handles, floods of unwanted packets). Non-trivial: more than 3 datagrams to a socket. Distinct: by hash of results.",
     "Every received datagram is matched by content and sender with exactly one sent; loss is only accepted when the socket buffer may have been full. Held on the generated histories.",
     need={"received": 5000, "emsgsize": 500, "senders_checked": 3000, "busy_refused": 1000, "floods": 30}, assumptions=NET_ASSUME)
prop("P01", net("http", "r", 4000, 150000) + net("http", "h", 4000, 150000), "online model of HTTP heads with a reference codec peer, with sanitizers",
     "A case is a pair of sockets with HTTP attached (randomly a raw peer that encodes and parses by itself) exchanging requests, statuses, fields and their ends with random texts, arguments that cannot be represented, "
     "buffers around the size needed, deadlines and detachment; mode h: one side sends random well- and malformed lines. Non-trivial: more than 4 lines exchanged. Distinct: by hash of results.",
     "Every string received is compared with the one sent and every wire byte with the reference codec; buffers are guarded. Held on the generated histories.",
     need={"lines": 20000, "wire_checked": 3000, "emsgsize": 500, "malformed": 3000, "long_lines": 300, "bad_args": 1000}, assumptions=NET_ASSUME)
WS_RULE = ("A case is a pair of sockets with WebSocket attached, in both roles, over a local or TCP stream, randomly with a raw peer that builds and takes apart frames (and heads of the handshake) by itself; %s. "
           "Non-trivial: more than 3 messages, a refusal or a completed handshake. Distinct: by hash of results.")
prop("P02", net("ws", "f", 1500, 60000) + net("ws", "x", 8000, 300000), "online model of WebSocket messages with a reference codec peer, with sanitizers",
     WS_RULE % "random messages of sizes around every boundary, fragmented by the raw peer, are sent and received in random lists; mode x: the raw peer sends random frames among them one of 13 kinds of violations",
     "Every message is compared with the one sent, every frame on the wire with the reference codec, every refusal with a reference decoder; buffers and lists are guarded. Held on the generated histories.",
     need={"messages": 5000, "refused": 2000, "wire_checked": 2000, "fragments": 1500, "emsgsize": 100, "type_mismatch": 500, "skipped": 500}, assumptions=NET_ASSUME)
prop("P03", net("ws", "k", 4000, 150000) + net("ws", "f", 1000, 40000), "online model of WebSocket handshakes with a reference peer, with sanitizers",
     WS_RULE % "handshakes with random resources, hosts, order and case of fields, corruptions, hang-ups, deadlines and cancellation; closing with random statuses and texts on both sides",
     "Heads are built and checked by an independent implementation, SHA-1 and base64 included; the position of the stream after each handshake is checked. Held on the generated histories.",
     need={"handshakes": 1000, "refused": 500, "small_buffers": 300, "broken_off": 500, "keys": 10000, "statuses": 500, "detached": 300, "vanished": 50}, assumptions=NET_ASSUME)
prop("P04", net("socks5", "c", 5000, 200000) + net("socks5", "p", 5000, 200000) + net("socks5", "a", 3000, 120000), "online model of SOCKS5 sessions with reference peers, with sanitizers",
     "A case is one SOCKS5 session between the library's client and proxy, or between one of them and a raw peer following a plan: credentials of 0 to 255 bytes or none, IPv4, IPv6 and named targets, any port, "
     "methods, replies, corruptions of every kind, pipelining, hang-ups, stalls with deadlines and cancellation, invalid arguments. Non-trivial: completed sessions. Distinct: by hash of parameters and results.",
     "Every byte on the wire is compared with an independent encoder, every result with a reference decoder, credentials and target with those given, and the position of the stream after the handshake is checked. Held on the generated histories.",
     need={"sessions": 3000, "refused": 2000, "broken_off": 1000, "auth_ok": 500, "auth_refused": 500, "ipv4": 500, "ipv6": 500, "name": 500, "bad_args": 300, "wrong_kinds": 100, "cancelled": 200}, assumptions=NET_ASSUME)
prop("P05", net("tls", "s", 2000, 60000, TLSV) + net("tls", "f", 5000, 150000, TLSV) + net("tls", "h", 1500, 40000, TLSV), "online byte-position monitor of TLS streams over a tapped and tampered transport, with sanitizers",
     "A case is a TLS session over a transport controlled by the harness: full-duplex transfers of random sizes in random lists, half-closes, detaching with or without unread data; mode f corrupts, truncates, "
     "resets or stalls the transport at a random byte; mode h has handshakes with peers sending garbage, of the same role, silent, hanging up, and with invalid arguments. Non-trivial: more than 100 bytes or a failing handshake. Distinct: by hash of sizes and results.",
     "Every received byte is compared with the one sent; the end of the stream is believed only if everything sent arrived; recorded transports are searched for plain text; bytes produced and consumed are compared when detaching; live OpenSSL blocks and descriptors are counted. "
     "Held on the generated histories. Certificates are not verified by the library, so authentication is not part of this.",
     need={"sessions": 5000, "corruption": 500, "truncation": 500, "reset": 500, "stall": 500, "faults_in_session": 1500, "faults_in_handshake": 700, "detached": 1000, "garbage": 500, "timeouts": 40, "same_role": 200, "wires_searched": 3000},
     assumptions=NET_ASSUME + ["OpenSSL 3.0 itself is not instrumented."])

ADRV = (("plain", 1), ("gasan", 0.5), ("msan", 0.3), ("clang-O2", 0.5))
TKEYS = "late|early|early-timeout|deadline|timeout|deadlock|stuck|hang|spin"


def timed(h, mode, q, t, variants=(("plain", 1), ("asan-poll", 0.3))):
    return [Job(h, v, mode, max(1, int(q * f)), max(1, int(t * f)), keys=TKEYS) for v, f in variants]


prop("T01", core("t", 8000, 100000) + core("m", 1500, 60000)
     + [j for m in "MHWSFT" for j in timed("hostile", m, 1000 if m == "T" else 4000, 20000 if m == "T" else 160000)]
     + timed("stream", "s", 1000, 40000) + timed("stream", "c", 1000, 40000) + timed("conn", "c", 1000, 40000) + timed("udp", "u", 1500, 60000)
     + timed("msg", "p", 600, 20000) + timed("msg", "s", 600, 20000) + timed("msg", "te", 600, 20000) + timed("tls", "h", 400, 12000)
     + timed("eyeballs", "x", 2000, 60000) + timed("http", "r", 500, 20000) + timed("socks5", "c", 600, 20000) + timed("ws", "k", 500, 20000),
     "online deadline model in exact virtual time, for the core and for every operation of the protocols over peers that stall at random bytes",
     CORE_RULE + " Further cases are sessions of every socket type and protocol in which both ends use random deadlines over a relay that stops at a random byte (modes in capitals), and the programs of the properties of those protocols, judged for their timing alone.",
     CORE_NOTE, need={"timeouts": 20000, "stalls": 5000}, assumptions=CORE_ASSUME)
prop("A01", net("addr", "l", 10000, 500000, ADRV), "comparison of address conversion with a reference parser and printer, with sanitizers",
     "A case is ten conversions: random IPv4 and IPv6 addresses (many zero groups, mapped ones) in random spellings (compression anywhere, leading zeros, letter case, dotted tails) with random ports and modes, mutated spellings, invalid arguments. "
     "Non-trivial: all. Distinct: by hash of addresses, texts and ports.",
     "Family, length, port, raw form and text are compared with an independent implementation; comparison is tried with equal addresses, single-bit differences, other ports and families; socket creation is watched. Held on the generated inputs.",
     need={"literals": 50000, "malformed": 30000, "bad_args": 8000, "excluded": 8000}, assumptions=["Printing of addresses with an embedded IPv4 part may use either form."])
prop("A02", net("addr", "i", 10000, 500000, ADRV), "comparison of interface lookup with a reference over random interface tables, with fault injection and sanitizers",
     "A case is eight lookups in a random table of up to 24 entries (several addresses per family, none, other families, similar names), substituted for the system's. Non-trivial: all. Distinct: by hash of the table, mode and result.",
     "The result must be an address of the named interface of the right family, with the port set; failures of getifaddrs are injected and tables not freed are counted. Held on the generated tables.",
     need={"interfaces": 30000, "several_addresses": 10000, "no_device": 20000, "wildcards": 10000, "faults": 3000}, assumptions=["The table comes from a substitute for getifaddrs."])
prop("A03", [Job("names", v, "", q, t, batch=1, dns_san=v.startswith("asan")) for v, q, t in (("plain", 1600, 60000), ("asan", 900, 30000), ("msan", 700, 25000), ("clang-O2", 300, 15000), ("asan-poll", 300, 10000))],
     "comparison of name lookup with a reference resolver over random hosts files and name servers played by the harness (loss, delay, forgery, malformed replies, aliases, TCP), with fault injection and sanitizers on the resolver",
     "A case is a process with a random resolv.conf, hosts file, name order, search list and up to three name servers (answering, silent, refusing), doing up to about a hundred lookups, concurrent and cancelled ones among them. Non-trivial: all. Distinct: by hash of names, modes and results.",
     "Addresses, order, number, port, timing, contacted servers and the form of queries are checked against the reference; where replies are malformed or the configuration has no single right answer, that no address is made up and the lookup ends. Descriptors and memory are counted. Held on the generated configurations.",
     need={"lookups": 50000, "found": 15000, "both_families": 2000, "timeouts": 3000, "cancelled": 1000, "forged": 30000, "malformed": 10000, "truncated": 3000, "dropped": 3000, "faults": 2000, "odd_names": 2000},
     assumptions=["Name servers are IPv4 and on the loopback interface.", "Time is virtual.", "Which of several sources completes an alias whose target is both in DNS and in the hosts file is left open."])

prop("A04", [Job("eyeballs", v, "x", q, t) for v, q, t in (("plain", 12000, 400000), ("asan", 6000, 200000), ("msan", 5000, 150000), ("clang-O2", 4000, 100000), ("asan-poll", 2000, 60000))],
     "monitor of every connection attempt of happyeyeballs_connect (order, spacing, families, winner, what is closed) over name servers and addresses played by the harness, under virtual time, with cancellation and fault injection",
     "A case is a name with random addresses per family, each accepting after a delay, refusing, silent or failing at once, behind a name server with random delays per family; some cases run several calls at once, cancel them, inject a fault or pass bad arguments. Non-trivial: at least one attempt made. Distinct: by hash of addresses, behaviour and result.",
     "Each socket the library connects is seen at the connect call and matched to an address; a reference schedule bounds when and in which order. The result, its time, data over the winner, the closing of everything else and memory are checked. Held on the generated address sets and schedules.",
     need={"attempts": 150000, "connected": 40000, "timeouts": 50000, "cancelled": 3000, "concurrent": 8000, "bad_args": 8000, "fault_survived": 1500, "long": 9000},
     assumptions=["The name server is on the loopback interface; the connections are stood in for by socket pairs.", "Time is virtual."])
prop("P06", net("layers", "p", 12000, 400000, LAY), "monitor of ownership over random stacks of the library's protocols with counting layers in between, failing attaches and detaches, and sanitizers",
     "A case is up to eight stacks of up to seven layers (prefix, suffix, terminator, HTTP, WebSocket, TLS, layers of the harness) over local and TCP sockets, attached, used, transferred, detached, misused and closed at random. Non-trivial: all. Distinct: by hash of the steps.",
     "Layers of the harness below, between and above the protocols count how often they are closed and object to use afterwards; descriptors are counted after every step; data in flight is compared after every detach; old handles are probed. Held on the generated histories.",
     need={"stacks": 40000, "attached": 130000, "detached": 45000, "taps_closed": 35000, "wrong_kind": 30000, "failed_attach": 9000, "failed_detach": 3500, "end_seen": 20000, "wrong_objects": 8000},
     assumptions=NET_ASSUME)
prop("R01", net("layers", "m", 12000, 400000, LAY), "guarded caller-supplied storage under random object life cycles, filled or freed as soon as its object is gone, with sanitizers and allocation counting",
     "A case is up to seven random stacks of protocols, connections, listeners, channels, bundles and coroutines, each living in storage of exactly the documented size. Non-trivial: all. Distinct: by hash of the steps.",
     "Storage has guard zones (poisoned under AddressSanitizer); creating the object must allocate nothing; results are held to the same oracle as those of the allocating variants (P06); after the object is gone the storage is freed or filled with a pattern which must stay. Held on the generated histories.",
     need={"in_storage": 100000, "storage_retired": 250000, "core_objects": 9000, "udp_objects": 5000, "listeners": 5000, "failed_attach": 9000}, assumptions=NET_ASSUME + ["TLS allocates inside OpenSSL in any case."])
prop("R02", net("layers", "f", 6000, 200000, LAY) + [Job("layers", v, "g", int(420 * f), int(20000 * f), batch=6) for v, f in LAY] + [Job("layers", "plain", "t", 2, 8, batch=1), Job("layers", "asan", "t", 1, 4, batch=1)], "systematic fault injection: every operation repeated with its first, second, ... k-th allocation or system call failing, with leak counting and sanitizers",
     "A case is three operations (creation of every kind of object, handshakes, transfers, detaching, waiting, first call in a thread), each repeated with a fault at every point until none is left; in part with an exhausted handle table and no cached coroutine stack, so that every kind of allocation happens. Non-trivial: all. Distinct: by hash of operations and faults.",
     "The error must be the one injected, descriptors and memory must be as before, what was involved must still work (a connection whose accept failed can be accepted, the wait can be repeated, the handle table still works), consumed objects must be closed. Held on the generated faults.",
     need={"faults": 20000, "fault_malloc": 5000, "fault_socket": 2000, "fault_dup": 500, "fault_epoll_ctl": 1000, "fault_accept": 700, "fault_getsock": 3000, "handshake_faults": 50000, "transfer_faults": 30000, "table_full": 700, "contexts": 2, "tightened": 400, "stacks_held": 1000, "attach_faults": 8},
     assumptions=NET_ASSUME + ["Faults use errors the call is documented to return.", "Failures inside OpenSSL are not injected."])
prop("R03", net("layers", "c", 1600, 60000, LAY), "the same random program repeated in one process while blocks, bytes, descriptors and used handles are counted",
     "A case is a program of up to five random stacks and objects (failures, cancellations, detaches and faults included) repeated 6 to 15 times with the same random numbers. Non-trivial: all. Distinct: by hash of the steps.",
     "After three repetitions have filled the caches, blocks, bytes, OpenSSL blocks, descriptors and the number of handles in use (measured in a child process by filling the table) must not grow. Held on the generated programs.",
     need={"repetitions": 20000, "stacks": 50000, "failed_attach": 10000, "faults": 2000, "failed_detach": 3000}, assumptions=NET_ASSUME)
HV = (("plain", 1), ("asan", 0.7), ("msan", 0.5), ("clang-O2", 0.4), ("asan-poll", 0.2))
prop("P07", [j for m, q in (("m", 6000), ("h", 8000), ("w", 8000), ("s", 8000), ("f", 3000)) for j in net("hostile", m, q, q * 40, HV)]
     + net("hostile", "t", 700, 28000, (("plain", 1), ("asan", 0.7), ("clang-O2", 0.4)))
     + [Job("hostile", v, "d", int(2500 * f), int(100000 * f), dns_san=v.startswith("asan")) for v, f in HV],
     "fault-injecting man in the middle and generators of protocol units against every receiving and handshaking call, under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer, with deadline, result and leak monitors",
     "A case is three sessions: two library endpoints with a man in the middle who flips, drops, repeats, replaces and injects bytes and plausible units, or one endpoint with a generated peer; closures, half closures, silences and floods at random positions. Non-trivial: something was changed or injected or the connection was ended. Distinct: by hash of all results.",
     "Every call must return by its deadline with a result that fits the caller's buffers or with an error of the documented kinds; strings are terminated; buffers have guards; memory in use is bounded call by call; nothing is leaked; under MemorySanitizer everything sent and everything reported as received is initialised. Held on the generated inputs.",
     need={"calls": 300000, "ok": 60000, "injected": 100000, "garbled": 12000, "timeouts": 30000, "eproto": 10000, "floods": 4000, "hangups": 4000, "handshakes": 8000, "commands": 4000, "messages": 10000, "lines": 8000, "descriptors": 4000, "replies": 40000, "stream_replies": 2000, "addresses": 20000, "interrupted": 2000, "cancelled": 3000},
     assumptions=["The transport is a local socket pair.", "OpenSSL itself is not instrumented.", "Time is virtual."])
CFG = ("plain", "plain-poll", "threadfb", "nothreads", "archfb", "clang-O2", "gcc-O0", "gcc-O3", "census", "noguard")
prop("R04", [Job("config", v, m, q, t, scale=sc, same_seed=True) for m, q, t, sc in (("c", 4000, 150000, 0), ("c", 400, 15000, 1), ("n", 5000, 200000, 0), ("n", 400, 15000, 1), ("a", 2000, 80000, 0)) for v in CFG] + [Job("census", "census", "c", 800, 20000, batch=100)]
     + [Job("core", v, m, 1500, 60000, same_seed=True) for m in "smtwcho" for v in ("plain", "nosockets", "nothreads", "archfb")],
     "offline comparison of complete traces of the same random programs between eleven build configurations in virtual time, and a monitor of the report written by the stack census",
     "A case is a random program of up to eleven workers over coroutines, channels, choice, timers, bundles, cancellation, streams, message protocols and raw descriptors, or a list of calls with good and bad arguments; each operation starts at a time of its own so that nothing depends on the order of simultaneous descriptor events. Non-trivial: more than 30 results. Distinct: by hash of the trace.",
     "Return values, errors, data, virtual times and (without descriptors) the global order of events must be the same with epoll and poll, three kinds of per-thread storage, native and portable stack switch, with the stack census, without guard pages and without sockets, gcc at three levels and clang; the census reports each go() once, with no less than the stack its coroutines have used and at most 8000 bytes more. Held on the generated programs. kqueue and other processors cannot be run here.",
     need={"traces_compared": 100000, "reports": 2000, "steps": 3000000, "cancelled": 50000, "timed_out": 300000, "succeeded": 800000},
     assumptions=["Time is virtual.", "The order in which simultaneous events of different descriptors are handled is not specified and not compared."], compare=True)
