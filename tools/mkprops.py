#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ core runtime
prop("C01", "Coroutine scheduling: one at a time, exactly-once resumption, FIFO, no loss",
 "In a thread, control moves between coroutines only at launch, at a blocking or yielding call, and at termination; a launched coroutine starts at once and its launcher becomes runnable behind those already runnable. Every suspended coroutine resumes exactly once per wake-up, coroutines resume in the order in which they became runnable, and a coroutine that is runnable or whose awaited event has occurred is eventually resumed. An idle thread sleeps in the kernel until the next event or deadline instead of spinning.",
 ["schedules", "programs"], "all programs that mix launches, yields, sleeps, channel operations and terminations, over all interleavings they produce",
 "the go*/sleep tests run a dozen fixed programs of 2-3 coroutines; ordering and loss depend on the whole history of the ready queue",
 ["cr.c", "qlist.h", "slist.h", "list.h", "libdill.h"], [("ready queue, suspend and resume", "cr.c"), ("launch macro", "libdill.h")])
prop("C02", "Execution state and stacks survive context switches",
 "Across any suspension a coroutine finds its local variables, arguments and callee-saved registers exactly as it left them, whatever other coroutines did meanwhile. Every live coroutine has its own 16-byte-aligned stack, disjoint from all others: at least 240 KB guarded by an inaccessible page when the library allocates it, or lying wholly inside the buffer the caller supplied, whose outside bytes are never written. Finished stacks are recycled without being shared by two live coroutines.",
 ["schedules", "programs", "configurations"], "all patterns of launch, termination and cancellation, nesting depths, stack usages, and caller-supplied buffers of any size and alignment",
 "tests use shallow coroutines and never look at registers, alignment, stack bounds or the guard page",
 ["stack.c", "cr.c", "libdill.h"], [("stack allocation and cache", "stack.c"), ("register save/restore and stack switch", "libdill.h")])
prop("C03", "Cancellation is complete, prompt and final",
 "When a coroutine's handle or bundle is closed, each blocking call it is in or makes afterwards, and any attempt by it to launch a coroutine or create a handle, fails with ECANCELED without blocking or taking effect. The closing call returns only after every coroutine of the bundle has run to its end, and never cancels a coroutine outside it; blocking calls made while a handle is being closed from its close operation also fail with ECANCELED. This holds for nested closing, including a coroutine being cancelled while it is itself closing others.",
 ["schedules", "programs"], "all supervision trees, all blocking operations in which members can be caught, all positions in the run queue at the moment of closing",
 "tests cancel single coroutines blocked in one of a few calls; nested and queued cancellation states are not reached",
 ["cr.c", "handle.c", "chan.c", "libdill.c", "fd.c"], [("cancellation", "cr.c"), ("no-blocking state", "handle.c")])
prop("C04", "Bundle waiting",
 "Waiting on a bundle succeeds exactly when all coroutines launched in it have finished: immediately if there are none, otherwise at the moment the last one ends, including coroutines added during the wait. If the deadline passes first it fails with ETIMEDOUT and neither the bundle nor its coroutines are affected, so it can be waited on again, extended or closed. Every waiter is woken, and closing the bundle during a wait also ends the wait.",
 ["schedules", "programs"], "all numbers of members and waiters, member lifetimes, deadlines and closing times",
 "tests/bundle.c waits once with up to three workers",
 ["cr.c"], [("bundle membership and waiter", "cr.c")])
prop("C05", "Handle identity, ownership and close-once",
 "A handle refers to one object from its creation until it is closed, detached or has its ownership transferred; no two live handles are equal, and looking up the same live handle and type always gives the same answer. Every use of a handle value that was never issued or is no longer live fails with EBADF and touches no other object, until the value is reissued. Closing a handle runs its object's close operation exactly once, a transfer keeps the object unchanged under a new handle, and creation fails with EINVAL on incomplete operation tables.",
 ["histories", "programs"], "all sequences of creating, querying, transferring, detaching and closing handles, including thousands of live handles and operations issued from inside close operations",
 "tests/handle.c makes two handles; table growth, reuse order, stale values after detach or close and re-entrancy are not exercised",
 ["handle.c", "prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c", "tcp.c", "ipc.c"], [("handle table and free list", "handle.c"), ("detach and clean close of protocol objects", "prefix.c")])
prop("C06", "Channels deliver each message exactly once, in order, unaltered",
 "A send succeeds if and only if exactly one receive on the opposite end succeeds with those same bytes, and neither returns before the rendezvous. Waiting senders and waiting receivers are each served first come first served, and the two directions of a channel are independent. A send or receive that fails (deadline, cancellation, size mismatch, closure) transfers nothing, and a size mismatch fails both parties with EMSGSIZE.",
 ["schedules", "programs"], "all numbers of senders and receivers on both ends, message sizes including zero, deadlines, cancellations and interleavings",
 "tests/chan.c runs fixed scripts with at most a handful of peers",
 ["chan.c"], [("rendezvous and waiting lists", "chan.c")])
prop("C07", "Channel shutdown wakes and rejects everybody",
 "After an end is marked done, every pending and future send on that end and every pending and future receive on the opposite end fails with EPIPE, marking it done again fails with EPIPE, and the reverse direction keeps working. Closing both ends wakes every operation still pending on either end with EPIPE and frees the channel once; closing one end alone does not disturb operations on the other.",
 ["schedules", "programs"], "all sets of pending plain and multi-way operations at the moment of shutdown, in both directions and all closing orders",
 "tests check a few pending-operation patterns; sets of mixed waiters on both ends are not sampled",
 ["chan.c"], [("done and close", "chan.c")])
prop("C08", "Multi-way channel choice fires exactly one clause, lowest ready first",
 "A choice over channel operations performs at most one of them and reports its index; if several could be done at once it performs the earliest listed, and otherwise the first to become possible. All other clauses have no effect and leave nothing behind, whether the choice ends by success, error, deadline or cancellation. Invalid clauses are reported by index with EINVAL or EBADF, a failing clause (done channel, size mismatch) by its index with its error, and an empty list waits for the deadline.",
 ["schedules", "programs"], "all lists of clauses, including repeated channels and both directions, all deadlines and orders of peer arrival",
 "tests/choose.c covers about twenty fixed scripts",
 ["chan.c"], [("multi-way wait", "chan.c"), ("clause cancellation", "cr.c")])
prop("C09", "Runtimes in different threads are isolated and cleaned up",
 "Threads using the library concurrently do not affect one another: handles, coroutines, channels, timers and descriptor waits belong to the thread that made them and behave as if the thread were alone, without data races inside the library. When a thread ends, the memory and descriptors the library held for it are released. This holds for every supported per-thread-storage configuration.",
 ["schedules", "configurations"], "all numbers of threads, start and exit times, and mixes of operations per thread",
 "tests/threads.c runs two threads once and looks neither for races nor leaks",
 ["ctx.c", "ctx.h", "now.c", "stack.c", "utils.c"], [("per-thread context", "ctx.c")])
prop("C10", "No memory errors, undefined behaviour or aborts in legal programs",
 "No sequence of calls that respects the documented preconditions makes the library access memory it does not own, use freed or uninitialised memory, execute undefined behaviour, fail an internal assertion or crash the process. Invalid argument values that the interface can recognise are rejected with an error instead.",
 ["programs", "inputs", "schedules", "configurations"], "all programs over coroutines, bundles, channels, handles, timers and descriptor waits, in each build configuration",
 "the tests are not built with sanitizers and use small fixed programs",
 ["cr.c", "chan.c", "handle.c", "stack.c", "pollset.c", "rbtree.c"], [("all core modules", "cr.c")])
prop("C11", "Timers live in a correctly ordered set at any scale",
 "With any number of pending deadlines, including equal ones, removal of any of them at any time and re-insertion, the library always wakes precisely the coroutines whose deadlines have passed, earliest deadline first. Nothing is woken before its deadline, nothing is missed, and operations that completed or were cancelled before their deadline never fire later.",
 ["histories", "programs"], "all histories of inserting, cancelling and expiring up to thousands of concurrent deadlines in any order",
 "tests/sleep.c sorts four sleeps and tests/rbtree.c inserts ascending and random keys without removing at random",
 ["rbtree.c", "cr.c"], [("timer tree", "rbtree.c"), ("timer firing", "cr.c")])
# ------------------------------------------------------------------ time
prop("T01", "Deadlines: never early, never ignored, immediate and infinite honoured",
 "Every blocking operation given a deadline either completes or fails with ETIMEDOUT no earlier than that deadline and as soon after it as the thread gets control, for deadlines arbitrarily near or far. A zero deadline makes the operation fail with ETIMEDOUT at once instead of waiting if it cannot be completed immediately, a past deadline likewise without waiting, and a negative deadline never expires. The operation's outcome does not depend on unrelated timers or descriptors.",
 ["inputs", "schedules"], "all blocking operations of the interface and all deadline values from 0 over the past and near future to the largest representable one",
 "tests use a few deadlines between 0 and 100 ms and accept 20-1000 ms of slack",
 ["cr.c", "libdill.c", "chan.c", "pollset.c", "fd.c", "now.c"], [("timeout computation", "cr.c"), ("time source", "now.c")])
prop("T02", "The clock is monotonic and current",
 "The reported time never decreases, follows the system's monotonic clock in milliseconds to within its resolution plus a few milliseconds, and is never zero or negative. After an operation has timed out or a sleep has ended the reported time is not below its deadline.",
 ["schedules", "configurations"], "all calling patterns, idle and busy, in all threads",
 "tests take two samples with generous tolerance",
 ["now.c"], [("cached clock", "now.c")])
prop("T03", "Busy coroutines do not starve timers or descriptors",
 "While other coroutines are continuously runnable, a coroutine whose deadline has passed or whose descriptor is ready becomes runnable within about one second. A thread with nothing runnable reacts to the event immediately.",
 ["schedules"], "all mixes of continuously yielding coroutines with waiting ones",
 "tests/overload.c checks one timer and one descriptor against one busy loop",
 ["cr.c", "epoll.c.inc", "poll.c.inc"], [("periodic polling", "cr.c")])
# ------------------------------------------------------------------ fds
prop("F01", "Descriptor waits wake the right coroutine at the right time",
 "Waiting for a descriptor to become readable or writable returns success only if it then is ready or in an error state, and does return whenever that happens, also if it was ready beforehand and for any mix of descriptors and directions waited on at once. One reader and one writer may wait on a descriptor independently; a second wait in the same direction fails with EBUSY without disturbing the first, and an invalid descriptor fails with EBADF. A wait that ends by deadline or cancellation leaves no trace: later waits and other coroutines behave as if it had never happened.",
 ["schedules", "histories", "configurations"], "all histories of waits, deadlines, cancellations and readiness changes over many descriptors, for both event back ends",
 "tests/fd.c covers one pair of descriptors and a few orders",
 ["epoll.c.inc", "poll.c.inc", "pollset.c"], [("epoll back end", "epoll.c.inc"), ("poll back end", "poll.c.inc")])
prop("F02", "Forgetting a descriptor makes its number safe to reuse",
 "After the library has been told to forget a descriptor, or has closed it itself, the same number can be reused for any other file and waits on it behave as on a never-seen descriptor: no missed, stale or spurious wake-ups and no failures. Forgetting a descriptor that was never waited on, or any out-of-range number, is harmless.",
 ["histories", "configurations"], "all histories in which descriptors are waited on, forgotten, closed and their numbers reused, for both event back ends",
 "no test reuses descriptor numbers deliberately",
 ["epoll.c.inc", "poll.c.inc", "fd.c"], [("forget operation", "epoll.c.inc"), ("socket close", "fd.c")])
# ------------------------------------------------------------------ bytestreams
prop("B01", "Byte streams arrive complete, in order and unaltered",
 "Over TCP and local sockets the concatenation of all successfully sent buffers equals the concatenation of all received and deliberately dropped bytes, for any division into buffers and scatter-gather lists on either side, empty ones included. A receive succeeds only after filling exactly the requested space, touches nothing outside it and consumes nothing beyond it; a receive that is asked to drop bytes drops exactly that many. The caller's lists and buffers being sent are left unmodified.",
 ["inputs", "schedules", "fault_sequences"], "all chunkings, list shapes and sizes across internal buffer limits, with kernel-level partial transfers at arbitrary points",
 "tests send a handful of small messages with matching sizes",
 ["fd.c", "tcp.c", "ipc.c", "bsock.c", "iol.c"], [("buffered receive and scatter-gather", "fd.c")])
prop("B02", "Stream half-close and close handshake",
 "After one side marks its output done, the peer receives all earlier bytes and then EPIPE, persistently; further sends and a second done on the first side fail with EPIPE, while its receiving still works. A clean close succeeds if and only if the peer has ended its stream too, having delivered everything sent, and otherwise reports the failure; a connection broken by the peer is reported as ECONNRESET, by an error return and never by a signal. In every case the descriptor is closed exactly once.",
 ["schedules", "histories", "fault_sequences"], "all orders of sends, dones, closes and aborts on both sides, for TCP and local sockets",
 "tests/tcp.c and tests/ipc.c run a few fixed orders",
 ["tcp.c", "ipc.c", "fd.c"], [("done and close", "tcp.c"), ("done and close", "ipc.c")])
prop("B03", "A failed stream operation disables that direction only, for good",
 "If sending or receiving on a stream fails part-way for any reason (deadline, cancellation, broken connection, kernel error), the error is reported and every later operation in that direction fails without moving data, so no corrupted stream is ever passed off as good. The other direction stays usable unless the connection itself broke. The same holds for a message protocol or TLS socket when the stream beneath it fails, even if that would work again. A deadline or cancellation interrupts socket operations even while the peer keeps sending or never reads.",
 ["fault_sequences", "schedules"], "all failure points within transfers of all sizes, both directions, all later call sequences",
 "tests hit one timeout per direction",
 ["fd.c", "tcp.c", "ipc.c"], [("error latches", "tcp.c"), ("transfer loops", "fd.c")])
prop("B04", "Concurrent use of one direction is refused without harm",
 "If a coroutine is already blocked sending (or receiving) on a socket, another coroutine's attempt to do the same is refused with EBUSY at once; the blocked operation then completes as if the attempt had never been made. Sending and receiving at the same time from different coroutines is always possible.",
 ["schedules"], "all socket types and stacks, all interleavings of two or more users per direction",
 "one EBUSY case is tested",
 ["tcp.c", "ipc.c", "udp.c", "fd.c", "tls.c", "prefix.c", "suffix.c", "ws.c"], [("busy flags", "tcp.c")])
prop("B05", "Malformed scatter-gather lists are rejected without effect",
 "A list that is not a simple chain from its first to its last element (a missing end, an end that is not last, a cycle, an element already in use) is rejected with EINVAL by every list-taking call: nothing is sent, received or written and the list is left as it was. A well-formed list, too, is the same after the call as before, whether that succeeds or fails. The helpers for trimming and copying lists agree with byte-wise semantics for every well-formed list.",
 ["inputs"], "all list shapes up to and including cycles and sharing, on all socket types",
 "tests/iol.c checks a few lists on the checking helper alone",
 ["iol.c", "bsock.c", "msock.c", "fd.c", "udp.c"], [("list validation", "iol.c")])
prop("B06", "Connections are established and accepted one to one",
 "Each accepted connection is connected to exactly one successful connect, with the peer's address reported on request, and no established connection is lost or handed out twice, for TCP over IPv4 and IPv6 and for local sockets, in any order of connecting and accepting. A connect that cannot succeed fails with the corresponding error within its deadline and leaves no descriptor or memory behind. Wrapping an existing descriptor accepts only descriptors of the right kind and takes ownership exactly when it succeeds.",
 ["schedules", "inputs"], "all orders of connect and accept by many coroutines, addresses, back-logs, invalid targets and wrapped descriptors",
 "tests connect one client at a time",
 ["tcp.c", "ipc.c", "fd.c"], [("accept and connect", "fd.c"), ("descriptor wrapping", "tcp.c")])
prop("B07", "Descriptors passed over local sockets arrive intact",
 "A descriptor sent over a local socket is received exactly once, in order, as a new descriptor for the same open file, and does not disturb the byte stream around it as long as both sides pair their calls. Failures are reported by errors (never a signal or crash) and leak no descriptor.",
 ["schedules", "fault_sequences"], "all sequences of descriptor and byte transfers, blocked senders and receivers, deadlines, peers that vanish",
 "one descriptor is passed once in tests/ipc.c",
 ["ipc.c"], [("descriptor passing", "ipc.c")])
# ------------------------------------------------------------------ messages
prop("M01", "UDP preserves datagram boundaries and addresses",
 "Every datagram received is one that was sent to the socket, whole and unaltered, with its true sender address; a datagram larger than the buffer is reported as EMSGSIZE, never silently cut, and an over-long send likewise. Sends go to the given or else the default destination, datagrams from other sources are dropped when a default remote is set, and an ephemeral local port is reported back. Opening on an unusable address fails with the corresponding error and non-UDP handles are refused with ENOTSUP.",
 ["inputs", "schedules"], "all sizes from 0 to the UDP limit, scatter-gather shapes, sender sets, addresses and deadlines",
 "tests/udp.c sends two short datagrams",
 ["udp.c"], [("send and receive", "udp.c")])
prop("M02", "Length-prefixed messages keep their boundaries and wire format",
 "Every message sent is received whole, once, in order and unaltered, whatever its size and division into lists on either side; on the wire it is its length in the configured width and byte order followed by its bytes. A message that does not fit the receiver's buffer or the length field is refused with EMSGSIZE without writing outside the buffer, and receiving without a buffer drops one message and reports its size. The end of the underlying stream between messages yields EPIPE, and detaching leaves the underlying stream positioned right after the last message transferred.",
 ["inputs", "schedules"], "all header widths, byte orders, sizes, list shapes, transports and chunkings of the underlying stream",
 "tests/prefix.c sends four short messages with two widths",
 ["prefix.c", "iol.c"], [("framing", "prefix.c")])
prop("M03", "Delimited messages keep their boundaries",
 "Every message in whose wire form the delimiter occurs at the end only is received whole, once, in order and unaltered, whatever the delimiter, the buffers on either side and the chunking underneath; on the wire it is its bytes followed by the delimiter. A message longer than the receiver's buffer fails with EMSGSIZE and nothing is written outside the buffer. The end of the underlying stream yields EPIPE, and detaching leaves the underlying stream positioned right after the last message transferred.",
 ["inputs", "schedules"], "all delimiters of 1-32 bytes including self-overlapping ones, message contents with partial delimiters, sizes and list shapes",
 "tests/suffix.c sends three short lines with one delimiter",
 ["suffix.c"], [("delimiter search", "suffix.c")])
prop("M04", "Terminal-message handshake",
 "Ordinary messages pass through unchanged in both directions until a side sends the agreed terminal message; the peer then receives all earlier messages followed by EPIPE. Sending after being done fails with EPIPE, receiving continues until the peer's terminal message arrives, and detaching completes the handshake and returns the underlying message socket in agreement with the peer on the position in the stream. A message that merely resembles the terminal one is delivered as data.",
 ["inputs", "schedules"], "all terminal messages up to the maximum length, payloads including their prefixes and extensions, buffers, transports and shutdown orders",
 "tests/term.c exchanges one message each way",
 ["term.c"], [("terminal handshake", "term.c")])
# ------------------------------------------------------------------ protocols
prop("P01", "HTTP requests, statuses and fields round-trip and are validated",
 "Whatever method, resource, status, reason and fields one side sends through the HTTP interface, the other receives exactly, in order and followed by EPIPE at the end of the fields; on the wire they form RFC 7230 message heads. Received lines are parsed with optional spaces stripped and split as the RFC says; malformed ones are refused with EPROTO and ones too long for the caller's buffers with EMSGSIZE, without writing outside them. Arguments that cannot be represented are refused with EINVAL and after detaching, the underlying stream continues right after the head.",
 ["inputs", "schedules"], "all tokens, resources, reasons, names, values, whitespace, buffer sizes and chunkings",
 "tests/http.c exchanges one request and one response",
 ["http.c", "suffix.c", "utils.c"], [("line parser", "http.c")])
prop("P02", "WebSocket messages keep boundaries, type and RFC 6455 framing",
 "Every message sent is received whole, once, in order, unaltered and with its type, for all sizes, list shapes and roles, and its frames on the wire are well-formed RFC 6455 frames with the correct length form and masking for the role. Messages a peer sends in fragments are reassembled. Protocol violations and unsupported frames (pings among them) are refused with EPROTO and messages larger than the buffer with EMSGSIZE, never writing outside it, and after a failure the stream is not used again.",
 ["inputs", "schedules"], "all sizes across the length-encoding boundaries, fragmentations, roles, buffers and malformed frames",
 "tests/ws.c sends a few short unfragmented messages",
 ["ws.c"], [("framing and masking", "ws.c")])
prop("P03", "WebSocket opening and closing handshakes",
 "A client and a server that use the HTTP handshake agree and exchange resource and host exactly; a wrong status, missing or wrong header or key is refused with an error and the underlying socket closed. Request keys are fresh, well-formed 16-byte keys and response keys the RFC 6455 function of them, malformed keys being refused with EPROTO. Closing sends one close frame with the given status and text, which the peer sees as EPIPE and can then query, and detaching returns the underlying stream positioned right after the closing frames.",
 ["inputs", "schedules"], "all resources, hosts, header orders and corruptions, keys, statuses, texts and shutdown orders",
 "tests do one handshake with each role and one status",
 ["ws.c", "http.c", "utils.c"], [("opening handshake", "ws.c"), ("SHA-1 and base64", "utils.c")])
prop("P04", "SOCKS5 client and proxy conform and agree",
 "The SOCKS5 client and proxy sides exchange exactly the RFC 1928/1929 messages: credentials, command, host or address of any kind and port arrive at the proxy as given, and the proxy's reply determines the client's result, with a distinct error for each failure. Authentication succeeds only if the acceptance callback approves the given credentials, or none are required. Over-long or invalid arguments are refused with EINVAL and malformed or unexpected peer messages with an error, and nothing past the handshake is consumed from the stream.",
 ["inputs", "schedules"], "all names and passwords up to the limits, hosts, IPv4 and IPv6 addresses, ports, replies and malformed peers",
 "tests/socks5.c runs two successful sessions",
 ["socks5.c"], [("client", "socks5.c"), ("proxy", "socks5.c")])
prop("P05", "TLS sockets carry a byte stream securely closed",
 "A TLS client and server over any byte stream complete their handshake, and afterwards every byte sent is received in order and unaltered for any buffer sizes, while the bytes on the transport are not the plain text. Marking output done yields EPIPE to the peer after all data, detaching completes the shutdown and returns the underlying socket positioned right after it, and corrupted or truncated transport data is reported as an error, never as data. OpenSSL errors left behind in the thread by other connections or other code, even while the operation is blocked, do not change what it reports.",
 ["inputs", "fault_sequences"], "all sizes and chunkings, shutdown orders, and corruptions of the transport stream",
 "tests/tls fails in this environment and exchanges two messages",
 ["tls.c"], [("TLS over byte stream", "tls.c")])
prop("P06", "Protocol layers own, release and return what is beneath them",
 "Attaching a protocol transfers ownership of the underlying socket: its old handle becomes invalid and, if attaching fails, it is closed rather than leaked. Closing the top of any stack of protocols closes every layer down to the descriptor exactly once, and detaching returns a handle on which the remaining bytes are intact. Attaching to, or operating on, a handle of the wrong kind fails with EPROTO or ENOTSUP respectively.",
 ["programs", "fault_sequences"], "all protocol stacks of the library, over TCP and local sockets, all orders of attach, failure, detach and close",
 "tests attach one protocol at a time and never on failing or wrong sockets",
 ["prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c", "handle.c"], [("attach and detach", "prefix.c")])
prop("P07", "Arbitrary peer input cannot corrupt memory, crash or hang",
 "Whatever bytes, closures and delays a remote peer produces, in whatever pieces, each protocol's receiving and handshaking calls return a result or an error within their deadline, never accessing memory outside the caller's buffers and their own state, never aborting the process and never reporting more data than the caller's buffer holds. Uninitialised or leftover memory is never sent to the peer or returned to the caller.",
 ["inputs", "fault_sequences"], "all byte strings and chunkings sent by a peer to the length-prefixed, delimited, terminal, HTTP, WebSocket, SOCKS5 and TLS receivers",
 "tests only feed well-formed input produced by the library itself",
 ["prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "socks5.c", "tls.c", "utils.c"], [("parsers", "ws.c"), ("parsers", "http.c")])
# ------------------------------------------------------------------ addresses
prop("A01", "IP addresses convert, compare and print faithfully",
 "Every IPv4 and IPv6 literal with a port converts to the address it denotes and back to its canonical text; family, length, port and raw form agree with it; changing the port changes nothing else. Two addresses compare equal exactly if family, address and (unless ignored) port are equal. A family mode that excludes the literal's family, an invalid port, mode or text is refused with an error.",
 ["inputs"], "all IPv4 and IPv6 literals, ports, modes and malformed texts",
 "tests/ipaddr.c converts a few literals",
 ["ipaddr.c"], [("literal conversion", "ipaddr.c")])
prop("A02", "Local interface names and wildcards resolve according to the mode",
 "Without a name the wildcard address of the requested family results; with an interface name, an address of that interface, of the family the mode requires or prefers, falling back to the other family only in a preferring mode. An unknown interface or one without a suitable address gives ENODEV. This holds for any number and order of interfaces and addresses.",
 ["inputs", "configurations"], "all modes and all interface tables, with any number of addresses of each family per interface",
 "tests resolve only loopback",
 ["ipaddr.c"], [("interface lookup", "ipaddr.c")])
prop("A03", "Remote names resolve through hosts and DNS according to the mode",
 "Resolving a name returns only addresses that the hosts file or the DNS servers give for it, of the families the mode allows, with the port set, in an order and number consistent with preference and the size of the caller's array, and none if there is none. Deadlines and cancellation end the lookup, malformed or hostile DNS replies cannot crash it or make it report addresses that were not in a reply to its query. Lost packets and dead servers are retried and passed over as configured, so a lookup ends even without a deadline. No descriptor or memory is left behind.",
 ["inputs", "fault_sequences"], "all answer sets, modes, array sizes, delays, losses and malformed replies",
 "tests need the Internet for names and otherwise resolve literals",
 ["ipaddr.c", "dns/dns.c"], [("name lookup", "ipaddr.c"), ("resolver", "dns/dns.c")])
prop("A04", "Happy-eyeballs connects to some working address and leaves nothing behind",
 "The call returns a working connection as soon as an attempt succeeds, and otherwise blocks until the deadline and reports it. Attempts start with IPv6 unless its addresses take more than a moment longer to find, alternate between the families, follow one another by at least 300 ms without abandoning earlier ones, and no address is tried twice. The first attempt to succeed wins; all others, the lookups included, are cancelled and every other descriptor, coroutine and handle is released. Bad arguments give EINVAL; failures of resources and cancellation are survived without leaks.",
 ["schedules", "fault_sequences"], "all sets of addresses with each address working, refusing or silent, lookups of any delay, deadlines and cancellation",
 "tests/happyeyeballs.c emulates a few address sets",
 ["happyeyeballs.c"], [("attempt scheduling", "happyeyeballs.c")])
# ------------------------------------------------------------------ robustness
prop("R01", "Caller-supplied storage behaves like library-allocated storage",
 "Every variant that takes caller storage behaves like its allocating twin, keeps all state of the object within that storage, never frees it and touches nothing around it. After the object is closed or detached the storage is no longer used and can be reused at once.",
 ["programs"], "all objects with a caller-storage variant, all life cycles, success and failure",
 "tests touch a few of these variants, without guarding the storage",
 ["cr.c", "chan.c", "tcp.c", "ipc.c", "udp.c", "prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "tls.c"], [("storage variants", "libdill.h")])
prop("R02", "Resource failures are reported cleanly and leave nothing broken",
 "If an allocation or a system call fails at any point, the call in progress reports a matching error, never crashes, and afterwards everything works as if the call had not been made, except that objects the call was documented to consume, and a connection it had already taken from a listener, are closed. Nothing is leaked by the failing call.",
 ["fault_sequences"], "every allocation and system-call failure point of every operation",
 "no test injects failures",
 ["cr.c", "handle.c", "stack.c", "chan.c", "epoll.c.inc", "poll.c.inc", "tcp.c", "ipc.c", "udp.c", "prefix.c", "suffix.c", "ws.c", "http.c"], [("error paths", "tcp.c")])
prop("R03", "Closing everything returns memory, descriptors and handles to the baseline",
 "However objects are created, used, failed, cancelled, transferred, detached and closed, once all of them are closed the library holds no more memory, open descriptors, coroutines or handle slots than bounded caches, so a program can repeat any such cycle indefinitely without growth.",
 ["programs", "histories"], "all life cycles of all object kinds repeated arbitrarily often",
 "no test measures leaks",
 ["cr.c", "handle.c", "stack.c", "fd.c", "tcp.c", "ipc.c", "prefix.c", "suffix.c", "term.c", "http.c", "ws.c", "udp.c"], [("close operations", "handle.c")])
prop("R04", "All configurations behave alike",
 "A deterministic program has the same observable results (return values, errors, data, order of events) with either event back end, with and without threading support, with either per-thread-storage scheme, with the portable stack switch, without sockets, without guard pages and with the stack census, optimised or not; the census reports the true maximum stack use of every go().",
 ["configurations", "programs"], "all deterministic programs over the public interface, in each configuration",
 "each configuration only runs the same small tests separately",
 ["epoll.c.inc", "poll.c.inc", "ctx.c", "libdill.h"], [("event back ends", "pollset.c"), ("portable switch", "libdill.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
