prop("C01", "The lock-free queue is a linearizable bounded FIFO",
     "Under any number of concurrent producers and consumers every value whose push succeeded is popped exactly once, uncorrupted and in FIFO order consistent with real time, and no value is invented, duplicated or lost. A push is refused only when the queue is full and a pop only when it is empty at some moment during the call. The values written before a push are visible to the thread whose pop returns them.",
     [S, H], "every interleaving of any number of pushing and popping threads at every instruction, every queue size, wrap-around of the indexes included",
     "The unit tests run a few threads on the real scheduler; a lost or duplicated value needs a preemption between the index check and the compare-exchange.",
     [core + "cyc_lf_queue.h", core + "cyc_atomic.h"],
     [("compare-exchange on write, read and maximum-read index", core + "cyc_lf_queue.h"), ("strong compare-exchange", core + "cyc_atomic.h")],
     [("write / read / maximum-read index", "slots reserved, consumed, committed", core + "cyc_lf_queue.h")], ["return value of push and pop"],
     "Histories of up to 12 operations are tested for linearizability exactly, longer ones by necessary conditions.")

prop("C02", "Messages to a worker thread are handled exactly once, intact and in order",
     "Every message handed to a worker thread by any thread, before or after it was started and also from its own handlers, is passed to its message handler exactly once, byte for byte intact, on the worker's own thread, and the messages of one sender are handled in the order sent. A message sent to an idle worker always wakes it. This holds as long as fewer messages are pending than the queue holds.",
     [S, F], "every interleaving of senders with the worker's wake-up and drain, every size and send variant, spurious failures of weak compare-exchange and interrupted system calls",
     "A lost wake-up needs the sender between the worker's last queue check and its clearing of the wake-up flag; tests pass by luck of timing.",
     [ev + "cye_work_thread.cpp", ev + "cye_packet.cpp", ev + "cye_pipe.cpp"],
     [("message queue and wake-up pipe", ev + "cye_work_thread.cpp")], [("wake-up flag", "a wake-up is on its way", ev + "cye_work_thread.h")], ["message handler of the worker"])

prop("C03", "The event loop calls exactly the live, enabled and ready registrations",
     "A callback runs only for a registration that exists, whose interest in that direction is enabled and whose descriptor is ready, with the identifier, descriptor and parameter it was registered with; this also holds when callbacks delete, re-register, enable or disable any registration, including their own, or add many new ones. The state of a running callback stays intact until it returns. Every registration that stays enabled and ready is called within a bounded number of rounds, also when its interest was enabled by another thread.",
     [S, H, F], "every sequence of register, delete, enable, disable and step or loop calls inside and outside callbacks, every order in which the kernel reports ready descriptors, interrupted waits",
     "The unit tests never change registrations inside callbacks of one poll batch, and never reuse a slot or a descriptor number while events for it are pending.",
     [ev + "cye_looper.cpp", ev + "internal/cye_looper_epoll.cpp"],
     [("dispatch round", ev + "cye_looper.cpp"), ("interest bookkeeping and epoll update", ev + "internal/cye_looper_epoll.cpp")],
     [("channel buffer and free list", "slots of registrations", ev + "cye_looper.h")], ["event callbacks", "is_read / is_write"])

prop("C04", "A stop request from any thread at any time ends the event loop",
     "A stop request made by any thread, by a callback or before the loop starts makes the loop return within bounded time, even if the loop is idle, and at most one further callback is started after the request has returned. The loop never returns without a request. Making the request is safe while the loop is just returning or its thread is about to destroy it, and a worker thread that was asked to stop can always be joined.",
     [S, F], "every moment of the request relative to poll, dispatch, start and teardown of the loop; several concurrent requests; concurrent interest changes; interrupted waits",
     "Tests stop loops that are idle; the request racing with the start, the end and the destruction of the loop is a window of a few instructions.",
     [ev + "cye_looper.cpp", ev + "cye_work_thread.cpp"], [("quit flag and inner pipe", ev + "cye_looper.cpp")],
     [("inner pipe", "wakes the loop", ev + "cye_looper.h")], ["return of the loop", "join of a worker"])

prop("C05", "Timers never fire early, keep their rate and stay silent after deletion",
     "The k-th firing of a timer never happens before k periods have passed since its creation, an enabled timer on an idle loop keeps firing about once per period for ever, whatever happens to the wall clock, and a deleted or disabled timer does not fire. Callbacks may create and delete timers, including their own. Each firing passes the identifier and the parameter of its own timer.",
     [S, H, F], "every set of periods, every sequence of creation, deletion, disabling and enabling inside callbacks, slow callbacks, late kernel timers, wall clock jumps",
     "The unit test waits for one timer with a tolerance; deletion among several timers due at once and clock jumps are not reached.",
     [ev + "cye_looper.cpp"], [("timer registration on a monotonic kernel timer", ev + "cye_looper.cpp")],
     [("timer record", "callback, parameter, period", ev + "cye_looper.h")], ["timer callbacks"])

T, W, M, CL, SV = [net + x for x in ("cyn_tcp_connection.cpp", "internal/cyn_tcp_server_work_thread.cpp", "internal/cyn_tcp_server_master_thread.cpp", "cyn_tcp_client.cpp", "cyn_tcp_server.cpp")]
AD, RB, SA, SY, LOG = net + "cyn_address.cpp", core + "cyc_ring_buf.cpp", core + "cyc_socket_api.cpp", core + "cyc_system_api.cpp", core + "cyc_logger.cpp"

prop("C06", "TCP byte streams are complete, ordered and unmodified in both directions",
     "Every byte accepted for sending on a connection reaches the peer exactly once, unmodified and in order, and every byte the peer sends is offered to the message callback exactly once and in order, for every segmentation, buffer size and speed of the two sides. Transient conditions (partial reads and writes, would-block, interrupted calls) neither lose bytes nor close the connection nor stall it for ever. This holds for server and client connections, also when both directions are saturated.",
     [S, I, F], "every segmentation of both streams, every kernel buffer size, message size and pause of the reader, transient errors at every system call, every schedule of the threads",
     "Loopback tests with small messages never see a short write, a full send buffer followed by a write event, or EAGAIN on a readable socket.",
     [T, RB, SA], [("send buffer, write interest and write event", T), ("read event", T)],
     [("input and output ring buffer", "bytes received and not consumed; bytes accepted and not written", net + "cyn_tcp_connection.h")], ["bytes at the raw peer", "input stream in the message callback"])

prop("C07", "Concurrent sends on one connection arrive whole and in each sender's order",
     "When several threads send on one connection at the same time as its own event thread, every message arrives as one contiguous piece, exactly once, and the messages of each sender arrive in the order sent. This holds also when the send buffer of the kernel is full and when callbacks send or consume input at the same time. No sender's data is lost while the connection is open.",
     [S, F], "every interleaving of any number of senders with each other and with the event thread at every instruction, every kernel buffer size and partial write",
     "Interleaved messages need two senders between the empty-buffer check and the direct write; unit tests send from one thread.",
     [T], [("direct send, buffered send and drain under the send lock", T)], [("output buffer", "accepted bytes not yet written", net + "cyn_tcp_connection.h")], ["framed stream at the peer"])

prop("C08", "A graceful shutdown first delivers everything accepted for sending",
     "After a connection is shut down from any thread, or its server is stopped, or a client disconnects, the peer that keeps reading receives every byte accepted before the shutdown and then a clean end of stream, never a truncated message. The connection then reports its end exactly once. This holds however slowly the peer reads and however small the kernel buffers are.",
     [S, F], "every moment of the shutdown relative to sends, write events and peer reads; shutdown by the worker, another thread, a command, server stop or client disconnect; small and full kernel buffers",
     "Tests shut down idle connections whose send buffer is empty; the loss needs buffered data at the moment of shutdown.",
     [T, W, CL, SV], [("shutdown defers the end of stream until the output buffer is empty", T)], [("connection state", "connected, disconnecting, disconnected", net + "cyn_tcp_connection.h")], ["stream and end of stream at the peer", "close callback"],
     "Scope: the peer keeps reading and the application has consumed all input (unread input turns a close into a reset, which is TCP's behaviour).")

prop("C09", "Every connection has one orderly life: connected, messages, closed",
     "For every accepted or established connection the connected callback runs exactly once and first, then message callbacks, then the close callback exactly once and last, all on the thread that owns the connection, with the addresses, name and user data of that connection. This holds whenever and however the peer goes away (close, half close, reset) or the application shuts down, inside callbacks too. One connection's end never affects another and the process always survives.",
     [S, H, F], "every moment of close, half close, reset and shutdown relative to accept, connect, reads, writes and each other; any number of connections; transient and permanent socket errors",
     "A reset between readiness and read, or while a send is being retried, cannot be produced by loopback tests on demand.",
     [T, W, CL, AD], [("close path of a connection", T), ("connection table and deferred close command", W)],
     [("connection state", "connecting, connected, disconnecting, disconnected", net + "cyn_tcp_connection.h")], ["connected, message and close callbacks"])

prop("C10", "Thread-safe connection operations are safe while the connection closes",
     "Sending, shutting down and querying a connection from any thread that holds it is safe at every moment of its life, including while it is being closed by the peer, by its event thread or by the stop of the server, and afterwards. The state seen by one thread never goes backwards and the connection is still closed exactly once. Nothing is accessed after it was destroyed and no thread blocks for ever.",
     [S, F], "every interleaving of any number of threads calling the operations with every way the connection can end",
     "Use after free needs the event thread to finish the close between two instructions of the sender.",
     [T, W, CL, SV], [("shared ownership of connection and event loop", T)], [("connection state", "only moves forward", net + "cyn_tcp_connection.h")], ["return of each call", "heap monitor", "state"])

prop("C11", "Stopping and joining a server always ends and leaves nothing behind",
     "Stop followed by join returns within bounded time whenever the stop is made: before, during and after the start of the workers, while connections are being accepted, handed over, used or closed and while messages are exchanged between its threads. Every connection reported as connected is reported closed exactly once before join returns. Afterwards nothing listens any more and the same ports can be bound by a new server. A stop requested by a worker thread is refused and changes nothing.",
     [S, H, F], "every moment of the stop relative to start, accept, hand-over, sends, closes and worker messages; one or more workers and ports; slow and vanished peers",
     "Tests stop servers that are idle and fully started; a connection in flight between accept and worker is a window of microseconds.",
     [SV, M, W], [("stop request, shutdown of every connection, end of the workers", SV), ("deferred end of the worker until its connections are gone", W)],
     [("connection table of a worker", "open connections", W)], ["return of join", "close callbacks", "listening sockets"],
     "Scope: peers read or close; a peer that does neither keeps a connection with pending output open.")

prop("C12", "Each client connect attempt ends in one result; retry and disconnect are obeyed",
     "Each attempt of a client to connect is answered by exactly one connected-callback, with the true result, on the client's event thread and never inside the call; after a failure another attempt is made if and only if the callback asks for it, not before the requested delay. After a disconnect on the event thread no further result or attempt follows, and connecting anew works. Messages sent while connecting are delivered first, complete and in order.",
     [S, H, F], "servers that refuse, answer late, never or vanish; failures at every system call of an attempt; retries, disconnects and new connects in every order; every schedule",
     "Asynchronous refusal, time-out and a synchronous failure cannot be provoked on loopback at chosen moments.",
     [CL], [("connect attempt, check of the pending socket, retry timer", CL)], [("pending socket, retry timer, cached messages", "attempt in progress", net + "cyn_tcp_client.h")], ["connected callback", "bytes at the server"],
     "A client object is not used again after its established connection closed.")

prop("C13", "Descriptors are conserved: each is closed exactly once, whichever step failed",
     "Every socket, pipe, timer and poll descriptor opened by servers, clients, loops, worker threads and timers is closed exactly once, no later than the destruction of its owner, and those of a connection promptly after its end. This holds when any step of binding, starting, accepting, connecting or registering fails. No descriptor is closed twice or used after it was closed, and none that is kept open is inherited by programs the application starts.",
     [H, F, S], "every sequence of creation, use, failure and destruction; failures of socket, bind, listen, accept, connect, pipe, timer and poll calls, descriptor exhaustion; every schedule",
     "Leaks and double closes on error paths are invisible to tests that only see success.",
     [SV, CL, T, M, ev + "cye_looper.cpp", ev + "cye_pipe.cpp"], [("ownership of descriptors", T), ("poll descriptor and inner pipe", ev + "cye_looper.cpp")], [("descriptor table", "kept by the simulated kernel", SA)], ["number of open descriptors by kind", "close of a descriptor that is not open"])

prop("C14", "Length-prefixed packets survive any segmentation of the byte stream",
     "The sequence of packets read from a byte stream equals the sequence written: same identifiers, same content, none lost, invented or reordered, for every way the stream is cut into pieces. A partially received packet is not reported and consumes nothing, and its completion makes it available. The wire format is a 16 bit size and a 16 bit identifier in network byte order, after the optional reserved header.",
     [S, I, F], "every packet size from empty to the largest, every reserved header size, every cut of the stream, every position in a ring buffer, partial reads and interruptions",
     "Tests feed whole packets; cuts inside the header, and wrap-around of the ring buffer inside header or body, are not covered.",
     [ev + "cye_packet.cpp", RB], [("packet from ring buffer, from pipe, from memory", ev + "cye_packet.cpp")], [("packet memory", "reserved header, size, identifier, body", ev + "cye_packet.h")], ["packets built by the receiver"],
     "Through a pipe only packets written by one write call (up to the atomic pipe size) are in scope.")

prop("C15", "The ring buffer is a byte FIFO under copies, moves and socket transfers",
     "Bytes come out of the ring buffer in the order they went in, exactly once and unmodified, for every mix of appends, reads, peeks, discards, moves, resizes, searches, checksums and socket reads and writes, at every fill level and position. Sizes, search positions and checksums agree with the content. A short or failed socket transfer removes or adds exactly the bytes transferred.",
     [I, H, F], "every sequence of operations, every size, position and capacity, short transfers, would-block, interruption, reset and end of stream at every socket call",
     "Unit tests use fixed sequences and sockets that always transfer everything.",
     [RB], [("wrap-around copies, growth, scatter/gather transfers", RB)], [("read and write position", "unread bytes", core + "cyc_ring_buf.h")], ["content, sizes and results"],
     "Scope: reading a socket into a full buffer that may not grow is excluded.")

prop("C16", "Mutexes exclude, timed calls keep their time, a signal is an auto-reset event",
     "At most one thread holds a mutex, and an unlocked mutex can always be acquired. A signal releases exactly one wait per notification and remembers at most one, and what was written before notifying is visible to the released thread. A timed lock or wait that gives up does so not before its time, soon after it, and only if the mutex or signal was not available, whatever happens to the wall clock.",
     [S, F], "every interleaving of lockers, waiters and notifiers, every time-out, spurious wake-ups, wall clock jumps, late timers",
     "A wake-up between time-out and re-lock, a spurious wake-up or a clock jump cannot be produced by a test.",
     [SY], [("mutex, signal and their timed variants", SY)], [("signal flag", "lit or not", SY)], ["results and duration of calls"],
     "Signal histories are checked exactly for linearizability.")

prop("C17", "Threads run once, join waits for their end, nothing is left behind",
     "A created thread runs its function exactly once with its own parameter, and its identifier and name are its own and the same for every observer. Join returns only after the function has ended with everything it wrote visible; a timed join that gives up does so not early and can be repeated. Joined and detached threads release all their resources.",
     [S, F], "every interleaving of creation, run, end and join, detached and joinable, names of every length, time-outs, failing creation",
     "A thread that ends before its creator continues, or a time-out just as the thread ends, is luck in a test.",
     [SY], [("thread creation, entry function, join and timed join", SY)], [("thread data", "shared by creator and thread", SY)], ["parameter, identifier, name, join results", "live threads and heap blocks"])

prop("C18", "Each accepted log message becomes one whole line, in order, and harms no other",
     "Every message at or above the threshold becomes exactly one complete line with its level, time, thread and text in the current log file, and the lines of one thread appear in the order logged; messages below the threshold never appear. Concurrent logging never tears or loses lines, and existing content is never truncated. After failed or short writes, or failure to open the file, later messages are intact and files are neither leaked nor left open.",
     [S, I, F], "every interleaving of logging threads, every text length and level, full disk, short writes, failing open and directory creation, switching of the file, long host and process names",
     "Tests log from one thread to a working disk and look at the file by eye.",
     [LOG], [("default disk log under a lock", LOG)], [("log file name and threshold", "current target", LOG)], ["content of the log file"],
     "While disk faults are injected only undamaged messages are judged; everything after they stop must be intact.")

prop("C19", "Statistics are exact: extremes, windowed sums and the ring queue behind them",
     "The reported minimum and maximum equal the extremes of the values updated, for integer and floating point types and under any number of concurrent updates. A windowed sum and count cover exactly the values whose time lies in the window, under concurrent pushes and reads too, and reading never blocks for ever or corrupts them. The ring queue keeps its elements in first-in first-out order through growth, walking and clearing.",
     [S, I, H], "every interleaving of updates and reads, every sequence of values and times, window lengths, queue sizes and growth, clock jumps",
     "A lost update needs two threads between compare and store; windows depend on time a test cannot control.",
     [util + "cyu_statistics.h", util + "cyu_ring_queue.h"], [("compare-exchange loop", util + "cyu_statistics.h"), ("expiry of old values", util + "cyu_statistics.h")], [("ring queue of timed values", "values in the window", util + "cyu_statistics.h")], ["reported values"],
     "Explicit times passed by one thread do not decrease.")

prop("C20", "Every connection is accepted once, in turn, on every port; stopping one is local",
     "Every connection made to a bound port goes to exactly one worker, under an identifier never used before, and the workers' shares differ by at most one. Failing accepts, failing binds and connections that vanish while being accepted never stop accepting on any port. Stopping to listen on one port or shutting down one connection, from any thread and repeatedly, affects that port or connection only. A port can be bound again at once after a server on it has ended, connections included, and be shared with a running one: then each connection is served by exactly one of them.",
     [S, F], "any number of ports, workers and peers; accept failures and resets at any moment; stop requests from every thread at any moment; every schedule",
     "Accept failures and connections that are aborted in the queue cannot be produced on loopback on demand.",
     [SV, M, W], [("accept event and hand-over to the next worker", SV), ("list of listening sockets", M)], [("next worker, next identifier", "distribution of connections", net + "cyn_tcp_server.h")], ["connected callback per worker", "connects to each port", "bind addresses"])

prop("C21", "Commands between server threads arrive exactly once, intact and in order",
     "Every command sent to the master thread or to a worker of a server, one by one or several at once, by any thread and from any callback including the start callbacks, is handled exactly once, byte for byte intact, on that thread, and the commands of one sender to one thread in the order sent. This includes every command sent before the server is stopped. Commands sent during the stop do no harm.",
     [S, H, F], "every interleaving of senders, start, connections, commands sent by handlers, stop and join; every size, identifier and header size",
     "Commands from start callbacks race with the creation of the other threads, commands around the stop with their end.",
     [SV, M, W, ev + "cye_work_thread.cpp"], [("dispatch of commands by the master and the workers", W), ("pool of workers", SV)], [("message queue of a thread", "commands not yet handled", ev + "cye_work_thread.h")], ["master and worker command callbacks"],
     "Identifiers of commands are above those reserved by the server.")

prop("C22", "Send-complete and the traffic statistics of a connection tell the truth",
     "The send-complete callback is called on the connection's thread only when the kernel has accepted everything sent before, and after every send on a connection that stays open it is eventually called; sending more or shutting down in it works. The read and write statistics equal the bytes exchanged with the kernel within the window, and the reported largest input and output are the largest that ever waited.",
     [S, F], "every kernel buffer size, partial write, pause of the reader and interleaving of senders; sends and shutdown inside the callback; short and long windows",
     "On loopback every write is accepted at once, so that the callback after a delayed partial write is never exercised.",
     [T, util + "cyu_statistics.h"], [("write event: drain, statistics, send-complete", T)], [("output buffer and write interest", "accepted bytes not yet written", net + "cyn_tcp_connection.h")], ["send-complete callback", "bytes accepted by the kernel", "statistics"])

prop("C23", "Socket, pipe and name helpers tell the truth and leave nothing behind",
     "check_connect returns true exactly if the other end accepts a connection within the given time, returns soon after that time at the latest, and is not confused by signals, clock changes or the number of open descriptors. Pipes of both kinds are byte FIFOs whose ends never block. Datagrams arrive whole with their sender's address; local and remote names are the real ones; resolving a name changes only the address. Every helper that fails says so and leaves no descriptor or memory behind.",
     [S, F], "every connect outcome (accepted, refused, timed out, failed at once), network delay and stall, signal, clock jump and time limit; low and high descriptor numbers; failures at each step of creating a pipe; lost, duplicated, reordered datagrams; mixed address families",
     "The suite only creates pipes in a quiet process and never calls check_connect, UDP or the resolver at all.",
     [core + "cyc_socket_api.cpp", core + "cyc_socket_api.h", ev + "cye_pipe.cpp", net + "cyn_address.cpp"], [("non-blocking connect and timed wait", core + "cyc_socket_api.cpp"), ("pipe and socket pipe creation, failure unwinding", ev + "cye_pipe.cpp"), ("names of sockets, name resolution", core + "cyc_socket_api.cpp")], [("descriptor under test", "open until the helper returns", core + "cyc_socket_api.cpp")], ["check_connect result and duration", "pipe and datagram content", "open descriptors after each call"])
prop("C24", "Sleeping lasts its time and the clocks tell the truth",
     "thread_sleep returns not before its time and soon after, also if signals interrupt it or the wall clock is changed. performance_time_now counts microseconds since its first call: it never goes backwards for any sequence of calling threads, differences equal the time elapsed, and changes of the wall clock have no effect. utc_time_now and local_time_now show the wall clock at the moment of the call.",
     [S, F], "signals during a sleep, late wake-ups, wall clock jumps, several threads making the first call at once, readings at every part of a second including the carries",
     "The suite measures one sleep in real time with wide tolerances; clock changes, carries, signals and concurrent first calls are not produced.",
     [core + "cyc_system_api.cpp"], [("sleep, performance counter, wall clock", core + "cyc_system_api.cpp")], [("origin of the performance counter", "set by the first call", core + "cyc_system_api.cpp")], ["durations of sleeps", "readings of the counters against simulated time"])

prop("C25", "Objects that are gone leave no memory behind",
     "When servers, clients, loops, worker threads, timers, packets, buffers, threads, locks and log files that were created have been destroyed or have ended, no heap block remains which nothing can reach any more, whatever was under way: half-open and failing connections, unread input, unsent output, commands and messages nobody handled any more, timers still registered, failed creations. A server or a loop that lives on does not keep growing by the connections, commands, timers and clients that have come and gone.",
     [S, F], "every state in which an object can be destroyed, every failing step of a creation, every interleaving of peers, commands and messages with stop and destruction; repeated rounds on one living server or loop",
     "The tests end without looking at the heap, and a leak needs a failure or a message left over at the right moment.",
     [SV, T, CL, ev + "cye_looper.cpp", ev + "cye_work_thread.cpp", ev + "cye_packet.cpp", SY], [("destruction of servers, clients, loops and worker threads", SV), ("error paths of every creation", ev + "cye_looper.cpp")], [("heap blocks of the library", "reachable from a living object", "simulated heap")], ["heap blocks reachable when all objects are gone", "heap size after every round of a living object"])

SMP = "samples/"
prop("C26", "The sample chat and echo servers serve every participant completely",
     "Every packet a chat participant sends reaches, once, unchanged and in the order of its sender, every participant which was in the room when it was sent and stays, whatever other participants do meanwhile: joining, reading slowly, ending their own direction, leaving, or being reset in the middle of a broadcast; the room stays open for newcomers and keeps nothing of those who have left. The echo server answers every request with its upper case, also several which arrive together, closes the connection that says so, and when it is told to shut down, by one client or by several at once, ends cleanly with every thread and descriptor given back.",
     [F, S], "every interleaving of joining, sending, slow reading, leaving and resets over any number of worker threads; every moment of one or several shutdown words",
     "The programs have no tests at all; a broadcast meeting a participant reset a moment ago, or two shutdown words, are races of a few microseconds.",
     [SMP + "chat/chat_server.cpp", SMP + "echo/echo_server.cpp"], [("the programs' main and callbacks", SMP + "chat/chat_server.cpp"), ("shutdown word", SMP + "echo/echo_server.cpp")],
     [("room of participants", "connections of the chat server under its lock", SMP + "chat/chat_server.cpp")], ["packets received by participants", "answers to echo clients", "end of the program"])

prop("C27", "The sample proxies carry every tunnel completely in both directions",
     "The SOCKS5 proxy understands its handshake however it is cut into pieces, refuses a greeting of another protocol, answers every request once (granted or refused), and from then on carries every byte of every tunnel unchanged and in order in both directions, whatever other tunnels do; when one side ends, what it had sent before arrives, then the other side ends too, and the proxy keeps nothing of a finished tunnel. The relay pipe joins its two ends in every combination of listening and connecting, retries until the other end exists, turns away third parties without disturbing the pair, carries every byte both ways, and ends cleanly when one end leaves.",
     [F, S], "every cut of the handshake and the data, any number of tunnels over any number of worker threads, ends and resets at any moment, upstreams that refuse, fail or appear late; every schedule",
     "The programs have no tests; an upstream that refuses, answers before the request is complete or ends while the last bytes are still buffered on the way is a race between two sockets and two threads.",
     [SMP + "socks5/s5_main.cpp", SMP + "relay/relay_pipe.cpp"], [("the two connections of a tunnel", SMP + "socks5/s5_main.cpp"), ("in and out pipe", SMP + "relay/relay_pipe.cpp")],
     [("tunnels known to the proxy", "sessions of the SOCKS5 proxy", SMP + "socks5/s5_main.cpp")], ["bytes and ends received at both ends of tunnels", "replies to handshakes", "open descriptors"])

prop("C28", "The relay pair carries every session over its link, and broken peers harm nobody",
     "The two halves of the relay find each other in any order of start. From then on a client of the local half is connected to the target of the server half, and every byte of its session arrives unchanged and in order in both directions, with and without encryption, whatever other sessions share the link; when one side ends, what it had sent before arrives, then the other side ends too; a client whose target cannot be reached is let go. If the link is lost, or a peer sends packets which do not belong to the protocol, the clients concerned are let go, and links, sessions and threads not concerned work on; nothing of a finished session is kept.",
     [F, S], "every segmentation of the link, any number of sessions and work threads, ends, resets and refusals at any moment, any rubbish in place of packets; every schedule",
     "The programs have no tests; a session ends on one side while the other side is still connecting, sending or being announced, across three connections and several threads.",
     [SMP + "relay/relay_local.cpp", SMP + "relay/relay_server.cpp"], [("the two halves of a session", SMP + "relay/relay_server.cpp")],
     [("sessions known to a link", "session maps of both halves", SMP + "relay/relay_server.cpp")], ["bytes and ends received at both ends of sessions", "answers to handshakes", "open descriptors"])

prop("C29", "A file transfer that reports success has produced exactly the served file",
     "The file transfer client ends, however the network and the disk behave: without faults with success, and whenever it reports success the downloaded file is byte for byte the served one, for every file size from zero, and no part files are left. The server answers a query with the file's name and size and a request for a fragment with exactly the bytes asked for and their checksum, refuses requests outside the file, and serves every connection independently of all others: connections that stop in the middle, are reset, or send invalid requests disturb no transfer, and their files and sockets are closed.",
     [F, S], "every file size and fragment, any number of connections over any number of worker threads, disk errors and network faults at any moment; every schedule",
     "The programs have no tests; a full disk, a reset in the middle of a fragment or a second connection on the same thread is not what a manual trial meets.",
     [SMP + "filetransfer/ft_server.cpp", SMP + "filetransfer/ft_client.cpp"], [("fragments on disk and on the wire", SMP + "filetransfer/ft_client.cpp")],
     [("connections and open transfers", "transfers of the server", SMP + "filetransfer/ft_server.cpp")], ["the client's result and files", "fragments received", "open descriptors and files"])

prop("C30", "The sample clients send every typed line and display everything received",
     "The chat and the echo client keep trying until their server can be reached, also when an attempt fails at once. From then on every typed line of up to 255 characters, except empty ones, reaches the server once, unchanged and in order, and everything the server sends is displayed without waiting for more, once, unchanged and in order, however it is cut into pieces or put together on the way; what the server had sent before it left is displayed, then the program ends. The timer sample displays its three periods and ends, not before its three seconds have passed, and leaves no descriptor open.",
     [F, S], "every segmentation of the stream, every moment of typing, refused and failing connects, signals, late timers and stalled threads; messages shorter and longer than a participant may type",
     "The programs have no tests; by hand on loopback every message arrives alone and whole.",
     [SMP + "chat/chat_client.cpp", SMP + "echo/echo_client.cpp", SMP + "timer/timer.cpp"], [("main thread and connection thread of a client", SMP + "chat/chat_client.cpp")],
     [("received and not yet displayed", "input buffer of the connection", SMP + "chat/chat_client.cpp")], ["lines received by the server", "lines of the display", "end of the program"])

prop("C31", "The atomic helpers act in one indivisible step",
     "atomic_compare_exchange exchanges and says true exactly if the object has the expected value; atomic_greater_exchange and atomic_smaller_exchange exchange and say true exactly if the comparison value is greater (smaller) than the object's value at that moment. Every concurrent history of these helpers with loads and stores has a sequential explanation which respects the order of calls that do not overlap, for every integer type, signed and unsigned, up to the limits, and for flags; weak exchanges that fail for no reason are not visible.",
     [S, I], "every interleaving of two to four threads, spurious failures of weak exchanges, values at the limits of each type",
     "The suite lets threads count in a loop; another store between the comparison and the exchange is a window of a few instructions.",
     [core + "cyc_atomic.h"], [("exchange loops", core + "cyc_atomic.h")], [("the atomic object", "linearization at the successful exchange", core + "cyc_atomic.h")], ["results and values of every call"])

prop("C32", "Two ends of an encrypted link understand each other",
     "Two ends that exchange public keys hold the same secret, whatever their random source gives (also zeros, ones or little variety) and whatever a hostile peer sends as its key: the public key is the generator and the secret the other's key raised to the own private key, which comes from the random source alone. From then on every message encrypted at one end (AES in chained mode with a carried or the default initial vector, in place or not, in one call or several; or masked by the generator both ends seeded alike) is decrypted at the other end to what it was, however the stream is cut on the way, while any number of other links work in other threads; the bytes on the wire are those of the published definitions, and a checksum built up from the pieces that arrive, also empty ones, is that of the whole.",
     [S, I, F], "every interleaving of the ends of up to three links in six to twelve threads; every cut of the stream by the network and of the calls by the program; random sources that vary, are stuck or poor; keys around the modulus",
     "The suite checks fixed vectors and one exchange in one thread; it neither carries state over pieces nor meets a poor random source or a hostile key.",
     ["source/cyCrypt/crypt/cyr_rijndael.cpp", "source/cyCrypt/crypt/cyr_dhexchange.cpp", "source/cyCrypt/crypt/cyr_xorshift128.cpp", "source/cyCrypt/crypt/cyr_adler32.cpp"],
     [("chained mode", "source/cyCrypt/crypt/cyr_rijndael.cpp"), ("modular power", "source/cyCrypt/crypt/cyr_dhexchange.cpp"), ("masking", "source/cyCrypt/crypt/cyr_xorshift128.cpp"), ("running checksum", "source/cyCrypt/crypt/cyr_adler32.cpp")],
     [("initial vector, generator and checksum between calls", "state the two ends carry in step", "source/cyCrypt/crypt/cyr_rijndael.cpp")], ["cipher bytes against reference implementations", "decrypted messages", "secrets and checksums"])

LINK = " What two ends need of it on a link is claimed as C32."
PURE = "A pure single-threaded function of its inputs: no concurrency, time, I/O, randomness or second party for a simulator to control; deciding it needs input enumeration or proof, not schedule and fault search."
na("C90", "AES-CBC encryption and decryption are inverse", "Decrypting what was encrypted with the same key and initial vector gives back the input for every length that is a multiple of the block size, and the result matches the standard.", ["source/cyCrypt/crypt/cyr_rijndael.cpp"], PURE + LINK)
na("C91", "Adler-32 is computed correctly and incrementally", "The checksum of a buffer equals the published definition and does not depend on how the buffer is split into updates.", ["source/cyCrypt/crypt/cyr_adler32.cpp"], PURE + LINK)
na("C92", "Diffie-Hellman key agreement", "Two parties that exchange public values compute the same secret, for every pair of private values.", ["source/cyCrypt/crypt/cyr_dhexchange.cpp"], PURE + " The arithmetic has no protocol state." + LINK)
na("C93", "The xorshift generator is deterministic and matches its definition", "Equal seeds give equal sequences which match the reference sequence.", ["source/cyCrypt/crypt/cyr_xorshift128.cpp"], PURE + LINK)
na("C95", "String helpers and option parsing", "Splitting, trimming, case conversion, wildcard matching and command line options follow their documentation for every string.", [util + "cyu_string_util.cpp", util + "cyu_simple_opt.h"], PURE)
