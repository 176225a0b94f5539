"""The list of properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

TECH = "TLA+ specification checked with TLC; traces recorded from the real code validated against it"
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), tech=TECH, level="model_checking",
      note="", hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, state=state, observe=observe, tech=tech, level=level, note=note, hook=hook))


P("C01", "Concurrent queue and stack are linearizable and lose no wake-up",
  "For every interleaving of pushes, blocking pops, timed pops, size and emptiness queries from any number of threads, "
  "each call behaves as if it took place at one instant between its start and its end on a plain FIFO queue (or LIFO "
  "stack): every item is delivered exactly once and in order, and none is invented. A blocked pop gets an item whenever "
  "one is pushed for it, and a timed pop gives up only when there was nothing to take and its time has passed, but no later.",
  ["schedules", "histories"], "all interleavings and all sequences of operations on queues and stacks",
  "The tests use a few threads with free-running schedules and count items; a lost wake-up or a lost item that needs one "
  "particular interleaving does not show.",
  ["fly/types/concurrency/concurrent_queue.hpp", "fly/types/concurrency/concurrent_stack.hpp",
   "fly/types/concurrency/detail/concurrent_container.hpp"],
  [("lock, condition variable and wait predicate", "ConcurrentContainer::push, pop, pop with timeout, size, empty")],
  observe=["return values of the calls"],
  note="model of the mutex/condition-variable algorithm checked exhaustively; real containers run under a controlling "
       "scheduler and each history checked for linearizability against the specification")

P("C02", "Every accepted task runs exactly once, when its delay ends, with its reply",
  "For every interleaving, a task accepted by a runner runs exactly once, never before its delay has passed and soon after (whatever else is delayed), as long "
  "as the task manager runs (again), its runner still exists and its owner, if it was posted with one, still exists. "
  "A reply runs exactly once after its task ended, with the result of that task. Posting is accepted for as long as the "
  "task manager exists, and refused afterwards.",
  ["schedules", "histories"], "all interleavings of posts of every kind, from threads and from tasks, with stopping and restarting",
  "The tests post a handful of tasks with a marker runner that serialises everything; races between workers, the delay "
  "timer, stop and start are left to chance.",
  ["fly/task/task_manager.cpp", "fly/task/task_manager.hpp", "fly/task/task_runner.cpp", "fly/task/task_runner.hpp", "fly/task/types.hpp"],
  [("worker and timer threads", "TaskManager::worker_thread, timer_thread"), ("replies", "TaskRunner::post_task_with_reply, wrap_task"),
   ("posting", "TaskRunner::post_task_to_task_manager")],
  observe=["start, end and argument of each task", "return values of posts"],
  note="model of manager, timer, workers and runners checked exhaustively with liveness; real code under a controlling "
       "scheduler with virtual time, histories validated")

P("C03", "Sequenced runners run tasks one at a time in posting order",
  "For every interleaving, a sequenced task runner never runs two of its tasks at the same time, starts them in the order "
  "in which they were posted (delayed tasks from when their delay ends), and runs a task's reply before any task queued "
  "after that task ended. No task is overtaken, even if workers are many, tasks post further tasks, or a task's owner disappears.",
  ["schedules", "histories"], "all interleavings of posts from several threads and tasks to one or more sequenced runners",
  "The tests check the order of a few tasks posted by one thread; two workers finishing at the same time, or posts racing "
  "with the end of a task, are not controlled.",
  ["fly/task/task_runner.cpp", "fly/task/task_runner.hpp", "fly/task/task_manager.cpp"],
  [("the flag that a task runs, and the queue of pending tasks", "SequencedTaskRunner::post_task_internal, task_complete, maybe_post_task")],
  observe=["order and overlap of task executions"],
  note="model with two sequenced runners checked exhaustively; real runners with several workers under a controlling scheduler")

P("C04", "Stopping is a barrier and tasks never outlive their owners",
  "When stopping the task manager returns, no task is running and none starts until it is started again, and stopping or "
  "starting twice is refused. A task posted with an owner never runs once that owner has been destroyed, keeps it "
  "alive while it runs, and does not keep it alive while it waits. Dropping managers, runners and owners at any moment "
  "causes no deadlock, crash or leak.",
  ["schedules", "histories"], "all interleavings of stop, start, release of owners and runners with posting and running tasks",
  "The tests stop a quiet manager; stopping while workers hold tasks or while the timer moves delayed tasks, and owners "
  "released during a task, need particular schedules.",
  ["fly/task/task_manager.cpp", "fly/task/task_runner.hpp", "fly/task/task_runner.cpp"],
  [("joining the threads", "TaskManager::stop, start"), ("locking of owners", "TaskRunner::wrap_task")],
  observe=["start and end of tasks relative to stop and to destruction of owners"],
  note="model of stopping checked exhaustively; real code under a controlling scheduler which also detects deadlock")

P("C05", "Loggers hand every record to the sink once, in order, and complete",
  "For every interleaving of logging threads, a logger hands its sink each record exactly once, one at a time, in the order "
  "in which they were logged, numbered consecutively from 0, with the level, location, time and text (cut to the configured length) of "
  "the call. A synchronous logger has done so when the call returns, an asynchronous one when its task runner gets to it; "
  "after the sink refuses a record nothing is handed to it again.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of logging calls, sink failures and release of the logger",
  "The tests log from one thread, or check only totals; order, numbering and the stop after a failure under concurrency are not examined.",
  ["fly/logger/logger.cpp", "fly/logger/logger.hpp", "fly/logger/detail/styler_proxy.hpp", "fly/logger/log.hpp"],
  [("numbering and hand-over", "Logger::log, log_to_sink"), ("asynchronous hand-over", "SequencedTaskRunner")],
  observe=["records given to a sink"], note="exhaustive model; real loggers with recording sinks under a controlling scheduler, histories validated")

P("C06", "A logger name belongs to one logger, and is found while it is held",
  "For every interleaving of creating, finding and releasing loggers, at most one logger holds a name at any time: creating "
  "another with that name fails and leaves the first in place. A held logger is found by its name, "
  "a name is free again once its last reference has been released, and the default logger is the one set last, or the initial one.",
  ["schedules", "histories"], "all interleavings of create, get, release and set_default_logger with failing sinks",
  "The tests register two loggers with one name in sequence; a refused creation that removes the holder, or a lookup racing with "
  "destruction, are not tried.",
  ["fly/logger/detail/registry.cpp", "fly/logger/detail/registry.hpp", "fly/logger/logger.cpp"],
  [("name map", "Registry::register_logger, unregister_logger, get_logger"), ("registration on creation", "Logger::create_logger")],
  observe=["loggers returned by create, get and get_default_logger"],
  note="exhaustive model; histories of concurrent calls checked for linearizability against the specification")

P("C07", "File logging never loses or damages a record, across rotation and coding",
  "Every record a file logger accepted is on disk, once, whole and in order, in exactly one of its files (also if loggers share a directory): the current one, or an earlier one which "
  "is either plain or compressed, never both, with decompression giving back the original file. A file is closed exactly when it has grown past "
  "the configured size, and if compression is off or fails (also because the disk is full) the plain file stays. When no new file can be "
  "opened the logger stops accepting.",
  ["histories", "configurations", "fault_sequences"], "all sequences of records, size limits, encoder settings and file system failures",
  "The tests fill two files in one setting; failures of the encoder or the disk, and files removed meanwhile, are not covered.",
  ["fly/logger/detail/file_sink.cpp", "fly/coders/coder.cpp", "fly/logger/logger_config.cpp"],
  [("rotation", "FileSink::stream, create_log_file"), ("removal after encoding", "FileSink::create_log_file")],
  observe=["content of the log directory"],
  note="exhaustive model; random histories with faults on real files, directory contents compared with the specification's")

P("C08", "Path monitors report each file event to the right handler, in order",
  "Between registering and removing a handler, every creation, deletion and change of a file in a monitored directory is reported, in order, "
  "to the handler of that file or else to the handler of its directory, and to nobody else; changes that repeat the last one may be merged. "
  "After a removal returns, its handler is not called for later events, a directory removed and recreated can be monitored again, and no "
  "schedule of calls, events and releases deadlocks, crashes or loses a handler registered meanwhile. A monitor which is gone leaves nothing open.",
  ["schedules", "histories"], "all interleavings of registration, removal, file system events and destruction of the monitor",
  "The tests make a few changes and wait; handlers added or removed while events are queued, and re-created directories, are not tried.",
  ["fly/path/path_monitor.cpp", "fly/path/path_monitor.hpp", "fly/path/nix/path_monitor_impl.cpp", "fly/path/nix/path_monitor_impl.hpp"],
  [("handlers of a path", "PathMonitor::add_path, add_file, remove_path, remove_file"), ("dispatch of events", "PathMonitorImpl::poll, read_events, handle_event")],
  observe=["calls of the handlers"],
  note="exhaustive model; real monitor on scratch directories with inotify under a controlling scheduler; distinct spellings of one directory excluded")

P("C09", "Live configurations always follow the configuration file",
  "After each change of the configuration file and a poll interval, every live configuration returns the values of its section, defaults "
  "for what is missing, of another type, or not readable, and keeps its values if the file holds no sections; updates reach all configurations, "
  "and requesting one that exists yields the same object, or nothing if its type differs. Creating, dropping and pruning configurations, file changes and "
  "releasing the manager can interleave in any way without a deadlock or a stale value.",
  ["schedules", "histories", "inputs"], "all interleavings of file changes, creation, reading and release of configurations and of the manager",
  "The tests change a file and wait for one configuration; concurrent creation and updates, and release of the manager during an update, are left to chance.",
  ["fly/config/config_manager.cpp", "fly/config/config_manager.hpp", "fly/config/config.cpp", "fly/config/config.hpp"],
  [("reading the file and updating configurations", "ConfigManager::update_config"), ("shared configurations", "ConfigManager::create_config, prune")],
  observe=["values returned by configurations"],
  note="exhaustive model; real manager with JSON and INI files under a controlling scheduler with virtual time, histories validated")

P("D01", "Bit streams give back exactly the bits that were written",
  "For every sequence of values and widths written, a finished bit stream holds a valid header and exactly those bits "
  "(only the requested low-order bits of each value) zero-filled to a whole byte, and a reader delivers them back in "
  "order for every way of splitting the reads, peeks and discards, then reports that it is fully consumed. "
  "A read that asks for more than is left gets just what is left, and a stream with a wrong header delivers nothing. "
  "If the underlying stream fails, the writer says so when finishing, and the reader delivers nothing but what the stream held and is never consumed.",
  ["inputs", "histories"], "all sequences of writes (0 to 64 bits, any value) and all sequences of read, peek, discard "
  "on their result, and on foreign streams",
  "The tests write a few fixed patterns with equal widths on both sides; the interplay of buffer position, width and "
  "end of stream has far more combinations, and bits above the requested width are never set in a test.",
  ["fly/types/bit_stream/bit_stream_writer.hpp", "fly/types/bit_stream/bit_stream_writer.cpp",
   "fly/types/bit_stream/bit_stream_reader.hpp", "fly/types/bit_stream/bit_stream_reader.cpp"],
  [("buffering of bits", "BitStreamWriter::write_bits, flush_buffer"), ("refill and split reads", "BitStreamReader::peek_bits, refill_buffer")],
  [("m_position", "bits left in the buffer", "bit_stream.hpp")], ["bytes of the output stream", "values returned by reads"],
  note="exhaustive model of writer/reader to 9 bits; thousands of random call sequences on the real code, each validated "
       "event by event")

P("D02", "Base64 coding is lossless and accepts exactly valid encodings",
  "For every byte string, of any length, encoding yields the RFC 4648 Base64 text (with padding) and decoding that "
  "text yields the original bytes. Decoding succeeds exactly for text made of whole four-symbol groups of the Base64 "
  "alphabet with at most two padding symbols, at the very end; anything else is refused without a crash and leaves the "
  "caller's output string alone.",
  ["inputs"], "all byte strings and all texts, including bytes above 0x7f and sizes around the internal buffers",
  "Tests use fixed examples; bytes above 0x7f in the text, every padding position, and lengths at the 192/256 KiB buffer "
  "boundaries are never tried.",
  ["fly/coders/base64/base64_coder.cpp", "fly/coders/coder.cpp"],
  [("chunk coding and padding", "Base64Coder::encode_internal, decode_internal"), ("symbol tables", "s_base64_symbols, s_base64_codes")],
  observe=["return values and output strings/files of encode/decode"],
  note="exhaustive over short inputs on edge symbols in the model; real coder replayed on random strings, files and "
       "buffer-sized inputs")

P("D03", "Huffman coding is lossless, length-limited, and safe on bad streams",
  "For every input and every configured chunk size and maximum code length, encoding either succeeds with a stream whose "
  "codes respect the limit and which decodes to exactly the input, or reports failure because no such code exists "
  "(limit or chunk size out of range, or too many symbols for the limit). Decoding any byte sequence terminates "
  "without touching foreign memory, succeeds exactly when it is a well-formed stream, and then yields exactly the symbols it encodes.",
  ["inputs", "configurations"], "all inputs, chunk sizes and code length limits; all (also damaged) encoded streams",
  "Tests round-trip a few texts with two limits and decode about ten hand-made bad headers; inputs that force length "
  "limiting, several chunks with different tables, and damaged tables or truncated codes are not covered.",
  ["fly/coders/huffman/huffman_encoder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/huffman/types.cpp",
   "fly/coders/coder.cpp", "fly/coders/coder_config.cpp"],
  [("length limiting", "HuffmanEncoder::limit_code_lengths"), ("canonical codes", "HuffmanEncoder::convert_to_canonical_form"),
   ("table validation and prefix table", "HuffmanDecoder::decode_codes, convert_to_prefix_table, decode_symbols")],
  observe=["return values and output of encode/decode"],
  note="the encoder's algorithm model-checked over all small frequency vectors; real encoder and decoder replayed on random "
       "inputs, limits, hand-made and damaged tables with an independent decoder in the specification")

P("D05", "Coding a file writes exactly what the coder makes of it, or reports failure",
  "Encoding or decoding from one file to another succeeds exactly if the whole input could be read, is something the coder can code, and all of the result "
  "could be written; then the output file holds just what the same coder makes of the same bytes in memory, whatever it held before, and coding it back gives the input. "
  "Whatever fails, at whichever read or write (a missing file, a directory, a full device, a failing or interrupted transfer), only the returned value tells: "
  "nothing is thrown, the program does not end, and a failure never looks like a shorter success. Any kind of output (device, pipe) can be given, and no other file changes.",
  ["inputs", "fault_sequences", "histories"], "all contents, both coders and directions, all kinds of files, all places at which reading or writing fails, coders used repeatedly",
  "The tests code three files to and fro on a healthy disk and try one missing input; no read or write fails in any of them.",
  ["fly/coders/coder.cpp", "fly/coders/huffman/huffman_encoder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/base64/base64_coder.cpp",
   "fly/types/bit_stream/bit_stream_reader.cpp", "fly/types/bit_stream/bit_stream_writer.cpp"],
  [("opening and checking files", "Encoder::encode_file, Decoder::decode_file"), ("end of input", "HuffmanEncoder::encode_binary, Base64Coder::encode_internal"),
   ("errors of the stream", "BitStreamReader::fill, BitStreamWriter::flush")],
  observe=["return values", "content of all files in a scratch directory", "exceptions and termination"],
  note="the coder in memory is the oracle for what a text becomes (D02 and D03 decide that); a coder by pieces which may fail model checked; real coders run with "
       "interposed read, write and writev that fail at a chosen call, once or from then on, or move a few bytes at a time")

P("N01", "Each readiness request is answered once, in order, with its own socket",
  "A request to be told when a socket can be read or written is answered exactly once, on one sequence, not before that is so, and with the socket it was made for; "
  "requests for one socket and direction are answered in the order in which they were made. "
  "Requests for a destroyed socket are dropped and never passed to a newer socket that got the same descriptor, interrupted or failed polling answers nobody, and the descriptor number does not matter.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of requests, arriving data, closing, releasing and reopening sockets, from any thread and from answers",
  "The tests wait for one or two requests; descriptor reuse, requests made while polling, and interrupted polling are not tried.",
  ["fly/net/socket/socket_service.cpp", "fly/net/socket/socket_service.hpp", "fly/net/socket/detail/nix/socket_operations.cpp"],
  [("polling and answering", "SocketService::poll"), ("forgetting a socket", "SocketService::remove_socket"), ("weak sockets", "SocketService::wrap_callback")],
  observe=["answers, with the socket they carry"],
  note="exhaustive model; real service and sockets under a controlling scheduler with descriptor reuse, interrupted polling and more than FD_SETSIZE descriptors; histories validated")

P("N02", "Stream sockets deliver each byte once, in order, or report the failure",
  "A listener accepts each connection once, and each end receives exactly the bytes which the other end was told were sent, in order and without gaps, then the end of the stream. "
  "Every accepted asynchronous operation completes exactly once unless its socket is closed or released first, reporting the bytes really transferred; "
  "partial transfers, would-block results and interruptions are invisible, and any other error completes the operation and closes the socket.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of operations on both ends and the listener, all partial transfers and errors of the system",
  "The tests transfer a few messages over a fast loopback; short writes, errors in the middle of a message, and closing at any moment are only mocked singly.",
  ["fly/net/socket/tcp_socket.cpp", "fly/net/socket/listen_socket.cpp", "fly/net/socket/detail/nix/socket_operations.cpp", "fly/net/socket/detail/base_socket.cpp"],
  [("asynchronous transfer", "TcpSocket::ready_to_send, ready_to_receive"), ("connecting", "TcpSocket::connect_async, finish_connect"), ("accepting", "ListenSocket::ready_to_accept")],
  observe=["completions, bytes received, is_open"],
  note="exhaustive model; real sockets over loopback under a controlling scheduler with injected short transfers and errors; concurrent sends on one socket excluded")

P("N03", "Datagram sockets send each message once, in packets, and deliver them whole",
  "A message is sent to its endpoint as datagrams of the packet size of its socket (the last one possibly shorter), in order and each once, and a receive yields exactly the oldest waiting datagram, "
  "cut to the packet size of the receiver. Every accepted asynchronous operation completes exactly once unless its socket is closed or released first, a send with the number of bytes which really were sent; "
  "would-block results and interruptions are invisible, and any other error completes the operation and closes the socket.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of sends and receives on several sockets, packet sizes, and errors of the system at any datagram",
  "The tests send a few messages between two sockets with one packet size; errors and would-block results between the packets of one message are not tried.",
  ["fly/net/socket/udp_socket.cpp", "fly/net/socket/detail/nix/socket_operations.cpp", "fly/net/socket/detail/base_socket.cpp"],
  [("asynchronous transfer", "UdpSocket::ready_to_send, ready_to_receive"), ("splitting into packets", "detail::send_to, recv_from")],
  observe=["datagrams sent, completions, data received, is_open"],
  note="exhaustive model; real sockets over loopback under a controlling scheduler with injected errors; the specification computes each datagram; empty datagrams and concurrent sends on one socket excluded")

P("N04", "Each open socket handle belongs to exactly one socket object",
  "Through any sequence of creation, move construction, move assignment (also to itself), mode changes, connecting, listening, accepting, failing, closing and destruction of sockets, "
  "every open handle belongs to exactly one object, which has the mode and connection state that came with it; a handle is closed as soon as its object is closed, assigned to, destroyed, "
  "or fails, and no other handle ever is.",
  ["histories"], "all sequences of operations on several socket objects of all kinds",
  "The tests move a socket once; what happens to the handle of the object assigned to, or after failures, is not checked.",
  ["fly/net/socket/detail/base_socket.cpp", "fly/net/socket/tcp_socket.cpp", "fly/net/socket/listen_socket.cpp", "fly/net/socket/udp_socket.cpp"],
  [("moving and closing", "BaseSocket::BaseSocket(BaseSocket &&), operator=, close"), ("state of a connection", "TcpSocket::operator=, ListenSocket::operator=")],
  observe=["open descriptors of the process and the sockets behind them"],
  note="exhaustive model; random operation sequences on real sockets; after each one, the socket behind every handle and the number of descriptors are compared with the specification")

P("N06", "Sockets are where they say, reach what is named, and share only if both agree",
  "Binding succeeds exactly if the address given, as such, as a text or by the name of a host, is an address of this machine, the socket is not bound yet and nobody "
  "else has the address and port, unless both were bound with reuse allowed; the socket then has that address and that port, or one which the system chose. "
  "A host name stands for the first address of the family of the socket, in every operation which takes one, and one which stands for none makes the operation fail without effect. "
  "A connection is made to the listener at the address and port given; the local end of each side is the remote end of the other. "
  "A datagram arrives, once and whole, at a socket bound to the address and port given. No descriptor and no result of a lookup is left over.",
  ["inputs", "histories"], "all sequences of bind, listen, connect, accept, send and close of several sockets on several addresses",
  "The tests bind one socket at a time to the wildcard or loopback address and never compare what the two ends say; conflicts, sharing and names with several addresses are not tried.",
  ["fly/net/socket/detail/base_socket.cpp", "fly/net/socket/detail/nix/socket_operations.cpp", "fly/net/socket/tcp_socket.cpp", "fly/net/socket/udp_socket.cpp", "fly/net/socket/listen_socket.cpp"],
  [("binding", "BaseSocket::bind, detail::bind"), ("names", "detail::hostname_to_address, BaseSocket::hostname_to_address"),
   ("where", "BaseSocket::local_endpoint, TcpSocket::remote_endpoint"), ("reaching", "TcpSocket::connect, UdpSocket::send, ListenSocket::listen, accept")],
  observe=["return values", "what the system says of the sockets behind", "who gets each message"],
  note="exhaustive model; random histories of real sockets on addresses of the loopback network of both families, names resolved by a stand-in; the model says for each operation whether it may succeed and what each socket then says of itself")

P("N05", "IP addresses and endpoints are read and written exactly",
  "A text is accepted as an IPv4 address, IPv6 address or endpoint exactly if it has the documented form with all numbers in range, "
  "however long its numbers are and whatever bytes it contains, and it then yields exactly the address it denotes. "
  "Every address and endpoint is written as a text which is read back as the same value, and comparisons agree with equality.",
  ["inputs"], "all texts and all addresses",
  "The tests use a list of examples; numbers beyond 64 bits, bytes above 0x7f, stray colons and combinations of short forms are not covered.",
  ["fly/net/ipv4_address.hpp", "fly/net/ipv6_address.hpp", "fly/net/endpoint.hpp", "fly/types/string/lexer.hpp"],
  [("reading", "IPv4Address::from_string, IPv6Address::from_string, Endpoint::from_string"), ("writing", "Formatter<IPv4Address>, Formatter<IPv6Address>, Formatter<Endpoint>")],
  observe=["return values of from_string, formatted text, comparisons"],
  note="reading and writing specified as functions, inverse for all addresses in the model; real code replayed on thousands of generated and damaged texts; "
       "groups of more than four digits with a leading zero left open")

P("S01", "Unicode text is validated and converted exactly, and never beyond its end",
  "For every sequence of units of every character type, a string is valid exactly if it is the canonical encoding of Unicode scalar values, "
  "decoding yields exactly those values or fails without reading beyond the end, and a value is encoded exactly if it is a scalar value. "
  "Converting between encodings keeps the text exactly, conversion of an invalid text fails, and unescaping undoes escaping, of every style.",
  ["inputs"], "all sequences of units and all code points in UTF-8, UTF-16, UTF-32 and wide strings",
  "The tests use a list of examples of valid and invalid sequences; truncation at each place, surrogates next to other units and each boundary of each range in each encoding are not combined.",
  ["fly/types/string/detail/unicode.hpp", "fly/types/string/string.hpp"],
  [("decoding and encoding", "BasicUnicode::decode_codepoint, encode_codepoint, codepoint_from_string, codepoint_to_string"),
   ("converting", "BasicUnicode::convert_encoding"), ("escaping", "BasicUnicode::escape_codepoint, unescape_codepoint")],
  observe=["return values and advanced iterators"],
  note="encodings specified as inverse functions, proved so by TLC over edge units (all scalar values when thorough); real code replayed on generated, truncated and damaged text "
       "in five character types under ASan; where the iterator stands after a failure is left open")

P("S02", "String utilities satisfy their definitions on every input and terminate",
  "For every string, splitting, trimming, replacing, removing, case conversion, prefix and suffix tests, wildcard matching and joining yield exactly "
  "what their documentation defines, in every character type: every occurrence is replaced once, a wildcard pattern must match the whole text, "
  "and characters outside of ASCII are never classified or changed. Each call terminates without touching anything outside of its arguments.",
  ["inputs"], "all strings, patterns, delimiters and limits in every character type",
  "The tests use a few examples; replacements which contain the pattern, patterns ending in or beginning with wildcards, and units above 0x7f are not covered.",
  ["fly/types/string/string.hpp", "fly/types/string/detail/classifier.hpp"],
  [("splitting and trimming", "BasicString::split, trim"), ("replacing", "BasicString::replace_all, remove_all"),
   ("wildcards", "BasicString::wildcard_match"), ("joining", "BasicString::join"), ("classes of characters", "BasicClassifier")],
  observe=["return values and the string changed in place"],
  note="each function defined on sequences, with laws checked by TLC over all short strings and patterns; real code replayed on generated strings in five character types "
       "under ASan; pieces which are empty are dropped by split, as its tests say; separators of join in 8-bit types limited to ASCII")

P("S03", "The lexer consumes exactly what it accepts and stays inside its text",
  "For every text and every sequence of calls, each consumption accepts exactly the longest or next token it is defined for, advances past exactly that, "
  "and otherwise fails and leaves the position alone; peeking never moves it. No call reads outside of the text, whatever offset it is given, "
  "and a number is yielded only if its digits fit into its type.",
  ["inputs", "histories"], "all texts and all sequences of lexer calls in every character type",
  "The tests call each function on one example; the position after failures, huge offsets, and numbers at the limit of 64 bits are not tried.",
  ["fly/types/string/lexer.hpp"],
  [("looking ahead", "BasicLexer::peek"), ("consuming", "BasicLexer::consume_if, consume_whitespace, consume_number, consume_hex_number")],
  observe=["return values, position()"],
  note="exhaustive model; lexer specified as a state machine; real lexers replayed on generated texts and call sequences under ASan; the position after a number which does not fit is left open")

P("S05", "A string converts to a number exactly if it is one that fits",
  "For every string and integer type, conversion yields a value exactly if the whole string is a number in the given base which the type can represent, "
  "and then exactly that number; otherwise it yields nothing. For floating-point types the whole string has to be a decimal number (with or without point and exponent, or "
  "inf or nan; no leading blank or plus sign), and the value is the representable one nearest to it; only numbers outside the range of the normal values may be refused.",
  ["inputs"], "all strings in every character type, all integer and floating-point types",
  "The tests convert a few numbers and the limits plus one; long digits, signs, embedded blanks and trailing text in combination with each type and base are not covered.",
  ["fly/types/string/detail/converter.hpp", "fly/types/string/string.hpp"],
  [("numbers from text", "BasicString::convert, Converter")],
  observe=["return values"],
  note="numbers specified as digit sequences (no machine arithmetic); real code replayed on generated numbers around every limit, half way between floating-point values, and damaged texts")

P("S04", "Formatting replaces every field by exactly the text of its value",
  "For every format string and list of values, the string is refused exactly if it breaks the documented grammar or an option does not apply to the value, and otherwise "
  "the result is the literal text with every replacement field replaced by its value: integers in the base, floating-point numbers rounded exactly to the precision, "
  "strings in the encoding of the result, with sign, prefix, padding and alignment as asked for, whether position, width and precision are given directly or by other values. "
  "This holds for every character type and for user-defined types.",
  ["inputs", "programs"], "all format strings and values, in all character types",
  "The tests try one option at a time with a few small values; combinations of options, values near rounding and type limits, long results and the interplay of several fields are not covered.",
  ["fly/types/string/format.hpp", "fly/types/string/formatters.hpp", "fly/types/string/detail/format_string.hpp", "fly/types/string/detail/format_specifier.hpp",
   "fly/types/string/detail/format_parameters.hpp", "fly/types/string/detail/format_parse_context.hpp"],
  [("grammar of replacement fields", "BasicFormatString, BasicFormatSpecifier::parse, validate"), ("text of values", "Formatter specializations"),
   ("choice of arguments", "BasicFormatParameters, BasicFormatContext::arg, BasicFormatSpecifier::resolve")],
  observe=["the formatted text, or that the format string is refused"],
  note="format strings are parsed at runtime (the library's own FLY_COMPILER_DISABLE_CONSTEVAL); left open: infinity and NaN padded with zeros, sizes of non-ASCII characters, hexadecimal long double")

P("D04", "Integer literals and byte swaps are exact, and bad literals do not compile",
  "Every literal of the sized integer suffixes denotes exactly the written number, in every base and with digit separators, and fails to compile exactly if "
  "it cannot be represented. Swapping the byte order reverses exactly the bytes of a value, twice yields the value, and conversion to and from "
  "big and little endian follows that order, for every integer type.",
  ["inputs", "programs"], "all literals of all suffixes, and all values of all integer types",
  "The tests can only contain literals which compile, and a few values per type.",
  ["fly/types/numeric/literals.hpp", "fly/types/numeric/detail/literal_parser.hpp", "fly/types/numeric/endian.hpp", "fly/types/numeric/detail/byte_swap.hpp"],
  [("literals", "detail::literal, LiteralParser"), ("byte order", "byte_swap, endian_swap, endian_swap_if_non_native")],
  observe=["values of literals, diagnostics of the compiler, return values"],
  note="the compiler is asked about a generated table of literals, and its answers with their values are validated against the specification of numerals")

P("J01", "The JSON parser accepts exactly JSON, and yields the value which is written",
  "For every text, the parser yields a value exactly if the text is a JSON document by the grammar (with comments, trailing commas and documents of any type exactly if "
  "the respective feature is enabled), and the value is the one the text denotes: every member, element, string and number, the last one of equal keys, numbers exactly as far as they are representable. "
  "A text which is rejected is rejected with an empty result, never with a crash or a read outside of the text.",
  ["inputs", "configurations"], "all texts, under every combination of features",
  "The tests hold a list of good and bad documents; comments, blanks and commas at every place of nested documents, numbers around the limits, and damaged documents in combination with the features are not covered.",
  ["fly/parser/json_parser.hpp", "fly/parser/json_parser.cpp", "fly/parser/parser.cpp", "fly/types/string/lexer.hpp", "fly/types/json/json.hpp"],
  [("documents, objects and arrays", "JsonParser::parse_value, parse_json, parse_object, parse_array, parse_object_key_value"),
   ("strings, numbers and comments", "JsonParser::parse_quoted_string, parse_number, validate_number, consume_whitespace_and_comments"),
   ("features", "JsonParser::is_feature_allowed")],
  observe=["results of parsing"],
  note="JSON specified as a grammar in TLA+; the real parser replayed on generated documents and damaged ones under ASan")

P("J02", "What is serialized from a JSON value denotes that value",
  "For every JSON value, the text written from it is a JSON document which denotes that value: strings are escaped so that they are read back unchanged, members are ordered by key, and numbers are decimal. "
  "A string which is not valid UTF-8 or contains malformed escapes is not accepted as a JSON string, and a string which is accepted is held decoded and valid.",
  ["inputs"], "all JSON values and all strings",
  "The tests serialize a few values; control characters, surrogate pairs and malformed escapes in every position, and nesting, are not covered.",
  ["fly/types/json/json.hpp", "fly/types/json/json.cpp", "fly/types/string/detail/unicode.hpp"],
  [("writing", "Json::serialize, operator<<, Json::write_escaped_character"), ("accepting strings", "Json::validate_string, read_escaped_character, validate_character")],
  observe=["serialized text, constructed values, exceptions"],
  note="the specification enumerates every text a value may be written as; the real serializer replayed on generated values and strings")

P("J03", "JSON values change exactly as asked for, and errors harm nothing",
  "Every access and modification of a JSON value (lookup, insertion, replacement, erasure, resizing, merging, swapping, construction from lists) has exactly the effect and result "
  "that it has on an ordered map or a sequence. An operation which does not apply to the type, key or index reports that with the documented exception and leaves every value as it was.",
  ["histories", "inputs"], "all sequences of operations on values of every type",
  "The tests call each operation on fresh values; sequences, operations of one type on values of each other type, and the state after exceptions are not covered.",
  ["fly/types/json/json.hpp", "fly/types/json/json.cpp", "fly/types/json/json_exception.cpp"],
  [("access", "Json::at, operator[], get_or_promote, front, back, find, contains, size"),
   ("modification", "Json::insert, object_inserter, array_inserter, insert_or_assign, emplace, push_back, pop_back, erase, resize, clear, merge, swap"),
   ("construction from lists", "Json::Json(initializer_list), is_object_like")],
  observe=["results, exceptions, resulting values"],
  note="operations specified as a state machine over values, model checked for its order and exception safety; real values replayed on generated histories")

P("J04", "JSON iterators visit every element once and never leave their value",
  "Iterators and reverse iterators of an object or array visit each of its elements exactly once, in order; movements by any offset, distances, comparisons and indexed access agree with the positions. "
  "Every use which is not meaningful (of a null iterator, beyond the ends, for another value, or of key and offset for the wrong type) throws the documented exception, and moves nothing.",
  ["histories", "inputs"], "all sequences of iterator operations, with every offset",
  "The tests use a few steps on small values; sequences mixing forward, reverse, const and copied iterators with offsets of every size are not covered.",
  ["fly/types/json/detail/json_iterator.hpp", "fly/types/json/detail/json_reverse_iterator.hpp"],
  [("checks", "JsonIterator::validate_iterator, validate_offset, validate_dereference"),
   ("movement", "JsonIterator::operator++, --, +=, -=, -, JsonReverseIterator"), ("access", "operator*, ->, [], key, value")],
  observe=["positions, values and exceptions of iterator operations"],
  note="iterators specified as positions, model checked for completeness of visits; real iterators replayed on generated sequences")

P("J05", "JSON values are totally ordered, by value, and equal values hash equally",
  "For every two JSON values exactly one of less, equal and greater holds, the other comparisons agree with that, and the order is transitive: numbers are compared by their values whatever "
  "their types (as far as floating-point numbers are told apart), strings, arrays and objects lexicographically, other types by their type. Equal values have equal hashes, so that sorting, ordered and unordered sets work.",
  ["inputs"], "all pairs and triples of JSON values",
  "The tests compare a few pairs of small numbers; negative against huge unsigned numbers, mixed types in nested containers, and hashes of equal values of different types are not covered.",
  ["fly/types/json/json.cpp", "fly/types/json/json.hpp"],
  [("comparison", "operator==, operator<, operator<=, operator>, operator>="), ("hash", "std::hash<fly::Json>")],
  observe=["results of comparisons, hashes, sorted sequences, sets"],
  note="order specified by exact decimal arithmetic and model checked to be total; real comparisons, std::sort and sets validated against it; values within epsilon of each other are not generated")

P("J06", "JSON values convert to and from C++ types without loss, or not at all",
  "Every JSON value made from a C++ value (number, string in any encoding, container) is the corresponding value, and converts back to an equal C++ value. A conversion to another type yields exactly "
  "the corresponding value (text which is a number as that number, numbers as text, anything as its truth, containers element by element) or throws the documented exception and leaves the value as it was.",
  ["inputs"], "all values, to and from every supported type and nested containers of them",
  "The tests convert one or two values per type; limits of integer types, malformed numbers in text, nested containers, short and long arrays and moved-from values are not covered in combination.",
  ["fly/types/json/json.hpp", "fly/types/json/json.cpp", "fly/types/json/detail/array_util.hpp", "fly/types/string/detail/converter.hpp"],
  [("to C++ types", "Json::operator T, operator std::array, operator json_string_type&&"), ("from C++ types", "Json::Json(T), json_array_append, json_array_size")],
  observe=["converted values, exceptions, the value afterwards"],
  note="conversions specified per type, model checked to be inverse to construction; numbers which the target type cannot represent are left open")

P("P01", "The INI parser yields exactly the sections, names and values of its text",
  "For every text, the parser yields a value exactly if each line is blank, a comment, a section, or a name and value within a section, and then the value holds exactly the sections "
  "and their pairs: blanks around names and values are dropped, one pair of quotes around a value is dropped, everything after the first assignment operator belongs to the value, "
  "and of equal sections or names the last one counts. Imbalanced quotes or brackets, quoted names, and empty names or values yield nothing.",
  ["inputs"], "all texts",
  "The tests parse a list of examples; assignment operators at the ends of values, lone quotes, and their combinations with blanks, sections and escapes are not covered.",
  ["fly/parser/ini_parser.cpp", "fly/parser/ini_parser.hpp"],
  [("lines", "IniParser::parse_internal, getline"), ("sections", "IniParser::on_section"), ("names and values", "IniParser::on_name_value_pair, trim_value")],
  observe=["results of parsing"],
  note="INI specified as a state machine over lines, model checked against files built line by line; the real parser replayed on generated and damaged files")

P("P02", "A file is parsed as the text it encodes, and unreadable files yield nothing",
  "For every file, parsing it yields what parsing its text yields, where the byte order mark decides between UTF-8, UTF-16 and UTF-32 of both byte orders. A file which is missing, a directory, "
  "not well-formed in its encoding, cut within a character, or which fails to be read at any point yields nothing, and no exception escapes.",
  ["inputs", "fault_sequences"], "all files, in every encoding, with every failure while reading",
  "The tests parse one example per encoding; damaged encodings, short reads and failing reads are not covered.",
  ["fly/parser/parser.cpp", "fly/parser/parser.hpp"],
  [("encodings", "Parser::parse_byte_order_mark, check_bom, ensure_utf8"), ("reading", "Parser::parse_file, parse_stream")],
  observe=["results of parsing, exceptions"],
  note="encodings specified and model checked to be read back; real parsers replayed on files in every encoding, damaged and with injected read failures")

P("Y01", "The system monitor shows exactly what the system reports, or what it had",
  "After each poll interval the monitor shows exactly what the counters of the system say: the number of processors, the share of "
  "time the system and the process were busy since the sample before, and memory in bytes. A sample which cannot be read, is malformed, does not "
  "advance or runs backwards leaves the values as they were, which are meaningful at any moment. A monitor exists only if the number of processors "
  "is known, polls as long as it is held, and not after it was released.",
  ["histories", "fault_sequences", "schedules"], "all sequences of samples, failures to take one, and schedules of polls and queries",
  "The tests read the values of the machine they run on once and compare them roughly; what happens between unusual samples does not show.",
  ["fly/system/system_monitor.cpp", "fly/system/nix/system_monitor_impl.cpp"],
  [("polling and re-arming", "SystemMonitor::create, start, poll_system_later"),
   ("reading the counters", "SystemMonitorImpl::update_*")],
  observe=["values returned by the getters"],
  note="samples specified as a state machine, model checked; the real monitor under a controlling scheduler with made-up /proc files, times() and sysinfo(); "
       "the first sample of a usage is only required to be in range")

P("Y02", "Signals go to the handler in charge, and texts of errors and times are exact",
  "Every signal which ends a program is given to the handler which was set last, with its number, once each time it is raised, also when handlers "
  "set another one, remove themselves or raise signals while they run, and when signals arrive while one is being replaced; a handler stays intact until it "
  "returned. Without a handler, and for other signals, the default action is taken. Error texts consist of the code and the "
  "description of the system; the local time is the calendar date and time in the zone of the process for any moment.",
  ["histories", "schedules", "all_inputs"], "all orders of setting, raising and nested handling, arrival of signals while a handler is set; all codes and moments",
  "The tests raise each signal once with one handler; what happens when a handler acts itself, or a signal arrives in the middle of setting one, needs a "
  "particular moment.",
  ["fly/system/system.cpp", "fly/system/nix/system_impl.cpp"],
  [("handler", "set_signal_handler, handle_signal"), ("texts", "get_error_string, local_time")],
  observe=["calls of the handlers", "the signal which ended the process", "returned strings"],
  note="nested signal handling specified as a state machine, model checked over all short handler scripts; the real functions in child processes which may "
       "die, with a stand-in for the clock")

P("Y03", "What is shown on the terminal is the text, in its style and nothing else",
  "Text printed through a styler appears in the styles and colours asked for, in the order given, at the position to which the cursor was moved, and what is "
  "printed after the styler is gone appears without them. Streams which are no terminal get the text alone. How the program formats its own numbers on the stream "
  "neither affects that nor is affected. A console logger prints each record as one line with time, place and message, in the colour of its level, on the "
  "stream for that level. An assertion evaluates its condition once and is silent if it holds; a failed one prints exactly its condition, place, message and captured "
  "values before its handler is called once.",
  ["all_inputs", "histories"], "all combinations of modifiers, scopes, formats and texts; all records and failed assertions",
  "The tests look for some escape sequences at the start of the output with a stream in its initial state; what the terminal then shows, other formats and nested "
  "scopes are not looked at.",
  ["fly/logger/styler.cpp", "fly/logger/styler.hpp", "fly/logger/detail/nix/styler_proxy_impl.cpp", "fly/logger/detail/console_sink.cpp",
   "fly/assert/detail/assert_enabled.hpp", "fly/assert/detail/assert_enabled.cpp"],
  [("escape sequences", "StylerProxyImpl"), ("log lines", "ConsoleSink::stream"), ("assertions", "FLY_ASSERT_IMPL, Assertion::log_assertion")],
  observe=["bytes on standard output and standard error, as a terminal shows them"],
  note="a terminal specified as a state machine over the bytes it is sent; meaning of stylers, log lines and assertions specified over what it shows; an "
       "implementation by escape sequences model checked against it, and the real output validated; after an inner styler ends, either no attributes or those "
       "of the outer one are accepted")
