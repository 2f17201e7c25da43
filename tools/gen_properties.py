#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in (state or [])],
                          'observe_at': observe or [], 'hook_needed': None}})


T = 'The 14 tests start a daemon, open a few consoles and look for one echoed string; '

prop('C01', 'Queued output is delivered in order, unaltered; overflow drops only the oldest',
     'Data queued for a console, logfile or client is written to its descriptor exactly once, in order and byte for byte, however the writes are cut short, interrupted or refused; when more is queued than the queue holds, only the oldest unsent bytes are discarded and the newest are kept. '
     'A destination that has seen end-of-file accepts no further data and is shut down only once everything already queued has been written (or writing fails).',
     ['inputs', 'histories', 'fault_sequences'],
     'every queue fill level and position, every length offered, every sequence of short writes, EINTR, EAGAIN and write errors',
     T + 'they never wrap or overflow a queue, never see a short write or a write error.',
     ['src/server-obj.c'],
     [('circular queue insertion', 'src/server-obj.c: write_obj_data'), ('vectored flush with short-write accounting', 'src/server-obj.c: write_to_obj'), ('fill level', 'src/server-obj.c: num_bytes_buffered')],
     [('buf, bufInPtr, bufOutPtr', 'circular queue of one object', 'src/server.h'), ('gotEOF', 'no further data accepted', 'src/server.h')],
     ['bytes written to a descriptor'])

prop('C02', 'Console output reaches its log and every attached reader, and nobody else',
     'Every block of bytes read from a console, in any device state that allows reading, is handed exactly once, whole and in order to each object currently reading from that console (its logfile and its clients) and to no other object, after telnet control sequences are removed; a block read from a client goes, after escape processing, only to the consoles that client writes to. '
     'A descriptor at end-of-file or in error leads to exactly one shutdown of that object, while an interrupted or empty read changes nothing.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every object type, every number and mix of readers, every read size and read result (data, EOF, EINTR, EAGAIN, error)',
     T + 'with one reader per console and no read errors.',
     ['src/server-obj.c'],
     [('read and fan out', 'src/server-obj.c: read_from_obj')],
     [('readers', 'objects that receive what this object reads', 'src/server.h')], ['queues of the readers'])

prop('C03', 'Client escape sequences never reach the console and everything else does',
     'For every byte stream from a client and every way of splitting it into reads, the bytes forwarded to the console are exactly the stream with each two-byte escape sequence removed and each doubled escape byte reduced to one, and each escape command performs its own action exactly once, in stream position, whichever read its two bytes arrive in.',
     ['inputs', 'histories'],
     'every byte sequence of every length, every split into reads, both values of the carried-over escape flag',
     T + 'no test sends an escape sequence that is split across reads, doubled, or malformed.',
     ['src/server-esc.c', 'src/common.h'],
     [('stateful scanner', 'src/server-esc.c: process_client_escapes')],
     [('gotEscape', 'previous byte was the escape byte', 'src/server.h')], ['bytes handed to the console queue', 'escape actions'])

prop('C04', 'What the user types is stuffed so the server decodes exactly those bytes',
     'Every byte the user types in an interactive session is either sent so that the server decodes exactly that byte, or consumed by a documented client escape sequence; a byte equal to the protocol escape is doubled, and a monitor session sends no user data at all. '
     'Each client escape sequence that asks the server for something sends exactly the two-byte command the server defines for it.',
     ['inputs', 'histories'],
     'every input byte in every client escape state, every escape character setting, both session kinds',
     T + 'and do not type escape characters or 0xFF bytes.',
     ['src/client-tty.c', 'src/common.h'],
     [('stdin scanner', 'src/client-tty.c: read_from_stdin'), ('escape commands', 'src/client-tty.c: perform_*_esc, send_esc_seq')],
     [('escapeState', 'position within a client escape sequence', 'src/client-tty.c')], ['bytes written to the server socket'])

prop('C05', 'Telnet control sequences never leak into the console stream',
     'For every byte stream from a telnet server and every way of splitting it into reads, console output is exactly the stream with each telnet command, option negotiation and subnegotiation removed and each doubled IAC reduced to one 0xFF data byte; the decoder never reads or writes outside the block it was given.',
     ['inputs', 'histories'],
     'every byte sequence of every length, every split into reads, every carried-over decoder state',
     T + 'no telnet console is ever connected by a test.',
     ['src/server-telnet.c'],
     [('stateful decoder', 'src/server-telnet.c: process_telnet_escapes')],
     [('iac', 'last byte of an unfinished telnet sequence, or -1', 'src/server.h')], ['bytes handed to readers'])

prop('C06', 'Telnet negotiation is answered as required and can never loop',
     'Each request to enable an option gets exactly one answer with the same option: agreement only for the options the program supports, refusal for every other; a peer request to disable, or an announcement of disabling, is never answered with a request that would provoke another reply. '
     'Every command sent is the exact two- or three-byte telnet encoding, queued for the device only while it is connected.',
     ['inputs', 'histories'],
     'every command and option byte, every connection state',
     T + 'no telnet negotiation takes place.',
     ['src/server-telnet.c'],
     [('command processing', 'src/server-telnet.c: process_telnet_cmd'), ('encoding', 'src/server-telnet.c: send_telnet_cmd')],
     [], ['bytes queued for the telnet device'])

prop('C07', 'Console logs record exactly the console output in the documented format',
     'A plain logfile receives exactly the console bytes; with sanitising or timestamping, the text written is the fixed function of the whole console stream that the documentation defines (line-ending normalisation, 7-bit folding, ^X and M- notation, timestamp at the start of each line), independent of how the stream was split into blocks, with no byte lost when the internal buffer fills.',
     ['inputs', 'histories', 'configurations'],
     'every byte sequence of every length, every split into blocks, every line state, all option combinations',
     T + 'logs are never sanitised or timestamped in a test.',
     ['src/server-logfile.c'],
     [('log formatter', 'src/server-logfile.c: write_log_data, write_sanitized_log_data')],
     [('lineState', 'position relative to CR/LF at the end of the previous block', 'src/server.h')], ['bytes queued for the logfile'])

prop('C08', 'Log replay shows exactly the most recent logged output',
     'A replay request delivers to that client, between its begin and end markers, exactly the newest bytes of the console log still held in memory (at most the documented replay length) in order, to no other client, and leaves the log and its pending output unchanged; a console without a log yields the documented notice instead.',
     ['inputs', 'histories'],
     'every queue position, wrap state and fill level',
     T + 'replay is not exercised.',
     ['src/server-esc.c'],
     [('replay', 'src/server-esc.c: perform_log_replay')],
     [('gotBufWrap', 'the queue memory has been filled at least once', 'src/server.h')], ['bytes queued for the client'])

prop('C09', 'Only an authorised session can write to a console',
     'A monitor session never becomes a writer of any console by connecting; a connect session becomes a writer only if no writer is attached, or it asked to join (existing writers stay) or to force (existing writers lose write access); a request naming a busy console without join or force is refused as a whole and changes no session. '
     'A request for several consoles is refused unless it is a broadcast or monitoring rule the protocol allows, and an escape request for monitor, join or force changes only the requesting session and, for force, the displaced writers.',
     ['inputs', 'histories', 'configurations'],
     'every combination of command, join/force/broadcast flags, and existing readers and writers',
     T + 'with one client at a time.',
     ['src/server-sock.c', 'src/server-esc.c'],
     [('busy check', 'src/server-sock.c: check_busy_consoles'), ('count check', 'src/server-sock.c: check_too_many_consoles'), ('attach', 'src/server-sock.c: perform_monitor_cmd, perform_connect_cmd'), ('escape request', 'src/server-esc.c: perform_console_writer_linkage')],
     [('readers, writers', 'who may write to a console', 'src/server.h')], ['writers of a console'])

prop('C10', 'Attachment between objects is symmetric and never left dangling',
     'Whenever an object is in another\'s reader set, the latter is in the former\'s writer set and vice versa, at most once; detaching or shutting down an object removes it from both sides of every attachment and disturbs no other attachment. '
     'A client left with no attachment is marked finished so that it is closed once its pending output is written; a console that goes down keeps its attachments.',
     ['inputs', 'histories'],
     'every attachment graph and every sequence of attach, detach and shutdown',
     T + 'one client is attached and detached; dangling references only show under particular histories.',
     ['src/server-obj.c'],
     [('attach', 'src/server-obj.c: link_objs'), ('detach', 'src/server-obj.c: unlink_objs, unlink_obj'), ('shutdown', 'src/server-obj.c: shutdown_obj')],
     [('readers, writers', 'the attachment graph', 'src/server.h')], ['reader and writer lists'])

prop('C11', 'Lists behave as sequences and iteration survives insertion and deletion',
     'Each list operation has the effect of the corresponding sequence operation (append, prepend, push, pop, peek, enqueue, dequeue, find, count, delete-all, for-each, stable-order sort) and nothing else; an iterator visits each remaining element exactly once in order even when elements, including the current one, are inserted or removed through any route during the walk; a deleted element is released exactly once.',
     ['inputs', 'histories'],
     'every list content and every interleaving of iterator and list operations',
     T + 'list operations are only exercised incidentally with short lists.',
     ['src/list.c'],
     [('nodes and tail pointer', 'src/list.c: list_node_create, list_node_destroy'), ('iterators', 'src/list.c: list_iterator_create, list_next, list_insert, list_find, list_remove, list_delete'), ('sort', 'src/list.c: list_sort')],
     [('head, tail, iNext, count', 'list and its active iterators', 'src/list.c')], ['list API results'])

prop('C12', 'Poll registrations are a faithful map from descriptor to events',
     'After any sequence of set, clear and query operations each descriptor has exactly the events set and not since cleared, no operation on one descriptor alters another\'s, growth of the table preserves every registration, and every registered descriptor is among those polled; invalid descriptors or arguments are refused without effect.',
     ['inputs', 'histories'],
     'every descriptor number including ones that force growth, every event mask',
     T + 'with a handful of small descriptors.',
     ['src/tpoll.c'],
     [('set/clear/is_set', 'src/tpoll.c: tpoll_set, tpoll_clear, tpoll_is_set'), ('growth', 'src/tpoll.c: _tpoll_grow, _tpoll_init')],
     [('fd_array, num_fds_used, max_fd', 'registrations', 'src/tpoll.c')], ['what poll() is given'])

prop('C13', 'Timers fire once, in order, never early, and cancel exactly the one named',
     'Pending timers are kept ordered by expiry with equal expiries in order of creation; each has a positive identifier; expiry runs exactly the callbacks whose time has come, each once and not before its time; cancelling removes exactly the named timer and reports whether it was pending; the poll wait never exceeds the time to the next expiry by more than a millisecond.',
     ['inputs', 'histories'],
     'every set of pending timers, every expiry time and clock reading, every cancel request',
     T + 'which wait for no particular timer.',
     ['src/tpoll.c'],
     [('insertion', 'src/tpoll.c: tpoll_timeout_absolute'), ('cancel', 'src/tpoll.c: tpoll_timeout_cancel'), ('expiry', 'src/tpoll.c: tpoll'), ('time arithmetic', 'src/tpoll.c: _tpoll_get_timeval, _tpoll_diff_timeval')],
     [('timers_active', 'sorted list of pending timers', 'src/tpoll.c')], ['callbacks run', 'poll timeout'])

prop('C14', 'The configuration and protocol lexer is safe and total on any input',
     'For every input text the lexer stays within the text and its own buffer, always makes progress until end of input, counts lines correctly, and returns the documented token (keyword, integer, quoted or bare string, end of line, error) with the documented text; text encoded for transmission (7-bit characters) decodes to the original and contains no quote character.',
     ['inputs'],
     'every NUL-terminated text',
     T + 'a few well-formed configuration files are read.',
     ['src/lex.c'],
     [('tokeniser', 'src/lex.c: lex_next, lex_prev'), ('escapes', 'src/lex.c: lex_encode, lex_decode')],
     [], ['tokens and token text'])

prop('C15', 'A client request is carried to the server exactly, and bad requests are refused',
     'The greeting and command line a client sends state exactly the user, terminal, command, options and console names given, with every text encoded, and are sent whole or (if they do not fit one line) not at all, with an error; '
     'the server takes from a line exactly the last well-formed user and terminal, the last command, and every well-formed option and console name in order, each decoded. '
     'Any other sequence of tokens from the network is handled without memory error or leak and changes nothing else; a greeting without a user, or a connection that ends, is refused, and no command is performed unless every earlier step succeeded.',
     ['inputs'],
     'every string value of every field; every byte sequence from a peer',
     T + 'only well-formed requests with plain names are sent.',
     ['src/server-sock.c', 'src/client-sock.c'],
     [('server parsing', 'src/server-sock.c: recv_greeting, parse_greeting, recv_req, parse_cmd_opts'), ('client encoding', 'src/client-sock.c: send_greeting, send_req')],
     [], ['the parsed request'])

prop('C16', 'Each server reply is one well-formed line the client decodes unchanged',
     'Every reply is a single newline-terminated line in which every text (an encoded copy: the server\'s own names are never altered) is between quotes, is sent whole or not at all, never written beyond its buffer, and reports success, the reset option and every console in order, or the given error number and message; '
     'on receipt the client recovers exactly that status, message, option and console list, and treats anything else as an error.',
     ['inputs'],
     'every message text, error number, option set and console list length',
     T + 'only plain success replies.',
     ['src/server-sock.c', 'src/client-sock.c'],
     [('reply', 'src/server-sock.c: send_rsp'), ('receipt', 'src/client-sock.c: recv_rsp, parse_rsp_ok, parse_rsp_err')],
     [], ['bytes sent to the client'])

prop('C17', 'String helpers never overrun and report truncation truthfully',
     'Every bounded string operation (formatted append, substitution, time strings, copying) writes only within the given size, always terminates the result, leaves the prefix already present intact, and reports truncation or failure exactly when the full result did not fit.',
     ['inputs'],
     'every buffer size, contents and argument',
     T + 'truncation never occurs.',
     ['src/util-str.c'],
     [('formatted append', 'src/util-str.c: append_format_string'), ('substitution', 'src/util-str.c: substitute_string'), ('times', 'src/util-str.c: create_*_time_string, write_time_string'), ('matching', 'src/util-str.c: parse_string')],
     [], ['string results'])

prop('C18', 'Names expand as documented and cannot escape the configured directory',
     'Expanding a name template yields exactly the documented substitution for each conversion specifier, or reports failure when it does not fit, never writing beyond the buffer nor reading beyond the template; text substituted from console names, devices or hosts never introduces a path separator, blank or non-printing character.',
     ['inputs', 'configurations'],
     'every template, buffer size and console attribute',
     T + 'templates are not varied.',
     ['src/server-obj.c'],
     [('expansion', 'src/server-obj.c: format_obj_string'), ('sanitising', 'src/server-obj.c: sanitize_file_string')],
     [], ['log file names'])

prop('C19', 'Device and log options are accepted only in range, and rejected atomically',
     'Parsing an option string either applies exactly the values given, each within its documented range (a serial speed is rounded down to a standard rate), or reports an error and leaves every option as it was; options not mentioned keep their previous value, and a serial option text that states nothing changes nothing.',
     ['inputs', 'configurations'],
     'every option string and every previous option value',
     T + 'options are not varied.',
     ['src/server-serial.c', 'src/server-logfile.c', 'src/server-test.c', 'src/server-ipmi.c'],
     [('serial', 'src/server-serial.c: parse_serial_opts'), ('log', 'src/server-logfile.c: parse_logfile_opts'), ('test', 'src/server-test.c: parse_test_opts'), ('ipmi', 'src/server-ipmi.c: parse_ipmi_opts')],
     [], ['option values after parsing'])

prop('C20', 'No two consoles share a name, device or log file',
     'A console definition is refused if its name is already in use by a console of any kind, or its serial device, local socket or IPMI host already belongs to another console, and a log file definition is refused if its (expanded) name is that of another console\'s log file (telnet endpoints and programs may be shared); a refused definition leaves the existing consoles untouched, and an accepted one is added exactly once in its down state with no attachments.',
     ['inputs', 'configurations'],
     'every set of existing consoles and every new definition',
     T + 'configurations contain no conflicts.',
     ['src/server-serial.c', 'src/server-telnet.c', 'src/server-process.c', 'src/server-unixsock.c', 'src/server-ipmi.c', 'src/server-test.c', 'src/server-logfile.c'],
     [('creation', 'create_serial_obj, create_telnet_obj, create_process_obj, create_unixsock_obj, create_ipmi_obj, create_test_obj, create_logfile_obj')],
     [('objs', 'all configured objects', 'src/server.h')], ['configured consoles'])

prop('C21', 'A lost console is always retried, with a delay within the documented limits',
     'After any failed connection attempt or loss of a telnet, process, unix-socket or IPMI console, exactly one retry is pending, after a delay that is immediate after a lasting connection and otherwise never below the minimum nor above the maximum documented for that kind of device, growing on repeated quick failures; a console that is up has no retry pending that would tear it down.',
     ['histories', 'fault_sequences'],
     'every sequence of connection successes, failures and losses',
     T + 'which run for less than one retry interval.',
     ['src/server-telnet.c', 'src/server-process.c', 'src/server-unixsock.c', 'src/server-ipmi.c'],
     [('telnet', 'src/server-telnet.c: connect_telnet_obj, disconnect_telnet_obj, reset_telnet_delay'), ('process', 'src/server-process.c: check_process_prog, disconnect_process_obj, create_process_obj'), ('unixsock', 'src/server-unixsock.c: connect_unixsock_obj, disconnect_unixsock_obj'), ('ipmi', 'src/server-ipmi.c: connect_ipmi_obj, disconnect_ipmi_obj, fail_ipmi_obj')],
     [('timer, delay, state', 'reconnect state of a device', 'src/server.h')], ['timers requested'])

prop('C22', 'Whole-buffer reads and writes transfer everything or report why not',
     'Reading or writing n bytes transfers exactly n bytes across any number of short transfers and interruptions, or returns the count at end-of-file, or -1 on error; reading a line never stores more than the given size, consumes nothing beyond the newline, ends the text with a NUL whenever it reports a positive length, and reports that length, 0 at end-of-file or -1 on error.',
     ['inputs', 'fault_sequences'],
     'every size, every sequence of short transfers, EINTR, EOF and errors',
     T + 'transfers are small and never interrupted.',
     ['src/util-file.c'],
     [('i/o wrappers', 'src/util-file.c: read_n, write_n, read_line')],
     [], ['bytes transferred'])

prop('C23', 'A reset request runs at most one command per writable console',
     'A reset escape starts the configured reset command once for each console the requesting session can write to and that has no reset in progress, for no other console; the command is started with the console\'s name substituted, its process is remembered until it ends, and it is killed if it outlives the timeout.',
     ['inputs', 'histories', 'configurations'],
     'every attachment, every console reset state, every configuration',
     T + 'reset is not exercised.',
     ['src/server-esc.c'],
     [('reset', 'src/server-esc.c: perform_reset, reset_console, kill_reset_cmd')],
     [('resetCmdPid', 'running reset command', 'src/server.h')], ['processes started'])

prop('C24', 'Quiet and suspend affect only the requesting session and lose nothing else',
     'Toggling quiet suppresses only informational messages, only for that session, and is acknowledged; suspending stops output to that session only, and resuming restarts it with everything still queued delivered; neither affects consoles, logs or other sessions.',
     ['inputs', 'histories'],
     'every order of toggles and of data and informational messages',
     T + 'neither is exercised.',
     ['src/server-esc.c', 'src/server-obj.c'],
     [('toggles', 'src/server-esc.c: perform_suspend, perform_quiet_toggle')],
     [('gotSuspend, enableQuiet', 'session flags', 'src/server.h')], ['client queue, poll registration'])

prop('C25', 'Opening a log never destroys earlier logged output unless asked',
     'A logfile is opened for appending, is truncated only if so configured and then only on the first open and never on a reopen, is locked if so configured and not used when the lock is held elsewhere, and a failed open leaves the console working without a descriptor leak.',
     ['configurations', 'histories', 'fault_sequences'],
     'every option combination, every sequence of opens and reopens, every failing call',
     T + 'a log is opened once.',
     ['src/server-logfile.c'],
     [('open', 'src/server-logfile.c: open_logfile_obj')],
     [('gotTruncate', 'truncate on next open', 'src/server.h')], ['open() flags, descriptors'])

prop('C26', 'Every child starts with a clean environment and no inherited descriptors',
     'A program started for a console runs with the arguments configured and its three standard descriptors connected to that console, one started for a reset runs in a process group of its own with its standard descriptors on the null device, and neither keeps a descriptor that was opened to start it; the environment they inherit holds only the fixed safe variables of the server. A failure to start one leaves no descriptor or process behind.',
     ['configurations', 'fault_sequences'],
     'every environment, every failing call',
     T + 'the environment of children is not looked at.',
     ['src/server-process.c', 'src/server-esc.c', 'src/server.c'],
     [('process start', 'src/server-process.c: check_process_prog, connect_process_obj'), ('reset start', 'src/server-esc.c: reset_console')],
     [], ['environment and descriptors of children'])

prop('C27', 'Informational messages are bounded, well delimited and reach every observer',
     'Each notification names the event, is terminated by CR LF, never overruns its buffer however long the names in it are, and is queued as informational for every client reading the console concerned (and its log where documented), and for nobody else.',
     ['inputs', 'histories'],
     'every name length, every set of observers',
     T + 'names are short.',
     ['src/server-obj.c'],
     [('notices', 'src/server-obj.c: write_notify_msg, notify_console_objs, link_objs, unlink_objs')],
     [], ['client and log queues'])

prop('C28', 'Consoles are ordered and selected deterministically',
     'Consoles are ordered by name in ASCII order, except that two names that agree up to a number at the end of each are ordered by those numbers; each console named or matched by a request is selected once, results are in that order, and an unmatched pattern selects nothing.',
     ['inputs'],
     'every set of names and patterns',
     T + 'a few names.',
     ['src/server-obj.c', 'src/server-sock.c'],
     [('order', 'src/server-obj.c: compare_objs'), ('selection', 'src/server-sock.c: query_consoles, query_consoles_via_globbing, query_consoles_via_regex')],
     [], ['console lists'])

prop('C29', 'Host name and address lookups copy within bounds and preserve the answer',
     'Looking up a host by name or address stores into the caller\'s buffer a complete, self-contained copy of the answer (name, aliases, addresses), never beyond the buffer, or fails reporting that it does not fit; the caller\'s result never refers to shared storage.',
     ['inputs'],
     'every host entry and buffer size',
     T + 'only localhost is resolved.',
     ['src/util-net.c'],
     [('copy', 'src/util-net.c: copy_hostent, get_host_by_name, get_host_by_addr')],
     [], ['the host entry'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
