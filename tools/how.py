how = {
'C01': '''The queue of an object is a circular buffer; its abstract content is described by a ghost witness: one arbitrary
position of the unsent bytes and its value. `write_obj_data` ensures the witness byte is at its place (or dropped only if
older than the room left), that the newest bytes are the ones given, and that overflow drops exactly the oldest.
`write_to_obj` ensures that what write() accepted is exactly the oldest part, in order, across wrap, short writes, EINTR
and EAGAIN, and that shutdown happens only when drained or failed. `shutdown_obj` resets the queue.''',
'C02': '''`read_from_obj` against: read() of any result; telnet and escape filters by their contracts (C05, C03); a generic
reader of an arbitrary list: the block read is handed to each reader exactly once, whole, and to nobody else; EOF or error
calls shutdown once.''',
'C03': '''`process_client_escapes` with a loop contract over an arbitrary block and arbitrary saved state: output equals the
defined decoding at an arbitrary position; each command's action is called once, in position; state carries to the next read
(composition over reads follows from the state being the decoder state). The action functions are in `esc_ops`.''',
'C04': '''`read_from_stdin` on an arbitrary byte in every reachable escape state (earlier bytes are fed through the real code):
what is sent decodes, by the server's rule, to that byte or is the command of the client escape typed; monitor sessions send
none. The 14 escape actions each send exactly the two bytes the server defines.''',
'C05': '''`process_telnet_escapes` with a loop contract, arbitrary block, arbitrary decoder state, in-place output at an
arbitrary position against a reference transition function; connection start resets the decoder.''',
'C06': '''`process_telnet_cmd` for all 256x256 command/option pairs: at most one answer, DO/WILL only answered, never WONT/DONT
provoking; `send_telnet_cmd` the exact encoding, queued only when connected.''',
'C07': '''`write_log_data` with loop contracts: for an arbitrary byte and every line state, what is emitted is the documented
function of the byte and the state; flush on a full scratch buffer loses nothing; the timestamp goes at line starts.''',
'C08': '''`perform_log_replay` against the circular buffer of an arbitrary log: an arbitrary position of the replayed text is
compared with the log's byte; markers; no other object is touched. `shutdown_obj` clears the history.''',
'C09': '''`check_busy_consoles`, `check_too_many_consoles`, `perform_connect_cmd`, `perform_monitor_cmd` with an arbitrary
console among arbitrarily many, arbitrary writers; `link_objs` (force removes writers); the escape `perform_console_writer_linkage`.''',
'C10': '''`link_objs`, `unlink_objs`, `unlink_obj`, `shutdown_obj` over lists by contract: symmetric removal and insertion for
an arbitrary pair, no change for an arbitrary other pair.''',
'C11': '''list.c proper: node level operations over an arbitrary list shape around the position operated on (neighbours, head,
tail, iterators of an arbitrary iterator list), loop contracts for walks; allocators; sort bounded.''',
'C12': '''tpoll.c descriptor table: an arbitrary other descriptor keeps its events; growth preserves; `max` covers every
registered descriptor.''',
'C13': '''tpoll.c timers: insertion keeps order for an arbitrary pair, ties by creation; expiry runs the head exactly while
its time has come; cancellation removes the named; the poll timeout is the difference rounded up to a millisecond.''',
'C14': '''`lex_next` for an arbitrary text: stays inside the text and the lexer buffer, progress (decreases), the token class
and text by position witnesses; `lex_encode/lex_decode` per byte and for the round trip.''',
'C15': '''`send_greeting`, `send_req` against a recorder of formatted output (what text goes between which quotes, encoded
copies only); `recv_greeting`, `recv_req`, `parse_*` against an arbitrary token stream; `process_client` order of steps.''',
'C16': '''`send_rsp` with the same recorder; `recv_rsp`, `parse_rsp_ok`, `parse_rsp_err` against an arbitrary token stream.''',
'C17': '''Each string function with arbitrary sizes and contents: an arbitrary index outside the result is unchanged, termination,
and the truncation result exactly when the formatted length exceeds the room. vsnprintf/strftime by their standard meaning.''',
'C18': '''`format_obj_string` and `sanitize_file_string`: loop contracts over the template; each conversion specifier handled at an
arbitrary position; sanitised text has no separator, blank or control byte at an arbitrary index; `substitute_string`.''',
'C19': '''Option parsers with `strtol`-family functions by contract (value, end, ERANGE): on failure the caller's options are
bitwise unchanged, on success exactly the named fields change within range. One known finding (section 6).''',
'C20': '''`create_*_obj` over a list containing an arbitrary existing object: refused iff it conflicts as stated; appended once,
with the down state.''',
'C21': '''`connect_*`, `disconnect_*`, `reset_*_delay`, `open_*` for telnet, process, unixsock, ipmi: timer bookkeeping by
ghost (at most one pending; scheduled delay in [min,max], doubled on quick failures; zero after a lasting one).''',
'C22': '''`read_n`, `write_n`, `read_line` with loop contracts over arbitrary sequences of short transfers and EINTR.''',
'C23': '''`perform_reset` for an arbitrary console among those written to; `kill_reset_cmd`. The child's side is C26.''',
'C24': '''`perform_suspend`, `perform_quiet_toggle`: poll registration and flags of the requesting client only.''',
'C25': '''`open_logfile_obj`: open flags, truncate once, lock, failure closes; `get_write_lock` and the descriptor-flag helpers.''',
'C26': '''`connect_process_obj` and `perform_reset` on both sides of fork: descriptor table tracked by ghost, execv arguments.
`get_sane_env` for the environment.''',
'C27': '''`write_notify_msg` (buffer, CR LF for any length), `notify_console_objs` (informational, an arbitrary reader once).''',
'C28': '''`compare_objs` against its definition; selection: `query_consoles*` with regex/glob by contract, each match once.''',
}
