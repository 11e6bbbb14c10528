#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit titles/statements)."""
import json, os
import re, glob
SRC = {os.path.relpath(f, "/repo"): open(f, errors="replace").read() for f in sorted(glob.glob("/repo/src/*.[ch]"))}
def where(m, files):
    for f, t in SRC.items():
        k = re.search(r"^(?:#\s*define\s+)?" + re.escape(m) + r" ?\(", t, re.M)
        if k: return "%s:%d" % (f, t[:k.start()].count("\n") + 1)
    return ", ".join(files)
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": where(m, files)} for m in mechanism]}
    if state: a["state"] = [{"name": x, "meaning": x, "where": files[0]} for x in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Signals are always re-enabled after a command",
  "Whatever a command does, by the time it finishes - successfully, with an error, or because a resource ran out half way - interrupt and hang-up delivery is enabled again: every section that holds signals off is left exactly once on every path out of it. Signals are never released more often than they were held.",
  ["inputs", "fault_sequences"], "every command, every success and failure path through it (allocation, seek, write, fork failures included)",
  "The suite never makes an allocation, seek, write or fork fail, and never sends a signal after a failed command; a leaked hold shows only as an editor that can no longer be interrupted.",
  ["src/signal.c", "src/ed.h", "src/cmds.c", "src/io.c", "src/exec.c", "src/buf.c", "src/undo.c", "src/glbl.c", "src/page.c", "src/sub.c"],
  ["spl1", "spl0", "PUT_BUFFER_LINE", "APPEND_UNDO_NODE"], state=["signal hold depth"])
p("P02", "Edit structures change only while signals are held off",
  "The line list, the undo history, the global-command list, pending text queues, macro frames and the records of open files are changed only inside sections during which interrupt and hang-up handling is held off. A signal can therefore never find one of them half updated.",
  ["schedules"], "every point at which SIGINT or SIGHUP can be delivered, in every command",
  "Tests deliver no signals; the window between two pointer stores cannot be hit by sampling.",
  ["src/buf.c", "src/cmds.c", "src/undo.c", "src/glbl.c", "src/io.c", "src/exec.c", "src/aux.c", "src/page.c"],
  ["spl1", "spl0", "LINK_NODES", "APPEND_NODE", "UNLINK_NODE"])
p("P03", "Held-off signals are deferred, not lost and not run early",
  "While signals are held off, an arriving interrupt, hang-up or window-size signal is only remembered; it is acted on when the outermost hold is released, and each remembered signal is acted on exactly once. When signals are not held off it is acted on immediately.",
  ["schedules"], "every arrival order of SIGINT, SIGHUP and SIGWINCH relative to holds and releases",
  "No test sends a signal while a hold is active.",
  ["src/signal.c"], ["signal_handler", "spl1", "spl0", "init_signal_handler", "handle_int", "handle_hup", "handle_winch"])
p("P04", "A hang-up saves the buffer and then exits",
  "On hang-up a non-empty buffer is written in full to the file ed.hup in the current directory or, if that write fails, to ed.hup in the home directory; the editor then exits with a failure status through its normal clean-up and never returns to editing. A hang-up received before initialisation is complete just exits.",
  ["schedules", "fault_sequences"], "any moment of hang-up, any buffer, either save location failing",
  "Tests never hang up the editor.",
  ["src/signal.c", "src/buf.c"], ["handle_hup", "write_file", "quit"])
p("P05", "Remembered position in the temporary file is never stale",
  "The editor remembers where it is positioned in its temporary file to avoid seeking. After a seek, read or write there that failed or was interrupted, that memory is invalid and the next access seeks again; a child process that reads the file opens it anew instead of sharing the position. So a line's text is always read from, and recorded at, its true place.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of reads and writes with interrupts, I/O failures and filter children",
  "Needs an interrupt or an I/O failure between two library calls, or a child moving the shared file offset; tests do neither.",
  ["src/buf.c", "src/aux.c"], ["get_buffer_line", "put_buffer_line", "filter_lines"], state=["cached offset", "seek-before-write flag"])
p("P06", "Every change to the lines of the buffer can be undone",
  "Every addition, deletion and movement of buffer lines by a command is recorded in the undo history before the command reports success, so that undo restores the lines as they were. No command changes the sequence of lines without a matching record.",
  ["inputs", "histories"], "every editing command, with and without a global command around it",
  "Tests undo a handful of commands; a missing record only matters for the one command and path that lost it.",
  ["src/undo.c", "src/cmds.c", "src/io.c", "src/sub.c", "src/buf.c"],
  ["append_undo_node", "APPEND_UNDO_NODE", "delete_lines", "move_lines", "copy_lines", "join_lines", "substitute_lines", "append_lines"])
p("P07", "Undo covers exactly the last command",
  "A buffer-changing command given on its own starts a new undo history before it makes its first change, and a whole global command shares one history that is started once before its first change and not restarted by the commands in its list. Commands that only display, report, search, write, mark lines or copy lines to a register never discard the undo history; loading a file starts afresh.",
  ["histories"], "every sequence of commands, inside and outside global commands",
  "The number of command sequences is unbounded; tests sample a few.",
  ["src/exec.c", "src/glbl.c", "src/undo.c"], ["reset_undo_queue", "exec_global"])
p("P08", "Undo is its own inverse",
  "Undo exchanges the current and the previous state of the buffer - lines, line count, current address and modified flag together - and inverts every record of the history, in reverse order; so undoing twice restores the buffer as it was. A new history starts empty, from the state of the buffer at that moment, and no line still in the buffer is released with the old one. When there is nothing to undo, it fails without changing anything.",
  ["histories"], "every undo history", "Histories are unbounded; tests undo a few short ones.",
  ["src/undo.c"], ["undo_last_command", "reset_undo_queue"])
p("P09", "Every buffer change marks the buffer modified",
  "Whenever a command adds, deletes, moves, joins, copies or substitutes lines, the buffer is marked as modified before signals are released or the command returns, even if the command fails later. The only exceptions are loading a file as the new buffer contents, reading into an otherwise empty buffer, and undo, which restores the flag of the state it returns to.",
  ["inputs", "fault_sequences"], "every editing command and every failure point within it",
  "A missed flag shows only if the user then quits without saving; failure paths are not tested.",
  ["src/cmds.c", "src/sub.c", "src/io.c", "src/exec.c"], ["is_modified", "delete_lines", "append_lines", "substitute_lines", "r_cmd"])
p("P10", "Unsaved changes are never discarded without a warning",
  "The modified mark is removed only after the whole buffer was successfully written to a file, after a new buffer was loaded, or when a warning is issued. Leaving the editor or editing another file while the mark is set first yields that warning instead, unless the unconditional form of the command or script mode was asked for, and repeating the attempt right after the warning goes ahead; writing and then leaving does not leave if the buffer is still modified.",
  ["histories", "fault_sequences"], "every history of edits, writes (also partial, failed or piped) and attempts to quit",
  "Requires combining failed or partial writes with each way of leaving; tests cover none of the failing ones.",
  ["src/exec.c", "src/main.c", "src/buf.c"], ["q_cmd", "e_cmd", "w_cmd", "E_cmd", "main"])
p("P11", "A write is reported successful only if all data reached the file",
  "A command that writes lines to a file, a pipe or a register hands over every line of the range once, in order and with its whole length, and reports success only if every operation on the target stream succeeded and buffered data was flushed (or the stream closed) successfully at the end; otherwise it fails. The size reported is the number of bytes handed over. (The exit status of the program at the other end of a pipe does not count as a failure.)",
  ["fault_sequences"], "every write and every point at which the target can fail (full disk, I/O error)",
  "Tests never write to a target that fails.",
  ["src/io.c", "src/cbc.c", "src/exec.c"], ["write_stream", "put_stream_line", "write_file", "append_stream", "flush_des_file"])
p("P12", "A failing step fails the command",
  "When an editor function that a command calls to do part of its work reports failure - a negative status, or no result where one is required - the calling function fails in turn, with the same status or the fatal one, and takes no further step that changes the buffer or its undo history. No failure reported by such a function is ignored or turned into success. (Failures of system calls on descriptors that are being discarded anyway do not count.)",
  ["fault_sequences", "inputs"], "every call of an internal operation that can fail, on every path",
  "Most failure statuses are produced by resource failures that no test provokes.",
  ["src/exec.c", "src/io.c", "src/cmds.c", "src/sub.c", "src/glbl.c", "src/page.c", "src/main.c", "src/aux.c"],
  ["status < 0 convention", "NULL convention"])
p("P13", "Every failing command leaves an explanation",
  "Whenever a command or its addresses are rejected or fail with a general or fatal error, an error message has been recorded since that command began, so the help command explains the failure instead of repeating an older message or none.",
  ["inputs", "fault_sequences"], "every error path of every command",
  "There are some two hundred error paths; tests check a few messages.",
  ["src/exec.c", "src/parse.c", "src/io.c", "src/re.c", "src/sub.c", "src/page.c"], ["exec->err"])
p("P14", "Display and information commands never alter the buffer",
  "Printing, listing, scrolling, line-number, file-name, help, prompt, comment, mark and shell-escape commands given without a line range leave the line sequence, the undo history and the modified mark untouched, whatever their arguments and outcome.",
  ["inputs", "histories"], "every argument to every display or information command",
  "A side effect may depend on rare arguments or display states; tests look at output, not at undo or modified state.",
  ["src/exec.c", "src/page.c"], ["p_cmd", "l_cmd", "n_cmd", "z_cmd", "Z_cmd", "f_cmd", "h_cmd", "H_cmd", "P_cmd", "k_cmd", "address_cmd", "comment_cmd", "newline_cmd"])
p("P15", "A malformed command changes nothing",
  "A command whose text is malformed - addresses, destination, command suffix, file name, pattern or replacement - is rejected before it deletes, adds or moves lines, undoes anything or gives up the undo history: once a command has done the first of these, it fails only if a later step fails, never for its own text. (Commands run from the lists of g, v, G, V and from macros are commands of their own.)",
  ["inputs"], "every syntactically wrong command line",
  "Tests sample few malformed commands and check only their message.",
  ["src/exec.c", "src/sub.c", "src/glbl.c"], ["COMMAND_SUFFIX", "is_valid_range", "DESTINATION_ADDRESS", "FILE_NAME"])
p("P16", "Commands touch only lines that exist",
  "Whenever a command prints, deletes, moves, copies, joins, substitutes, marks, writes or filters a range of lines, that range lies within the buffer and is ordered (only for an empty buffer may it be empty); a line after which text is added, read, moved or copied lies between 0 and the last line, and a destination never inside the lines that are moved. Addresses outside the buffer are rejected. A buffer that has lines is never treated as an empty one, whose line the next append or read replaces. (Scrolling has limits of its own.)",
  ["inputs"], "every address range given to every command, on every buffer size",
  "The space of addresses and buffer sizes is unbounded.",
  ["src/exec.c", "src/parse.c"], ["is_valid_range", "address_range", "next_address"])
p("P17", "Global commands never visit a line that is gone",
  "A global command visits the lines of its range that match the pattern (for v and V: that do not match it), once each and in order. While it runs, a line that one of its commands deletes, moves or replaces is removed from the list of lines still to visit, no other line is, and undo or loading another file empties that list. Global commands cannot be nested, not even after a command of the list has loaded another file.",
  ["histories"], "every command list applied by a global command",
  "Only particular command lists delete a line still to be visited.",
  ["src/glbl.c", "src/cmds.c", "src/undo.c", "src/exec.c"], ["delete_global_nodes", "reset_global_queue", "next_global_node", "global_cmd"])
p("P18", "No mark, undo record or cached line outlives its line",
  "The storage of a deleted line is released only when its undo record is discarded, and then every mark on it has been cleared; a line that is still in the buffer, or that undo could bring back, is never released, and the marks of other lines stay. The line position that the editor remembers to avoid searching fits the lines after every change and after undo. A mark name outside a to z is rejected before it is used.",
  ["histories"], "every sequence of marking, deleting, undoing and editing",
  "Use of released storage is history dependent and often silent.",
  ["src/undo.c", "src/cmds.c", "src/buf.c", "src/sub.c"], ["reset_undo_queue", "unmark_line_node", "mark_line_node", "get_marked_node_address", "get_line_node"])
p("P19", "Temporary files are private and removed on every exit",
  "A temporary file of the editor (line buffer, registers, script) is created exclusively, readable by its owner only, and used only if it is known to be a regular file; one that was created but cannot be used is removed, and so is a buffer file that another replaces. From the moment temporary files can exist, every way the program itself ends the editor - normal quit, error exit, hang-up, usage message - removes the buffer file, the script file and the file of every register in use. Child processes never remove a file of the editor and never end that way.",
  ["crash_points", "inputs"], "every path that creates a temporary file, every orderly termination path, every path of a child process",
  "Tests do not look for leftovers, and most termination paths are error paths.",
  ["src/buf.c", "src/main.c", "src/signal.c"], ["create_disk_buffer", "quit", "script_die", "close_ed_buffer", "ed_usage"])
p("P20", "Restricted mode confines the user",
  "In restricted mode no command runs a shell or other program, and no file outside the current directory is named for reading or writing: shell commands, names containing a slash or being '..', and targets that are not regular files are refused before anything is executed or opened.",
  ["inputs"], "every command and every file name, direct, globbed, from the argument list or from a default file name",
  "The set of names and routes to a shell or a file is open; tests try a few.",
  ["src/parse.c", "src/io.c", "src/cmds.c", "src/aux.c", "src/exec.c"], ["expand_shell_command", "file_name", "file_glob", "get_inode", "RESTRICTED"])
p("P21", "Child processes are contained and collected",
  "A child process started for a shell escape or filter never falls back into editor code: it either executes its program or exits at once without flushing or cleaning up the parent's state, with a failure status if it could not do its work. A child that runs a user's command gets default interrupt and quit handling, and the editor waits for every child it started, also when a wait is interrupted, unless the user interrupts the command.",
  ["fault_sequences", "schedules"], "every failure of fork, exec, dup, pipe or write in parent and child",
  "Failures of these system calls are not provoked by tests.",
  ["src/cmds.c", "src/aux.c"], ["system_shell", "filter_lines", "WAITPID"])
p("P22", "Streams and descriptors are not leaked",
  "Every stream, pipe end and descriptor that a function opens is closed, with the operation that belongs to it and once only, on every path on which the function returns, or is kept as the recorded handle of the file being edited, of a register or of a temporary file. A recorded handle is not replaced while what it held is open, does not stay behind when it is closed, and nothing is used after it was closed.",
  ["fault_sequences", "histories"], "every path through every command that opens something",
  "A leak is invisible until descriptors run out or a child never sees end-of-file.",
  ["src/io.c", "src/aux.c", "src/main.c"], ["read_file", "read_pipe", "write_file", "write_pipe", "filter_lines", "append_script_file"])
p("P23", "Text never overruns its buffer",
  "Every store of input-dependent length into one of the editor's growable buffers is preceded, on every path, by a request that makes the buffer large enough for it, terminator included.",
  ["inputs"], "inputs of every length", "Overruns depend on input lengths relative to allocation granularity.",
  ["src/buf.c", "src/io.c", "src/parse.c", "src/sub.c", "src/re.c", "src/cmds.c", "src/main.c", "src/page.c"], ["realloc_buffer", "REALLOC_THROW"])
p("P24", "Running out of memory is an error, never a crash",
  "Where a memory request, a function of the editor that depends on one, or a library call that opens a stream or reads the environment can deliver no pointer, no path on which it delivered none accesses memory through that pointer; and a function whose memory request failed itself fails instead of going on.",
  ["fault_sequences"], "every allocation failing at any moment",
  "Allocation failures are not provoked by tests.",
  ["src/buf.c", "src/undo.c", "src/glbl.c", "src/re.c", "src/page.c", "src/sub.c", "src/io.c", "src/main.c"], ["malloc", "realloc", "strdup", "fopen", "popen", "fdopen"])
p("P25", "Macro calls are bounded and unwind completely",
  "The nesting of register macros is limited, and the limit is checked before a frame is used. A macro that ends, by reaching its end or successfully, leaves exactly the one frame it entered; a command that fails inside a macro, or an interrupt, leaves all frames before the next command of the editor's own loop is read. The input that was current when a frame was entered is saved in it, and is made current again when the frame is left - that of the outermost frame when all are left. A frame that is left is released, and only once.",
  ["inputs", "histories", "fault_sequences"], "every nesting of macros and every failure inside one",
  "Depth and failure combinations are unbounded.",
  ["src/aux.c", "src/exec.c", "src/main.c"], ["script_from_register", "push_stack_frame", "pop_stack_frame", "unwind_stack_frame", "exec_macro"])
p("P26", "Register operations keep source and destination straight",
  "A digit names the register of that number, and without a digit one further register is meant. Copying from a register or between registers leaves the source as it was; a move empties its source only after the transfer succeeded. A transfer that does not append leaves only the new lines in the target, one that appends adds them after those that are there, and a register is never transferred onto itself. Lines that are moved or deleted to a register leave the buffer only after they were written there.",
  ["inputs", "fault_sequences"], "every combination of source, destination, append and failure",
  "Combinations with failures are not tested.",
  ["src/io.c", "src/exec.c"], ["append_to_register", "append_from_register", "inter_register_copy", "inter_register_move", "reset_register_buffer", "m_cmd", "t_cmd", "d_cmd"])
p("P27", "Extensions are unavailable in POSIX and traditional mode",
  "With strict POSIX or traditional behaviour selected, the extension commands and prefixes - registers as source or destination of move and copy, macros, file lists, filtering a range, reverse and half-page scrolling, comments, setting the file name to a shell command and, in POSIX mode, forward scrolling - have no effect and, where they have a form of their own, are rejected as errors; whatever other options are set.",
  ["configurations", "inputs"], "every extension under every option combination",
  "Tests run nearly everything in the default mode.",
  ["src/exec.c", "src/parse.c", "src/sub.c"], ["POSIXLY_CORRECT", "TRADITIONAL", "exec_command"])
p("P28", "Exactly the documented command letters are commands",
  "Every input byte in command position either is a documented command letter and runs that command, or is rejected as an unknown command without any effect; the look-up never leaves the command table for any byte value.",
  ["inputs"], "all 256 byte values in command position",
  "Tests use valid letters only.", ["src/exec.c"], ["exec_command", "ed_cmd", "invalid_cmd"])
p("P29", "With a key set, file contents pass through the cipher",
  "While an encryption key is set, every byte read from or written to a file or a command's pipe by the read, edit and write commands goes through the cipher, which is initialised for that transfer and flushed before the write succeeds; only encrypted blocks are written, and the last one records how many bytes it holds. Script input, registers and the text of a filter never go through the cipher, and without a key nothing does. The typed key is erased before the function that asked for it returns, whether the key was accepted or not.",
  ["inputs", "histories"], "every transfer of text, with and without a key",
  "Tests round-trip one file; they cannot see plaintext, a register scrambled by the key, or key remnants.",
  ["src/cbc.c", "src/io.c", "src/aux.c"], ["init_des_cipher", "get_des_char", "put_des_char", "flush_des_file", "get_des_keyword", "read_stream_r", "write_stream", "filter_lines"])
p("P30", "Any byte value is safe in commands and text",
  "Every character classification or conversion is applied to a value in the range the C library defines it for, whatever bytes (also those above 127) appear in commands, file names and text.",
  ["inputs"], "all byte values in all inputs", "Tests use mostly ASCII, and out-of-range table look-ups usually go unnoticed.",
  ["src/parse.c", "src/exec.c", "src/sub.c", "src/re.c", "src/cmds.c", "src/cbc.c", "src/page.c"], ["isspace", "isdigit", "islower", "isalnum", "toupper", "tolower"])
p("P31", "Numbers that are too large are rejected",
  "A number in a command, an option or an environment variable that is too large for its type is never used in clamped, truncated or wrapped form: the operation fails with an error, or a default takes the number's place. A number that was accepted is stored in a narrower field only if it is certain to fit. Offsets are added to an address only when the sum cannot overflow; otherwise the address is refused.",
  ["inputs"], "all digit strings", "Boundary values of each conversion are not tested.",
  ["src/ed.h", "src/parse.c", "src/sub.c", "src/exec.c", "src/main.c", "src/buf.c"], ["STRTOL_THROW", "STRTOLL_THROW", "STRTOUL_THROW", "address_offset"])
p("P32", "User text is never interpreted as a format",
  "Text that comes from files, commands, file names, environment or error messages is only ever printed as data; every formatted-output format is fixed by the program, and its conversions agree with the arguments supplied.",
  ["inputs"], "all texts, including ones with per cent signs", "Tests do not use such texts in messages and names.",
  ["src/exec.c", "src/main.c", "src/io.c", "src/buf.c"], ["printf", "fprintf", "snprintf", "sprintf"])
p("P33", "Opened files are locked without ever blocking",
  "On every stream that a read or write command opens with write access - the read command does so for every file it may write to - an exclusive advisory lock of the whole file is asked for before any text is transferred. No lock request ever waits for another process, and a refused lock alone never fails the command.",
  ["schedules", "inputs"], "every open for reading or writing, with any other process holding the lock",
  "Tests never contend for a lock.", ["src/io.c"], ["set_file_lock", "read_file", "write_file", "flock", "fcntl"])
p("P34", "A pattern stays valid for as long as it can be reused",
  "A compiled search or substitution pattern that a later command can still refer to - by an empty pattern, repeated search or repeated substitution - is not released while it is referred to, is released at most once, and is released when the last reference to it is replaced. A pattern that fails to compile leaves the remembered ones as they were.",
  ["histories"], "every sequence of searches and substitutions, including failing ones",
  "Which pattern objects are shared depends on the history of commands.",
  ["src/re.c", "src/sub.c", "src/glbl.c", "src/parse.c"], ["get_compiled_regex", "save_substitute", "init_substitute", "substitution_lhs", "regfree"])
p("P35", "Scripts stop with a failure status on error",
  "Every failing command, failing read of input or interrupt in the editor loop is answered with `?' and, unless the editor exits with a failure status, its status is remembered before the next command is read; with the option to exit on errors no command follows a failing one, and none ever follows a fatal error. At the end of input or on quitting the editor exits with the remembered status. The loop never overwrites the remembered status with success; a command does so only when it succeeds and neither script mode, exiting on errors, strict conformance nor traditional mode is set.",
  ["inputs", "histories"], "every way through the editor loop, every command under each option",
  "Tests compare output; few look at the exit status after an error in the middle of a script.",
  ["src/main.c", "src/exec.c"], ["main", "script_die", "quit", "E_cmd", "w_cmd"])
p("P36", "Appending writes never truncate; other writes replace",
  "The appending write command adds to the end of the target and leaves its previous contents in place, also when the file is already open; the plain write command replaces the previous contents completely.",
  ["histories", "inputs"], "every order of reads and writes of the same file, open or not",
  "Depends on whether the editor already holds the file open.", ["src/io.c", "src/exec.c"], ["write_file", "w_cmd", "ftruncate"])
p("P37", "An empty pattern means the documented remembered pattern",
  "An empty search pattern stands for the last search pattern, or the last substitution pattern if there was no search; an empty substitution pattern likewise; a repeated substitution stands for the last substitution pattern, with modifier r for the last search pattern. A new pattern is remembered only in its own role, an empty one replaces none that is remembered but counts as one of its kind where there was none, and an empty pattern with nothing remembered is an error.",
  ["histories"], "every history of searches and substitutions", "The pattern an empty one stands for depends on the history.", ["src/re.c"], ["get_compiled_regex", "search_re", "subst_re"])
p("P38", "Fixed tables are never accessed out of range",
  "Every access by number to one of the program's fixed-size tables - marks, registers, macro frames, editor states, command letters, cipher blocks, display tables - uses a number that lies inside the table, whatever the input and the history of commands.",
  ["inputs", "histories"], "every value every index can take", "An index outside its table needs a boundary value in just the right place, and usually reads or writes a neighbouring object unnoticed.",
  ["src/exec.c", "src/cmds.c", "src/parse.c", "src/io.c", "src/aux.c", "src/cbc.c", "src/page.c", "src/sub.c", "src/buf.c"], ["mark", "regbuf", "stack_frame", "ed_cmd", "state"])
p("P39", "No division by zero; the window size is always usable",
  "No division or remainder is ever taken by zero, nor one whose quotient cannot be represented. The number of rows and of columns of the window, wherever it is taken from - terminal, environment or a command - is never set below two, and neither is left at zero by the start-up.",
  ["inputs", "configurations"], "every count, modulus and window size", "The offending values are rare: a count of minus the current frequency, a window of one row, an unusable environment variable.",
  ["src/sub.c", "src/exec.c", "src/page.c", "src/buf.c", "src/signal.c"], ["ws_row", "ws_col", "s_mod", "one_time_init"])
p("P40", "The current line is always a line of the buffer",
  "At the end of every command, whether it succeeds or fails, the current line is one of the lines of the buffer or line 0 before the first one; in an empty buffer it is line 0. No deletion, filter, empty insertion or failure half way leaves it beyond the last line. (Scrolling has limits of its own.)",
  ["inputs", "histories"], "every command, range and buffer size", "A current line beyond the end shows only after particular ranges at the edges of the buffer, often only in the command after next.",
  ["src/exec.c", "src/cmds.c", "src/io.c", "src/sub.c", "src/page.c"], ["i_cmd", "c_cmd", "d_cmd", "delete_lines", "append_lines", "display_lines", "filter_lines"])
p("P41", "A command leaves the documented line current",
  "After a successful command the current line is the one the manual names: the last line entered, read, copied, moved, printed or substituted, the joined line, the line after deleted lines or the last line if there is none; an insertion or change without text leaves the addressed line, or the last line, current. Writing, marking, printing a line number, file names, help, the prompt, comments and shell escapes leave the current line as it was. (Scrolling, undo, macros and global commands are not meant.)",
  ["inputs", "histories"], "every command, range and buffer size", "Each command has several forms and edge cases - at the start, the end, on an empty buffer - and samples check the text, not the position.",
  ["src/exec.c", "src/cmds.c", "src/io.c", "src/sub.c", "src/page.c"], ["i_cmd", "c_cmd", "d_cmd", "move_lines", "copy_lines", "join_lines", "substitute_lines", "display_lines"])
p("P42", "Edits rearrange exactly the addressed lines",
  "After a successful deletion, move, copy, join, substitution, append or read, the buffer holds exactly the documented sequence of lines: lines that were not addressed keep their order and place, deleted lines are gone, moved lines stand in order after the destination, copies hold the text of the lines copied - also when these surround the destination -, joined lines are replaced by one line, and new lines follow the given line in the order they came in. Also after a failure, the list of lines is intact and the recorded number of lines is the number of lines in it.",
  ["inputs", "histories"], "every range, destination and buffer size", "Adjacent, overlapping and boundary positions each take their own path, and a list that is damaged in one direction only shows much later.",
  ["src/cmds.c", "src/buf.c", "src/sub.c", "src/io.c"], ["move_lines", "copy_lines", "delete_lines", "join_lines", "append_line_node", "LINK_NODES"])
# not claimed: see MANIFEST.json not_applicable
p("P43", "Addresses denote the documented lines",
  "An address - number, `.', `$', mark, search or offset, in any documented combination - denotes the line its description says, relative to the current line in force at that point; `,' and `%' stand for the whole buffer and `;' for the rest of it, a missing first address means line 1 or the current line, `;' sets the current line for what follows, and of more than two addresses the last two count. A mark denotes the line last marked with its letter. A pattern extends to the first delimiter that is neither escaped nor inside brackets, or to the end of the line. A search tries each line once in its direction, wraps around, ends with the current line and finds the first that matches; it starts from a line of the buffer. Addresses outside the buffer are refused (apart from the documented roll-over by one line), and the command is read from where the addresses end.",
  ["inputs"], "every address expression and buffer size", "Address expressions nest and combine without bound; tests use a few on one buffer.",
  ["src/parse.c", "src/re.c", "src/buf.c"], ["address_range", "next_address", "get_matching_node_address", "get_line_node_address"])
p("P44", "Commands act on the addressed lines or the documented default",
  "Every command that takes addresses acts on exactly the lines they designate, and without addresses on the default its description states: the current line for a, c, d, i, k, l, m, n, p, s and t, the current line and the next for j, all lines for g, G, v, V, w and W, the last line for r and =, the next line for a bare newline; e and E replace all lines. Lines moved or copied go after the destination given, by default after the current line; i and c put text in front of what follows the lines, a and r after the addressed line.",
  ["inputs"], "every command, number of addresses, current line and buffer size", "Defaults depend on the current line and buffer size in ways that a few examples do not separate.",
  ["src/exec.c"], ["exec_command", "is_valid_range", "j_cmd", "w_cmd", "r_cmd", "newline_cmd"])
p("N01", "Reading and writing back a file reproduces it byte for byte",
  "A file read into an empty buffer and written unchanged has the same bytes, apart from a documented appended newline.",
  ["inputs"], "all file contents", "All byte sequences cannot be sampled.",
  ["src/io.c", "src/buf.c"], ["read_stream", "write_stream", "get_stream_line", "put_buffer_line"])
p("N02", "Substitution produces the text its pattern and template denote",
  "For every line, the substitution command replaces exactly the selected matches with the expanded template.",
  ["inputs"], "all patterns, templates and lines", "The triple space is unbounded.",
  ["src/sub.c"], ["substitute_lines", "substitute_matching", "substitute_template"])
p("N03", "Regular expressions match as POSIX specifies",
  "Basic and extended regular expressions select the leftmost-longest match with POSIX semantics.",
  ["inputs"], "all patterns and texts", "The space is unbounded.", ["lib/regcomp.c", "lib/regexec.c"], ["regexec"])
p("N04", "A page of display output fits the window and shows the right rows",
  "Paging shows consecutive rows, wrapped at the window width, and never more rows than the window has.",
  ["inputs", "configurations"], "all texts and window sizes", "Layout arithmetic over all sizes.",
  ["src/page.c", "src/utf8.c"], ["display_lines", "display_frame_buffer"])
p("N05", "Decryption inverts encryption",
  "Reading with the same key what was written with a key yields the original text.",
  ["inputs"], "all texts and keys", "Value-level round trip.", ["src/cbc.c"], ["cbc_encode", "cbc_decode"])
p("N07", "Global commands terminate in time proportional to their work",
  "Every command finishes in bounded time.", ["inputs"], "all inputs", "Run-time cost is a runtime quantity.", ["src/glbl.c", "src/buf.c"], ["delete_global_nodes", "get_line_node"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
