#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files.split(),
                  "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": None}})
I="internal/"
p("C01","Disabled messages never reach an output",
  "A message is handed to an output only if its level is at or above the effective level of the logger it was issued on, for every logging method, with or without attached fields, and whether the outputs are the logger's own or inherited. TraceEnabled ... CriticalEnabled and LevelEnabled answer exactly that comparison for their level.",
  "inputs configurations","every logging method, message level, logger level, chain of ancestors and set of outputs",
  "The tests log through loggers whose level admits everything; no test has a message that must be suppressed, and combinations of level x inheritance x method are unbounded.",
  I+"logger.go",[("level comparison before dispatch",I+"logger.go defWriter.write, defLogger.LevelEnabled")],
  [("effective level","level that decides",I+"logger.go defLogger.Level")],["api.Output.Send"])
p("C02","Level and outputs come from the nearest ancestor that has them",
  "A logger's effective level is its own if set, otherwise that of its nearest ancestor whose level is set, otherwise Off. An enabled message goes to the logger's own outputs if it has any and otherwise to those of its nearest ancestor with outputs; no ancestor's level filters it a second time.",
  "configurations inputs","every ancestor chain, with level and outputs set or unset at each link",
  "TestLoggerParent has one parent and one child; chains of any length and every set/unset pattern are not sampled.",
  I+"logger.go",[("walk up the parents",I+"logger.go defLogger.Level, defWriter.write")],
  [("parent","link to the nearest ancestor",I+"logger.go defLogger.parent")],["Logger.Level","api.Output.Send"])
p("C03","Every enabled message reaches each effective output once, intact",
  "An enabled message is handed exactly once to every one of the effective outputs. The event carries the level of the method used, the format and arguments exactly as given, the name of the logger it was issued on, and the time of the call.",
  "inputs configurations","every method, format, argument list, logger name and number of outputs",
  "The tests use one output and a handful of formats and argument lists.",
  I+"logger.go api/logger_api.go",[("event construction and dispatch loop",I+"logger.go defWriter.write")],
  (),["api.Output.Send"])
p("C04","Attached fields and contexts reach every output and nothing else",
  "A value attached with WithFields, or carried by a context given to WithCtx, is available to every output that receives the message, also when the outputs are inherited. Attaching values changes neither the logger nor any other writer, and a caller's key can never be mistaken for one the library uses itself.",
  "inputs configurations histories","every set of fields, every context, every ancestor chain, any interleaving of writers",
  "TestLoggerFields attaches two fields on a logger with its own output; inheritance and key collisions are not exercised.",
  I+"logger.go "+I+"logger_callerinfo.go "+I+"format_parser.go",[("writer's context stored in the event",I+"logger.go WithFields, WithCtx, write"),("extension verb reads the context",I+"format_parser.go extendFormatFunc")],
  (),["api.Event.Ctx"])
p("C05","Caller information names the code that logged",
  "When a layout asks for file, line, package or function, the event's caller information is that of the statement that called the logging method, whichever method was used (including Printf), however many ancestors the outputs are inherited through, and shifted by exactly the skip set with SetCallerSkip. It is captured before the event leaves the logging goroutine.",
  "programs configurations","every route from a logging method to the capture, every layout, sync and async outputs",
  "TestFormat2-5 call Debug on a logger with its own sync output; no test uses Printf, *f methods, inheritance or async outputs with caller verbs.",
  I+"logger.go "+I+"logger_callerinfo.go "+I+"format_parser.go "+I+"format_text.go",[("skip count",I+"logger.go callerSkip"),("eager capture",I+"logger.go write"),("caller flag of a layout",I+"format_parser.go formatCallerFlags")],
  [("callerSkip","frames between capture and user code",I+"logger.go")],["runtime.Caller"])
p("C06","Level names are a faithful, ordered, two-way table",
  "Levels are ordered All<Trace<Debug<Info<Warn<Error<Critical<Off. Every one of them has a distinct long name and a distinct short name, the long name parses back to the same level in any letter case, and any other text parses to Uninitialized.",
  "inputs configurations","every level and every text",
  "TestLevel checks one level.",
  "api/logger_level.go",[("name tables","api/logger_level.go levelStrings, lvlStrings"),("parser","api/logger_level.go LevelFrom")],(),["api.LevelFrom","Level.String","Level.ShortStr"])
p("C07","Each documented verb renders the datum it documents",
  "Every verb of the layout language renders what the documentation says: pid, program, module, msg, level, lvl, line, longfile, shortfile, longpkg, shortpkg, longfunc, shortfunc and time come from the process or from the event being formatted; every other name is looked up in the values attached to that event.",
  "inputs","every event and every verb",
  "The tests exercise eight of the fourteen verbs, on one event each.",
  I+"format_parser.go README.md",[("verb table",I+"format_parser.go formatFuncs")],(),["Formatter.Format"])
p("C08","Formatting emits every part once and never reinterprets text",
  "A formatted record is the concatenation, in layout order, of every part of the layout, each rendered exactly once. Static layout text, message text and the operands of the non-f methods are never interpreted as formatting directives; a message is formatted with its own format string exactly when it has arguments and a format.",
  "inputs","every layout, message and argument list",
  "Layouts and messages are unbounded; the tests have no literal % in a static part or in a message without arguments.",
  I+"format_parser.go api/logger_api.go",[("rendering loop",I+"format_parser.go StringFormatter.Format"),("layout parser",I+"format_parser.go Parser"),("message",  "api/logger_api.go Event.Message")],(),["Formatter.Format","Event.Message"])
p("C09","Formatting has no side effects on shared state",
  "Formatting an event modifies neither the formatter nor any package-level state, and nothing of the event except its memoised caller information, so one formatter can serve any number of outputs and goroutines at the same time.",
  "schedules inputs","every interleaving of formatting on a shared formatter",
  "No test formats concurrently.",
  I+"format_parser.go "+I+"format_text.go "+I+"logger_callerinfo.go",[("buffer local to the call",I+"format_text.go textFormatter.Format")],(),["Formatter.Format"])
p("C10","An output's threshold filters exactly the events below it",
  "Every output with a threshold discards an event whose level is below the threshold and renders every other event it receives while open, in synchronous and asynchronous mode alike.",
  "inputs configurations","every event level and threshold, every output kind",
  "TestAsyncOutput has one event on each side of one threshold, for one output kind; sync and syslog thresholds are never tested.",
  I+"output_base.go "+I+"output_syslog.go",[("threshold comparison",I+"output_base.go Send and loop, "+I+"output_syslog.go Send")],(),["io.Writer.Write","syslog writer"])
p("C11","A synchronous record is one uninterrupted write",
  "A synchronous output passes each accepted record to its destination as a single write of the complete formatted record, and concurrent senders on the same output never write at the same time. Without a formatter, every output falls back to a default rendering instead of failing.",
  "schedules inputs","every interleaving of senders and every record",
  "All tests are single-goroutine and set a formatter.",
  I+"output_base.go "+I+"output_memory.go "+I+"output_syslog.go",[("single write under the output's lock",I+"output_base.go baseOutput.Send")],(),["io.Writer.Write"])
p("C12","Async outputs write every accepted event, in order, before Close returns",
  "Every event an asynchronous output accepts is rendered and written exactly once, in the order accepted; batching, flushing and queueing never drop, duplicate or reorder one. Close returns only after everything accepted before it has been passed to the destination.",
  "schedules histories","every interleaving of Send, Close and the background goroutine; every queue size and batch size",
  "TestAsyncOutput sends two events with queue and batch size 1 and sleeps; Close is never tested for draining.",
  I+"output_base.go",[("queue, batch buffer and drain on close",I+"output_base.go asyncOutput")],
  [("evtChan","queue of accepted events",I+"output_base.go"),("buf","rendered, not yet written records",I+"output_base.go")],["io.Writer.Write","Output.Close"])
p("C13","Send and Close on an async output never panic or hang",
  "Any number of concurrent Send and Close calls on an asynchronous output, in any order and repeated, neither panics nor blocks for ever: nothing is sent after the queue is shut, the queue is shut once, and a Send after Close is discarded.",
  "schedules","every interleaving of concurrent Send and Close",
  "No test calls Send and Close concurrently or Close twice.",
  I+"output_base.go",[("closed flag and lock around queueing and shutting",I+"output_base.go asyncOutput.Send, Close")],
  [("closed","set once the queue is shut",I+"output_base.go")],["Output.Send","Output.Close"])
p("C14","Syslog receives each level at its own severity",
  "An event the syslog output accepts is sent exactly once, with severity debug for Trace and Debug, info for Info, warning for Warn, err for Error and crit for Critical, as the formatted record.",
  "inputs","every event of the six message levels",
  "No stable test touches the syslog output.",
  I+"output_syslog.go",[("severity switch",I+"output_syslog.go Send")],(),["log/syslog.Writer"])
p("C15","Shared mutable state is only touched under its lock",
  "Logging, looking up loggers, changing levels and outputs, (re)loading configuration, sending to outputs and closing may all run concurrently: every field that can change after construction is read and written under the lock (or atomic) that belongs to its object.",
  "schedules","every interleaving of API calls from any number of goroutines",
  "All tests are single-goroutine and not run under the race detector.",
  I+"logger.go "+I+"logger_factory.go "+I+"logger_manager.go "+I+"output_base.go "+I+"output_rollingwriter.go",[("mutexes of logger, factory, manager, outputs and rolling writer",I+"*.go")],(),["data race"])
p("C16","Locks are always released and never deadlock",
  "Every lock the library takes is released on every way out of the operation that took it, no operation takes a lock it already holds, locks are taken in one global order, and no operation waits for a background goroutine while holding a lock that goroutine may need.",
  "schedules inputs fault_sequences","every path through every API entry point and every interleaving of them",
  "Error paths and concurrent calls are not exercised.",
  I+"logger_factory.go "+I+"logger_manager.go "+I+"output_base.go "+I+"output_rollingwriter.go "+I+"logger.go",[("lock/unlock pairs",I+"*.go")],(),["deadlock"])
p("C17","One logger per name, configured and linked whatever the lookup order",
  "Looking up the same name always gives the same logger, and the empty name is the root. Every logger that comes into being, also as an ancestor of the one asked for, takes its configuration if it has one, and is linked to its nearest ancestor, where both '/' and '.' separate name components and the root is the ancestor of all.",
  "histories inputs","every sequence of lookups, in any order, and every name",
  "TestLoggerParent looks up the configured parent before the child; the reverse order and '.' names are not tested.",
  I+"logger_factory.go log4g.go "+I+"log4g.go",[("logger map and ancestor creation",I+"logger_factory.go GetLogger, getParent, createLogger")],
  [("loggers","name to logger",I+"logger_factory.go factory.loggers")],["GetLogger"])
p("C18","A configuration that cannot be read or is invalid changes nothing",
  "Loading configuration reports an error, and leaves the current configuration, loggers and outputs untouched, when the file cannot be read, its type is not supported, its text does not parse or it fails validation; it returns success only after the new configuration is in force. No file name or content makes it panic.",
  "inputs fault_sequences","every file name, extension and content",
  "TestManager loads one valid YAML text and ignores the returned error.",
  I+"logger_manager.go",[("load, parse, validate, then replace",I+"logger_manager.go LoadConfigFile, LoadConfig, setConfig")],
  [("config","configuration in force",I+"logger_manager.go defManager.config")],["Manager.LoadConfigFile","Manager.LoadConfig","Manager.SetConfig"])
p("C19","Validation rejects duplicate names and dangling references",
  "A configuration is accepted only if no two formats, no two outputs and no two loggers share a name, every output refers to a format that is defined, and every output name of every logger is defined.",
  "configurations","every configuration",
  "No test presents an invalid configuration.",
  I+"logger_manager.go",[("validateConfig",I+"logger_manager.go")],(),["Manager.SetConfig"])
p("C20","Reconfiguration takes effect on existing loggers and definitions",
  "After a new configuration is set, every logger already handed out that the configuration names uses the new level and outputs, and a format or output whose definition changed is built anew from the new definition instead of being reused.",
  "histories configurations","every sequence of configurations and lookups",
  "The tests set the configuration once, before any logger exists.",
  I+"logger_manager.go "+I+"logger_factory.go",[("notify",I+"logger_factory.go notify"),("cache invalidation",I+"logger_manager.go setConfig")],
  [("formats, outputs","instances by name",I+"logger_manager.go defManager")],["Logger.Level","api.Output.Send"])
p("C21","Named outputs are built once, shared, complete, and all closed",
  "Within one configuration an output or format name denotes a single instance shared by all loggers that name it; a logger gets exactly the outputs it lists, in that order, each with its configured formatter attached before use, or an error. Closing the manager closes every output it ever created that is not yet closed, whatever happens to the others.",
  "histories configurations","every configuration and every order of lookups and closes",
  "TestManager only counts outputs, and is not part of the stable set.",
  I+"logger_manager.go",[("instance caches",I+"logger_manager.go GetLoggerOutputs"),("Close",I+"logger_manager.go Close")],(),["Manager.GetLoggerOutputs","Manager.Close"])
p("C22","Each documented option controls the thing it names",
  "For every built-in output, each documented option (threshold, async, queue_size, batch_num, file, file_perm, back_perm, dir_perm, size, pattern, backups, archive, name_mode, prefix) determines the behaviour it names and no other: permissions apply to the log file, the rolled backup and created directories respectively, and archive and name_mode select the documented variants.",
  "configurations","every configuration of every built-in output",
  "TestManager builds outputs from a configuration but checks only how many there are.",
  I+"output_console.go "+I+"output_rolling.go "+I+"output_syslog.go "+I+"output_rollingwriter.go "+I+"output_base.go",[("creators",I+"output_*.go New...Output"),("use of permissions",I+"output_rollingwriter.go")],(),["os.OpenFile","os.Chmod","os.MkdirAll"])
p("C23","Numeric options mean what they say and stay within bounds",
  "Whatever text is configured, the queue size is within 1..100000, the batch size within 1..500, the number of backups within 1..20, permissions within 1..0777, and the size limit is positive. A valid number within the bounds is used as given, and a size with suffix K, M or G is that number times 1024, 1024^2 or 1024^3.",
  "inputs","every option text",
  "No test calls the option parsers.",
  I+"output_base.go "+I+"output_rolling.go",[("option parsers",I+"output_base.go GetQueueSize, GetBatchNum; "+I+"output_rolling.go getMaxSize, getMaxRolls, getFileMode")],(),["option parsers"])
p("C24","A record goes whole to one file, rolling before it and never truncating",
  "The rolling writer decides before each write whether to roll, rolls exactly when the current size has reached the limit (or the period of the pattern has changed), and then passes the complete record to a single append-mode write, reporting that write's result. The size it compares is the size of the current file: what was there when it was opened plus everything written since.",
  "histories inputs","every sequence of writes, restarts and record sizes",
  "TestRollingFileWriter writes at most two equal records to empty files; existing non-empty files and time rolling are not tested.",
  I+"output_rollingwriter.go",[("Write",I+"output_rollingwriter.go Write, needsToRoll, createFileAndFolderIfNeeded")],
  [("currentFileSize","bytes in the current file",I+"output_rollingwriter.go")],["os.OpenFile","(*os.File).Write"])
p("C25","A failed roll neither loses the record nor disables the writer",
  "Whatever step of rolling fails, the record being written still goes to the current log file, and later writes keep working: the writer never uses a file handle that is closed or was never opened.",
  "fault_sequences histories","every sequence of failures of close, rename, directory listing, open, archive and delete",
  "No test injects a file-system failure.",
  I+"output_rollingwriter.go",[("handle state",I+"output_rollingwriter.go Write, roll, Close")],
  [("currentFile","open handle or nil",I+"output_rollingwriter.go")],["(*os.File).Write"])
p("C26","Rolling touches only the log's own files",
  "The rolling writer deletes, renames, archives or changes permissions only of the current log file, of regular files in its directory whose name is the log's name plus the delimiter and a valid roll number or time, and of temporary files it created itself.",
  "inputs configurations","every directory content, file name and pattern",
  "TestRollingFileWriter has two foreign file names.",
  I+"output_rollingwriter.go "+I+"output_fsutil.go",[("history filter",I+"output_rollingwriter.go getSortedLogHistory, isFileRollNameValid, hasRollName")],(),["os.Remove","os.Rename","os.Chmod"])
p("C27","Retention keeps exactly the newest backups",
  "After a roll, if there are more backups than configured, precisely the surplus is removed, oldest first; the backup just made and the current file are never removed. Numbered backups are compared as numbers and dated ones as times, and failing to remove one does not stop the others.",
  "histories configurations","every history of backups and every limit",
  "The tests have at most one backup to remove and never more than one pre-existing number.",
  I+"output_rollingwriter.go",[("deleteOldRolls",I+"output_rollingwriter.go"),("ordering",I+"output_rollingwriter.go Less")],(),["os.Remove"])
p("C28","Backup names round-trip and never collide",
  "In each name mode, the name given to a backup is recognised as a backup of this log and yields back the same roll name. A size roll never reuses the name of an existing backup, its number being one above the highest existing one; a time roll never overwrites an existing backup.",
  "histories inputs configurations","every history of backups, file name, pattern and clock",
  "The tests have single backups with numbers 1 and 9.",
  I+"output_rollingwriter.go",[("naming",I+"output_rollingwriter.go createFullFileName, hasRollName, getFileRollName, getNewHistoryRollFileName")],(),["os.Rename"])
p("C29","A backup is deleted only once its archive is complete and in place",
  "With archiving configured, a surplus backup is removed only after an archive holding all of its content has been written, closed without error and moved into place; an incomplete archive is never put in place and never replaces an earlier one, and its temporary file is removed.",
  "fault_sequences crash_points","every failure at every step of archiving",
  "The tests archive one file successfully.",
  I+"output_rollingwriter.go",[("buffer, close, rename",I+"output_rollingwriter.go archiveExplodedLogs, archiveUnexplodedLogs, deleteOldRolls")],(),["os.Rename","os.Remove"])
p("C30","Copying archives keeps every entry and reports every failure",
  "Copying one archive to another writes every entry of the source, under its own name and with exactly its own content, until the source is exhausted; no error from reading, buffering or writing is dropped, and success is reported only if everything was copied. Adding entries to and closing an archive likewise report every underlying error.",
  "inputs fault_sequences","every archive (any number and size of entries) and every I/O failure",
  "TestCopy has at most two entries, the second longer than the first, and no failing reader or writer.",
  I+"archive/archive.go "+I+"archive/tar/tar.go "+I+"archive/zip/zip.go "+I+"archive/gzip/gzip.go",[("copy loops",I+"archive/archive.go copyBuffer, copyTar, copyZip"),("writers",I+"archive/*/")],(),["archive.Copy"])
p("C31","Every file the library opens is closed on every path",
  "Each file, directory and temporary file the library opens is closed on every way out of the operation that opened it, unless it becomes the rolling writer's current file; that one is closed when the file is rolled and when its output is closed.",
  "fault_sequences histories","every path, failing or not, through the operations that open files",
  "Descriptor leaks are invisible to the tests, which inject no failures.",
  I+"output_rollingwriter.go "+I+"output_rolling.go "+I+"output_fsutil.go "+I+"archive/archive.go",[("deferred closes",I+"output_rollingwriter.go"),("Close of rolling outputs",I+"output_rolling.go")],(),["(*os.File).Close"])
p("C32","Termination signals flush the outputs and are then given back",
  "On the first interrupt or termination signal the library closes all outputs, and afterwards no longer intercepts these signals, so that they have the effect they would have without the library.",
  "schedules histories","every sequence of signals and application handlers",
  "No test sends a signal.",
  I+"log4g.go",[("signal goroutine",I+"log4g.go init")],(),["signal.Notify","signal.Stop"])
p("C33","Only console outputs write to standard output",
  "Nothing but a console output writes to the process's standard output; the library's own diagnostics go to standard error, and only to report a failure or a misconfiguration.",
  "inputs configurations","every operation of the library",
  "The tests do not look at the standard streams.",
  I+"output_console.go "+I+"output_fsutil.go "+I+"output_rollingwriter.go",[("reportInternalError",I+"output_fsutil.go"),("console output",I+"output_console.go")],(),["os.Stdout","os.Stderr"])
p("C34","All documented formatter and output types are built in",
  "Without any registration by the user, the formatter type text and the output types console, size_rolling_file, time_rolling_file and syslog are available and build what they name, and a usable default configuration is in force; the public entry points give access to the one process-wide logger registry and manager.",
  "configurations","every documented type name",
  "The tests register types themselves on their own managers.",
  I+"log4g.go log4g.go README.md",[("registration in init",I+"log4g.go")],(),["GetManager","GetLogger"])
# properties this technique cannot decide
p("C35","Archived content is byte-identical to the rolled file",
  "Decompressing the archive of a backup yields exactly the bytes that were logged to it.",
  "inputs","every log content",
  "Round-trip equality of compression formats quantifies over all contents.",
  I+"archive/archive.go "+I+"output_rollingwriter.go",[("compressors",I+"archive/")],(),["archive files"])
p("C36","A queued message becomes visible within the flush interval",
  "A message accepted by an asynchronous output is written at most five seconds later even if the batch is not full.",
  "schedules","every schedule and clock",
  "Needs a bound on elapsed time; TestAsyncOutput samples one run.",
  I+"output_base.go",[("ticker",I+"output_base.go loop")],(),["io.Writer.Write"])
p("C37","Time rolling separates records exactly at period boundaries",
  "With a time-rolling output, each file contains exactly the records logged in the period in its name, also across restarts and clock changes.",
  "histories schedules","every clock behaviour and restart history",
  "Depends on the wall clock and on what earlier processes did.",
  I+"output_rollingwriter.go",[("time pattern comparison",I+"output_rollingwriter.go rollingFileWriterTime")],(),["log files"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
