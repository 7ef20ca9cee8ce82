"""
Writes properties.jsonl and MANIFEST.json: what each property says, and which
check decides it.  Run it after changing anything here.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"

PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mechanism, how, trusts):
    PROPERTIES.append(dict(
        record=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over.split(), text=text),
            why_tests_cant=why,
            anchors=dict(files=files, mechanism=[
                dict(name=n, where=w) for n, w in mechanism])),
        how=how, trusts=trusts))


EXTIME = ["epsilon/extime.py"]
JUICE = ["epsilon/juice.py", "epsilon/liner.py"]

prop("C01", "Time: every format is read back as the same moment",
     "A Time converted to a datetime, POSIX timestamp, struct_time, ISO 8601, RFC 2822 or RFC 1123 text and back addresses the same moment (to the precision of the format), whatever timezone is given for the conversion. A datetime or text produced for a timezone shows that timezone's wall clock and offset, including negative offsets which aren't whole hours. ISO 8601 text of a period of any resolution (from a year down to a microsecond) starts at the same moment when read back, with or without delimiters, and an explicit timezone in the text wins over the one given to the reader. What is read from a timestamp or datetime is a moment (at most a microsecond long), from a struct_time or RFC 2822 text a second. FixedOffset behaves as the standard library's timezone of that offset, and is named by its sign, hours and minutes. Times and the datetimes made of them can be copied and pickled, a Time's repr makes an equal one, and the readers make instances of the class they are called on.",
     "inputs", "all moments in years 2 to 9998, all resolutions, all whole-minute offsets and zones with daylight saving time, with and without delimiters, weekday and timezone",
     "test_extime samples a few dates in a few zones; signs of minutes, leap years, year and week boundaries, and combinations of resolution and zone are not reached",
     EXTIME, [("Time.fromDatetime/asDatetime/asNaiveDatetime", "epsilon/extime.py"),
              ("Time.fromPOSIXTimestamp, fromStructTime and their inverses", "epsilon/extime.py"),
              ("Time.asISO8601TimeAndDate", "epsilon/extime.py"),
              ("FixedOffset", "epsilon/extime.py")],
     "round trips through every pair of constructor and formatter, with wall clock and offset computed by integer arithmetic on the offset",
     "the datetime module and pytz's offsets")

prop("C02", "ISO 8601 text denotes the period the standard says, or is rejected",
     "Reading ISO 8601 text (a year; year and month; calendar, week or ordinal dates with or without delimiters; hours, minutes, seconds and fractions; Z or an offset, whose sign applies to its minutes, too) gives the period with exactly the start and resolution which the text denotes, in the given timezone unless the text names one. A date which doesn't exist (month 13, February 30, day 366 of an ordinary year, week 53 of a year of 52 weeks), a moment outside of the years 1 to 9999 and text which isn't in one of the forms (digits of other scripts, or a line break at the end, are in none) is rejected with ValueError. A year or month is as long as it is in the calendar. A fraction of a second has the resolution its digits give it, down to microseconds.",
     "inputs", "all texts composed from the grammar, valid and nearly valid, and arbitrary single-character mutations of them",
     "the tests read a list of about thirty texts; the grammar has many more combinations, and hardly any invalid text is tried",
     EXTIME, [("Time.fromISO8601TimeAndDate", "epsilon/extime.py"),
              ("Time.iso8601pattern", "epsilon/extime.py")],
     "texts assembled from the grammar and mutated, compared with an independent hand-written reader",
     "the independent reader; leap seconds, hour 24 and offsets beyond a day are unspecified")

prop("C03", "RFC 2822 and 1123 dates are read and written correctly",
     "A well-formed RFC 2822 date (weekday and seconds optional, numeric or named zone) is read as the moment it denotes with a resolution of a second; units which are out of range are replaced by the closest valid value, a day past the end of its month by the month's last day. Any other text is either a date which Python's email package understands in the same way, or rejected with ValueError, as is one whose moment is outside of the calendar. A formatted date shows the right wall clock, offset and weekday for the timezone (-0000 for none; dates of a day or more are not shifted), and the RFC 1123 form is the standard one in GMT, of the second in which the period starts.",
     "inputs", "all date headers of the grammar with values in and out of range, mutated headers, and all periods, offsets and zones for formatting",
     "tests try a handful of headers and a few out-of-range examples",
     EXTIME, [("Time.fromRFC2822", "epsilon/extime.py"), ("sanitizeStructTime", "epsilon/extime.py"),
              ("Time.asRFC2822, asRFC1123", "epsilon/extime.py")],
     "generated headers compared with clamping arithmetic and with the standard library's email package",
     "email.utils as a second reader and writer")

prop("C04", "Times are ordered, compared and do arithmetic as their starts",
     "For any two Times, all six comparisons, sorting, minimum and maximum agree with the order of the moments at which they start, whatever their resolutions; their difference is the interval between the starts. Adding or subtracting an interval moves the start by exactly that interval and gives a moment rather than a period. A Time is unequal to, and can't be ordered with, anything else (TypeError), and no operation changes its operands.",
     "inputs", "all lists of periods of all resolutions, equal, adjacent and distant; all intervals of either sign",
     "tests compare a few pairs",
     EXTIME, [("Time rich comparisons, __add__, __sub__", "epsilon/extime.py")],
     "pairwise comparison of generated lists with naive datetimes as the model", "the datetime module")

prop("C05", "Times: containment, bounds and days of the period addressed",
     "One Time is within another exactly if the period it addresses is entirely within the other's period, even where that reaches past the end of the calendar. The bounds of a Time are the start and the end of its period; for periods of a day or more with a timezone given, they cover the period both in UTC and in that timezone. The day of a Time is the whole UTC day in which it starts, only periods shorter than a day depend on timezones, and a period of a day or more shows the same date in every timezone, with the offset which clocks there have then.",
     "inputs", "all pairs of periods of all resolutions which overlap, touch or are apart; all offsets",
     "tests try a handful of periods in one or two zones",
     EXTIME, [("Time.__contains__, getBounds, oneDay, isAllDay, isTimezoneDependent", "epsilon/extime.py")],
     "interval arithmetic on generated pairs of periods", "the datetime module")

prop("C06", "Time.fromHumanly understands its vocabulary at any moment and zone",
     "Names of weekdays (optionally after 'this' or 'next') mean the first such day after today; yesterday, today, tomorrow and now mean what they say; H:MM with or without am/pm, noon and midnight mean the next such time in the given timezone (today if it hasn't passed, otherwise tomorrow), with 12 am being midnight and 12 pm noon; noon and midnight haven't passed during their own hour. Days are those of UTC, whatever the timezone. Without a moment given, all this is relative to the actual present. Case and surrounding space don't matter. Impossible times of day and anything else outside of the vocabulary (letters and digits of other scripts, even if they look or fold alike) are rejected with ValueError.",
     "inputs", "all phrases of the vocabulary, at all moments and in all whole-minute offsets and zones with daylight saving time; phrases outside of it",
     "tests fix two or three moments and zones; noon, midnight, ends of months and offsets other than those are not tried",
     EXTIME, [("Time.fromHumanly and its patterns", "epsilon/extime.py")],
     "generated phrases at generated moments compared with a small model", "the model's reading of the vocabulary; days are those of UTC")

prop("C07", "Time.asHumanly shows the right day and clock in any zone",
     "Shown from any moment (the present if none is given) and in any timezone, a Time reads as its 12-hour clock time in that timezone if it is on the same local day as that moment, and otherwise as day and month, with the year exactly if that differs, followed by the clock time. Periods of one day read as 'all day', or as the date without a clock, and are not shifted by timezones. Seconds are shown exactly if asked for, and any other precision is refused with InvalidPrecision.",
     "inputs", "all periods, timezones, and moments from which they are shown, near and far",
     "tests show a few Times in one or two zones",
     EXTIME, [("Time.asHumanly", "epsilon/extime.py")],
     "compared with a model of the display", "English month names; the default locale")

prop("C08", "Juice boxes survive the wire, however it is chopped up",
     "Any sequence of boxes (lower-case keys of letters, digits and underscores; any text as values, line breaks and non-ASCII included; any body, an empty one included) is received as exactly the same boxes in the same order, wherever the stream of bytes is cut into chunks. Each box is delivered when its last byte arrives and not before, and any number of boxes may arrive in one chunk. Sizes (beyond a megabyte) and numbers (beyond a thousand at once) don't matter. Sending or serializing a box doesn't change it.",
     "inputs schedules", "all sequences of boxes and all ways of cutting their serialization",
     "tests send a few boxes, mostly whole and mostly ASCII",
     JUICE, [("Box.serialize, normalizeKey, parseString, JuiceParserBase", "epsilon/juice.py"),
             ("LineReceiver.dataReceived", "epsilon/liner.py")],
     "round trip through serialization and chunked delivery, byte by byte as well", "nothing beyond Twisted")

prop("C09", "Typed juice arguments and responses arrive as they were sent",
     "For every argument type (Integer, String, Unicode, EncodedString, Path, Float, Boolean, Base64Binary, Time, lists of them and lists of boxes or of lists of boxes, one named 'body', optional ones present or left out), the responder sees the value and type which the caller passed, and the caller the response which the responder returned, whatever the chunks; missing optional ones are None. A command without one of its required arguments is refused before anything is sent, and the error names it; so is a list whose items contain its delimiter or form it with one next to them. Extra arguments describe the actual connection, whatever the peer sends, to the responder and in the caller's response.",
     "inputs schedules", "all commands with up to six arguments of nested types, all values, all ways of cutting the stream",
     "tests use a few fixed commands with one value each",
     JUICE, [("Argument and its subclasses", "epsilon/juice.py"), ("Command.__init__, do, makeResponse; objectsToStrings, stringsToObjects", "epsilon/juice.py")],
     "generated commands echoed by a responder over a chopped-up connection", "known findings: empty ListOf; EncodedString in encodings which aren't valid UTF-8")

prop("C10", "Juice requests get exactly one result, their own, in every history",
     "Both peers may have any number of requests outstanding, answered in any order: requests are received once each in the order sent, and each caller gets exactly one result, the one for its own request (or the declared error raised for it). When the connection is lost, every request without a result fails once with the reason of the loss, later requests fail with ConnectionLost, and late answers change nothing. A request which can't be sent is refused at once, and that's all. Requests without an answer wanted get none; boxes may be used again, for other requests or answers. The factories build a new protocol for every connection, which knows its side and its factory; debugging messages change nothing.",
     "schedules histories fault_sequences", "all interleavings of sends by both sides, partial deliveries, answers in any order, requests made within callbacks and responders, and disconnection at any point",
     "tests run one or two requests to completion in order",
     JUICE, [("Juice.sendBoxCommand, _outstandingRequests, failAllOutgoing", "epsilon/juice.py"), ("JuiceParserBase.juiceBoxReceived", "epsilon/juice.py")],
     "stateful generation against a model of both peers", "the in-memory transport")

prop("C11", "Juice errors reach the caller as declared and close what they should",
     "An error which the command declares or inherits (or a subclass of it) fails the caller's request with the declared class and the same message (the text of the error; the declared codes may be any text), and the connection goes on; errors declared as fatal do so, too, but close the connection once the answer is sent. Undeclared errors and unknown commands fail the request with the error for unhandled remote errors, are logged by the responder and close the connection; nothing which arrives after that is acted upon. A failure which the caller leaves unhandled, or the failure of a command without answer, is logged and closes the connection.",
     "inputs schedules histories", "all pipelines of requests with all kinds of outcomes, synchronous or later, in any order and any chunks",
     "tests raise one error at a time",
     JUICE, [("Juice.dispatchCommand and error boxes", "epsilon/juice.py"), ("Command.errors, fatalErrors; QuitBox", "epsilon/juice.py")],
     "generated pipelines judged by a model of which requests are acted upon, what their callers see, and when the connection closes", "the in-memory transport")

prop("C12", "A juice peer can invoke only the methods meant for it",
     "A request invokes exactly the method whose command name is the requested name (ignoring case and surrounding space, and with dashes for underscores), if it is a declared command whose namespaces include the one dispatched in, or a box-level method in the default namespace. Nothing else on the object can be invoked by any name; such requests fail with UnhandledCommand at the responder. If the object has a wrapper, the method runs inside of it, and so is the result of each of the object's own requests, an answer or an error, handled. A command, also one which switches protocols, is requested in the namespace its caller names.",
     "inputs programs", "all classes with command, box-level and other methods in all combinations of namespaces, and all requested names, misspelt and hostile ones included",
     "tests request a few names which exist",
     ["epsilon/juice.py"], [("DispatchMixin.dispatchCommand, lookupFunction", "epsilon/juice.py")],
     "generated classes and requested names; the model says which method may run", "nothing beyond Twisted")

prop("C13", "Switching from juice to another protocol loses and invents no byte",
     "After a protocol switch is agreed, the two inner protocols are connected once each and receive exactly the bytes the other wrote, in order, however the stream is chopped up and even if they arrive in the chunk with the last box. Requests answered before the switch are unaffected; answers which come too late (after asking for the switch, or switching, or the end of the connection) are not sent and change nothing; from asking for the switch on, the asker accepts no command, and acts on none which wants an answer (the others are still acted upon). An inner protocol which fails on connecting closes the connection. The inner protocols and the factory are told of the end of the connection exactly once if they were connected; if the switch fails or the connection is lost first, the factory is told that it failed (never both), the asker's request fails, and (when refused) the connection closes.",
     "schedules histories fault_sequences", "all interleavings of traffic before the switch, immediate, late, refused or missing answers, deliveries of any size, writes by the inner protocols and disconnection at any point",
     "tests switch once, with whole deliveries",
     JUICE, [("ProtocolSwitchCommand, _SwitchBox, Juice._switchTo, Juice._lock", "epsilon/juice.py")],
     "stateful generation over a chopped-up connection", "the in-memory transport")

prop("C14", "Nothing is sent in the clear, or out of order, around the start of TLS",
     "Once a peer has prepared for TLS, boxes it sends (commands, answers and errors) wait until TLS has started, and are then sent in order and completely; nothing is written in between. They are sent as they were at that time, and what can't be sent is refused at that time. Preparing again changes nothing; if TLS can't be started, what waits isn't sent. The response which agrees to TLS is the last thing sent in the clear, TLS is started with the certificate and authorities given, once, whoever wants to know is told after that, and a second start is refused with RuntimeError.",
     "histories", "all histories of sends, preparation, starts, and responses which start TLS",
     "tests start TLS in one or two fixed scripts",
     ["epsilon/juice.py"], [("Juice.prepareTLS, startTLS, sendPacket", "epsilon/juice.py"), ("TLSBox.sendTo", "epsilon/juice.py")],
     "histories against a recording transport; the order of writes and of the start of TLS is compared with a model", "the recording transport; real TLS negotiation is Twisted's")

prop("C15", "The line receiver delivers lines and raw data, however chopped up",
     "A stream of delimited lines and counted raw blocks is delivered as exactly those lines and blocks in order, wherever it is cut into chunks, for any delimiter, any length of the lines, and for any number of changes of mode within one chunk, whether or not there is a transport. What is given back with setLineMode is received as lines at once, also when raw mode is left from outside of rawDataReceived. After the receiver asks for the connection to be closed, from a line or from raw data, nothing more is delivered to it, neither of the data at hand nor of data which still arrives.",
     "inputs schedules", "all streams of lines and raw blocks, all delimiters, all ways of cutting",
     "liner has no tests of its own",
     ["epsilon/liner.py"], [("LineReceiver.dataReceived, setLineMode, setRawMode", "epsilon/liner.py")],
     "generated streams cut at generated points", "the in-memory transport")

prop("C16", "AMP routes multiplex independent conversations over one connection",
     "Over two real AMP connections with a router each, every box sent through a route is received unchanged, once and in order by the receiver bound to the route's remote name, and by no other, however the stream is chopped up and whatever the names (the default one, empty and non-ASCII ones, assigned ones), also one which was sent through another route before. Commands called through a route are answered through it, with their own results. When the connection is lost, every bound receiver is told once, with the reason.",
     "inputs schedules histories", "all sets of route names on both sides, interleavings of sends through them and partial deliveries",
     "tests use a mock sender, and one or two routes",
     ["epsilon/amprouter.py"], [("Router.ampBoxReceived, Route.sendBox", "epsilon/amprouter.py")],
     "two routers over real AMP protocols with generated traffic", "Twisted's AMP")

prop("C17", "AMP routes can be bound, connected and unbound at any time",
     "In every history (also from within the receivers' own methods): a bound receiver is started exactly once, when its route is connected and the router has started, whichever comes last; it gets exactly the boxes addressed to its name while bound; and it is told of the end once if bound then. Sending through a route which isn't connected fails with RouteNotConnected and sends nothing; boxes for unknown routes are refused. Assigned names are never in use, nor assigned twice.",
     "histories", "all histories of binding, connecting (once per route), unbinding, starting and stopping, sending, receiving, with reactions inside callbacks",
     "tests go through the usual order of events only",
     ["epsilon/amprouter.py"], [("Router.bindRoute, startReceivingBoxes, stopReceivingBoxes, createRouteIdentifier", "epsilon/amprouter.py"), ("Route.connectTo, unbind", "epsilon/amprouter.py")],
     "stateful model of the router", "the recording sender")

prop("C18", "Only a correct response or an unused pad logs in over AMP",
     "A challenge response is accepted exactly if it is the SHA-1 digest of the connection's current challenge, the given nonce and the user's password, separated by spaces; replayed, stale, truncated and foreign ones, and ones without a challenge, never create an avatar. Challenges and the client's nonces never repeat. A one-time pad logs in the user it was issued to once and never again.",
     "inputs histories", "all histories of challenges, right and wrong responses, replays and pads on several connections, all passwords (empty, with spaces, binary)",
     "tests try one right and one wrong password",
     ["epsilon/ampauth.py"], [("_calcResponse, PasswordChallengeResponse.determineFrom", "epsilon/ampauth.py"), ("CredReceiver.passwordLogin, passwordChallengeResponse, otpLogin", "epsilon/ampauth.py"), ("OneTimePadChecker.requestAvatarId", "epsilon/ampauth.py")],
     "adversarial histories against a real portal with an independent digest", "Twisted's cred and AMP")

prop("C19", "Avatars logged in over AMP are started and logged out exactly once",
     "However logins, their (possibly late) completion, and loss of connections interleave, a connection has at most one avatar, which is started once, gets the connection's boxes from then on, is told when the connection is lost, and is logged out exactly once after that. An avatar whose login completes after the connection was lost, or after another login succeeded on it, is never started and is logged out at once; its login fails. Every login attempt gets exactly one result.",
     "schedules histories fault_sequences", "all interleavings of several logins on several connections, their completion in any order with success or failure, boxes, and disconnection at any point",
     "tests log in once, synchronously",
     ["epsilon/ampauth.py"], [("CredReceiver._login, connectionLost / logout", "epsilon/ampauth.py")],
     "stateful generation with a portal whose results the history controls", "Twisted's AMP")

prop("C20", "Records take arguments exactly as a Python function would",
     "A record defined with any names and defaults accepts exactly the calls which a Python function with those parameters and defaults accepts, with every attribute bound to the same object, and refuses the others with TypeError; this holds for subclasses, too (which may make properties of attributes, or have other base classes). Definitions which are no valid signature (a required name after one with a default, a default for an unknown name, no attributes at all, a name given twice, names in more than one argument) are refused with TypeError. Instances and definitions don't share or change anything of each other's or of the caller's.",
     "inputs programs", "all signatures and all combinations of positional and keyword arguments",
     "tests define a few records with a few calls",
     ["epsilon/structlike.py"], [("record, StructBehavior.__init__", "epsilon/structlike.py")],
     "differential test against real functions", "the Python interpreter as the model")

prop("C21", "repr() of records terminates and shows the structure, cycles included",
     "The repr of a record is its class's name with each attribute's name and repr in order (None for one which was deleted), and 'Name(...)' exactly where the record is already being shown further out, so that cycles end; shared but not cyclic parts are shown in full. An exception from a part leaves nothing behind that changes a later repr, and other threads showing the same records at the same time don't change the result.",
     "inputs schedules", "all graphs of records and containers with shared parts and cycles, failures of parts, and other threads in the middle of a repr",
     "tests show one self-referring record",
     ["epsilon/structlike.py"], [("StructBehavior.__repr__ / _contextualize", "epsilon/structlike.py")],
     "generated graphs compared with an independent printer", "repr of built-in containers")

prop("C22", "Caseless strings behave as their lower-cased selves",
     "A caseless string compares, orders, hashes, contains, counts, finds, starts and ends with other strings (plain or caseless, with any bounds, and tuples of prefixes) exactly as its lower-cased self does with theirs, and with what isn't a string as a string does; so it works as a key, in sets and in sorting. Its length, items, iteration and text are those of the original. This holds for text and for bytes.",
     "inputs", "all pairs of strings, Unicode ones with unusual case mappings included, and all bounds",
     "tests compare ASCII strings",
     ["epsilon/caseless.py"], [("Caseless", "epsilon/caseless.py")],
     "differential test against lower-cased built-in strings", "str.lower")

prop("C23", "attribute and requiredAttribute do what their class bodies say",
     "Getting, setting and deleting an attribute of an instance runs exactly the corresponding function of the attribute's definition, on that instance; operations it doesn't define fail with AttributeError and change nothing. A required attribute raises AttributeError naming it until it is set on the instance, or overridden by a subclass, and then has that value.",
     "programs histories", "all definitions, class hierarchies, instances and histories of operations",
     "tests use one class with two attributes",
     ["epsilon/descriptor.py"], [("attribute, requiredAttribute", "epsilon/descriptor.py")],
     "histories against a model of instance state", "nothing beyond Python")

prop("C24", "Exposers give access to exposed methods and nothing else",
     "A method obtained from an exposer by a key is one which was exposed under that key by that exposer and is what the class of the object has under its name: methods overridden in a subclass without being exposed again are not accessible, and others raise MethodNotExposed. A method exposed under a key in the first class of the resolution order which has one is found, under inheritance of any shape, and bound to the object, whatever the object itself has under that name. Exposing something which has no name without giving one fails with NameRequired.",
     "programs", "all class hierarchies with functions, static and class methods, exposures by two exposers under own or explicit keys, and overriding",
     "tests use one subclass at a time",
     ["epsilon/expose.py"], [("Exposer.expose, get", "epsilon/expose.py")],
     "generated hierarchies judged with the interpreter's own resolution order", "cases where several methods compete for a key in one class are not judged")

prop("C25", "Modal classes dispatch to the current mode of each instance",
     "Methods of modes are found on an instance exactly if its current mode defines or inherits them, run that mode's implementation on that instance, and otherwise raise AttributeError. A transition runs the old mode's exit before and the new mode's entry after the change, on that instance only; if the exit fails, it stays in its mode, and if the entry fails, it is in the new one. Modes without an exit or entry of their own have ones that do nothing. The modes of a subclass add to and override those of its bases, method by method. Assigning to the mode attribute changes the mode without running either. The initial mode and the mode attribute may be named by the class or subclass, and everything else in the class body works as in any class.",
     "programs histories", "all modal classes and subclasses, and histories of calls and transitions on several instances",
     "tests use one class with two modes",
     ["epsilon/modal.py"], [("ModalType, ModalMethod, Modal.transitionTo", "epsilon/modal.py")],
     "generated classes and histories against a model", "every mode has entry and exit methods")

prop("C26", "Remembered attributes are created once for each instance",
     "The first access to a remembered attribute (whose creation functions have distinct names) of an instance runs its creation function once and returns its result, whatever it is (None and false values included); later accesses return the identical object without running it. Creation which fails is tried again at the next access, creations may use other remembered attributes, and instances share nothing, however many there are and were.",
     "histories", "all classes with several remembered attributes and histories of accesses on several instances",
     "tests access one attribute twice",
     ["epsilon/remember.py"], [("remembered.__get__", "epsilon/remember.py")],
     "histories against a model", "nothing beyond Python")

prop("C27", "A sliced view is a live window on its sequence",
     "At any time, also after the sequence has changed, a view has exactly the length, items (negative indices included, IndexError beyond, TypeError for what is no index) and iteration which slicing a list of the sequence's current items in the same way would give, for any bounds and steps and for views of views. It never slices or copies the sequence, and looks only at the items asked for.",
     "inputs histories", "all sequences, up to three slices on top of each other with any bounds and steps, and changes of the sequence in between",
     "tests use a few slices of one sequence",
     ["epsilon/view.py"], [("SlicedView", "epsilon/view.py")],
     "differential test against list slicing", "list slicing")

prop("C28", "A pending event tells everyone who waits, once",
     "Each time the event fires, with a result or a failure, everyone who was waiting at that moment is told that result once, in the order in which they began to wait; those who begin later, even from within a callback, wait for the next time. Giving up waiting and errors in others' callbacks affect nobody else.",
     "histories", "all histories of waiting, firing, cancelling, and waiting again from within callbacks",
     "there are no tests of it",
     ["epsilon/pending.py"], [("PendingEvent", "epsilon/pending.py")],
     "stateful model", "Twisted's Deferred")

prop("C29", "react runs the reactor for exactly as long as main takes",
     "main is called once, with the reactor and the arguments, when the reactor runs; the reactor stops when main's Deferred fires or when something else stops it, whichever comes first, and then react returns. It is stopped only once, whatever happens in the same iteration or during shutdown, and main's failure is logged exactly once.",
     "schedules fault_sequences", "all moments at which main's Deferred fires (at once, later, during any phase of shutdown, never) and something else stops the reactor",
     "tests cover a few orders",
     ["epsilon/react.py"], [("react", "epsilon/react.py")],
     "generated schedules on a strict model of a reactor", "the model reactor is as strict as Twisted's")

prop("C30", "Iterators are advanced cooperatively, only while the service runs",
     "An iterator given to the scheduling service is advanced only while the service is running, and not while a Deferred it returned is waiting; when it is exhausted its Deferred fires once with the iterator, or with its failure. Adding to a service which was stopped fails with SchedulerStopped. The service says whether it is running. Any number of iterators may be at work, none of which keeps the others waiting. Iterating in the reactor works without a service.",
     "schedules histories", "all histories of adding iterators which end, fail or wait, starting and stopping the service, and passing time",
     "there are no tests of it",
     ["epsilon/cooperator.py"], [("SchedulingService, iterateInReactor", "epsilon/cooperator.py")],
     "histories on a clock in place of the reactor", "Twisted's Cooperator; what happens to iterators in progress when it stops is Twisted's")

prop("C31", "Benchmark measurements are read, computed and reported faithfully",
     "Disk statistics lines of both kinds (disks, with or without the columns newer kernels add, and partitions), as text or bytes, give the device and its numbers. A report contains the differences of time, size and statistics between the two snapshots and reads back as such; reports are appended to the output file without harming what's there. The size of a tree is the sum of the sizes of everything in it (a dangling or cyclic link counts as its text), and the working device is that of the innermost, last mounted filesystem which contains the working directory, whatever characters its name has.",
     "inputs configurations", "all statistics lines, snapshots, directory trees and mount tables",
     "tests parse one line of each kind and this machine's own mounts",
     ["epsilon/scripts/benchmark.py"], [("parseDiskStats, formatResults, reportResults", "epsilon/scripts/benchmark.py"), ("getSize, discoverCurrentWorkingDevice", "epsilon/scripts/benchmark.py")],
     "generated inputs against arithmetic and a scratch directory", "the scratch filesystem's own sizes")

prop("C32", "A benchmarked process is watched, timed and reported to its end",
     "The process is spawned as asked with the back channel's descriptors; whatever it does, there is exactly one result at its end: its status and all output in order, ProcessDied with the details, or TimeoutError if it was silent for 15 minutes, whereupon (and only then) it is killed; no timer remains. Start and stop messages on the back channel, in any chunks, are acknowledged one by one and record the resources of that moment, before the process can go on; anything else there ends the process with QUIT. A process which turns out to have exited when it is to be signalled is no error. In the process, start and stop succeed exactly if acknowledged and otherwise raise RuntimeError; a completed run is reported as an overall and an inner result, with the statistics of the partition and disk of the working directory, marked as an error if its status isn't zero or it wrote to stderr. The tool as a whole runs a script with its arguments in a directory of its own, which is gone afterwards, and adds the results of a run to the output file.",
     "schedules histories fault_sequences", "all histories of output, back channel messages, closed descriptors, silence and file growth, all ways to end, and all answers to the child",
     "tests try each event once in isolation",
     ["epsilon/scripts/benchmark.py"], [("BasicProcess, BenchmarkProcess, Change", "epsilon/scripts/benchmark.py"), ("start, stop, _bench, bench, main", "epsilon/scripts/benchmark.py")],
     "stateful generation with a clock and a recording transport; the child's half in a forked process", "Twisted's TimeoutMixin")

prop("C33", "certcreate writes the key and certificate it was asked for",
     "For any options, in long or short form and in any order (the last of several wins), the one file written holds a private key, made anew every time, and a matching self-signed certificate with exactly the given subject, issuer, and serial number and the documented defaults for the rest, replacing what was in the file, of which nothing remains. The certificate's owner is shown unless quiet was asked for; then nothing is printed. A wrong command line exits with a message and writes nothing.",
     "inputs configurations", "all subsets, spellings and orders of the options",
     "there are no tests of it",
     ["epsilon/scripts/certcreate.py"], [("Options, createSSLCertificate, main", "epsilon/scripts/certcreate.py")],
     "generated command lines; the file is parsed with OpenSSL", "pyOpenSSL; printable ASCII in names")

prop("C34", "autosetup packages everything there is",
     "For any source tree, setup is called once with the other arguments unchanged, with every non-hidden directory (other than the top one) that has an __init__.py or a (non-hidden) plugins directory as a package, and, for each top-level package, every file below it outside of hidden directories which isn't Python source or compiled code of a package directory, nor a plugin cache. Giving packages or package data explicitly is refused. After an installation, and only then, the plugin cache of every importable plugin package in the place it was installed to is regenerated, whatever is wrong with other ones.",
     "inputs", "all trees of package, plugin, data and hidden directories and files",
     "the tests of it are skipped",
     ["epsilon/setuphelper.py"], [("autosetup, regeneratePluginCache", "epsilon/setuphelper.py")],
     "generated trees in a scratch directory, with setup() recorded", "no package at the top of the tree")

prop("C35", "asplode writes exactly the files its template describes",
     "Every file named in the template is created, with its directories, and contains exactly the lines which follow it, with the project's name, its capitalized name and the date (as 2026-01-31) in place of their placeholders in names and contents; of a file named twice the last one counts. No other file is written. As a program it reads the template from its standard input.",
     "inputs", "all templates of nested files with placeholders anywhere",
     "there are no tests of it",
     ["epsilon/asplode.py"], [("splode, main", "epsilon/asplode.py")],
     "generated templates in a scratch directory", "no file has the name of a directory")

prop("C36", "Tracing shows what a program does without changing it",
     "While a spewer is installed, every call is shown with the function's (and class's) name and all its arguments, every returned value other than None, and every exception, in order, calls indented by depth, exceptions or not; each thread on its own; the program's result is the same as without it, even if values can't be shown, or written to the output, or don't tell their class. A tracer traces the current thread and new ones exactly while installed, and a call it wants to skip isn't traced further. A signal service's handlers are in effect while it runs, and the former ones afterwards, even if something else changed them in between.",
     "programs histories", "all programs of functions and methods with any parameters, and histories of installing, uninstalling and toggling, and of nested signal services",
     "there are no tests of it",
     ["epsilon/spewer.py"], [("Tracer, Spewer, extractArgs, formatArgs", "epsilon/spewer.py"), ("SignalService", "epsilon/spewer.py")],
     "generated programs run under the tracer and compared with a model of the calls", "sys.settrace")

prop("C37", "Requiring hotfixes is harmless, idempotent and strict",
     "Requiring the known hotfixes in any order, any number of times, succeeds, leaves what they are about working, and replaces nothing of a Twisted which doesn't need them. Where a Twisted lacks the function which finds plugin directories, it is installed, once, and finds the same directories as Twisted's own. Unknown hotfixes raise NoSuchHotfix every time.",
     "histories configurations", "all sequences of requests for known and unknown hotfixes, and search paths",
     "tests require some of them once",
     ["epsilon/hotfix.py", "epsilon/hotfixes"], [("require", "epsilon/hotfix.py")],
     "sequences in fresh copies of the module, with the features tried in between", "the installed version of Twisted")

prop("C38", "unrepr reads literals back and never runs code",
     "The repr of any literal (None, booleans, numbers, text, bytes, and nested tuples, lists, dictionaries and sets of them), and any other way of writing it in Python, is read back as an equal value of the same types throughout. Any other expression or statement (names, calls, attributes, operators on them, comprehensions, formatted strings) is rejected, without evaluating any part of it.",
     "inputs", "all nested literals, and all combinations of code templates with literals",
     "tests read a few literals",
     ["epsilon/unrepr.py"], [("unrepr", "epsilon/unrepr.py")],
     "round trips, and code templates around a trap object", "repr of built-in types")

prop("C39", "Version strings become Twisted versions with their numbers",
     "Any version string of three or more numbers, with or without a suffix, becomes a version of the package with exactly its first three numbers, and such versions are ordered as these numbers are. The package's own version is that of its version string.",
     "inputs", "all version strings of three or more numbers with any suffix",
     "tests use two or three strings",
     ["epsilon/__init__.py"], [("asTwistedVersion", "epsilon/__init__.py")],
     "generated strings", "Twisted's Version")

prop("C40", "Spawned Python processes can import the packages promised",
     "A process is spawned once with the protocol, executable, arguments and options given, and an environment which is the caller's except that PYTHONPATH begins with the directories from which all the packages and modules (dotted names included) asked for can be imported (other than those installed with Python), once each, followed by exactly what was there. The service for standard I/O connects its protocol to it, once, and says whether it is running. The caller's environment isn't changed, and one call leaves nothing behind for the next.",
     "inputs configurations", "all layouts of packages and modules, all subsets asked for, and all environments",
     "tests don't cover spawning",
     ["epsilon/process.py"], [("spawnProcess, spawnPythonProcess", "epsilon/process.py")],
     "generated layouts in a scratch directory, with the reactor recording", "Twisted's getModule")

prop("C41", "Juice peers agree on the first version offered which both support",
     "A peer asked to negotiate chooses the first of the offered versions which it supports, answers with it and speaks it from then on; if there is none, it logs that, the request fails and its version stays. Renegotiation brings both peers to the wanted version, and a version which a peer doesn't support itself is refused before anything is sent.",
     "inputs histories", "all lists of offered and supported versions, and sequences of negotiations by either side",
     "tests negotiate once",
     ["epsilon/juice.py"], [("Juice.renegotiateVersion, command_NEGOTIATE", "epsilon/juice.py")],
     "sequences of negotiations against a model", "the list of supported versions is replaced by the generated one")

prop("C42", "The TimeoutMixin carried for old Twisteds times out when Twisted's would",
     "A connection times out exactly once, when the period set last has passed since it was set or last reset, unless it was disabled or changed before; setting returns the previous period, and resetting without a running timeout does nothing, also from inside of a timeout. Connections don't influence each other, and no timer remains once a timeout is disabled. By default the connection is dropped and the reactor's timers are used.",
     "histories schedules", "all histories of setting, resetting and disabling timeouts of several connections, of time passing, and reactions inside of a timeout",
     "there are no tests of it",
     ["epsilon/hotfixes/timeoutmixin_calllater.py"], [("TimeoutMixin", "epsilon/hotfixes/timeoutmixin_calllater.py")],
     "histories against a model and against Twisted's own class", "Twisted's Clock")

prop("C43", "Applications which are built as the documentation shows work",
     "The documented servers and clients (doc/listings/amp) work with each other, however the connection cuts the data: after logging in with the right password or an unused pad, and only then, a client's sums are calculated; a used pad gets nothing. Over the documented way of opening routes, any number of clients has any number of conversations over their connections, each with a server of its own which answers its requests in order; opening a route which the server refuses fails and leaves none behind, and requests still open when a connection is lost fail.",
     "inputs schedules histories", "all histories of clients, logins, routes and requests, refusals, lost connections and deliveries of any size",
     "the documented programs aren't tested at all",
     ["doc/listings/amp/route_setup.py", "doc/listings/amp/auth_server.py", "epsilon/ampauth.py", "epsilon/amprouter.py", "epsilon/react.py"],
     [("Router, Route", "epsilon/amprouter.py"), ("CredReceiver, login, OneTimePadChecker", "epsilon/ampauth.py"), ("react", "epsilon/react.py")],
     "the programs, unchanged, and histories of their parts, over an in-memory network", "Twisted's AMP; the in-memory transport")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            f.write(json.dumps(p["record"]) + "\n")
    checks = []
    for p in PROPERTIES:
        id = p["record"]["id"]
        checks.append(dict(
            property=id,
            quick_cmd="%s run.py %s --tier quick" % (PYTHON, id),
            thorough_cmd="%s run.py %s --tier thorough" % (PYTHON, id),
            evidence_file="evidence/%s.json" % (id,),
            technique="property-based testing (Hypothesis): " + p["how"],
            level="exploration",
            level_note="Generated-input search against an explicit oracle; "
            "holds on everything generated, no proof. Trusts: " + p["trusts"]
            + "."))
    manifest = dict(
        version=1,
        setup_cmd="%s -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis, twisted\"" % (PYTHON,),
        checks=checks, not_applicable=[],
        notes="Everything is pure Python and imports /repo's working tree "
        "directly, so there is nothing to build; no hooks in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
