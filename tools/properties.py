prop("C19", "A component follows its life cycle and gives up its links",
     "A component is created, published, configured, connected and disconnected in this order only; every other request is "
     "refused with InvalidComponentState telling the actual and the expected state, and changes nothing. It uses the "
     "simulator it is connected to, and answers for fields, properties and operations through the publication it was "
     "published with. The user's life cycle functions, with or without arguments, are called exactly once with the arguments "
     "of the request. Removing the links to a component takes out all of its event sinks, references and connected input "
     "fields, also those of array items, and leaves the links to others.",
     ["inputs", "histories"], "every state, followed by any two operations; all mixes of up to three links of a kind to two components",
     "The tests walk once through the normal order and remove one link of a kind.",
     ["src/Xsmp/Component.cpp", "include/Xsmp/ComponentHelper.h", "src/Xsmp/EventSource.cpp", "include/Xsmp/Reference.h"],
     [("life cycle", "src/Xsmp/Component.cpp Publish, Configure, Connect, Disconnect"),
      ("user functions", "include/Xsmp/ComponentHelper.h Publish, Configure, Connect, Disconnect"),
      ("links", "src/Xsmp/Component.cpp RemoveLinks, RemoveFieldLinks")],
     "The life cycle and the calls of user functions are proved in every state; link removal is bounded to three links.")
prop("C20", "Events reach exactly the subscribed sinks",
     "An event source accepts a sink of its own value kind that is not subscribed yet, and gives up one that is; otherwise the "
     "matching exception tells source and sink and nothing changes. Emitting an event notifies every subscribed sink exactly "
     "once, with the sender given, or the owner of the source, and the value emitted, converted to the type of the sink; also "
     "when a sink subscribes or unsubscribes sinks while it is notified. An event sink and an entry point call their function "
     "exactly once per notification or execution, and a sink without value refuses values. Sources, sinks and entry points "
     "are listed by their owner in the order of creation, and a second one of the same name is refused.",
     ["inputs", "histories"], "all kinds and values, all histories of three subscriptions of two sinks, all orders of the sinks in memory",
     "The tests subscribe one sink and emit a few values; order in memory, refused subscriptions and changes during emission are not sampled.",
     ["src/Xsmp/EventSource.cpp", "src/Xsmp/EventSink.cpp", "include/Xsmp/EventSource.h", "include/Xsmp/EventSink.h", "src/Xsmp/EntryPoint.cpp"],
     [("subscription and emission", "src/Xsmp/EventSource.cpp Subscribe, Unsubscribe, DoEmit"),
      ("values", "include/Xsmp/AnySimpleConverter.h"),
      ("callbacks", "include/Xsmp/EventSink.h Notify, src/Xsmp/EntryPoint.cpp Execute")],
     "Values and callbacks are proved for all values; histories are bounded to three sinks and three operations.")
prop("C21", "Fields keep, force, connect and persist their values",
     "A field of every kind (simple, array, simple array, structure, each with its options) reads back the value last written, "
     "as C++ value and as typed value alike, and refuses values of another kind, wrong sizes and wrong indices with the "
     "matching exception, unchanged. A forced field shows the forced value until released; a failure is listed and reports "
     "its state. An output field passes every written value on to exactly the input fields connected to it, item by item and "
     "as a whole, accepts only equivalent fields and each only once, and stops when disconnected. What a field stores in a "
     "state vector is restored from it; transient fields store nothing.",
     ["inputs", "histories"], "all values, views and indices; arrays of two items, structures of two fields, two connected fields",
     "The tests write and read constants and connect one pair of fields; refused values, forced inputs, several inputs and restoring into other contents are not combined.",
     ["src/Xsmp/Field.cpp", "include/Xsmp/Field.h", "src/Xsmp/Helper.cpp", "src/Xsmp/FallibleModel.cpp"],
     [("values", "include/Xsmp/Field.h SimpleField, ArrayField, SimpleArrayField"),
      ("connections", "src/Xsmp/Field.cpp Connect, Disconnect, Push; src/Xsmp/Helper.cpp AreEquivalent"),
      ("forcing and failures", "include/Xsmp/Field.h Forcible, Failure"),
      ("state vector", "include/Xsmp/Field.h Store, Restore")],
     "Proved for all values of fields of one integer, floating point and structure type; array length and number of "
     "connections are bounded. Over stand-in SMP headers.")
NOTEST = "The tests call it with a handful of constants; "
prop("C01", "Mixed-sign integer comparison and range checks are mathematical",
     "Comparing two integers of any built-in widths and signedness gives the answer of comparing their mathematical "
     "values, and a range check tells exactly whether a value is representable in the target type.",
     ["inputs"], "all pairs of values of all pairs of the eight fixed-width integer types",
     "No test calls the helpers; the failing cases are single boundary values in a product of 2^128 pairs.",
     ["src/Smp/utility.h"], [("sign-dispatched comparison helpers", "src/Smp/utility.h cmp_equal, cmp_less, in_range")],
     "Every obligation for all 64 type pairs discharged over all values; no bound.")
prop("C02", "A fixed string holds exactly the given text cut to its capacity",
     "Constructing or assigning a fixed-capacity string from a character sequence of any length stores the text up to its "
     "first NUL or the capacity, whichever comes first, always terminated, and never reads past the source or writes past "
     "the storage. Assigning a part of the string to itself gives the same result as assigning a copy of that part. Length, "
     "emptiness, element access, checked access and iteration describe exactly that text.",
     ["inputs"], "all source sequences of any length with NULs anywhere, all prior contents, all aliasing source ranges",
     NOTEST + "over-long, unterminated, NUL-containing and self-aliasing sources are not among them.",
     ["include/Xsmp/String.h"], [("copy and truncate", "include/Xsmp/String.h String::assign, constructors, create"),
                                 ("observers", "include/Xsmp/String.h length, at, begin/end")],
     "Proved for every input of any length; capacities are template arguments, proved for 1, 3, 16 (and more in thorough).",
     state=[("internalString", "the NUL-terminated storage", "include/Xsmp/String.h")])
prop("C03", "Editing a fixed string keeps it terminated and changes only what it should",
     "Appending, inserting at the end, removing from either end, clearing, swapping and copying out yield exactly the text "
     "those operations describe, cut to the capacity, for every previous content and every operand, including operands that "
     "are part of the string itself. The string stays terminated and nothing outside its storage is touched.",
     ["inputs", "histories"], "every reachable content, every operand length and every position, in any order of operations "
     "(each operation is proved from an arbitrary valid state)",
     NOTEST + "full strings, empty strings, oversize counts and self-appends are not covered.",
     ["include/Xsmp/String.h"], [("editing operations", "include/Xsmp/String.h append, push_back, pop_back, remove_prefix, "
                                  "remove_suffix, swap, copy, clear")],
     "Proved from an arbitrary valid state, so for every history; capacities 1, 5, 16, 300.")
prop("C04", "Searching, comparing, hashing and streaming a fixed string agree with its text",
     "Every search, sub-view, comparison, concatenation, hash and formatted stream operation on a fixed-capacity string "
     "gives the result the standard string view over its text gives, whatever the unused storage holds. Equal texts have "
     "equal hashes, and reading from a stream stores the extracted word cut to the capacity.",
     ["inputs"], "all contents, positions and operands",
     NOTEST + "most search and relational overloads are never called.",
     ["include/Xsmp/String.h"], [("delegation to string_view", "include/Xsmp/String.h find*, compare, operators, substr"),
                                 ("hash and stream operators", "include/Xsmp/String.h")],
     "Proved for all contents of capacities 3, 5 and 20, all positions, needles of 0..3 (search) and 0..6 (compare) "
     "bytes; needle length and capacity are the stated bounds.")
prop("C05", "An owned C string is a private copy that is neither leaked nor released twice",
     "A constructed or assigned owned C string holds its own terminated copy of the given text, independent of the source "
     "and of every other object. Copying, moving, self-assignment, assigning part of itself and use after being moved from "
     "are all safe, and every buffer is released exactly once. If memory runs out during an operation, the old value stays "
     "and nothing leaks.",
     ["inputs", "fault_sequences", "histories"],
     "texts of any length, any prior state including moved-from, any aliasing, allocation failing at any point",
     "The tests construct a few literals; no test covers aliasing, moved-from copies or allocation failure.",
     ["src/Xsmp/cstring.cpp", "include/Xsmp/cstring.h"],
     [("deep copy", "src/Xsmp/cstring.cpp copy"), ("ownership transfer", "src/Xsmp/cstring.cpp move operations")],
     "Proved for texts of any length, any reachable prior state and allocation failure at every allocation.",
     state=[("_value", "null or an owned array", "include/Xsmp/cstring.h")])
prop("C06", "A fixed array behaves as the standard fixed-size array",
     "Element access, checked access, iteration in both directions, fill, swap, copy and all comparisons of a fixed array "
     "give the results of the standard fixed-size array over the same elements; checked access throws for exactly the "
     "indices past the end. This includes arrays of size zero, nested arrays and element types that own resources.",
     ["inputs", "programs"], "all element values and indices; element types of different comparison and copy behaviour",
     "No test exercises the array type.",
     ["include/Xsmp/Array.h"], [("element storage and iterators", "include/Xsmp/Array.h"),
                                ("zero-size specialisation", "include/Xsmp/Array.h _array_traits<Tp, 0>")],
     "Proved for all element values and indices at the listed element types and sizes (0, 1, 3, 5, 8, 40).")
prop("C07", "Shared data is reachable only while the matching lock is held",
     "While a read access object is active the data is protected by a shared lock, while a write access object is active by "
     "an exclusive one, and the lock is released exactly once when the object ends or is unlocked, also after moves and "
     "re-locking. A non-blocking attempt yields an access object only if it obtained the lock, and never blocks.",
     ["schedules", "histories"], "all interleavings with other threads, through the contract of the lock: any acquisition "
     "may see any change made by others, and any attempt may fail",
     "No test uses the type.",
     ["src/Xsmp/ThreadSafeData.h"], [("lock-holding accessors", "src/Xsmp/ThreadSafeData.h ReadLock, WriteLock, read, write, try_*")],
     "Proved over the assumed contract of the POSIX read-write lock; interference of other threads is modelled at every "
     "acquisition.")
prop("C08", "Library loading passes exact names and reports only its own errors",
     "Loading a library asks the platform loader exactly once for the platform file name of the given library, with all "
     "symbols resolved immediately and kept local, and returns its answer; symbol lookup does the same for the exact symbol "
     "name. Missing names give null without reaching the loader, and the error text afterwards is that of the last "
     "operation, empty when it succeeded.",
     ["inputs", "fault_sequences"], "names of any length, any loader answer and any pending error",
     "No test covers loading; failures depend on loader state.",
     ["src/Xsmp/LibraryHelper.cpp", "src/Xsmp/LibraryHelper.h"],
     [("file name construction", "src/Xsmp/LibraryHelper.cpp LibraryFileName"),
      ("loader calls", "src/Xsmp/LibraryHelper.cpp LoadLibrary, GetSymbol, GetLastError, CloseLibrary")],
     "Proved for names and error texts of any length over the assumed contract of dlopen/dlsym/dlerror/dlclose.")
prop("C10", "A typed simple value keeps its kind and value and never leaks its text",
     "A simple value constructed or set with a kind and a C++ value holds exactly that kind and value; a value outside the "
     "range of the kind, or of an unsuitable type, is refused with an exception. Reading it back as any numeric type gives "
     "the mathematically equal value (for floating point, within the machine precision of the type) or an exception, never "
     "another number. Equality compares mathematical values, floating point within machine precision, and texts. A text value is a private copy: copying, moving, reassigning, taking over and failing "
     "allocations neither leak it, release it twice nor share it.",
     ["inputs", "histories", "fault_sequences"],
     "all pairs of kinds and C++ types with all their values; texts of any length; any previous value; allocation failure at any point",
     "The tests sample one value per kind; range limits, cross-sign comparisons and failures in the middle of an assignment are not sampled.",
     ["src/Smp/AnySimple.cpp", "include/Smp/AnySimple.h"],
     [("checked conversions", "src/Smp/AnySimple.cpp convertIntegral, convertFloat, constructors"),
      ("ownership of text values", "src/Smp/AnySimple.cpp copy, move, SetValue, MoveString")],
     "Proved for every kind and every value; compiled against stand-in SMP headers (the SMP headers are not in the sandbox).",
     state=[("type, value", "the kind and a union with an owned text", "include/Smp/AnySimple.h (SMP mirror)")])
prop("C11", "Every SDK exception carries exactly what it was thrown with",
     "Each helper that throws an SDK exception raises an exception of the corresponding SMP interface, catchable also as the "
     "general SMP exception and as a standard exception, whose sender, name, description, message text and specific "
     "attributes are those given by the caller, and which owns copies of its texts. Throwing, copying and rethrowing leaks "
     "nothing.",
     ["inputs"], "all texts of any length including null, all numbers, all values, objects with and without names",
     "The tests check a few of the some fifty exceptions with constants; swapped attributes, null texts and lifetimes are not covered.",
     ["src/Xsmp/Exception.cpp", "include/Xsmp/Exception.h"],
     [("exception classes", "src/Xsmp/Exception.cpp classes and their getters"),
      ("throwing helpers", "src/Xsmp/Exception.cpp throw*")],
     "Proved for all arguments over stand-in SMP headers; the text formatted into the message is assumed to be some string.")
prop("C12", "A unique identifier parses exactly its textual form and orders totally",
     "Parsing accepts exactly the texts of the form 8-4-4-4-12 hexadecimal digits and gives the number they spell; every "
     "other text, and no text, is refused without reading beyond it. Printing an identifier gives a text that parses back to "
     "the same identifier. Equality holds exactly for identical identifiers, ordering is a strict total order, and equal "
     "identifiers have equal hashes.",
     ["inputs"], "texts of any length and content; all pairs and triples of identifiers",
     "The tests parse a handful of texts; one wrong position among 36, or one digit group, is not sampled.",
     ["src/Smp/Uuid.cpp", "src/Smp/StreamOperators.cpp"],
     [("parser", "src/Smp/Uuid.cpp from"), ("comparison and hash", "src/Smp/Uuid.cpp operators, std::hash"),
      ("printer", "src/Smp/StreamOperators.cpp operator<<(Uuid)")],
     "Proved for every text and every identifier over the C-locale contracts of isxdigit, strtoul and stream formatting.")
prop("C13", "Object names obey the naming rule and texts are cut to their field",
     "A name is accepted for an object exactly if it is a letter followed by letters, digits and underscores, or a decimal "
     "index in square brackets; an accepted name is copied, any other is refused with an exception carrying it. Storing a "
     "text into a fixed character field keeps the part that fits, terminated, and touches nothing else. Converting values, "
     "enumerations and texts to simple values and back gives them unchanged; a number outside an enumeration's underlying "
     "type is refused.",
     ["inputs"], "names and texts of any length and content, all field sizes, all values",
     "The tests try a few names and one text per type; over-long texts, stray characters at the end and range limits are not sampled.",
     ["src/Xsmp/Helper.cpp", "include/Xsmp/AnySimpleConverter.h", "include/Xsmp/Helper.h"],
     [("name rule", "src/Xsmp/Helper.cpp checkName"), ("text fields", "src/Xsmp/Helper.cpp CopyString"),
      ("conversions", "include/Xsmp/AnySimpleConverter.h AnySimpleConverter")],
     "Proved for names, texts and fields of any length; text types proved for capacities 8, 12 and 16.")
prop("C14", "Time values do exact nanosecond arithmetic",
     "A duration is a count of nanoseconds and an instant a count of nanoseconds since 2000-01-01 12:00. Sums, differences, "
     "scaling, units and literals give the exact number whenever it is representable; comparisons agree with the numbers in "
     "either operand order, also against C++ chrono durations of any unit. Conversion from chrono is exact, conversion to a "
     "coarser chrono unit truncates towards zero, and instants of the system clock are shifted by exactly the distance of the "
     "two epochs. Printing uses the instant itself with the requested format (%T for durations, %F %T for instants by default); "
     "parsing hands exactly the given text or stream and format on, and an unreadable text gives a zero duration.",
     ["inputs"], "all 64-bit values whose exact result is representable, all units from nanoseconds to weeks, all texts and formats",
     "The tests use a few one-second values; truncation, sign, mixed units and unreadable texts are not sampled.",
     ["include/Xsmp/Duration.h", "include/Xsmp/DateTime.h", "src/Xsmp/Duration.cpp", "src/Xsmp/DateTime.cpp"],
     [("arithmetic and order", "include/Xsmp/Duration.h, include/Xsmp/DateTime.h operators"),
      ("epoch shift", "include/Xsmp/DateTime.h convert, operator time_point"),
      ("text", "src/Xsmp/Duration.cpp, src/Xsmp/DateTime.cpp format, to_stream, parse")],
     "Proved for all values over stand-in SMP primitive types; the text of the date library itself is assumed.")
prop("C15", "Simulation, epoch and mission time keep their relations",
     "The time keeper starts with all times at zero. Simulation time can only be moved during a time change, never backwards "
     "and never beyond the next scheduled event; otherwise it stays and an exception tells current, provided and maximum "
     "time. Epoch time advances with simulation time; mission time is always epoch time minus mission start. Setting epoch, "
     "mission start or mission time changes just that relation, announces it exactly once with the matching event, and a "
     "handler of that event already reads the new times. Storing and restoring reproduces all times. Zulu time is the "
     "system clock counted from 2000-01-01 12:00.",
     ["inputs", "histories"], "every reachable state and all times whose sums are representable",
     "The tests use one epoch, one mission start and a few steps; refused times, the order of update and event, and restoring into a used keeper are not sampled.",
     ["src/Xsmp/Services/XsmpTimeKeeper.cpp", "src-gen/Xsmp/Services/XsmpTimeKeeperGen.cpp"],
     [("time relations", "src/Xsmp/Services/XsmpTimeKeeper.cpp Get*/Set*"),
      ("time change window", "src/Xsmp/Services/XsmpTimeKeeper.cpp _PreSimTimeChange, _PostSimTimeChange, DoConnect"),
      ("state vector", "src/Xsmp/Services/XsmpTimeKeeper.cpp Store, Restore")],
     "Proved from an arbitrary state over stand-in SMP headers, a POSIX lock model and a symbolic system clock.")
prop("C16", "What is stored in a state vector is restored from it",
     "Storing a value and restoring it gives the same value, whatever the restored variable held before: numbers, "
     "enumerations, arrays, pairs, atomics, texts of every character type and length, vectors, maps, sets and nested "
     "combinations. Several values are restored in the order they were stored, and restoring reads exactly what was "
     "written. A typed value restored as another type is refused with CannotRestore and left unchanged. A reference to an "
     "object is stored as its path and restored as the object that path resolves to, or null.",
     ["inputs"], "all values; texts of any length; vectors, maps and sets with up to three elements over any previous content",
     "The tests store a few constants; non-empty targets, wide characters, duplicate order and wrong types are not sampled.",
     ["include/Xsmp/Persist.h", "include/Xsmp/Persist/StdString.h", "include/Xsmp/Persist/StdVector.h", "include/Xsmp/Persist/StdMap.h"],
     [("typed store and restore", "include/Xsmp/Persist.h Helper, Store, Restore"),
      ("containers and texts", "include/Xsmp/Persist/Std*.h"),
      ("object references", "include/Xsmp/Persist/SmpIObject.h")],
     "Proved for all scalars, arrays, pairs and texts of any length; containers are bounded to three elements. The "
     "out-of-line tree and hash table code of libstdc++ is replaced by a simple model.")
prop("C17", "Collections keep insertion order and unique names",
     "A collection lists its elements in the order they were added, by position, by name and by iteration alike; beyond the "
     "end, for unknown names and for no name it gives null. Adding an element whose name is taken is refused with "
     "DuplicateName carrying the name, and leaves the collection as it was (collections that allow duplicates find the first "
     "one). Removing takes out exactly that element and keeps the order of the others. A collection that owns its elements "
     "destroys each exactly once: when refused, removed, cleared or with the collection. A delegating collection lists the "
     "elements of the other collection first and refuses names that are taken in either.",
     ["inputs", "histories"], "names of any length; all histories of three additions, lookups and removals with equal and different names",
     "The tests add a few differently named elements in one order; refused additions, removal from the middle and ownership are not covered.",
     ["include/Xsmp/Collection.h"],
     [("lookup and order", "include/Xsmp/Collection.h AbstractCollection, ContainingCollection"),
      ("delegation", "include/Xsmp/Collection.h DelegateCollection")],
     "Comparison of names proved for any length; histories bounded to three elements.", level="other")
prop("C18", "Containers and references respect their limits, types and names",
     "A container takes a component exactly if it has the container's type, there is room, its owner is the container's "
     "owner and its name is free among all components, fields, entry points, operations, properties, event sources, event "
     "sinks and failures of that owner; otherwise the matching exception tells why and nothing changes. Deleting a component "
     "above the lower limit disconnects it if connected, destroys it exactly once and keeps the others in order; components "
     "are destroyed with their container, last first. A reference takes every component of its type up to its upper limit, "
     "also twice, and gives them back down to its lower limit. Both list their components in the order of addition by "
     "position, name, iteration and collection alike.",
     ["inputs", "histories"], "all histories of three additions and a removal, with equal and different names and all limits",
     "The tests add two or three components with distinct names; name clashes with other children, limits and states are not combined.",
     ["src/Xsmp/Container.cpp", "include/Xsmp/Container.h", "src/Xsmp/Reference.cpp", "include/Xsmp/Reference.h"],
     [("admission", "src/Xsmp/Container.cpp AddComponent, CheckNoDuplicateName"),
      ("deletion", "src/Xsmp/Container.cpp DeleteComponent, include/Xsmp/Container.h ~Container"),
      ("references", "include/Xsmp/Reference.h AddComponent, RemoveComponent")],
     "Every obligation discharged, for at most three components; over stand-in SMP headers.", level="other")

prop("C23", "Scheduled events are executed at their time, in order, as often as asked",
     "While executing, the scheduler executes every event it holds exactly when simulation time reaches the event's time: "
     "immediate events first, then in the order of time, then in the order of posting; an event with repeat n is executed n+1 "
     "times at its cycle. Simulation time is changed only between SMP_PreSimTimeChange and SMP_PostSimTimeChange, never "
     "backwards, and does not run ahead of the target speed. An event may be added, moved or removed at any time, also by "
     "another event, by itself while executing, or by a time change handler, and takes effect from then on; once done or removed its id is "
     "unknown (InvalidEventId). Past times and non-positive cycles of repeated events are refused. After a hold the "
     "remaining events go on in order; the next scheduled event time and the current event id tell the truth. Zulu events "
     "are executed by their own thread at Zulu time in Standby and Executing. A stored schedule of immediate, simulation, mission and epoch time events goes on as stored.",
     ["inputs", "histories"], "all times, cycles and repeats for posting and moving; all runs of up to three events with small times and repeats, one or two changes by an executing event",
     "The tests run one schedule; changes made by executing events, hold and resume, waits, removal and restore are not sampled.",
     ["src/Xsmp/Services/XsmpScheduler.cpp", "src/Xsmp/Services/XsmpScheduler.h", "src-gen/Xsmp/Services/XsmpSchedulerGen.cpp"],
     [("posting and moving", "src/Xsmp/Services/XsmpScheduler.cpp Add*Event, SetEvent*Time, SetEventCycleTime, SetEventRepeat, RemoveEvent"),
      ("execution", "src/Xsmp/Services/XsmpScheduler.cpp _EnterExecuting, ExecuteEvents, Execute"),
      ("zulu thread", "src/Xsmp/Services/XsmpScheduler.cpp InternalZuluRun, ExecuteZulu"),
      ("state vector", "src/Xsmp/Services/XsmpScheduler.cpp Store, Restore")],
     "Posting and moving proved for all times whose sums are representable; execution is bounded to three events. Threads are run by the contract, one at a time; "
     "that no two mutexes are awaited in both orders is an obligation of every contract.", level="other")
prop("C26", "The link registry counts the links and tells their sources",
     "The number of links between two components is the number of additions less the removals; removing a link that does not "
     "exist is refused and changes nothing. The sources of a target are exactly the components with a link to it, in the order "
     "of their first link, and a collection once handed out stays valid and up to date. The links of a target can be removed "
     "exactly if all its sources are able to; removing them asks each of those sources, once, whatever the sources remove "
     "from the registry while they are asked.",
     ["histories"], "histories of up to three additions and removals over four components, then removal of all links of a target",
     "The tests add and remove one link; counts above one, several sources and sources that answer a removal request are not sampled.",
     ["src/Xsmp/Services/XsmpLinkRegistry.cpp", "src/Xsmp/Services/XsmpLinkRegistry.h"],
     [("counting", "src/Xsmp/Services/XsmpLinkRegistry.cpp AddLink, RemoveLink, GetLinkCount"),
      ("sources", "src/Xsmp/Services/XsmpLinkRegistry.cpp GetLinkSources"),
      ("removal", "src/Xsmp/Services/XsmpLinkRegistry.cpp CanRemove, RemoveLinks")],
     "Histories are bounded; all choices of components and operations within the bound are covered.", level="other")
prop("C24", "Global events have one number per name and reach all subscribers",
     "A global event's number is the same whenever its name is queried, from any thread, and differs from that of every other name; the "
     "predefined events have their predefined numbers and an empty or missing name is refused. Every entry point subscribed to an event is "
     "executed exactly once per emission, in the order of subscription, whatever the entry points do meanwhile (subscribe, "
     "unsubscribe, emit, add events, throw) and while no lock is held. Subscribing twice, unsubscribing what is not subscribed and unknown numbers are refused with "
     "the matching exception. Stored events and subscriptions are those in force after a restore.",
     ["inputs", "histories", "schedules"], "all unknown numbers, names near the predefined ones; histories of up to three operations on two events and three entry points; another thread acting between two critical sections",
     "The tests subscribe and emit a few times; re-entrant emission, restore into other contents and concurrent queries are not sampled.",
     ["src/Xsmp/Services/XsmpEventManager.cpp", "src/Xsmp/Services/XsmpEventManager.h"],
     [("numbers", "src/Xsmp/Services/XsmpEventManager.cpp QueryEventId, GetEventName"),
      ("subscription", "src/Xsmp/Services/XsmpEventManager.cpp Subscribe, Unsubscribe"),
      ("emission", "src/Xsmp/Services/XsmpEventManager.cpp Emit; src/Xsmp/Helper.cpp SafeExecute"),
      ("state vector", "src/Xsmp/Services/XsmpEventManager.cpp Store, Restore")],
     "Histories are bounded; another thread is interleaved only where this one holds no lock.", level="other")

prop("C25", "The simulator goes through its states with its events, and an abort is final",
     "The simulator executes a command only in the state it belongs to, ends in the state it leads to, and emits the global events of that way, in order, each in its "
     "state; refused commands change nothing, also those that subscribers of a global event give. Components are published, configured, connected and disconnected exactly once, parents first. "
     "Initialisation entry points are executed in their order. A request to hold stops the execution at once or at the next change of time, however "
     "often it is given, and no later execution; running for a duration leaves no event behind. Models and services are accepted only while building, connecting or in standby, and "
     "standard services stay the first ones. After Abort no state changes and no event follows.",
     ["inputs", "histories"], "commands in every state and from every global event, all durations; up to two commands in a row",
     "No existing test runs the simulator; commands from event handlers, aborts at each point and repeated requests are histories.",
     ["src/Xsmp/Simulator.cpp", "src/Xsmp/Simulator.h"],
     [("states", "src/Xsmp/Simulator.cpp Publish, Configure, Connect, Initialise, Run, Reconnect, Exit, Abort, ChangeState, EmitGlobalEvent"),
      ("hold", "src/Xsmp/Simulator.cpp Hold, RequestHold, Run"),
      ("components", "src/Xsmp/Simulator.cpp recursive_action, AddModel, AddService, AddInitEntryPoint")],
     "Bounded to a simulator with six services and three models. The order of services and models, components added while connecting and further "
     "threads are not claimed.", level="other")

prop("C28", "A stored simulation is restored as it was, and failures are reported",
     "Blocks stored in a state vector file are read back in order, byte for byte, and a later file replaces an earlier one. Once Store has returned, all data is "
     "in the file: a directory that cannot be made, a full device, a missing or shortened file and reading past the end end in CannotStore or CannotRestore, "
     "never in silence. Simulator::Store and Restore visit every component below the simulator, its fields and what it persists itself, in the same order, so that each gets "
     "back its own data; a file in which other kinds of objects are stored is refused. The simulator is in standby afterwards, also after a failure.",
     ["inputs", "fault_sequences"], "all contents of the blocks and values; a directory that is there, can be made or cannot be made, a full device; a failure of each object; shortened and foreign files",
     "StorageTest writes and reads a few values on a healthy disk; no existing test stores a simulation or meets a failing device.",
     ["src/Xsmp/StorageReader.cpp", "src/Xsmp/StorageWriter.cpp", "src/Xsmp/Simulator.cpp"],
     [("file", "src/Xsmp/StorageWriter.cpp Store, Close; src/Xsmp/StorageReader.cpp Restore"),
      ("tree", "src/Xsmp/Simulator.cpp Store, Restore, check")],
     "Bounded to three blocks and a simulator with one service, two models and two fields. File streams and paths are assumed contracts; what follows the data of a file is not looked at.", level="other")

prop("C27", "A path names the object it was made from, and nothing else",
     "The path of every object below the simulator (component, field, structure member, array item, entry point, event source and sink, operation, property, failure) resolves, through the resolver, to that very object. "
     "'.' stays, '..' leads to the parent (none above the simulator), a step to the parent and back returns, from every object; names are compared whole, components follow a slash, "
     "an index counts from the front or, if negative, from the back, and only a whole number within the array is one. A path that names nothing, of the wrong kind (absolute or relative) or missing resolves to null. "
     "Containers and references are reached with a leading underscore, components of references by name. An object's ancestors are itself and its parents.",
     ["inputs"], "every object of a simulation with all kinds of elements; steps from each of them; indices at the limits",
     "No existing test of the listed ones resolves a path; steps out of fields, back and into other members are combinations.",
     ["src/Xsmp/Helper.cpp", "src/Xsmp/Services/XsmpResolver.cpp"],
     [("paths", "src/Xsmp/Helper.cpp GetPath"), ("resolution", "src/Xsmp/Helper.cpp Resolve, GetNextSegment; src/Xsmp/Services/XsmpResolver.cpp"),
      ("ancestors", "src/Xsmp/Helper.cpp IsAncestor")],
     "Bounded to one simulation with a service, three models and every kind of element; two elements of one object with the same name are not considered.", level="other")

prop("C22", "Requests hold the values of their types and reach what they were made for",
     "A parameter of a request takes a value exactly if its type does: the kinds match, integers, floats, enumerations and texts lie in the bounds, literals and length of the "
     "type; everything else is InvalidAnyType or InvalidParameterValue with the value, and the parameter keeps what it had. Operations publish each parameter once, in order, under a "
     "valid name; their requests count, name and index exactly the parameters and the return value of the operation, start empty, and invoking the operation through "
     "CreateRequest, Invoke and DeleteRequest passes every value and returns what the operation returned. Requests of a property set or get it, and refuse what its access kind forbids. "
     "Simple array and structure parameters are addressed item by item.",
     ["inputs", "histories"], "all values of every kind, all bounds, texts of any length; every order of publishing a parameter, all indices and null or unknown names",
     "RequestTest and PublicationTest make a few calls with values in the middle of the ranges and catch no exception's content.",
     ["src/Xsmp/Request.cpp", "src/Xsmp/Publication/Request.cpp", "src/Xsmp/Publication/Operation.cpp", "src/Xsmp/Publication/Property.cpp", "src/Xsmp/Publication/Publication.cpp"],
     [("values", "src/Xsmp/Publication/Request.cpp isValid, AbstractRequest::SetParameterValue, SetReturnValue"),
      ("requests", "src/Xsmp/Publication/Operation.cpp, src/Xsmp/Publication/Property.cpp, src/Xsmp/Publication/Publication.cpp CreateRequest, DeleteRequest"),
      ("reading", "src/Xsmp/Request.cpp")],
     "Value contracts have no bound; requests are bounded to two parameters and a return value, arrays to two items. NaN bounds of floating-point types are not looked at.", level="other")
