"""The properties: id, title, statement, over, quantifier, why tests cannot settle it, files, mechanism."""

P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over.split(), "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files.split(),
                "mechanism": [{"name": m.split("@")[0].strip(), "where": m.split("@")[1].strip()} for m in mech],
            },
        }
    )


# ---- clock, tasks
p("C01", "The clock only advances when everything in the cycle has run",
  "The DUT is stepped, by exactly one cycle, only when no task of the test can run any more and the end-of-cycle work (model hooks, delayers) has nothing left to do. "
  "Each step is followed, without a suspension in between, by exactly one set-and-clear of the clock event, and no step happens before the test has started.",
  "schedules", "every number of tasks, every interleaving of their suspensions and every end-of-cycle callback, for every cycle",
  "the tests run a handful of tasks on one fixed interleaving; a clock that steps too early only shows when a task is still runnable at the moment of the step",
  "toffee/asynchronous.py", ["clock loop @ toffee/asynchronous.py:start_clock", "end-of-cycle execution @ toffee/asynchronous.py:execute_all_coros"])
p("C02", "Event, queue and sleep mark that a task has run",
  "After every completed wait of an event, put or get of a queue, and sleep of the package, the clock knows that a task has just run and does not step before looking again. "
  "They keep the results and the behaviour of the asyncio primitives they replace.",
  "schedules programs", "all uses of the primitives by tasks of a test, in any order",
  "a forgotten mark loses a cycle only on interleavings where the woken task is not otherwise seen",
  "toffee/asynchronous.py", ["Event.wait, Queue.put, Queue.get, sleep @ toffee/asynchronous.py"])
p("C03", "End of a test and failing tasks",
  "A finished test hands its result to the caller after one further clock cycle in which all outstanding work runs, and the clock then cancels every task that is left, whatever these tasks do about it. "
  "A task that fails stops the event loop through the installed exception handler rather than being lost.",
  "schedules histories", "every test coroutine or function, with and without an environment factory, with any number of tasks still running",
  "tests that pass leave no task behind; whether a late task is run or cancelled needs a task that is still waiting at the end",
  "toffee/asynchronous.py", ["main_coro, cancel_all_tasks, handle_exception @ toffee/asynchronous.py"])
p("C04", "gather returns all results in the order of its arguments",
  "gather starts all its coroutines before it waits for any of them and returns the list of their results in the order in which they were given.",
  "schedules inputs", "any number of coroutines finishing in any order",
  "the tests gather coroutines that finish in the order in which they are given",
  "toffee/asynchronous.py", ["gather @ toffee/asynchronous.py"])
p("C05", "Components start with the clock",
  "The main function of a component (or model) runs exactly once, and only after the first clock cycle that follows the start of the clock, no matter whether the component is created before or after the clock.",
  "schedules", "creation of the component before or after start_clock",
  "tests create their components in one order only",
  "toffee/asynchronous.py", ["Component @ toffee/asynchronous.py"])
# ---- triggers
p("T01", "ClockCycles waits exactly the requested number of cycles",
  "Waiting for N clock cycles (or stepping a bundle by N) returns after exactly N clock events of the given item, for a DUT, a pin, a bundle or any other clocked item.",
  "inputs", "all N and all kinds of items", "tests use one or two values of N on one kind of item",
  "toffee/triggers.py", ["ClockCycles @ toffee/triggers.py"])
p("T02", "Edge triggers return on the first matching edge and on nothing else",
  "RisingEdge returns after the first clock cycle in which the pin has gone from zero to non-zero, FallingEdge from non-zero to zero, and Change in which its value is not that of the call; none of them returns before. "
  "Every cycle is examined, and a pin that goes back and forth is judged cycle by cycle.",
  "inputs histories", "all sequences of pin values of any length",
  "tests sample a few fixed waveforms; missed or spurious edges need particular sequences such as a glitch back to the start value",
  "toffee/triggers.py", ["RisingEdge, FallingEdge, Change @ toffee/triggers.py"])
p("T03", "Value, AllValid and Condition return as soon as they hold",
  "After the given minimum number of cycles (one by default, zero allowed) Value returns in the first cycle in which the pin has the target value, AllValid in the first in which all given pins are non-zero, Condition in the first in which the function is true, that of the minimum included. "
  "While it is not so they wait one clock event at a time.",
  "inputs histories", "all pin values, numbers of pins, functions and histories",
  "tests cover one waveform per trigger; partial validity and truth at the call are not combined",
  "toffee/triggers.py", ["Value, AllValid, Condition @ toffee/triggers.py"])
# ---- executor
p("E01", "Executor runs groups in parallel and a group in order, results complete",
  "Every coroutine given to an executor runs exactly once; those of a group run one after another in the order in which they were given, groups run side by side. "
  "The results map each group to its single result or to the list of results in that order, driver calls without a group being grouped by agent and method.",
  "programs schedules", "all assignments of coroutines to groups and all completion orders",
  "the tests use few shapes of groups with fixed delays",
  "toffee/executor.py", ["Executor @ toffee/executor.py"])
p("E02", "Exit conditions of an executor",
  "Leaving the block waits for all groups with 'all', for the first finished group with 'any', and for none with 'none'; every other exit condition is refused with ValueError. "
  "Afterwards wait_all waits for everything that still runs, and then the results of all groups are there; if a group failed, its exception is raised instead.",
  "programs schedules", "all groups and completion orders for each exit condition",
  "tests check one timing per exit condition",
  "toffee/executor.py", ["Executor.__aexit__, wait_all @ toffee/executor.py"])
p("E03", "Priority and order given with a call count for that call only",
  "A priority or a schedule order given to the executor for a driver call decides, for that call and no other, when its model hooks run among those of the same cycle, and whether before or after the DUT. "
  "Priorities outside 0..99, and priorities or orders for something that is no driver, are refused.",
  "programs schedules", "all combinations of calls, priorities and orders in a cycle, including several calls of the same driver",
  "tests use one priority per driver; leaking into the next call needs two calls of one driver in a particular order",
  "toffee/executor.py toffee/_base_agent.py", ["Executor.__call__ @ toffee/executor.py", "process_driver_call @ toffee/_base_agent.py"])
# ---- hooks and comparison
p("H01", "Hooks of a cycle run once, in the order of their priorities",
  "All model hooks that become due in a cycle run exactly once in that cycle, the smaller priority first and equal priorities in the order of the calls. "
  "A failing hook neither runs again nor leaves work behind that a later cycle or test executes.",
  "programs schedules fault_sequences", "all sets of hooks and priorities due in a cycle, with any of them failing",
  "tests never let a hook fail and use few priorities",
  "toffee/executor.py", ["priority task list @ toffee/executor.py:add_priority_task"])
p("H02", "A driver call drives the DUT once and every attached model once",
  "A call of a driver method runs the DUT's driver exactly once with the call's arguments and returns its result; each attached model sees the call exactly once through its matching hook or port. "
  "A driver hook gets the arguments as given, an agent hook or agent port the path and all arguments by name with defaults, a driver port the single value or all arguments by name; hooks run before or after the DUT as they ask.",
  "inputs programs", "all arguments (positional, by name, defaulted), all combinations of hooks and ports, all numbers of attached models",
  "tests use one model with one kind of hook at a time and few argument shapes",
  "toffee/_base_agent.py", ["Driver.process_driver_call @ toffee/_base_agent.py"])
p("H03", "Every model result is compared with the DUT's result",
  "After a driver call each result other than None of each model hook is compared with the result of the DUT, and the first difference makes the call fail and is logged as an error. "
  "A result of None is not compared, and equal results never fail.",
  "inputs programs", "all results of the DUT and of any number of hooks, before and after the DUT",
  "tests compare results of a single hook",
  "toffee/_base_agent.py toffee/_compare.py", ["compare_once @ toffee/_compare.py", "background_exec @ toffee/_base_agent.py"])
p("H04", "A monitored value reaches every hook and port of every model once",
  "Each value other than None returned by a monitor method is delivered exactly once to every matching monitor hook, monitor port, agent hook and agent port of every attached model, agent hooks and ports receiving the path as well. "
  "None is delivered to nobody, and one monitor step is made per call of the method.",
  "inputs programs", "all monitored values and all combinations of hooks, ports and models",
  "tests attach one or two consumers",
  "toffee/_base_agent.py", ["Monitor.process_monitor_call @ toffee/_base_agent.py"])
p("H05", "Monitored values are queued in order up to the requested size",
  "After start_monitor, calling the monitor method returns the monitored values in the order in which they were produced, monitor_size tells how many wait, and nothing is queued before. "
  "With a full queue the new value is dropped with an error message, and the monitor goes on.",
  "histories inputs", "all sequences of monitored values and reads, all queue sizes",
  "tests never fill a queue of an agent used without an environment",
  "toffee/_base_agent.py toffee/agent.py", ["Monitor.enable_get_queue @ toffee/_base_agent.py", "Agent.start_monitor @ toffee/agent.py"])
# ---- models and env
p("M01", "Hooks and ports are connected to exactly the methods they name",
  "Attaching a model connects each hook and port to exactly those driver and monitor methods of the environment's agents that its path, agent name, list of agents or list of methods selects. "
  "A name that is not given is taken from the attribute, double underscores standing for dots, for hooks and ports alike.",
  "programs configurations", "all ways to name targets, on hooks and ports of each kind, in environments with several agents",
  "tests use a few of the naming forms on one agent",
  "toffee/env.py toffee/model.py", ["Env.attach @ toffee/env.py", "decorators and ports @ toffee/model.py"])
p("M02", "A model that does not fit the environment is refused",
  "Attaching fails with ValueError if a driver or monitor hook or port matches no method, an agent port matches no agent, or a listed agent or method does not exist. "
  "What an earlier attachment of the same model matched does not count.",
  "programs configurations histories", "every kind of hook and port with a name that exists nowhere, alone or beside matching ones, at the first or a later attachment",
  "tests check a few failing names at a first attachment",
  "toffee/env.py toffee/model.py", ["ensure_all_matched @ toffee/model.py", "Env.__ensure_model_match @ toffee/env.py"])
p("M03", "Detached models receive nothing; a model belongs to one environment",
  "After a model is detached none of its hooks or ports is served by the environment, all other models stay connected, and it can be attached again, to the same environment or another. "
  "Attaching a model that is attached elsewhere takes it away from there first; detaching a model that is not attached only logs an error.",
  "histories", "all sequences of attach and detach of any number of models and environments",
  "tests attach a model once and never detach it",
  "toffee/env.py toffee/model.py", ["Env.attach, Env.unattach @ toffee/env.py"])
p("M04", "Agents and environments know exactly their methods and agents",
  "The drivers and monitors of an agent are exactly the decorated methods which its class has by itself, by inheritance or from a mixin, each listed once and found by its name; a method that overrides another takes its place, and may call it as part of its own call. "
  "The agents of an environment are exactly the agents among its attributes after it has been set up, also by subclasses, each known by the name of its attribute.",
  "inputs programs", "every class hierarchy of agents and environments, with decorated, plain, inherited, overridden and mixed-in methods",
  "the tests define their agents in one class each, and never override or mix in a method",
  "toffee/agent.py toffee/env.py", ["Agent.all_driver_method, all_monitor_method, get_driver_method, get_monitor_method @ toffee/agent.py", "Env.all_agent_names @ toffee/env.py"])
p("M05", "Ports hold at most their size and never block the agent",
  "A port queues values in order up to its size (any number with -1); a value that does not fit is dropped with an error message and the caller goes on at once. "
  "Sizes other than -1 and the positive numbers are refused.",
  "inputs histories", "all sizes and all sequences of puts and gets",
  "a blocking put only shows when a port overflows",
  "toffee/model.py", ["Port.put @ toffee/model.py"])
p("M06", "Hook decorators accept valid settings only",
  "Hooks take priorities 0 to 99 and the orders model_first and dut_first and refuse everything else, as well as contradictory ways to name the target. "
  "What is accepted is what scheduling uses later.",
  "inputs", "all priorities, orders and combinations of naming arguments for each decorator and port",
  "tests decorate with valid settings",
  "toffee/model.py", ["agent_hook, driver_hook, monitor_hook @ toffee/model.py"])
# ---- bundles
p("B01", "Each binding method maps names as documented",
  "from_prefix, from_dict and from_regex (given to an instance or a class) and the default connect each signal of a bundle to exactly the DUT pin that prefix, dictionary or pattern says, and sub-bundles combine their own rule with that of their parent. "
  "A prefix is stripped, a dictionary maps its value to its key, the captured groups of a pattern are joined; sub-bundles match the name that the rule of their parent left.",
  "configurations inputs", "all signal names, prefixes, dictionaries and patterns, with nested bundles and lists",
  "tests bind a few bundles with fixed names",
  "toffee/bundle.py", ["Bundle.bind, from_prefix, from_dict, from_regex @ toffee/bundle.py"])
p("B02", "Operations on a bundle reach all members of every kind",
  "Every operation on a whole bundle (binding, bulk reads and writes, write modes, listings, members by name) treats single signals, lists of signals, sub-bundles and lists of sub-bundles alike, at every depth, each member exactly once.",
  "configurations", "all bundle structures of any depth", "tests use bundles with a few kinds of members; lists are rarely combined with nesting",
  "toffee/bundle.py", ["traversals @ toffee/bundle.py:Bundle"])
p("B03", "Bulk writes touch connected, writable pins only",
  "set_all and randomize_all write exactly the connected pins that the DUT does not drive, one value each; outputs of the DUT, excluded signals and signals without a connection are left alone. "
  "Random values are drawn per pin from the given range or the range of the pin's width.",
  "configurations inputs", "all bundles, pin directions and connection states",
  "tests have input pins only or look at few pins",
  "toffee/bundle.py", ["set_all, randomize_all @ toffee/bundle.py"])
p("B04", "assign writes exactly the named signals",
  "assign writes each given value to the signal named, nested or given with dotted names, and to nothing else except the signals covered by '*'. "
  "Names that do not exist are reported by a log message and the caller's data is not changed.",
  "inputs configurations", "all nested and flat dictionaries, with and without '*', on all bundles",
  "tests assign a few fixed dictionaries",
  "toffee/bundle.py", ["assign @ toffee/bundle.py"])
p("B05", "Unconnected signals fail loudly or not at all, as allowed",
  "Binding with unconnected access forbidden makes every later access to an unconnected signal an error; where allowed, such signals read as None and ignore writes. "
  "Binding never fails because of a missing pin and reports each missing signal by a log message.",
  "configurations", "all subsets of missing pins in nested bundles and lists",
  "tests bind complete DUTs, or miss one signal",
  "toffee/bundle.py", ["DummySignal, UnconnectedSignal, bind @ toffee/bundle.py"])
p("B06", "Binding again behaves like a first binding",
  "A bundle bound a second time, to the same or another DUT and perhaps by another rule, is connected exactly as if it had only been bound the second time: its signals, writes and the users counted at the pins of both DUTs. "
  "Requests are applied once per cycle however often it was bound.",
  "histories configurations", "all bundles and all pairs of DUTs", "tests bind each bundle once",
  "toffee/bundle.py", ["bind @ toffee/bundle.py"])
p("B07", "Requests are driven in order, one per cycle, and answered completely",
  "process_requests applies each request before one clock cycle, in the given order and without losing or repeating one, and returns the observed bundle values of each request that asks for them in the same order. "
  "It returns only when all requests have been applied, leaves the caller's requests as they are, and answers a request given several times each time.",
  "inputs histories", "all lists of requests and options", "tests drive short lists of requests",
  "toffee/bundle.py", ["process_requests @ toffee/bundle.py"])
p("B08", "Bundle instances are independent of each other",
  "Creating, binding or writing one instance of a bundle class never changes another instance of it, including their sub-bundles and lists, unless the caller shares a member.",
  "histories configurations", "any number of instances of any bundle class", "tests create one instance of each class at a time",
  "toffee/bundle.py", ["Bundle.__new__ / __init__, BundleList @ toffee/bundle.py"])
p("B09", "Stepping a bundle waits for the clock of its DUT",
  "Once a bundle is connected to any signal of a DUT, directly or in a list, a sub-bundle or a list of sub-bundles, stepping it by N returns after exactly N cycles of that DUT's clock. "
  "The same holds for each connected part of it.",
  "configurations inputs", "all bundles, all places of the only connected signal, all N", "tests do not step bundles",
  "toffee/bundle.py", ["step @ toffee/bundle.py"])
p("B10", "Reading a bundle as data and writing it back is consistent",
  "as_dict names the same signals with the same nesting that assign understands, flat or nested, so that assigning what was read restores every writable signal. "
  "The values are those of the pins at the call.",
  "configurations inputs", "all bundle structures and values", "tests compare one dictionary",
  "toffee/bundle.py", ["as_dict, assign @ toffee/bundle.py"])
p("B11", "Write modes reach every pin of the bundle",
  "Setting the write mode of a bundle makes writes of each connected pin below it immediate, on the rising or on the falling edge, and nothing else. "
  "set_write_mode_as_imme, _as_rise and _as_fall select the mode of their name.",
  "configurations", "all bundles and modes", "tests look at no write mode",
  "toffee/bundle.py", ["set_write_mode @ toffee/bundle.py"])
p("B12", "Looking for connections does not connect",
  "detect_connectivity, detect_specific_connectivity and all_signals_rule say of any name whether a pin of this name would be connected (to a given signal) by the current rules, just as binding then does, without changing the bundle, its signals or the DUT.",
  "configurations", "all bundles and rules", "tests call them on unbound bundles of one shape",
  "toffee/bundle.py", ["detect_connectivity and relatives @ toffee/bundle.py"])
p("B13", "The users of each pin of a DUT are known",
  "At any time, detect_unconnected_signals names exactly those pins of a DUT which no bundle is connected to, and detect_multiple_connections those which more than one bundle is connected to, whichever bundles were bound, bound again or moved to another DUT before.",
  "histories configurations", "all sequences of bindings of any bundles to any DUTs", "tests count the users after binding one or two bundles",
  "toffee/bundle.py", ["detect_unconnected_signals, detect_multiple_connections @ toffee/bundle.py"])
# ---- delay
p("D01", "A delayer shows the source value of N cycles ago",
  "Once a cycle has settled, a delayer over N cycles shows the value which its source had N cycles before, or None while there is no such cycle, for every N. It samples the source exactly once per cycle, whatever else runs in it. "
  "Delayers do not influence each other.",
  "histories inputs", "all sequences of source values, all N, any number of delayers", "tests use one delayer with one delay",
  "toffee/delay.py toffee/asynchronous.py", ["Delayer @ toffee/delay.py"])
# ---- functional coverage
p("F01", "Coverage conditions mean what they say",
  "The provided conditions (equal, greater, at most, in, is in range and so on) hold for exactly those values of the watched target that their names say.",
  "inputs", "all values and bounds", "tests sample a few values per condition",
  "toffee/funcov.py", ["CovEq and relatives @ toffee/funcov.py"])
p("F02", "Coverage counts each bin that is hit",
  "Every counted sample adds one to the count of each bin whose conditions (all of them, for a list) hold for the target, and nothing to any other; a point is covered once each of its bins has been hit, the group once all its points are. "
  "Resetting a point sets its counts back to zero and leaves the others alone; clearing removes everything.",
  "inputs histories", "all sequences of samples, bins and thresholds", "tests sample a few times on few bins",
  "toffee/funcov.py", ["CovGroup.sample @ toffee/funcov.py"])
p("F03", "Samples are counted unless the group is stopped or complete",
  "A sample changes no count while the group is stopped, and after it has been resumed samples count again on top of what was there. "
  "A group also stops counting by itself when all its points are covered and all of them are to be sampled only until then; adding or resetting a point makes it count again. "
  "sample_stoped tells which of both is the case.",
  "histories", "all sequences of stop, resume, sample, adding and resetting of points", "tests do not interleave stop and resume",
  "toffee/funcov.py", ["stop_sample, resume_sample @ toffee/funcov.py"])
p("F04", "Coverage reports agree with the counts",
  "The report of a group lists each point and bin with its count and covered flag, and its totals are the numbers of points, of covered points, of bins, of bins that were hit, of counted samples and of calls of sample; it also says whether any point is sampled only until it is covered and whether the group is stopped. "
  "Functions marked for a bin are listed with it, and making a report changes nothing.",
  "histories", "all groups and all sample histories", "tests look at few fields of a report",
  "toffee/funcov.py", ["as_dict, report @ toffee/funcov.py"])
p("F05", "Watch points are registered as given or refused",
  "Adding a watch point stores the target, bins and options given with counts of zero; bins that are not callable (or lists of callables) and names in use are refused with ValueError and leave the group as it was. "
  "Deleting, resetting or asking for an unknown point is refused as well.",
  "inputs", "all shapes of bins, names and options", "tests add well-formed points with a name",
  "toffee/funcov.py", ["add_watch_point @ toffee/funcov.py"])
p("F06", "Marked functions are recorded with the right points",
  "Marking a function for a point records it for exactly those bins whose names are given or match a given wildcard or regular expression, in addition to what is recorded already, and samples and resets leave it recorded. "
  "A name that matches no bin is refused, an unknown point is refused or ignored as asked.",
  "inputs", "all points, bin patterns and functions", "tests mark one function",
  "toffee/funcov.py", ["mark_function @ toffee/funcov.py"])
# ---- logging and small utilities
p("L01", "Logging is set up as requested",
  "setup_logging makes the package's logger and its targets (console and file, as asked) use exactly the level and format given, and statistics are always collected. "
  "Targets of an earlier set-up are removed, so each message reaches each target once, and formatting for one target does not change the message for the others.",
  "configurations histories", "all combinations and repetitions of set-up calls", "tests set up logging once",
  "toffee/logger.py", ["setup_logging @ toffee/logger.py"])
p("L02", "Log statistics count each message once by its level",
  "The statistics of logged messages count each message exactly once under its level, and the summary tells them.",
  "histories", "all sequences of messages", "tests look at no statistics",
  "toffee/logger.py", ["StatsHandler @ toffee/logger.py"])
p("U01", "The pseudo-random register steps through its full period",
  "The 64-bit linear feedback shift register keeps 64 bits, steps by its polynomial, and never reaches zero from a value other than zero.",
  "inputs", "all 2^64 states", "tests step a few times",
  "toffee/utils/lfsr_64.py", ["LFSR_64 @ toffee/utils/lfsr_64.py"])
p("U02", "The pseudo-LRU tree never evicts what was used last",
  "For a power of two of ways, the way chosen for replacement is a valid way and never the one that was used last; using a way changes only the bits on its path.",
  "inputs histories", "all states, numbers of ways (powers of two) and ways", "tests use one tree",
  "toffee/utils/plru.py", ["PLRU @ toffee/utils/plru.py"])
p("U03", "The two-bit counter saturates",
  "The two-bit counter stays within 0..3, counts up and down by one, saturates at both ends and predicts taken in its upper half.",
  "inputs", "all states and updates", "tests use one sequence",
  "toffee/utils/two_bits_counter.py", ["TwoBitsCounter @ toffee/utils/two_bits_counter.py"])
# ---- debug, scripts, package
p("G01", "Debugger commands act on the named signal and keep it writable",
  "The debugger's force command forces exactly the named signal to the given value, and its release command releases exactly the named signal; both leave the signal's filtering of equal writes switched on and update the DUT's combinational logic. "
  "A command with missing or malformed arguments, or naming no signal, changes nothing in the DUT, and says so where it has arguments. "
  "The printing command shows the named signal's value in the base asked for, the listing command every signal the DUT lists, and the step command steps the given number of cycles, one by default.",
  "histories", "all argument strings and all signals", "no test uses the debugger",
  "toffee/debug.py", ["debug helpers @ toffee/debug.py"])
p("N01", "A test whose own coroutines end comes to an end",
  "If the test function and everything it waits for needs finitely many clock cycles, run returns after finitely many steps of the event loop.",
  "schedules histories", "all tests and all fair schedules of the event loop", "a test that hangs is seen as a time-out of that one test",
  "toffee/asynchronous.py", ["execute_all_coros, __clock_loop, run @ toffee/asynchronous.py"])
p("N02", "The same test on the same DUT gives the same run",
  "Repeating a test with the same seed gives the same order of driver calls, hooks and messages.",
  "schedules", "all tests, all Python versions and hash seeds", "a run is compared with nothing",
  "toffee/asynchronous.py toffee/executor.py toffee/env.py", ["execute_all_coros @ toffee/asynchronous.py", "Executor @ toffee/executor.py"])
p("N03", "Long tests do not grow",
  "The memory that the package holds is bounded by what the test has pending (tasks, queued values, ports), and does not grow with the number of cycles that have passed.",
  "histories", "all tests of any length", "the tests run for a few cycles",
  "toffee/executor.py toffee/delay.py toffee/_base_agent.py", ["__priority_tasks @ toffee/executor.py", "Delayer @ toffee/delay.py", "Monitor @ toffee/_base_agent.py"])
p("A01", "Everything the package refers to exists and fits",
  "On no path does the package's own code refer to something that nothing defines: a name, an import or export, an attribute of a module or of its own objects; and each of its calls of its own functions and methods fits their parameters. "
  "So no operation, however rare, ends with NameError, ImportError, AttributeError or TypeError for that reason.",
  "programs histories", "all functions and methods of all modules, on all paths", "paths no test takes fail only for the user who takes them",
  "toffee/__init__.py", ["all modules @ toffee/*.py"])
