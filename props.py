"""The properties: statement, anchors, technique.  meta.py turns this into properties.jsonl and MANIFEST.json."""
PROPS = []
def P(id, title, statement, over, qtext, tests, files, mech, technique=None, note=None, na=None, state=(), observe=()):
    p = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=tests,
             anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]})
    if state: p['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: p['anchors']['observe_at'] = list(observe)
    if na: p['na'] = na
    else: p['technique'] = technique; p['note'] = note
    PROPS.append(p)
L = 'src/libkiter/'

D = L + 'models/Dataflow.h'

P('C01', 'A changed graph forgets everything computed from its old shape',
  'A repetition vector, a normalisation or a remembered channel fact (such as a channel\'s rate GCD) that a dataflow graph reports was computed from the tasks, channels, rates and phase counts the graph has now. Every edit of these (adding or removing a task or channel, changing rates or phase counts) is either refused or leaves all such results marked as not computed and the remembered facts dropped; re-opening a graph for editing discards all of them. No sequence of edits and analyses lets a later read return a value derived from the earlier graph.',
  ['histories', 'inputs'], 'every sequence of edits and analyses on one graph object, for every graph',
  'the tests build a graph once, analyse it once and never edit an analysed graph; the edit/analyse interleavings are unbounded',
  [D, L + 'models/repetition_vector.cpp', L + 'algorithms/normalization.cpp'],
  [('reset_computation', D), ('done flags', D)],
  'typestate analysis: path-sensitive finite-state interpretation of every mutator over the flag states, with the dependency set computed from the reads of the derived computations',
  'For every path of every mutator, over all flag states allowed by the class invariant; the set of properties results depend on is computed from the code. Trusts the clang front end and that the graph is private to its class (checked by C02).')

P('C02', 'A frozen graph refuses every edit',
  'Once a graph is read-only (frozen explicitly, or because its repetition vector or normalisation was computed), no operation of the graph class returns normally after changing its tasks, channels, rates, durations, phases, initial tokens, names, ids or other graph properties: the operation is refused before it returns. A value already computed (repetition count, normalisation factors) is never overwritten, freezing always leaves the graph frozen, and only the explicit re-opening operation makes a frozen graph editable again. Attaching a source file name or a network description stays possible.',
  ['histories', 'inputs'], 'every edit operation of the graph class, in every frozen state, on every path',
  'a test can try a few setters on a frozen graph; it cannot show that none of the roughly fifty edit operations has a path that gets through',
  [D], [('ASSERT_WRITABLE guards', D), ('reset_computation', D)],
  'typestate analysis: every method of the graph class interpreted path-sensitively from every frozen state; write events (graph properties, structure, members) must not reach a normal exit',
  'All methods of models::Dataflow, all paths, all five flag states. The only exempt members are the file name, the network and cache members.')

P('C03', 'Derived values exist only after a successful computation',
  'A repetition count or a normalisation factor (Zi, alpha) of a graph can be read only when the graph is marked as having it; reading earlier is refused. The mark is raised by the computation alone, only when every step of the computation succeeded; the computation reports success exactly then, and a step that finds the graph inconsistent makes the computation report failure with the mark down. The queries for the marks answer with the mark itself.',
  ['inputs', 'histories'], 'every reader in every state; every path through the computations, whichever step fails',
  'tests exercise consistent graphs and a handful of inconsistent ones; a dropped failure verdict in one step only shows on graphs that fail exactly there',
  [D, L + 'models/repetition_vector.cpp', L + 'algorithms/normalization.cpp'],
  [('ASSERT_REPETITION_VECTOR / ASSERT_NORMALIZED', D), ('computeRepetitionVector', L + 'models/repetition_vector.cpp'), ('normalize', L + 'algorithms/normalization.cpp')],
  'typestate analysis of the readers, plus path-sensitive verdict propagation through the computations: a failed step may not be followed by a raised mark or a true result',
  'All reader methods in all flag states; all paths of the two computations with every fallible step forked into success and failure.')

P('C04', 'Every command follows the graph protocol',
  'No registered command, started on any graph state, reaches the read of a repetition vector or normalisation that is not computed at that point (which would abort the command whatever the input), and no command started on a freshly loaded graph contains an edit that is refused on every path leading to it. Commands compute what they read, and re-open a graph (or work on a fresh copy) before they change it.',
  ['inputs', 'histories'], 'every registered command, from a fresh graph and from every frozen or computed state, over all paths and call chains',
  'only a few commands are exercised by the tests, and only on fresh graphs; the order of compute, copy, re-open and edit calls depends on input-driven branches',
  [L + 'algorithms/', L + 'generators/', L + 'printers/', 'src/kiter/main.cpp', D],
  [('ADD_TRANSFORMATION entries', L + 'commons/KiterRegistry.h'), ('ASSERT_REPETITION_VECTOR', D)],
  'interprocedural typestate analysis: finite-state interpretation of all commands with function summaries per (function, graph states); class methods interpreted from their bodies',
  'All registered commands, all paths; graphs held in containers or re-pointed pointers are not tracked. Edits are reported only when no path gets through.')

P('C05', 'Times, token counts and execution counts keep their range and precision',
  'A value of one of the quantity types (times, token counts, execution counts, buffer sizes) is never stored or passed on in a narrower integer or in single precision; a time becomes an integer only by an explicit floor, ceil or round, or where the same value was tested to be integral. Sums of quantities are accumulated in the quantity\'s own type, quantities are not parsed through a narrower type, a product of two variables is not computed in a narrower integer and a quotient is not truncated before becoming a quantity. Container positions, text layout and bounds of random distributions are not concerned.',
  ['inputs'], 'every numeric conversion and accumulation of a quantity, for every magnitude of the rates, durations and counts',
  'the graphs of the tests have small rates and integral durations, for which a value cut to 32 bits or to its integral part is still right',
  [L + 'commons/basic_types.h', D, L + 'algorithms/', L + 'models/'],
  [('quantity types', L + 'commons/basic_types.h'), ('K-periodic constraints', L + 'algorithms/schedulings.h'), ('cumulated rates', D)],
  'type-qualifier analysis over the type-checked syntax tree: every implicit or explicit conversion whose operand is typed as a quantity is checked against the range of its destination and the rounding functions in between',
  'All conversions in all functions. A quantity is recognised by its declared type (or that of the container it comes from); one copied into a plain variable of the same width with an explicit builtin type is not followed.')

P('C06', 'Diagnostics never influence results',
  'The verbosity level and the build mode select what is printed, not what is computed: code that runs only at some verbosity (or only in debug builds) changes no graph, schedule, parameter, or variable that other code reads, and does not skip, return from, or leave the computation around it.',
  ['inputs', 'histories'], 'every verbosity-dependent statement and every diagnostic that release builds compile out',
  'the tests run at one verbosity in one build mode; a diagnostic with a side effect behaves the same there',
  ['src/'], [('VERBOSE_* macros', L + 'commons/verbose.h')],
  'interprocedural write-effect analysis over the debug-mode syntax tree: regions controlled by the verbosity, and arguments of compiled-out macros, may only write output streams and variables no other code reads',
  'All functions of the sources, debug build (a superset of the release statements). Reads of a map through operator[] are not treated as effects.')

P('C07', 'A run that fails says so in its exit status',
  'Library code never ends the process with the success status: every call outside the program\'s main file that ends the process passes a status that is not the constant zero. Every failure and assertion macro ends the process or throws whenever it fires; none lets the computation go on. In the main file, no path on which a command or input look-up came back empty (null) ends with status zero.',
  ['inputs', 'fault_sequences'], 'every statement that ends the process, every failure macro expansion, every path through the main file',
  'the scripts that drive kiter rely on the status; the tests only run inputs on which nothing fails',
  ['src/'], [('FAILED / VERBOSE_ASSERT / VERBOSE_FAILURE', L + 'commons/verbose.h'), ('main', 'src/kiter/main.cpp'), ('exit calls', L + 'models/NoCGraph.cpp')],
  'effect query over all process-ending calls and failure-macro expansions, plus path-sensitive nullness typestate of the main file',
  'All functions of the sources in release mode. Statuses computed at run time are taken as meant.')

P('C10', 'Rates and durations are addressed with the phases of the task they belong to',
  'The production rates of a channel are addressed with phases of its source task, its consumption rates with phases of its target task, durations (and maps keyed by task and phase) with phases of that very task, and schedule events of a task with phases and executions of that task, never with an index that runs over the task at the other end of the channel, nor with initial phases where periodic ones are meant. Counted phase indices run from 1 to at most the phase count (from 0 to at most the size less one in plain vectors).',
  ['inputs'], 'every access to a per-phase value, for every combination of phase counts of the two ends of a channel',
  'most test graphs have one phase per task or equal phase counts at both ends, where addressing the wrong end is invisible',
  [D, L + 'algorithms/', L + 'printers/', L + 'generators/'],
  [('per-phase accessors', D), ('K-periodic constraints', L + 'algorithms/throughput/kperiodic.cpp'), ('buffer sizing constraints', L + 'algorithms/buffersizing/')],
  'dimension (role) inference over the syntax tree: equivalence classes of tasks and channel ends per function, indices tied to a class by loop bounds, modulo and counts (through parameters at the call sites), plus interval analysis of counted indices',
  'All per-phase accesses in all functions; about 20 accesses whose index comes from outside the function and most vectors handed to setters are not tied to a task and not judged.')

P('C14', 'Nothing is read before it was given a value',
  'No function reads a local scalar, enumeration, iterator or pointer variable, or a scalar field of a local object without constructor, that has not been given a value on the path taken. No function that returns a value can reach its end without returning one. Every constructor gives each scalar or pointer member a value, or the members it leaves out are set before any method reads them.',
  ['inputs'], 'every path of every function, every constructor',
  'a read of an unset variable usually yields the value left there by the previous call, so the tests pass; which path is taken depends on the graph',
  ['src/'], [('local variables', L + 'algorithms/'), ('constructors', L + 'models/')],
  'path-sensitive definite-assignment dataflow over the control-flow graphs, reachability of the function end, and constructor/member initialisation with method summaries',
  'All functions of the sources in release mode. Passing a variable by non-const reference counts as giving it a value; array elements are not tracked one by one.')

P('C17', 'A look-up that finds nothing is never used as if it had',
  'The result of looking something up by key in a container (find, count) is used as an element only on paths where the look-up is known to have succeeded: an iterator that may be the end iterator is never dereferenced and an absent command parameter is never converted to a number. A pointer or channel handle that a look-up or loader may return as null is compared with null before it is dereferenced or handed to code that uses it.',
  ['inputs', 'histories'], 'every find/count look-up and every nullable look-up or loader result, on every path',
  'tests provide inputs where the key is there; the missing key appears with inputs and parameters the tests do not have',
  ['src/'], [('parameter look-ups', L + 'algorithms/'), ('command look-up and loading', 'src/kiter/main.cpp'), ('map and set look-ups', L)],
  'path-sensitive typestate of look-up results (found / not found / unknown) and nullness analysis with function summaries',
  'All functions of the sources; iterators passed on to other functions without being dereferenced are not followed.')

P('C13', 'Results do not depend on earlier runs in the same process',
  'What an analysis, transformation, generator or printer computes depends on its graph and parameters alone, not on what ran before it in the same process: no variable of static storage (global, static member or static local) is read or extended by a command, or by any function that can be called on its own, before that run has emptied or reassigned it, and the initial value of a static local does not depend on the arguments of the first call. Process-wide settings (verbosity), the command registry, the random number generator, the stopwatch, and counters that only number the names of output files and graphs are not covered.',
  ['histories'], 'every sequence of commands and calls in one process, every variable of static storage',
  'every test runs one command per process or looks at one call; state left over shows only when a second analysis follows in the same process, on a particular pair of graphs',
  [L + 'algorithms/', L + 'printers/', L + 'generators/', L + 'commons/', L + 'models/'],
  [('working sets of find_simple_cycles', L + 'algorithms/analysis/cycle_detection.cpp'), ('cycles, cycid_per_vtxid, cyclen_per_vtxid', L + 'algorithms/software_noc.cpp'), ('static locals', L + 'printers/stdout.cpp')],
  'interprocedural must-dataflow (reset before use) with call summaries over every modifiable variable of static storage; every static local\'s initialiser checked for dependence on the call',
  'All functions and all variables of static storage in /repo/src. State kept inside objects that outlive a run (the graph itself) belongs to C01.')

P('C16', 'A step that failed is never taken for a result',
  'When a linear program was not solved (a solver run that returned an error, or a last status other than feasible or optimal: undefined, infeasible, no feasible solution, unbounded), the solve reports failure; the values of a linear program are read only after its solve is known to have succeeded. A buffer sizing that could not be computed is an invalid result, never a valid one of size zero, a valid one is made only from a solved program, and the sizes in it are read only where it is known to be valid. Start offsets are used only when their generation succeeded, and a generation fails when one of its steps fails.',
  ['inputs', 'fault_sequences'], 'every path through every solve, every sizing command and every use of their results',
  'the linear programs of the tests are feasible; infeasible, unbounded or degenerate programs appear with periods and graphs the tests do not have',
  [L + 'lp/glpsol.cpp', L + 'algorithms/buffersizing/', L + 'algorithms/buffersizing.h', L + 'algorithms/scheduling/', L + 'algorithms/dse/periodic.cpp'],
  [('GLPSol::solve', L + 'lp/glpsol.cpp'), ('BufferSizingResult', L + 'algorithms/buffersizing.h'), ('offset generators', L + 'algorithms/buffersizing/periodic_fixed.cpp')],
  'path-sensitive typestate analysis of solvers, results and generator verdicts with call summaries; enumeration of the documented solver codes over the paths of the solve',
  'All functions. In the design space exploration a stored size of zero stands for no solution and must be tested positive before it is printed. Which linear program is built is not judged.')

P('C18', 'No handle or iteration is used after the edit that spoiled it',
  'Removing a task renumbers the tasks behind it, removing a channel ends the life of its handle, and adding or removing channels invalidates iterations over the channels of their tasks. So after a task was removed from a graph, no task handle (also one kept in a local container), channel handle or iteration over that graph obtained before is used again; a removed channel is not used again; an iteration that stands on a removed channel, or runs over the channels of a task that gained or lost a channel, is not continued.',
  ['inputs', 'histories'], 'every edit of a graph in every function, with every handle and iteration alive at that point',
  'continuing an invalid iteration often appears to work: it depends on how many channels the task has and on memory reuse; a stale task handle is right for the last task',
  [L + 'algorithms/', L + 'generators/', L + 'printers/', L + 'models/Dataflow.h'],
  [('merging and NoC rewriting', L + 'algorithms/software_noc.cpp'), ('transformations', L + 'algorithms/transformation/'), ('sub-graph extraction', L + 'algorithms/analysis/cycle_detection.cpp')],
  'path-sensitive typestate of graph handles and iterators with call summaries of the edits each function makes',
  'All functions. Handles held in object members, and channel handles in containers, are not followed.')

P('C19', 'A task or channel handle is used with the graph it came from',
  'A handle obtained from one graph (by look-up, iteration or insertion) is passed to methods of that graph only, directly and through called functions; a handle of a graph may be used to read from a direct copy of it, never to change the copy.',
  ['inputs'], 'every use of a handle whose origin is visible, in every function that handles more than one graph',
  'handles are plain numbers and pointers: used with another graph they silently address another task, or change the original instead of the copy; the test graphs are often numbered alike',
  [L + 'algorithms/', L + 'generators/', L + 'printers/'],
  [('transformations that build a new graph', L + 'algorithms/transformation/'), ('graph printers', L + 'printers/'), ('exploration on copies', L + 'algorithms/dse/')],
  'interprocedural origin (provenance) analysis of handles over the type-checked syntax tree',
  'All functions. Handles that arrive in containers or object members without visible origin are not judged (counted in the evidence).')

P('C20', 'Orders are strict and equalities see what identifies a value',
  'Every order used to sort or to keep a sorted container or priority queue is strict: an object is never ordered before an equal one, two objects are never each before the other, and the order is transitive. Where a type has an order and an equality, objects that are not equal are ordered one way. Equality holds between equal objects and inequality is its opposite. Two simulation states are equal only if phases, tokens and remaining execution times are; two events only if task, phase and execution are; two storage distributions only if all channel sizes are.',
  ['inputs'], 'every comparison function and comparison lambda, for every pair or triple of objects',
  'a non-strict order corrupts a sort or a queue only for particular combinations of equal elements; a state comparison that looks at less finds the recurrence too early only on graphs where the ignored part matters',
  [L + 'models/EventGraph.h', D, L + 'algorithms/throughput/state.cpp', L + 'algorithms/dse/buffer_sizing.cpp', L + 'algorithms/software_noc.cpp', L + 'algorithms/mapping/bufferless_utils/GraphMapper.h', L + 'commons/commons.h', L + 'algorithms/scheduling/TDMAScheduler.h'],
  [('SchedulingEvent order', L + 'models/EventGraph.h'), ('State::operator==', L + 'algorithms/throughput/state.cpp'), ('queue order of the mapper', L + 'algorithms/mapping/bufferless_utils/GraphMapper.h')],
  'abstract interpretation of the comparison functions over the order abstraction (less, equal, greater) of the compared quantities; the resulting finite tables are checked against the laws exhaustively',
  'All comparison functions of the sources. Exact for functions without loops; those with loops are checked on equal objects only, Fraction::operator< (continued fractions) is not judged.')

P('C21', 'What is stored is what is read back',
  'Every property written through the interface of the graph models is returned unchanged by the accessor of the same name, on every path, and no two properties share a place. For channels and tasks with phases: the element, size and total returned for rates and durations are those of the vector that was stored, phases up to 0 are the initial phases, the number of phases of the task at the right end of the channel becomes the size of the vector, and a vector whose size is not the number of phases the task already has is refused. New channels connect the given tasks in the given direction and keep the given id and name. Events and constraints of an event graph are read back with the task, phase, execution, weight, duration and channel they were added with. The size of a storage distribution is the sum of the sizes of its channels after every change.',
  ['inputs', 'histories'], 'every accessor of the graph models, every parameter value and every order of calls', 'tests read back a few values, mostly with one phase and no initial phases, where neighbouring elements, ends and totals coincide',
  [D, L + 'models/EventGraph.h', L + 'algorithms/dse/buffer_sizing.cpp', L + 'algorithms/throughput/state.cpp', L + 'algorithms/throughput/actor.cpp'],
  [('setEdgeInPhases and getEdgeInPhase', D), ('addEventConstraint and getConstraint', L + 'models/EventGraph.h'), ('setChannelQuantity', L + 'algorithms/dse/buffer_sizing.cpp')],
  'symbolic summaries of accessors (what is stored where and what is returned, in terms of the parameters, through locals, helpers and conditionals) compared with one another; path analysis over the CFG for stores and refusals that must happen',
  'All accessors whose effect has a closed form; values computed in ways the summaries do not follow are counted as unfollowed and not judged.')

P('C22', 'Symbolic execution moves exactly the tokens the rates say',
  'In a simulated execution a task starts only if every input channel holds the tokens its current phase consumes and, when the channels are bounded, every output channel has room for the tokens it produces, and only if it is not already executing. Starting removes exactly the consumption of the current phase from each input, reserves exactly its production on each output of bounded channels, queues one execution of that phase with the duration of that phase, and counts it. Ending adds exactly the production of the phase that ends to each output, frees exactly its consumption on each input of bounded channels, and removes that execution. This also holds for channels from a task to itself. Channels start with their initial tokens, and with the rest of their size as room. The clock advances with the running executions. Two states are the same only if clock, phases, tokens and running executions are. The dependency recorded for a channel that holds too little goes from the blocked task to the one it waits for.',
  ['inputs', 'histories'], 'every graph, every order of executions, bounded and unbounded channels', 'tests compare the final throughput of a few graphs, without self-loops of different rates and mostly with phases that have equal rates',
  [L + 'algorithms/throughput/actor.cpp', L + 'algorithms/throughput/state.cpp', L + 'algorithms/throughput/symbolic_execution.cpp', L + 'algorithms/dse/'],
  [('Actor::execStart, execEnd, isReadyForExec', L + 'algorithms/throughput/actor.cpp'), ('initial and repeated states', L + 'algorithms/throughput/state.cpp'), ('storage dependencies', L + 'algorithms/throughput/symbolic_execution.cpp')],
  'effect summaries of the simulator (which slot of which channel changes by which amount under which condition, through helpers), compared with the rates of the ends of the channel; path analysis of the readiness and equality tests',
  'Decides the step function of the simulator, not that the exploration terminates nor that the throughput derived from a repeated state is exact. Amounts computed in ways the summaries do not follow are counted as unfollowed and not judged.')

P('C11', 'Task ids, channel ids and numbers of tasks are not confused',
  'A vector indexed by task ids (or channel ids) is sized by the bound of the ids of that kind in the graph (one more than the largest id), not by the number of tasks or channels nor by the bound of the other kind: ids may have gaps. Tasks are looked up by task ids and channels by channel ids; a container keyed by ids is keyed by ids of one kind. A task id is not compared with a channel id, with the number of tasks, or with a bound of channel ids.',
  ['inputs', 'histories'], 'every id, count and bound in every function, for every numbering of tasks and channels',
  'in the test graphs ids are numbered without gaps and there are about as many tasks as channels, so a confused id or a short vector still works by accident',
  [D, L + 'algorithms/', L + 'models/Scheduling.cpp'],
  [('getMaxVertexId / getMaxEdgeId', D), ('token and execution vectors of the simulations', L + 'algorithms/symbolic_execution.cpp'), ('visited vectors of the graph walks', L + 'algorithms/mapping/bufferless_utils/SCCFinder.h')],
  'flow-insensitive kind inference (task id, channel id, count, bound, with constant offsets) through variables, parameters, results, members and containers',
  'All functions. The graph an id belongs to is not tracked here (see C19); the comparison of channel ids with numbers of channels by which the explorations tell modelled buffers from channels is not judged.')

P('C12', 'Ids and names identify tasks and channels',
  'Within a graph no two tasks have the same id or the same name, and no two channels have: giving an id or a name (also on insertion) ends with the element having it, or is refused when another element has it. Looking up by id or name returns an element that has that id or name, or raises an error. The reported bound of the ids is above every id ever given and never goes down.',
  ['histories', 'inputs'], 'every sequence of insertions, removals, renumberings and renamings',
  'tests number and name elements sensibly; a clash needs a particular order of insertions and renumberings',
  [D], [('setVertexId / setEdgeId', D), ('setVertexName / setEdgeName', D), ('look-ups by id and name', D)],
  'path-sensitive typestate of the setters (look-up made, absent, found itself, found another) including exceptional edges; verification of the look-up functions; monotonicity of the id bounds',
  'All methods of models::Dataflow. That the iteration macros visit every element is trusted.')

P('C09', 'A command name selects one command, which gets the parameters meant for it',
  'The names of the registered algorithms, and those of the registered generators, are constant and unique, and each stands for a function of the sources; every command named behind -a or -g on a kiter command line of the documentation and scripts is registered. The registry stores an entry under its own name and never replaces one; a look-up gives the entry of the name asked for, or none if there is none. The main program runs a command with the parameters stored with its name; a parameter given before one command does not reach the next, and does not replace one given for another. Where a command reads a parameter because a parameter was given, it is the one that was tested for.',
  ['inputs', 'configurations'], 'every registered command and every sequence of -g, -a and -p options',
  'the tests call a few commands with a few parameters; registration happens in static initialisers whose order no test fixes, so a doubled name silently loses one command depending on link order',
  [L + 'commons/KiterRegistry.h', 'src/kiter/main.cpp', L + 'printers/', L + 'algorithms/', L + 'generators/'],
  [('KiterRegistry::add and get', L + 'commons/KiterRegistry.h'), ('main', 'src/kiter/main.cpp'), ('ADD_TRANSFORMATION / ADD_GENERATOR', L + 'commons/KiterRegistry.h')],
  'enumeration of the registrations in the type-checked syntax tree of all units; path-sensitive typestate of the registry and of the parameter lists in main',
  'All registrations and all functions that take parameters. Whether a command does what its description says is not part of this property.')

P('C08', 'What is written to a graph file is what is read from it',
  'For the SDF3 files kiter writes: every element and attribute that carries a property of the graph, a task or a channel (names, types, source and target, rates, durations, initial phases, token sizes, initial tokens) is written from the property that the reader stores it into; initial and periodic parts are written and read in the same order and cut at the same separators; every such property that is written is read and every one that is read is written; a port is named as its channel says; elements are properly nested; numbers keep all their digits in both directions; nothing that carries information is left out of the file. A channel is read as a limit on re-entrancy only if it is a loop with exactly one initial token. In the script that the generator of C++ code prints, each setter is given the property it sets and each channel its source before its target.',
  ['inputs'], 'every graph: all tasks, channels, rate vectors, initial phases, names and durations',
  'the round-trip tests use two graphs with whole durations and no initial phases',
  [L + 'printers/SDF3Wrapper.cpp', L + 'printers/stdout.cpp', L + 'commons/commons.cpp', D],
  [('generateSDF3XML / writeChannel', L + 'printers/SDF3Wrapper.cpp'), ('wrapSDF3Dataflow and the readSDF3 functions', L + 'printers/SDF3Wrapper.cpp'), ('generate_kiter', L + 'printers/stdout.cpp')],
  'abstract interpretation of the writer (stack of open elements, provenance of each text) and of the reader (names compared with, provenance of each value) with calls inlined, and comparison of the two tables',
  'All attributes with constant names. Attribute values the reader fills in when they are absent are not compared with what the writer leaves out; reading the file back is not executed.')

P('C15', 'Quantities combined in one formula belong to the same end of a channel',
  'Wherever the repetition count, the number of phases, the periodicity factor K, the repetition factor Zi or the total duration of a task, or the production or consumption of a channel (which belong to its source and its target), are multiplied or divided with one another, they belong to the same task: what is produced goes with the quantities of the source, what is consumed with those of the target. Only ratios or products of the same quantity of both ends, and production divided by consumption, relate the two ends.',
  ['inputs'], 'every channel whose ends differ in repetition count, phases, K or rates',
  'the graphs of the tests are largely symmetric or checked only through a final number; a factor of the wrong end only shows when both ends differ in that quantity',
  [L + 'algorithms/', L + 'models/', L + 'printers/'],
  [('constraints of the throughput and scheduling methods', L + 'algorithms/throughput/'), ('buffer sizing', L + 'algorithms/buffersizing/'), ('normalisation', L + 'algorithms/normalization.cpp')],
  'end inference: factors of every product and quotient are traced to per-task and per-end quantities, through locals, sums and parameters (at each call); the classes of tasks and ends in one term must not be the two ends of one channel',
  'Every product and quotient of the sources; factors that cannot be tied to an end (members of other structures, variables assigned more than once) are counted and not judged.')

# ---------------------------------------------------------------------------------------------- outside static analysis
P('N01', 'The throughput reported is the maximum throughput',
  'For every consistent graph the K-periodic evaluation ends with the exact maximum throughput of the graph, the periodic and single-K variants report a throughput that a schedule of their kind achieves (a lower bound of the maximum), and the symbolic execution reports the same maximum.',
  ['inputs'], 'every consistent graph', 'the tests compare a few benchmark graphs with stored numbers; nothing shows that other graphs get the right value',
  [L + 'algorithms/throughput/', L + 'algorithms/symbolic_execution.cpp'], [('KPeriodic evaluation', L + 'algorithms/throughput/kperiodic.cpp')],
  na='numerical result of an iteration over run-time quantities (cycle ratios); its structural clauses are claimed as C05 (precision), C10 (phases), C11 (ids), C13 (independence of runs), C20 (state equality); the value itself cannot be decided from the source without executing it')
P('N02', 'Schedules respect every channel',
  'In a schedule that kiter prints, no task consumes tokens that have not been produced, and no bounded channel holds more than its size, at any time.',
  ['inputs', 'schedules'], 'every graph, every schedule printed, every time', 'the property concerns infinite executions; tests look at a few start times',
  [L + 'algorithms/scheduling/', L + 'models/Scheduling.cpp'], [('constraints', L + 'algorithms/schedulings.h')],
  na='follows from the numerical solution of the precedence constraints; the addressing of phases, the range of the numbers and the use of verdicts in building them are claimed as C10, C05, C16')
P('N03', 'The repetition vector is the smallest solution of the balance equations',
  'For every consistent graph the repetition vector is the smallest positive integer solution of the balance equations, and inconsistent graphs are the ones refused.',
  ['inputs'], 'every graph', 'tests know the vectors of a few graphs',
  [L + 'models/repetition_vector.cpp'], [('computeRepetitionVector', L + 'models/repetition_vector.cpp')],
  na='an arithmetic property of computed values (minimality of a rational solution); the propagation of inconsistency verdicts is claimed as C03')
P('N04', 'Buffer sizes are sufficient and small',
  'The buffer sizes reported for a period allow a schedule with that period; the sizes of the exact methods are minimal among the schedules considered.',
  ['inputs'], 'every graph and period', 'optimality over all sizes cannot be sampled',
  [L + 'algorithms/buffersizing/'], [('periodic sizing', L + 'algorithms/buffersizing/periodic.cpp')],
  na='optimality of the solution of a linear program built from run-time values; only the use of failed programs (C16), phases (C10) and numeric range (C05) have static shape')
P('N05', 'The design space exploration finds exactly the Pareto front',
  'The storage/throughput pairs reported by the exploration are exactly the Pareto-optimal ones; with a time limit or restart, a subset that is completed by continuing.',
  ['inputs', 'histories'], 'every graph, every restart point', 'completeness of a search cannot be sampled',
  [L + 'algorithms/dse/'], [('explorations', L + 'algorithms/dse/')],
  na='completeness of a search over run-time values; order and equality of storage distributions (C20) and stored no-solution values (C16) are claimed')
P('N06', 'Every command terminates',
  'Every command ends for every finite graph and every parameter value, with a result, a refusal or an error.',
  ['inputs'], 'every graph and parameter', 'a test that runs forever shows nothing about the others',
  [L + 'algorithms/'], [('worklist loops', L + 'algorithms/')],
  na='ranking arguments of the loops depend on run-time quantities (tokens, cycle ratios, graph liveness); no sound static bound is in reach. Known to fail: the symbolic execution of a graph that deadlocks does not end')
P('N07', 'Transformations keep the throughput they promise to keep',
  'Graph transformations that claim to preserve behaviour (single-rate unfolding, bounded-buffer modelling, normalisation of initial phases, merging in sequence of NoC routes) give a graph with the same throughput (or the bound they claim).',
  ['inputs'], 'every graph', 'equivalence of infinite behaviours',
  [L + 'algorithms/transformation/'], [('singlerate', L + 'algorithms/transformation/')],
  na='equivalence of infinite behaviours over run-time rates; only which property is copied to which is visible in the source')
P('N08', 'The maximum cycle ratio of an event graph is exact',
  'The cycle ratio computation returns the largest ratio of the event graph together with a cycle that has it, or says that no cycle limits the graph.',
  ['inputs'], 'every event graph', 'numerical convergence', [L + 'commons/howard_cycle_ratio.hpp', L + 'models/EventGraph.cpp'], [('Howard', L + 'commons/howard_cycle_ratio.hpp')],
  na='convergence and exactness of a floating-point fixed-point iteration')
P('N09', 'Mapped communications are routed along existing links without conflicts',
  'Routes chosen on the network connect the cores of the two tasks over existing links, and with the software-controlled bufferless network no two transfers use a link at the same time.',
  ['inputs', 'schedules'], 'every graph, network size and mapping', 'absence of conflicts in an infinite schedule',
  [L + 'algorithms/software_noc.cpp', L + 'models/NoC.cpp'], [('routing and conflicts', L + 'algorithms/software_noc.cpp')],
  na='absence of conflicts is a congruence condition over computed start times and periods; the route search is data driven. The truncations in the conflict test are claimed (and listed as known findings) under C05')
