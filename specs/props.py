GEO = 'common/math/geometry/'
OSI = 'openscenario/openscenario_interpreter/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique='', note='', **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, **kw))


AI = 'abstract interpretation of the resolved syntax tree'
TRUST = ' Trusts the clang front end, the parse-time stand-ins for absent ROS headers and the library transformers in sa/models.py.'

P('C01', 'Storyboard elements follow the OpenSCENARIO life cycle',
  'Every storyboard element starts in standby and changes state only along the OpenSCENARIO life cycle: standby -> start -> running only on a true start trigger and after its start work ran exactly once; running -> end only after it ran in that evaluation and is accomplished; end -> standby while executions are left and otherwise -> complete; stop only on a true stop trigger or an override, then complete after its unaccomplished work was stopped. '
  'The stop trigger is evaluated first in each evaluation, entering the running state counts exactly one execution, a running element runs exactly once per evaluation, and no evaluation rests in a transitional state. '
  'A complete element does no further work and is not stopped again.',
  ['histories', 'inputs'], 'every state, every outcome of triggers, work and accomplishment, every execution count',
  'no test evaluates a storyboard element; the life cycle is defined over unbounded evaluation histories',
  [OSI + 'include/openscenario_interpreter/syntax/storyboard_element.hpp', OSI + 'src/syntax/storyboard_element_state.cpp'],
  [('state machine', 'StoryboardElement::evaluate / transitionTo / override'), ('shared state objects', 'storyboard_element_state.cpp')],
  'typestate analysis by ' + AI, 'Sound over all states, trigger outcomes and execution counts: every path of the state machine is enumerated to a fixpoint.' + TRUST)

P('C02', 'Triggers are ORs of ANDs and evaluate every member each cycle',
  'A trigger is true exactly if at least one of its condition groups is true (an empty trigger is false), and a condition group is true exactly if all of its conditions are true (an empty group is true). '
  'Each evaluation evaluates every member exactly once, without short-circuiting, so that edge and delay histories stay complete. '
  'The value recorded for reporting equals the value returned.',
  ['inputs', 'histories'], 'any number of groups and conditions with any truth values',
  'no test evaluates a trigger; a skipped member shows only through a later edge condition',
  [OSI + 'src/syntax/trigger.cpp', OSI + 'src/syntax/condition_group.cpp'],
  [('non-short-circuit accumulation', 'Trigger::evaluate, ConditionGroup::evaluate')],
  AI + ' over all member valuations', 'All valuations of up to four members, and a loop fixpoint for an arbitrary number.' + TRUST)

P('C03', 'Condition edges and delays are evaluated on the right samples',
  'A condition is evaluated on its newest sample that is at least its delay old: "none" yields that sample, "rising", "falling" and "risingOrFalling" compare it with the sample before it, and "sticky" stays true once true. '
  'While there are fewer old enough samples than the edge needs the result is false. '
  'Each cycle takes exactly one sample, samples still needed are never discarded, and the reported value equals the result.',
  ['histories', 'inputs'], 'every history of samples, every delay, every edge',
  'no test evaluates conditions over a history; the behaviour depends on arbitrary sample sequences and times',
  [OSI + 'include/openscenario_interpreter/syntax/condition.hpp', OSI + 'src/syntax/condition.cpp'],
  [('history and edge function', 'Condition::update_condition, Condition::evaluate')],
  AI + ' over abstract sample histories', 'Histories of up to three earlier samples with symbolic times and every result valuation, each split at the delay horizon; longer histories behave the same as the code only looks at the newest old enough samples.' + TRUST)

P('C04', 'Enumeration words parse, print and reject consistently',
  'For every OpenSCENARIO enumeration (edges, priorities, rules, shapes, categories, states, and so on) each word of its vocabulary selects its enumerator, every obtainable value prints as a word that parses back to the same value, and documented aliases map to their canonical value. '
  'Every other word - including vocabulary that is recognised but not supported - is rejected with a syntax error instead of yielding some value.',
  ['inputs'], 'every word, every enumeration type',
  'tests exercise one enumeration (priority) with a few words; the guarantee is over all words and all 25 types',
  [OSI + 'src/syntax/condition_edge.cpp', OSI + 'src/syntax/priority.cpp', OSI + 'src/syntax/rule.cpp', OSI + 'src/syntax/parameter_type.cpp', OSI + 'src/syntax/storyboard_element_state.cpp', OSI + 'src/syntax/vehicle_category.cpp'],
  [('stream extraction and insertion', 'operator>> / operator<< of each syntax enumeration')],
  AI + ': word tables extracted and compared with the vocabulary', 'Exact word -> value tables for an unknown word, independent of how the table is coded.' + TRUST)

P('C05', 'Every exception leaving a scenario becomes exactly one matching verdict',
  'Whatever ends a scenario, exactly one verdict is recorded before the termination handler runs and nothing escapes: exitSuccess is reported as a pass, exitFailure as a failure of type SimulationFailure, Autoware, semantic, simulation and syntax errors as errors of their own type, any other standard exception as InternalError, and anything else as UnknownError, each carrying the message of the exception. '
  'A verdict is stored in the test case of the scenario (suite = directory of the scenario, case = its stem) in the category it belongs to, and the result file in the output directory is rewritten after it is stored. '
  'An exception in any step of a frame publishes the final context and deactivates the interpreter; without an exception no verdict is recorded.',
  ['inputs', 'fault_sequences'], 'every exception type, every step of a frame',
  'no test runs the interpreter; exceptions can come from any step',
  [OSI + 'include/openscenario_interpreter/openscenario_interpreter.hpp', OSI + 'src/openscenario_interpreter.cpp'],
  [('exception barrier', 'Interpreter::withExceptionHandler'), ('verdict writer', 'Interpreter::set'), ('frame callback', 'Interpreter::on_activate')],
  AI + ' over exceptional control flow', 'All exception types distinguished by the barrier plus representatives of every remaining class.' + TRUST)

P('C06', 'JUnit reports contain every verdict once with consistent totals',
  'A written JUnit report contains one testsuite element per suite and one testcase element per case under its own name, exactly one failure or error element per recorded failure or error carrying its type and message, and no other. '
  'At every level the attributes "failures", "errors" and "tests" equal the number of recorded failures, errors, and verdicts of any kind. '
  'Asking for a suite or case by name yields the existing one, or creates exactly one with that name, and never disturbs the others. The older exporter adds a case once and reports each with its result, time, and the total time.',
  ['inputs'], 'any number of suites, cases and verdicts, any names',
  'the tests of this package are not part of the build and compare a few fixed documents',
  ['common/simple_junit/include/simple_junit/junit5.hpp', 'common/simple_junit/include/simple_junit/test_suites.hpp', 'common/simple_junit/src/test_suites.cpp'],
  [('report writer', 'operator<< of SimpleTestSuites, SimpleTestSuite, SimpleTestCase, Failure, Error'), ('look-up', 'SimpleTestSuites::testsuite, SimpleTestSuite::testcase')],
  AI + ' with a ghost document tree', 'Report shapes enumerate every combination of up to two verdicts of each kind in a case and several suites and cases; names are unknown in look-ups.' + TRUST)

TS = 'simulation/traffic_simulator/'
P('C07', 'Jobs run while active, are cleaned up exactly once and are superseded',
  'A job starts active with zero elapsed time. Each update of an active job calls its update callback exactly once with the time elapsed in earlier updates; when the callback returns true the job becomes inactive and its cleanup callback runs exactly once, otherwise it stays active and its elapsed time advances by the step. An inactive job never runs again. '
  'Appending a job ends (with cleanup) every active job of the same type and exclusivity, leaves all other jobs untouched, and adds the new job without running it. '
  'Updating a phase updates exactly the active jobs of that phase.',
  ['histories', 'inputs'], 'every status, type, exclusivity and phase combination, every callback outcome',
  'tests sample one job whose callback returns true at once',
  [TS + 'src/job/job.cpp', TS + 'src/job/job_list.cpp', TS + 'include/traffic_simulator/job/job.hpp'],
  [('job state machine', 'Job::onUpdate, Job::inactivate'), ('superseding', 'JobList::append'), ('phases', 'JobList::update')],
  'typestate analysis by ' + AI, 'Single jobs: every state and callback outcome. Lists: all configurations of up to two jobs and selected ones of three.' + TRUST)

P('C08', 'Scenario elements, attributes and choices are read as declared',
  'Reading child elements of a name visits every such child of the node exactly once in document order, and only if their number lies within the declared minimum and maximum; otherwise a syntax error is raised. Groups do the same for the children that can be read as members. '
  'An absent single element or attribute yields its default (or nothing for optional ones) where one is declared and a syntax error otherwise; a present one is always used instead of the default. '
  'An attribute text of the form ${...} is evaluated, $name is replaced by the value of the declared parameter (a syntax error if there is none), an empty text gives the default value of the type, and any other text must be a literal of the type, else a syntax error. '
  'A choice builds the alternative of the single child that is one of its alternatives and rejects none or several with a syntax error.',
  ['inputs'], 'any document, any cardinality, any attribute text',
  'no test reads a scenario document; the guarantee is over all documents',
  [OSI + 'include/openscenario_interpreter/reader/element.hpp', OSI + 'include/openscenario_interpreter/reader/attribute.hpp', OSI + 'src/reader/element.cpp'],
  [('cardinality', 'traverse, readElements, readGroups'), ('single elements', 'readElement'), ('attributes', 'readAttribute'), ('choice', 'choice')],
  AI + ' of instantiated reader templates over a ghost document', 'Documents: 0 to 4 children of interest mixed with others, every arrangement of up to 3 children for choices of up to 3 alternatives, 8 cardinalities, every shape of attribute text. Substitution, expression evaluation and lexical conversion are opaque.' + TRUST)

P('C09', 'Rules compare left to right and numbers read as their own literals',
  'Comparing two operands by a rule holds exactly for the orderings the rule names: equalTo, greaterThan, lessThan, greaterOrEqual, lessOrEqual and notEqualTo, for every operand type, with the left operand on the left. '
  'notEqualTo is always the negation of equalTo, also where floating-point equality tolerates rounding. '
  'A number built from text has the value of the whole text as a literal of its own type, a Boolean is exactly one of the words true and false, and every other text is rejected with a syntax error; extracting a Double also understands INF, +INF and -INF. '
  'Assignment, +=, *= and ++ of the number types perform exactly that operation.',
  ['inputs'], 'all operand types and rules, every ordering of the operands, every text',
  'the tests do not compare values; conditions and constraints rely on it for all values',
  [OSI + 'include/openscenario_interpreter/syntax/rule.hpp', OSI + 'include/openscenario_interpreter/functional/equal_to.hpp', OSI + 'src/syntax/double.cpp', OSI + 'src/syntax/integer.cpp', OSI + 'src/syntax/boolean.cpp', OSI + 'src/syntax/unsigned_short.cpp'],
  [('comparison', 'Rule::operator(), equal_to'), ('literals', 'constructors from text, operator>>'), ('arithmetic', 'operator+=, operator*=')],
  AI, 'Comparison: one representative per ordering and sign, which determines code made of comparisons. Literals: an unknown text; lexical conversion itself is trusted.' + TRUST)

P('C10', 'State shared between threads is accessed under a common lock; no deadlock',
  'In every class that is used from several threads or owns one - the status monitor with its watchdog, the task queue and the operator application whose tasks it runs, the concealer with its spinner, the topic subscribers, the user-defined-value subscription and the lanelet caches - '
  'any two accesses to the same data that may overlap, at least one of them a write, are ordered by a common mutex, an atomic, or the join of the thread. '
  'No mutex is acquired while it is already held, mutexes are acquired in a consistent order, no stored function is called under a lock, and no thread is joined while a lock it needs is held. '
  'A destructor asks its thread to stop before it joins it, and nothing a thread uses is created after the thread or destroyed before it.',
  ['schedules'], 'every interleaving of the threads',
  'a test samples one interleaving; races and deadlocks need specific ones',
  ['common/status_monitor/src/status_monitor.cpp', 'common/status_monitor/include/status_monitor/status_monitor.hpp', 'external/concealer/src/task_queue.cpp', 'external/concealer/include/concealer/task_queue.hpp', 'external/concealer/src/autoware_universe.cpp',
   'external/concealer/src/field_operator_application.cpp', 'external/concealer/include/concealer/subscriber.hpp', OSI + 'src/syntax/user_defined_value_condition.cpp', TS + 'include/traffic_simulator/lanelet_wrapper/lanelet_wrapper.hpp', TS + 'src/lanelet_wrapper/lanelet_wrapper.cpp'],
  [('guards', 'std::scoped_lock / lock_guard / unique_lock scopes'), ('teardown', 'destructors that join')],
  'interprocedural lock-set, lock-order and thread-lifetime analysis',
  'Flow-sensitive lock sets along every path and call, from every public member, thread function and callback of eleven classes; branches meet by intersection. Which members may overlap is declared per class (shared or single owner).' + TRUST)

P('C11', 'Parameters keep their declared type and obey their constraints',
  'A parameter becomes an object of exactly its declared type whose value is its text read as a literal of that type, and is entered into its scope under its name; a name that starts with OSC is rejected with a syntax error. '
  'If constraint groups are given the parameter is accepted only if all constraints of at least one group hold for its value, otherwise it is a syntax error. '
  'A parameter condition or value constraint compares the parameter, on the left, by its rule with the given text read in the type of the parameter; a value of any other type is a semantic error. '
  'Setting a parameter stores the text read in the type of the parameter; adding to or multiplying it changes that very parameter by the given value and rejects parameters that are not numeric with a syntax error.',
  ['inputs'], 'every parameter type, text, old value, operand and any number of constraint groups',
  'no test declares or modifies a parameter',
  [OSI + 'src/syntax/parameter_declaration.cpp', OSI + 'src/syntax/parameter_condition.cpp', OSI + 'src/syntax/parameter_set_action.cpp', OSI + 'src/syntax/parameter_add_value_rule.cpp', OSI + 'src/syntax/parameter_multiply_by_value_rule.cpp',
   OSI + 'src/syntax/parameter_modify_action.cpp', OSI + 'src/syntax/value_constraint_group.cpp', OSI + 'src/syntax/value_constraint.cpp'],
  [('typing', 'ParameterDeclaration::evaluate'), ('constraints', 'ValueConstraintGroup::evaluate, ValueConstraint::evaluate'), ('comparison', 'ParameterCondition::compare'), ('modification', 'ParameterSetAction::set, Parameter{Add,MultiplyBy}ValueRule')],
  AI + ' with symbolic texts and values', 'All parameter types; text, old value and operand are symbolic; up to two constraint groups and three constraints per group. Lexical conversion and scope look-up are trusted here.' + TRUST)

P('C12', 'Failures of background work reach the caller; tasks run once and in order',
  'Tasks handed to the task queue run one at a time in the order in which they were handed over, in the background and never in the caller, including tasks handed over while another one runs; none is lost or repeated, and the queue reports work as pending until the last task has finished. '
  'If a task or a spinner thread fails with any exception, the thread does not terminate the process, the queue runs no further task, and exactly that exception is rethrown by every later operation that asks for it or hands over another task. '
  'Queries of the ego interface, a frame of the ego entity and reading a user-defined value ask for such failures before they do anything else. '
  'A frame of the ego interface reports an Autoware process that ended as an AutowareError and does not report one that runs.',
  ['schedules', 'inputs'], 'any number of tasks, each returning or throwing any exception, with more tasks handed over meanwhile',
  'the test of the queue samples one schedule; what matters is which failure at which point',
  ['external/concealer/src/task_queue.cpp', 'external/concealer/include/concealer/task_queue.hpp', 'external/concealer/src/autoware_universe.cpp', 'external/concealer/src/field_operator_application.cpp',
   OSI + 'src/syntax/user_defined_value_condition.cpp', 'simulation/simple_sensor_simulator/src/vehicle_simulation/ego_entity_simulation.cpp'],
  [('queue', 'TaskQueue'), ('spinners', 'AutowareUniverse::AutowareUniverse, rethrow; MagicSubscription::Node'), ('callers', 'FieldOperatorApplication::engageable, engaged, spinSome; EgoEntitySimulation::update, overwrite')],
  AI + ' of thread functions with tasks that return, throw or hand over work', 'Zero to three queued tasks plus one handed over during each task. Data races are decided by C10.' + TRUST)

P('C13', 'Autoware is asked in the right state; requests and waits end as promised',
  'The state of Autoware is derived from its localization, route and operation mode exactly as its documentation says. '
  'Each operation on the ego (initialize, plan, engage, clear the route, enable control, set the velocity limit, cooperation) runs as one task and makes exactly the requests and waits its protocol prescribes for the state Autoware is in, in that order and with the given contents; in a state that does not allow it, it fails with an AutowareError before anything is requested. '
  'The ego is initialized at most once, is brought to a stop when the interface starts, and after it was engaged the time limit of the initialization no longer applies. '
  'A request returns only after Autoware answered it with success, is sent at most as often as stated and only once the service is available, and otherwise fails with an AutowareError. '
  'A wait ends exactly when the state has left the range it waits in or the simulation is over, and fails with an AutowareError when the time is up. '
  'A cooperation command goes to the first matching status that waits for it and was not used before.',
  ['inputs', 'histories'], 'every state of Autoware, every combination of reports, every sequence of answers and of observed states',
  'no test talks to Autoware; the protocol must hold for every state and answer',
  ['external/concealer/src/field_operator_application.cpp', 'external/concealer/include/concealer/field_operator_application.hpp', 'external/concealer/include/concealer/service.hpp', 'external/concealer/include/concealer/legacy_autoware_state.hpp'],
  [('states', 'LegacyAutowareState'), ('operations', 'FieldOperatorApplication::initialize, plan, engage, ...'), ('requests', 'Service::operator()'), ('waits', 'waitForAutowareStateToBe'), ('cooperation', 'sendCooperateCommand, requestAutoModeForCooperation')],
  AI + ' against reference tables', 'All 8 states per operation; all combinations of reported states; requests with 0 to 3 attempts and every answer; waits over every sequence of up to three observed states; cooperation with up to three statuses. Shutdown of ROS while waiting for a service is not covered.' + TRUST)

P('C14', 'Child processes run the given command, are waited for and never go on twice',
  'A command started by the interpreter or by concealer runs the program named by the first argument with exactly the given arguments in order, each a valid terminated string, followed by a null pointer; ros2_launch runs python3 with the path of ros2, launch, package, file and the parameters in order. '
  'A command line is the type alone if the content is empty and otherwise type and content separated by a space, split at white space. '
  'The child process never returns to the caller: if the command cannot be run, it exits unsuccessfully. A process that cannot be started is reported as a std::system_error. '
  'fork_exec returns the identifier of the child, and only after the child exited or was killed: not when it was stopped or when a signal interrupts the wait. '
  'The output of a command that is captured is returned completely and in order. '
  'When the ego interface ends, an Autoware that it launched (and no other process) is asked to end by SIGINT, killed with all its processes if it does not end in time and not otherwise, and waited for.',
  ['inputs', 'fault_sequences', 'schedules'], 'any argument list; every outcome of fork, exec, waitpid, popen and the signals',
  'tests cannot make fork, exec or waitpid fail or be interrupted at every point',
  ['external/concealer/src/execute.cpp', 'external/concealer/include/concealer/launch.hpp', 'external/concealer/src/field_operator_application.cpp', OSI + 'src/posix/fork_exec.cpp'],
  [('exec', 'concealer::execute, openscenario_interpreter::execvp'), ('capture', 'concealer::dollar'), ('launch', 'ros2_launch'), ('wait', 'fork_exec'), ('end', '~FieldOperatorApplication')],
  AI + ' with every outcome of the system calls', 'Argument lists of one to seven arguments including empty and repeated ones; up to four waits; output in up to five pieces. The parsing of boost::split is trusted.' + TRUST)

P('C15', 'Custom commands do what their type says, with the arguments it gives',
  'A CustomCommandAction whose type is a documented built-in command, alone or followed by arguments in parentheses, runs that command with exactly these arguments in order: they are separated by commas, white space after a comma is skipped and a quoted string is one argument. '
  'The type ":" does nothing. Any other type is run as a command of the system with the content as its arguments. '
  'Each built-in command has its documented effect and no other: fault injection publishes one event per name at the ERROR level or the single event at the given level, the V2I, traffic signal confidence and cooperation commands reach the traffic lights or the ego with the given values, WalkStraightAction applies to the named entities and the actors, exitSuccess and exitFailure end the simulation with that verdict. '
  'A command given a wrong number of arguments or an unknown level fails with an error before it has any effect. A CustomCommandAction ends when its command does.',
  ['inputs'], 'any type text, argument list and content',
  'no unit test runs a custom command; the arguments are free text',
  [OSI + 'src/syntax/custom_command_action.cpp', OSI + 'include/openscenario_interpreter/regex/function_call_expression.hpp', OSI + 'include/openscenario_interpreter/simulator_core.hpp'],
  [('dispatch', 'makeCustomCommand, FunctionCallExpression'), ('effects', 'the commands in custom_command_action.cpp, SimulatorCore'), ('action', 'CustomCommandAction')],
  AI + ' against a table of the documented commands', 'All built-in commands with eight shapes of argument lists each and zero to four arguments for the effects. Conversion of numbers in arguments is trusted.' + TRUST)

P('C16', 'References resolve to the nearest declaration of that name and type',
  'A name that contains a colon is rejected with a syntax error. A reference is split at its double colons: what follows the last one is the name, what precedes it are its prefixes in order, and it is absolute exactly if it starts with a double colon. '
  'A reference without prefixes designates the one object of that name and of the requested type in the referring scope, else level by level in the unnamed scopes nested in it, else likewise in the next enclosing scope, and so on outwards. '
  'An absolute reference is resolved from the outermost scope. Each prefix leads to the scope of that name nested in the scope reached so far or in its unnamed ones; the first prefix of a relative reference is looked up in the scopes that enclose the referring one, from the innermost outwards. '
  'A reference for which no such scope or object exists, or for which several on the same level qualify, is rejected with a syntax error.',
  ['inputs', 'configurations'], 'any tree of named and unnamed scopes, any declarations and any reference',
  'the sample scenarios resolve a few references; shadowing, ambiguity and unnamed scopes combine without bound',
  [OSI + 'include/openscenario_interpreter/name.hpp', OSI + 'include/openscenario_interpreter/scope.hpp', OSI + 'src/scope.cpp'],
  [('splitting', 'Name, Prefixed'), ('resolution', 'EnvironmentFrame::find, ref, resolvePrefix, lookupFrame; Scope::ref, insert')],
  AI + ' over scope trees', 'Nineteen shapes of reference; five trees of up to five scopes with every subset of them declaring the name, two types and a derived one. Left open: what a prefixed reference yields if the scope it leads to lacks the object (the code then searches outwards).' + TRUST)
P('C17', 'Objects keep their type: wrong or missing ones are errors, operations reach them',
  'An interpreter object made of a type is exactly that type and is also each base of it, and says so whatever reference to it is asked; treated as one of these it is the very object that was made, '
  'and treated as any other type it fails with a semantic error. Evaluating it, asking whether it is accomplished, describing it and printing it reach the operation of the type it was made of; '
  'where that type has none, it evaluates to itself, is not accomplished, has an empty description and prints as its type name between angle brackets. '
  'A reference that denotes no object is of no type, and evaluating, describing or treating it as anything is a semantic error, never an access to nothing. '
  'Rebinding a reference leaves other references to the old object alone. A visitor handles an object by the first case that matches its type and fails if there is none.',
  ['inputs', 'histories'], 'any object, type and payload',
  'unit tests use some twenty of the types; the accessors are templates that are instantiated for hundreds of them',
  [OSI + 'include/openscenario_interpreter/pointer.hpp', OSI + 'include/openscenario_interpreter/object.hpp', OSI + 'include/openscenario_interpreter/expression.hpp', OSI + 'include/openscenario_interpreter/type_traits/', OSI + 'src/object.cpp', OSI + 'src/utility/demangle.cpp'],
  [('types', 'Pointer::is, is_also, as, bind, rebind'), ('operations', 'Pointer::Binder and the IfHas... traits'), ('empty', 'Pointer::binding')],
  AI + ' over representative types', 'Six types that cover having and lacking each operation, one and two levels of bases, an unknown payload. The other rules take make, is and as for granted; this one discharges them.' + TRUST)

P('C18', 'Requests, routing graphs, endpoints and modes are named faithfully',
  'Every behavior request prints as its own name, and its request string, by which behavior plugins tell requests apart, is that name in lower case; no two requests share one and any other value is a semantic error. '
  'Every routing graph type prints as its own name, and the routing graph, the traffic rules and the route cache used for it are those of that type (the graph being built from the loaded map by these rules) and of no other; any other value is an error. '
  'An endpoint is the protocol, "://", the host ("localhost", "*" or the given name), ":" and the decimal port; an unknown protocol or host is an error. '
  'The compatibility mode is the one named, legacy if none is, and an error for any other word. '
  'Routing configurations are equal exactly if all their parts are, print all of them, and start without lane change on roads with their shoulders; a route option of the first version keeps its meaning when it becomes one of the second, and options start as false.',
  ['inputs', 'configurations'], 'every enumerator and any other value; any port, host and path',
  'unit tests sample a few names; an enumerator that is added or swapped in one of several parallel switches goes unnoticed',
  ['simulation/traffic_simulator/src/data_type/behavior.cpp', 'simulation/traffic_simulator/src/data_type/routing_graph_type.cpp', 'simulation/traffic_simulator/include/traffic_simulator/data_type/routing_configuration.hpp', 'simulation/traffic_simulator/include/traffic_simulator/data_type/route_option.hpp', 'simulation/simulation_interface/src/constants.cpp', OSI + 'src/compatibility.cpp', 'simulation/traffic_simulator/src/lanelet_wrapper/lanelet_wrapper.cpp'],
  [('names', 'getRequestString, operator<<, to_string'), ('endpoints', 'getEndPoint'), ('lookup', 'LaneletWrapper::routingGraph, trafficRules, routeCache')],
  AI + ' on every enumerator', 'Complete over the enumerators as declared in the source.' + TRUST)

P('C19', 'Random tests: failures are reported, draws reproducible, runs replayable',
  'A contact of the ego with an NPC is reported as a collision exactly if the ego was not in contact with that NPC within the last half second. '
  'A random test reports a collision for each NPC that exists and newly collides, a timeout if its time limit passes before the goal is reached, a standstill if the ego stands still elsewhere than at its goal, '
  'and an error for every exception that ends its beginning, a frame or its end; nothing else is reported, and the test ends exactly at its time limit, its goal, a standstill or an exception. '
  'A running test advances the simulation once per frame; it spawns, and in the end despawns, the ego and each NPC once. '
  'Everything a test draws comes from one engine that is seeded with the seed of the test, within the ranges that its parameters and the map give, and nothing else that varies is consulted. '
  'The parameters and the seed that are stored of a test are read back the same, all of them.',
  ['inputs', 'histories', 'fault_sequences'], 'any sequence of contacts at any times; any answers of the simulator and any exception; any parameters',
  'unit tests take eight sequences of contacts; the executor has none',
  ['test_runner/random_test_runner/include/random_test_runner/metrics/ego_collision_metric.hpp', 'test_runner/random_test_runner/include/random_test_runner/test_executor.hpp', 'test_runner/random_test_runner/include/random_test_runner/randomizers.hpp', 'test_runner/random_test_runner/src/test_randomizer.cpp', 'test_runner/random_test_runner/include/random_test_runner/file_interactions/'],
  [('collisions', 'EgoCollisionMetric'), ('verdict', 'TestExecutor, JunitXmlReporterTestCase'), ('drawing', 'UniformRandomizer, TestRandomizer'), ('replay', 'YAML::convert')],
  AI + ' with difference bounds between times; effect analysis over the call graph', 'Sequences of three contacts (four in the thorough tier) with up to three NPCs, two NPCs per test, times in non-decreasing order. The goal and standstill metrics are taken as given.' + TRUST)

P('C20', 'Occupancy grid: the cells of a line, of a polygon, and what a cell says',
  'A traversal of the grid visits the cells that a line passes through, in order, from the cell of its start, each next to the last, until the line crosses no more grid line; whatever the direction, on grid lines and at negative coordinates. '
  'A polygon covers, in each row, what lies between the outermost cells that its edges pass through or its corners lie in, cut to the grid. A cell says occupied if an added primitive covers it, else invisible if one hides it, else free; a reset grid is free, '
  'and more primitives than a cell can count are refused. The area of a primitive is its hull, seen from the origin of the grid, cut to the grid. '
  'The sensor adds each other entity that the lidar has seen (within the range, if the configuration filters by range) once, as a box of its dimensions at its pose and center; the message has the size of the configuration, the values of the grid, and an origin such that the ego is at the center. '
  'A status without the ego, or with two entities of one name, is an error.',
  ['inputs'], 'every line, by direction and position of its start in its cell, up to a number of steps; every pair of corners about a small grid; any pose, resolution, size and costs',
  'a unit test follows one line of three cells; the grid itself is not tested',
  ['simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp'],
  [('lines', 'GridTraversal'), ('polygons', 'OccupancyGridBuilder::addPolygon, build'), ('frames', 'transformToGrid, transformToPixel, makeOccupiedArea'), ('sensor', 'OccupancyGridSensorBase, getOccupancyGrid')],
  AI + ' over real terms in normal form', 'Arithmetic is that of the real numbers. Lines are followed for three steps (five in the thorough tier). The shape of the invisible area behind a primitive (angles) and the convex hull are not decided.' + TRUST)

P('C22', 'Traffic signal controllers keep their phases in step and tell the lights',
  'A controller without a reference begins its first phase in its first step; a controller that refers to another begins its first phase once its delay has passed since the other began its own, and no earlier. '
  'A phase lasts until its duration has elapsed (without end if none is given) and is followed by the next, the last by the first; an action that sets a phase of the controller makes that phase begin at once, and one that names no phase of it is an error. '
  'When a phase gives way to another, the lights of the old one are cleared, then those of the new one, and then every state of the new one is applied. The condition on a phase holds exactly while that phase is the current one, and before the first one no phase is. '
  'A reference to an unknown controller or to one of another cycle time, a delay without reference, a reference without delay and a negative delay are rejected. '
  'A state addresses the conventional or the V2I light of the lanelet id it names, the detected one if it says so; any other id text, and "unknown" for a light that is not a detected one, are errors.',
  ['histories', 'inputs'], 'any durations, delays and times of the steps; any order of the controllers; actions between the steps',
  'scenario tests run one controller with round durations; order, ties of delays, uneven frames and actions at odd moments combine without bound',
  [OSI + 'src/syntax/traffic_signal_controller.cpp', OSI + 'src/syntax/traffic_signals.cpp', OSI + 'src/syntax/phase.cpp', OSI + 'src/syntax/traffic_signal_state.cpp', OSI + 'src/syntax/traffic_signal_controller_condition.cpp', OSI + 'src/syntax/traffic_signal_controller_action.cpp', OSI + 'include/openscenario_interpreter/iterator/circular_iterator.hpp'],
  [('phases', 'TrafficSignalController::evaluate, changePhaseTo, CircularIterator'), ('references', 'TrafficSignals::resolve_reference, notifyBegin'), ('lights', 'Phase, TrafficSignalState')],
  AI + ' over symbolic durations and times', 'Up to three phases, four steps (six in the thorough tier), two controllers. Arithmetic is that of the real numbers; the predictions for V2I lights are left out.' + TRUST)

P('C21', 'The geometry library computes what its functions are named for',
  'Sums, differences, multiples, inner and cross products, lengths and distances of points and vectors are the textbook ones; two vectors are equal exactly if no component differs by epsilon or more; a vector is finite exactly if its components are; '
  'truncation leaves a vector that is short enough as it is and shortens others to the bound, keeping their direction; normalization gives length one and rejects what has no length; the angle between vectors is the one between 0 and pi, also for parallel ones. '
  'Quaternions multiply by the rule of Hamilton; the rotation between two orientations, the rotation matrix, the normal vector, the angle between two orientations and their interpolation are those of the rotations that they stand for; Euler angles are converted both ways, in the order yaw, pitch, roll; '
  'the orientation of a direction turns the x axis into it without roll. A point is transformed from the frame of a pose by rotation and translation, lists of points keep their order, and the relative pose is the one pose in the frame of the other. '
  'A plane tells the signed offset of a point from it, and is not made of a zero normal vector or of a point that is no number.',
  ['inputs'], 'all vectors, unit quaternions, poses and points, over the real numbers',
  'the tests sample a few axis-aligned values, on which a wrong sign or a swapped component often makes no difference',
  [GEO + 'include/geometry/vector3/operator.hpp', GEO + 'include/geometry/vector3/truncate.hpp', GEO + 'include/geometry/vector3/internal_angle.hpp', GEO + 'include/geometry/vector3/norm.hpp', GEO + 'include/geometry/vector3/hypot.hpp', GEO + 'include/geometry/vector3/inner_product.hpp', GEO + 'include/geometry/vector3/cross_2d.hpp', GEO + 'include/geometry/vector3/is_finite.hpp', GEO + 'include/geometry/vector3/normalize.hpp',
   GEO + 'include/geometry/quaternion/operator.hpp', GEO + 'include/geometry/quaternion/norm.hpp', GEO + 'include/geometry/quaternion/get_angle_difference.hpp', GEO + 'include/geometry/quaternion/get_rotation_matrix.hpp', GEO + 'include/geometry/quaternion/slerp.hpp', GEO + 'src/transform.cpp', GEO + 'src/plane.cpp', GEO + 'src/distance.cpp'],
  [('vectors', 'geometry/vector3'), ('quaternions', 'geometry/quaternion'), ('frames', 'transform.cpp, plane.cpp')],
  'abstract interpretation over real terms; normal forms of the answers compared with the definitions, else at generic points of each case',
  'Real arithmetic, but for the domains of acos and sqrt, which are also checked with a rounding of every operation. tf2 and Eigen are taken as documented; distances between polygons are left out.' + TRUST)

P('C23', 'Segments, curves, polynomials and boxes tell places, distances and meetings',
  'A line segment tells the point, the pose and the distance at each part of its length, by part or by metres, and rejects places off it; a slope unless it is upright; which side of it a point is on; whether a point is on it, and where; whether two segments meet, and where, at ends and when in line too. '
  'Consecutive points give the segments between those that differ. The solver returns every real root of the range of a linear, quadratic or cubic polynomial and nothing else, double and triple roots and leading zeros included, and moves a root that is off the range by no more than the tolerance to its end. '
  'A curve starts and ends at the poses and in the directions that it was made of; its points, tangents, normals, curvature and poses are those of its polynomials; its length tends to that of the curve; it meets a segment at the roots of its equation that lie on the segment, and a polygon at those of its edges, the first or last as asked. '
  'The outline of a box has its corners in order, at its pose, closed; the nearest place of a segment or a polygon is the nearest; boxes have a distance exactly if their outlines are apart, and collide exactly if both their heights and outlines overlap.',
  ['inputs'], 'all segments, polynomials, curves, boxes and points, over the real numbers',
  'the tests sample a few axis-aligned segments and simple roots; ends, boundaries and degenerate cases are many',
  [GEO + 'src/solver/polynomial_solver.cpp', GEO + 'src/polygon/line_segment.cpp', GEO + 'src/polygon/polygon.cpp', GEO + 'src/spline/hermite_curve.cpp', GEO + 'src/intersection/intersection.cpp', GEO + 'src/intersection/collision.cpp', GEO + 'src/bounding_box.cpp'],
  [('polynomials', 'solver'), ('segments', 'polygon, intersection'), ('curves', 'spline'), ('boxes', 'bounding_box.cpp')],
  'abstract interpretation over real terms; each case constructs a place, a set of roots or a meeting by parameters, and the answer of each path is compared with it as a normal form or at generic points',
  'Real arithmetic: what rounding does near the tolerances is left out. Whether polygons intersect, how far they are apart, and convex hulls are taken from Boost.Geometry.' + TRUST)

P('C24', 'Errors and texts keep their kind, their words and their order',
  'An error is thrown as the kind that it is made as, and is caught as that kind, as an Error or as a standard error, never as another kind; what it says is all of the parts that it was made from, in order and with nothing between, and what a macro throws begins with the file and the line. '
  'Texts are joined in order. Folding goes from the left or from the right as named and uses each value once; a curried function keeps what it was given first, however often it is used and whatever becomes of the variables; an overload calls the function for the type that it is given. '
  'A sequence is printed in brackets with commas between, sequences of sequences too; keys are listed with commas and a last "and"; the name of a type is what follows its last colon.',
  ['inputs'], 'all values, and sequences of up to four',
  'the tests see one or two kinds of errors and short texts',
  ['common/scenario_simulator_exception/include/scenario_simulator_exception/exception.hpp', 'common/scenario_simulator_exception/include/scenario_simulator_exception/concatenate.hpp', 'common/scenario_simulator_exception/include/scenario_simulator_exception/fold.hpp', OSI + 'include/openscenario_interpreter/functional/fold.hpp', OSI + 'include/openscenario_interpreter/functional/curry.hpp', OSI + 'include/openscenario_interpreter/utility/print.hpp', OSI + 'include/openscenario_interpreter/utility/overload.hpp', OSI + 'include/openscenario_interpreter/utility/demangle.hpp'],
  [('errors', 'scenario_simulator_exception'), ('texts', 'utility'), ('functions', 'functional')],
  'abstract interpretation of every template, instantiated by a probe, over unknown values; what comes out is compared with the sequence of what was given',
  'The probe fixes how many values there are (one to four); each is unknown.' + TRUST)

P('C25', 'The status monitor tells which threads are responsive, and for how long not',
  'A thread that says that it is alive is known from then on, by its name; its last access is now, and the shortest and longest interval between two accesses are those of all intervals so far; other threads are left alone. '
  'A thread is responsive if it has ended or has been heard of within less than the threshold. Work under a threshold of its own is done once, sees that threshold, counts as alive before and after, and leaves the former threshold behind, whether it succeeds or fails, and not before the thread counts as alive. '
  'The first monitor forgets the threads of an earlier run and starts the only watchdog, which opens the file named after the program and writes it once per pause until it is told to stop; the end of a monitor marks its thread as ended, and the end of the last one stops the watchdog, waits for it, and lets the next one run. '
  'The document has every thread with its name, id, intervals, time since the last access and judgement, and is good exactly if all threads are; an unresponsive thread is logged.',
  ['histories', 'schedules'], 'all times, thresholds and threads (up to two), work that succeeds or fails, one to five monitors',
  'no test reaches it; whether the watchdog sees the right threshold depends on the order of its locks',
  ['common/status_monitor/include/status_monitor/status_monitor.hpp', 'common/status_monitor/src/status_monitor.cpp'],
  [('threads', 'StatusMonitor::touch, overrideThreshold'), ('document', 'StatusMonitor::write'), ('watchdog', 'StatusMonitor::StatusMonitor, ~StatusMonitor')],
  'abstract interpretation of touching, overriding, judging, writing and ending over unknown times; the status of every thread, the threshold that each holder of the lock sees and the JSON that is written are compared with the definition',
  'That accesses are guarded by the lock is decided by C10. Containers and JSON are modelled.' + TRUST)


P('C26', 'The small tools that everything else is built of do what they say',
  'Two numbers are approximately (essentially) equal if they are no further apart than epsilon times the larger (smaller) of them, and one is definitely less or greater than another if it is beyond it by more than epsilon times the larger; of more than two numbers, each has to be less than the next. '
  'A ring goes from each element to the next and from the last, or from its end, to the first; a step made after reading returns where it was. A text is split at each blank, keeping empty pieces; the content of an element is read without the blanks around it. '
  'A graph is circular exactly if a cycle of more than one node can be reached from the given node: two ways to the same node are no cycle, and neither is an edge from a node to itself. '
  'The timer does the work once, takes the time just before and after, adds it in nanoseconds to the statistics of that tag only, returns it, and saves the least, greatest, mean and standard deviation in seconds, and the count, of every tag. '
  'The compatibility is the one that is named, legacy if none is, and an error if another word is given.',
  ['inputs', 'histories'], 'all numbers at, below and above the tolerance; rings of up to four; all graphs of three nodes; all texts and times', 'tests reach none of them directly; each is a few lines whose mistakes show only for equal, empty or repeated inputs',
  ['common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp', 'openscenario/openscenario_interpreter/include/openscenario_interpreter/iterator/circular_iterator.hpp', 'openscenario/openscenario_interpreter/include/openscenario_interpreter/utility/circular_check.hpp', 'openscenario/openscenario_interpreter/include/openscenario_interpreter/utility/execution_timer.hpp', 'openscenario/openscenario_interpreter/include/openscenario_interpreter/string/split.hpp', 'openscenario/openscenario_interpreter/include/openscenario_interpreter/reader/content.hpp', 'openscenario/openscenario_interpreter/src/compatibility.cpp'],
  [('comparison', 'isApproximatelyEqualTo, isEssentiallyEqualTo, isDefinitelyLessThan, isDefinitelyGreaterThan'), ('ring', 'CircularIterator'), ('cycle', 'circular_check'), ('timer', 'ExecutionTimer'), ('text', 'split, readContent'), ('compatibility', 'operator>>(std::istream &, Compatibility &)')],
  'abstract interpretation of each tool, instantiated by a probe, over unknown numbers by case, unknown texts and all small rings and graphs; the answer of each path is compared with the definition',
  'Splitting and trimming themselves, clocks, JSON and the statistics of Boost are modelled. Rounding of the differences themselves is not considered.' + TRUST)


P('C27', 'What a type can do is recognised exactly, and what it cannot do has its fallback',
  'Each detector accepts exactly the types it names: those with a member function (of any constness, inherited, static, overloaded or with defaults) that can be called without arguments for evaluation, accomplishment and description; those that a stream can print; those that can be iterated; vectors of three components and no fourth, and quaternions; the members and constants of messages. '
  'What has the function is evaluated, asked, described or printed by it, and an error of it gets out; what has not gives the value it was given, is not accomplished, has no description, and is printed as its type. '
  'An element that is left out is made if its type has a default, and is an error of syntax otherwise; only an element with a default can be declared optional. Floating-point numbers are compared with a tolerance and everything else as it is.',
  ['programs'], 'types with each form of each member, public, private, inherited, overloaded, constant or of another name', 'templates are only instantiated for the types at hand; whether another type is accepted shows first in the program that has it',
  [OSI + 'include/openscenario_interpreter/type_traits/' + x + '.hpp' for x in ('has_member_function_evaluate', 'has_member_function_accomplished', 'has_member_function_description', 'has_stream_output_operator', 'iterable', 'requires', 'if_has_member_function_evaluate', 'if_has_member_function_accomplished', 'if_has_member_function_description', 'if_has_stream_output_operator', 'must_be_default_constructible', 'if_not_nothrow_default_constructible')]
  + ['common/math/geometry/include/geometry/vector3/is_like_vector3.hpp', 'common/math/geometry/include/geometry/quaternion/is_like_quaternion.hpp', 'external/concealer/include/concealer/member_detector.hpp', OSI + 'include/openscenario_interpreter/utility/assertion_auxiliary.hpp', OSI + 'include/openscenario_interpreter/functional/equal_to.hpp'],
  [('detectors', 'HasMemberFunctionEvaluate, HasStreamOutputOperator, Iterable, IsLikeVector3, DetectMember_*'), ('fallbacks', 'IfHas…::invoke, MustBeDefaultConstructible::makeItOrThrow'), ('optional', 'ASSERT_IS_OPTIONAL_ELEMENT')],
  'type-level witnesses: static assertions and declarations that have to be rejected, decided by the type checker on the current headers; abstract interpretation of what the chosen way does',
  'The witnesses are the listed forms of types, not all types. A type is either accepted or not by the compiler itself, so nothing is modelled there.' + TRUST)


P('C28', 'A storyboard works through its parts, and tells of it',
  'An element tells each one that watches a state of it of every transition to that state, once, with the element in it; a transition that was undone by such a one is not confirmed. A composite is accomplished exactly when all its parts are complete. '
  'While it runs it evaluates each part once and in order; a failure of a part is reported with the name, kind and number of that part, and every other error gets out. Stopping moves each part that was started to its stop; starting a maneuver group or an event starts its parts. '
  'An event of priority override stops the other events of its maneuver that are under way and not itself, one of priority skip stays in standby while another event of the maneuver runs, one of priority parallel does neither. '
  'A condition on the state of an element is true when the element is in that state or was in it since the condition was last evaluated, and false otherwise. '
  'A composite that was read has the parts of the document in order, all of different names and found by them; it starts and stops on its triggers and is executed as often as it says; what was put off while reading is done once, at the end. '
  'Initial actions that end immediately are started and run before the others, each action once. The published status gives the name, state, execution counts, triggers and parts of each element.',
  ['histories', 'programs'], 'none to three parts in every state, every failure of a part, every priority, every short history of an element and the evaluations of a condition on it', 'tests run a handful of scenarios; which callbacks, states and errors follow depends on what the parts did before',
  [OSI + 'include/openscenario_interpreter/syntax/storyboard_element.hpp'] + [OSI + 'src/syntax/' + x + '.cpp' for x in ('storyboard', 'story', 'act', 'maneuver_group', 'maneuver', 'event', 'action', 'init', 'init_actions', 'private', 'storyboard_element_state_condition')] + [OSI + 'include/openscenario_interpreter/syntax/custom_command_action.hpp'],
  [('elements', 'StoryboardElement::{transitionTo, addTransitionCallback, accomplished, run, stop, readStoryboardElement}'), ('composites', '{Storyboard, Story, Act, ManeuverGroup, Maneuver, Event}::{constructor, run, start}'), ('watching', 'StoryboardElementStateCondition::evaluate'), ('initial actions', 'InitActions, Private, Init'), ('status', 'operator<<(boost::json::object &, …)')],
  'abstract interpretation of each function over all small sets of parts, states, failures and histories; calls, their order, states, errors and the status compared with the definition',
  'Bounded in the number of parts (three) and the length of histories (five); each function treats its parts one by one.' + TRUST)


P('C29', 'The elements of a scenario are read as the schema says',
  'Of each element of a scenario the interpreter reads the attributes and children that OpenSCENARIO (1.2 and 1.3) names, under those names, as the types it gives them, and keeps each value under its own name: nothing the schema demands may be left out, nothing it leaves optional is demanded, and something left out takes the value that the standard gives. '
  'Of alternatives exactly one is taken and the one that is there, and a repeated child is read as often as it occurs. What the documentation declares unsupported is ignored or rejected, and nothing else is. '
  'A property that is outside the range the standard gives is rejected and each one inside is accepted. A stochastic distribution is drawn with the parameters that were read.',
  ['programs', 'inputs'], 'every class of element that the interpreter reads (over 150), and each attribute, child and alternative of it', 'unit tests read a handful of elements and sample scenarios use the common attributes; a wrong optional attribute shows only in a document that has it',
  [OSI + 'src/syntax/' + x + '.cpp' for x in ('condition', 'entities', 'event', 'lane_position', 'position', 'private_action', 'route', 'trajectory', 'vehicle', 'weather')] + [OSI + 'include/openscenario_interpreter/reader/element.hpp', OSI + 'include/openscenario_interpreter/reader/attribute.hpp'],
  [('elements', OSI + 'src/syntax/: every constructor from (pugi::xml_node, Scope)'), ('reading', OSI + 'include/openscenario_interpreter/reader/{element,attribute}.hpp'), ('schema', 'openscenario/openscenario_validator/schema/OpenSCENARIO-{1.2,1.3}.xsd')],
  'abstract interpretation of each constructor over an opaque node, in which reads of attributes and children are events; names, types, cardinalities, alternatives, members and defaults compared with the two schemas of the repository and with the tables of what is documented as unsupported',
  'What an attribute means is not part of it. Ranges are decided at their ends and one place inside. Classes that the schema does not name are covered as far as one that it names reads them.' + TRUST)


P('C30', 'What one simulator says is what the other hears',
  'A message that is translated to be sent to the other simulator, and translated back there, is the same message: each of its fields is carried, as itself, by a type that holds every value it can have, each name (entity type, subtype, gear) by its own name, and each element of a list in its place; a name that does not exist is rejected, and what a translation leaves out by design is read as nothing. '
  'All bytes of a request are sent and read. The client sends each kind of request once, as that request, and returns the answer to it, or an empty answer when it is not connected; it closes its connection once. '
  'The server gives each request that arrives to the function registered for it, once, and answers it once with what that function says; a request of no kind is an error, and when nothing arrived nothing is answered.',
  ['inputs', 'programs'], 'every value of every message that is translated, and every kind of request', 'the unit tests translate one value of some of the messages, often with its fields left alone; no test runs client and server',
  ['simulation/simulation_interface/' + x for x in ('src/conversions.cpp', 'src/zmq_multi_client.cpp', 'src/zmq_multi_server.cpp', 'include/simulation_interface/conversions.hpp')] + ['simulation/simulation_interface/proto/' + x + '.proto' for x in ('autoware_control_msgs', 'autoware_vehicle_msgs', 'builtin_interfaces', 'geometry_msgs', 'rosgraph_msgs', 'simulation_api_schema', 'std_msgs', 'traffic_simulator_msgs')],
  [('translations', 'simulation/simulation_interface/src/conversions.cpp: toProto, toMsg, toProtobufMessage, toROS2Message'), ('client', 'simulation/simulation_interface/src/zmq_multi_client.cpp: MultiClient::call'), ('server', 'simulation/simulation_interface/src/zmq_multi_server.cpp: MultiServer::poll'), ('schema', 'simulation/simulation_interface/proto/*.proto')],
  'abstract interpretation of each translation over a message whose every field is its own symbol, against the fields of the .proto and .msg definitions (read on every run): there, back, and types; client and server are run over each kind of request with the functions and the socket as events; every call, in any source of the simulators, that puts a value into a field of a message, where the type of the field must hold every value of the type that is put into it',
  'Lists of no to two elements. Generated protobuf classes and ZeroMQ are modelled (fields from the .proto files). Delivery and order between processes are not part of it (N05).' + TRUST)


P('C31', 'Traffic lights show what they are set to',
  'Each state a scenario can write, <color> [<status>] [<shape>], is the bulb it says (a status or shape left out is solidOn, circle), one that is not such a state is rejected, and two bulbs are one only when they look the same. '
  'A traffic light named by its way, and each traffic light of a relation named by its relation, shows what it was last set to, with what was added since and nothing after it was cleared, at the confidence it was given; no other light changes, and an id that is of no light is rejected. '
  'What is detected replaces what is there, for each light of what is named, until it is cleared, and leaves what is there as it is; a V2I light that is enabled follows its conventional light however that is named, and no other does. '
  'It is required to stop exactly at red and yellow circles that are solidOn, at the nearest line of one; each lamp is drawn where it is in the map, bright exactly when a circle of its color is on; and a light is compared, written and published, by all its names and ids and with its own predictions, as what it shows.',
  ['inputs', 'histories'], 'every state that can be written, every order of operations on overlapping lights', 'the unit tests run a few states on one map, one operation at a time, and need ROS, which is not there: none of them runs here',
  ['simulation/traffic_simulator/' + x for x in ('src/traffic_lights/traffic_light.cpp', 'src/traffic_lights/traffic_lights_base.cpp', 'src/traffic_lights/traffic_lights.cpp', 'src/traffic_lights/traffic_light_publisher.cpp', 'src/utils/traffic_lights.cpp',
   'include/traffic_simulator/traffic_lights/traffic_light.hpp', 'include/traffic_simulator/traffic_lights/traffic_lights_base.hpp', 'include/traffic_simulator/traffic_lights/traffic_lights.hpp', 'include/traffic_simulator/traffic_lights/traffic_light_publisher.hpp')]
   + ['simulation/simulation_interface/include/simulation_interface/conversions.hpp', 'simulation/simulation_interface/proto/simulation_api_schema.proto'],
  [('bulbs', 'simulation/traffic_simulator/src/traffic_lights/traffic_light.cpp: TrafficLight::Bulb::make'), ('operations', 'simulation/traffic_simulator/src/traffic_lights/traffic_lights_base.cpp'),
   ('detection and V2I', 'simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp'), ('messages', 'simulation/traffic_simulator/src/traffic_lights/traffic_light_publisher.cpp: generateMessage')],
  'abstract interpretation of every word and every bulb (all colors, statuses and shapes), and of sequences of operations over an abstract map in which two relations share a way, with confidence and time as symbols; what is told is compared with what was set, by the names of the enumerations of the .proto and .msg files; each kind of message for every bulb, with and without predictions; the line to stop at among lights of given colors and distances, and the markers of lights with and without a lamp of each color',
  'Sequences of up to four operations on four ways and two relations. The lanelet map is a model (which ways a relation refers to, and the reverse). Up-left and up-right arrows are told as unknown, which the source documents. When lights are published is not part of it.' + TRUST)


P('C32', 'The other simulator keeps the scene it is told of',
  'What the sensors are given in a frame is the scene that was told: each entity that was spawned and not removed since, once, as what it was spawned (vehicle, ego, pedestrian or object), with its own bounding box and the pose and action it was last told to have, at the time of the frame, and the traffic lights as they were last told; no frame is simulated before the simulation is initialized, and initializing forgets every entity. '
  'Removing an entity removes that entity alone, says whether there was one, and leaves its name free; there is one ego at most, and telling the status of an entity that is not there is rejected; neither changes the scene. '
  'The ego is simulated by its own simulation, begun with its name, pose and step: an update that names it moves it once, to the end of the next step, by what is told if it is to be overwritten or driven by hand and by its simulation otherwise, and its status is what that simulation says, until it is removed; an update answers for exactly the entities it names, in order, with the status they then have. A sensor is attached as it is configured; in a frame each sensor that is attached is given the scene once, and detection and occupancy-grid sensors are given exactly what the lidars detected in that frame. A lidar and an occupancy grid look once each time their duration has passed (to 2 ms) and otherwise detect nothing; what a lidar saw is sent once, in order, when its delay has passed, one in a frame.',
  ['inputs', 'histories'], 'every sequence of spawning, removing, updating and initializing, over entities of each kind, with every pose, time and step', 'no test of the repository runs the simulator of sensors: it needs ROS, a map and Autoware',
  ['simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/sensor_simulation.cpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_sensor.hpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/simple_sensor_simulator.hpp', 'simulation/simulation_interface/src/conversions.cpp', 'simulation/simulation_interface/proto/simulation_api_schema.proto'],
  [('spawning and removing', 'simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp: ScenarioSimulator::despawnEntity'), ('updates', 'simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp: ScenarioSimulator::updateEntityStatus'),
   ('frames', 'simulation/simple_sensor_simulator/src/simple_sensor_simulator.cpp: ScenarioSimulator::updateFrame')],
  'abstract interpretation of each request in sequences over eight scenes of up to four entities (each of them removed, spawned again, the simulation initialized again), and of every kind of update (which entities, by hand, to overwrite, started), with poses, times and steps as symbols and messages as the .proto files declare them; what the sensors and the simulation of the ego are told is compared with what was asked for; frames with none, one and two sensors of each kind and lidars that detect different entities; thirteen frames of lidars and occupancy grids of four durations, three delays and two steps, compared with the schedule that follows from them',
  'The simulation of the ego, and what a sensor makes of what it looks at, are events and not part of it. Whether sensors and traffic lights outlive an initialization is not claimed. Spawning two entities of one name is not claimed (traffic_simulator rejects it before it asks).' + TRUST)


P('C33', 'A lidar tells of each hit whose body was hit',
  'In a scan the body of each entity is in the scene of the rays once, the scene is made ready before the rays are cast and is left without any body, so that no scan meets those of another; the rays begin at the given place and reach from the nearest to the farthest distance. '
  'The entities that are detected are exactly those whose body was hit, whatever identifiers the library of rays gives to the bodies, and a hit of something else is nobody. '
  'A lidar looks from the entity it is attached to, at every other entity and not at that one, tells of what this scan hit and nothing from before, at the time of the frame and in the frame of that entity, and it is an error if that entity is not there.',
  ['inputs', 'histories'], 'every scene, every assignment of identifiers to bodies, and every sequence of hits', 'no test of the repository casts a ray: it needs Embree, PCL and ROS',
  ['simulation/simple_sensor_simulator/src/sensor_simulation/lidar/raycaster.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_sensor.cpp', 'simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/lidar/raycaster.hpp'],
  [('bodies and hits', 'simulation/simple_sensor_simulator/src/sensor_simulation/lidar/raycaster.cpp: Raycaster::raycast'), ('what a lidar looks at', 'simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_sensor.cpp: LidarSensor::raycast')],
  'abstract interpretation of a scan over scenes of up to three bodies with identifiers in any order, and sequences of hits on them and on something else, the library of rays as events; of what a lidar gives to a scan, for entities before, after and around its own, with poses as symbols',
  'What a ray hits is an event (N04): the library is not here.' + TRUST)


# ------------------------------------------------------------------ what this family cannot decide
def NA(id, title, statement, over, text, why, files, reason):
    P(id, title, statement, over, text, why, files, [('behaviour', files[0])], na=reason)


TSB = 'simulation/traffic_simulator/'
NA('N01', 'Entities keep to their dynamic constraints while they follow a trajectory',
   'An entity that follows a trajectory reaches each waypoint at its time, and its speed, acceleration and jerk stay within its limits at every step.',
   ['histories', 'inputs'], 'every trajectory, limit and step length', 'tests sample a few trajectories; the limits hold step by step over whole runs',
   [TSB + 'src/behavior/follow_trajectory.cpp', TSB + 'src/behavior/longitudinal_speed_planning.cpp'],
   'whether a waypoint is reached in time is a property of an iteration over floating-point dynamics with no inductive bound in the source; the code itself rejects runs in which it fails')
NA('N02', 'A lanelet pose and its map pose name the same place',
   'Converting a lanelet pose to a map pose and back gives the same lanelet pose, for every place of the map.',
   ['inputs', 'configurations'], 'every map and every place', 'tests sample places of one map',
   [TSB + 'src/utils/pose.cpp', TSB + 'src/lanelet_wrapper/pose.cpp'],
   'it depends on the geometry of the map loaded at run time and on lanelet2 (absent here), which do not occur in the source')
NA('N03', 'Behaviour trees choose the action that the situation asks for',
   'A vehicle or pedestrian stops at stop lines, red lights, crossings and for other entities ahead, and follows its lane otherwise.',
   ['histories', 'inputs'], 'every situation', 'scenario tests sample situations',
   ['simulation/behavior_tree_plugin/src/vehicle/behavior_tree.cpp', 'simulation/behavior_tree_plugin/src/vehicle/follow_lane_sequence/follow_lane_action.cpp'],
   'the tree is XML that BehaviorTree.CPP (absent here) interprets at run time, and each choice compares distances along splines and lanelets, which have no finite abstraction that keeps the thresholds')
NA('N04', 'Sensors detect exactly what is in their range and line of sight',
   'A lidar returns the nearest hit of each ray, and a detection sensor lists exactly the entities within its range.',
   ['inputs'], 'every scene', 'tests sample scenes',
   ['simulation/simple_sensor_simulator/src/sensor_simulation/lidar/raycaster.cpp', 'simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp'],
   'hits are computed by Embree (absent here) over triangle meshes built at run time; noise is random by design')
NA('N05', 'Requests between the two simulators arrive, in order, and are answered',
   'Every request that the interpreter sends to the sensor simulator is answered once, and a lost peer is reported.',
   ['fault_sequences', 'schedules'], 'every interleaving and every loss', 'no test runs both processes',
   ['simulation/simulation_interface/src/zmq_multi_client.cpp', 'simulation/simulation_interface/src/zmq_multi_server.cpp'],
   'delivery and order are properties of ZeroMQ and of two processes; what the code itself adds (each request sent, given to its function and answered once) is C30, the endpoints are C18')
NA('N06', 'A Catmull-Rom spline is as long, and as far away, as it is told',
   'Arc length, nearest place, lateral offset and collision of a spline of many curves agree with its geometry to the stated tolerance.',
   ['inputs'], 'every spline', 'tests sample splines',
   ['common/math/geometry/src/spline/catmull_rom_spline.cpp', 'common/math/geometry/src/spline/catmull_rom_subspline.cpp'],
   'the answers come from sampling and Newton iteration; how far they are off depends on the number of samples and the curvature at run time (its parts, single curves and segments, are C23)')
