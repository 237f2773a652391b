EX = S + "Executive/"
p("C01", "Scheduled jobs run exactly at start + k*cycle",
  "In run mode an enabled cyclic job with start time S, cycle C and stop time E is called exactly once at every simulation time S, S+C, S+2C, ... that is not later than E and the termination time, and at no other time. Simulation time only ever takes values that are a due time of some job or a software-frame boundary, is strictly increasing, and is the same for every job of one step.",
  ["configurations", "inputs"], "every set of jobs (start/cycle/stop/phase/class, incl. coprime cycles, stop before start, stop between calls), every software frame, every termination time",
  "SIM_test_sched counts calls for one fixed job table; an off-by-one at stop times, a skipped step when two due times nearly coincide, or a lost next-call time shows only for other tables.",
  [EX+"Executive_loop_single_thread.cpp", EX+"Executive_advance_sim_time.cpp", S+"ScheduledJobQueue/ScheduledJobQueue.cpp", EX+"Executive_add_jobs_to_queue.cpp"],
  [("next-call-time tracking while the queue is walked", S+"ScheduledJobQueue/ScheduledJobQueue.cpp find_next_job"), ("time advance to the minimum next time", EX+"Executive_advance_sim_time.cpp")],
  ["user job bodies"])
p("C02", "Jobs due at the same time run in class, phase, object, declaration order",
  "All jobs due in one step on a thread are called in order of job class, then phase, then the order their sim objects were added, then declaration order inside the sim object. The same order governs every non-scheduled class (default_data, initialization, frame, freeze and shutdown classes), whatever order jobs were registered in.",
  ["configurations"], "every assignment of classes, phases and sim objects to jobs, including equal keys and jobs added while running",
  "One S_define fixes one order; a comparator error on a particular key combination stays invisible.",
  [S+"ScheduledJobQueue/ScheduledJobQueue.cpp", EX+"Executive_add_jobs_to_queue.cpp", "libexec/trick/pm/parse_s_define.pm"],
  [("ordered insert", S+"ScheduledJobQueue/ScheduledJobQueue.cpp push")], ["user job bodies"])
p("C03", "Simulation phases: init, frames and shutdown each run once, in order",
  "A simulation runs all default_data jobs, then the input processor, then all initialization jobs, each exactly once and before any scheduled job. top_of_frame jobs run once at the start of every software frame before that time's scheduled jobs and end_of_frame jobs once when a software frame ends, after all scheduled jobs of that frame and before the next frame's top_of_frame jobs. However the run ends, the shutdown jobs run exactly once, last, iff initialization completed.",
  ["configurations", "fault_sequences"], "every job table, software frame length, and every way of ending (termination time, stop command, a job of any class returning non-zero, exec_terminate in any phase)",
  "Tests end by termination time; endings from within a particular class at a particular moment are not enumerated.",
  [EX+"Executive_init.cpp", EX+"Executive_loop_single_thread.cpp", EX+"Executive_loop_multi_thread.cpp", EX+"Executive_shutdown.cpp"],
  [("init sequence", EX+"Executive_init.cpp"), ("frame checks", EX+"Executive_loop_single_thread.cpp"), ("shutdown queue", EX+"Executive_shutdown.cpp")], ["user job bodies", "process exit status"])
p("C04", "Freeze holds simulation time and resumes without losing or repeating work",
  "A freeze command takes effect at the end of the time step (or at the next frame boundary when so configured or when issued asynchronously); while frozen simulation time does not change and no scheduled, top- or end-of-frame job runs. freeze_init jobs run once on entry, freeze_scheduled jobs at their own cycle in freeze time, freeze jobs once per freeze frame, unfreeze jobs once on exit; after resuming the sequence of scheduled calls is the one an unfrozen run would have made.",
  ["histories", "schedules"], "every sequence of freeze / run / scheduled-freeze / shutdown commands, issued from any job class, at any time, including several at once",
  "Existing tests freeze once at one time; interleavings of several commands and their exact step are not checked.",
  [EX+"Executive_freeze.cpp", EX+"Executive_freeze_loop.cpp", EX+"Executive_init_freeze_scheduled.cpp", EX+"Executive_run.cpp"],
  [("freeze command promotion", EX+"Executive_freeze.cpp"), ("freeze loop", EX+"Executive_freeze_loop.cpp")], ["user job bodies", "exec_get_mode"])
p("C05", "Run-time job control changes exactly the addressed jobs, from then on",
  "Turning a job, tag, or sim object on or off, or changing a job's cycle, at any moment affects exactly the addressed jobs and only calls after that moment; disabled jobs are not called and keep their schedule phase, so re-enabling resumes on the original grid. Turning a sim object off and on again restores each job's individual on/off state.",
  ["histories"], "every sequence of on/off/cycle commands by name, instance, tag or sim object, interleaved with job calls at any time",
  "SIM_test_sched issues one or two commands; sequences that interact (object off, job on, object on) are untested.",
  [EX+"Executive_set_job_onoff.cpp", EX+"Executive_set_simobject_onoff.cpp", EX+"Executive_set_job_cycle.cpp", S+"SimObject/JobData.cpp"],
  [("disabled flag checked at dispatch", S+"ScheduledJobQueue/ScheduledJobQueue.cpp"), ("saved job states", EX+"Executive_set_simobject_onoff.cpp")], ["user job bodies", "return codes"])
p("C06", "Adding or removing sim objects while running disturbs no other job",
  "A sim object added while the simulation runs has its jobs scheduled from the current time on; a removed one has none of its jobs called again. All other jobs keep exactly the calls, times and order they would otherwise have had, even when the change is made from inside a job of the same queue.",
  ["histories"], "every add/remove sequence, from any job, relative position before/after the running job in the queue",
  "SIM_dynamic_sim_object adds one object at one time; queue-index corner cases depend on relative position.",
  [EX+"Executive_add_sim_object.cpp", EX+"Executive_remove_jobs.cpp", S+"ScheduledJobQueue/ScheduledJobQueue.cpp"],
  [("index adjustment on push/remove", S+"ScheduledJobQueue/ScheduledJobQueue.cpp")], ["user job bodies"])
p("C07", "Scheduled threads run in lock-step with the main thread",
  "Jobs on a synchronous child thread run exactly at their due times, in queue order, at the main thread's simulation time; the main thread never advances time before every enabled synchronous thread has finished the step. A job declared to depend on another job of the same step does not start before that job has finished.",
  ["schedules", "configurations"], "every interleaving of the threads and every relative job duration, assignment of jobs to threads and dependency set",
  "A test observes one interleaving chosen by the OS; a missing wait shows only when a child is slow at the wrong moment.",
  [EX+"Executive_loop_multi_thread.cpp", EX+"Threads_child.cpp", EX+"Executive_scheduled_thread_sync.cpp", EX+"Executive_thread_sync.cpp", EX+"ThreadTrigger.cpp"],
  [("child_complete handshake", EX+"Executive_scheduled_thread_sync.cpp"), ("depends wait on complete flag", EX+"Threads_child.cpp")], ["job start/end events"])
p("C08", "Asynchronous threads synchronise only at their cycle boundaries",
  "An asynchronous-must-finish thread starts a pass at each multiple of its cycle, runs in that pass exactly the jobs due before the next boundary, and the main thread does not pass that boundary until the pass has finished. An asynchronous thread with a cycle starts a pass only at a cycle boundary at which its previous pass has finished, never overlapping itself, and never delays the main thread; a pass is never started twice for one boundary.",
  ["schedules", "configurations"], "every interleaving and job duration, thread cycle and job cycle",
  "SIM_threads only checks that the sim terminates; overlap or a skipped boundary depends on timing.",
  [EX+"Executive_loop_multi_thread.cpp", EX+"Executive_isThreadReadyToRun.cpp", EX+"Executive_thread_sync.cpp", EX+"Threads_child.cpp"],
  [("readiness test", EX+"Executive_isThreadReadyToRun.cpp"), ("AMF wait", EX+"Executive_thread_sync.cpp")], ["job start/end events"])
p("C09", "Changing the time-tic resolution preserves every scheduled real time",
  "Changing the number of tics per second leaves simulation time, job cycles and start times, pending freeze times, the termination time, event times and frame lengths the same in seconds (as far as the new resolution can represent them). Every job afterwards runs at the same times in seconds as it would have without the change.",
  ["configurations", "inputs"], "every pair of resolutions, set at start-up, with any table of jobs, freeze and termination times",
  "SIM_exec_set_time_tic_value checks one change with whole-second times.",
  [EX+"Executive_set_time_tic_value.cpp", EX+"Executive.cpp", S+"EventManager/EventProcessor.cpp"],
  [("rescaling of all stored tics", EX+"Executive_set_time_tic_value.cpp")], ["user job bodies", "exec_get_terminate_time"])
p("C10", "A run restored from a checkpoint continues like the uninterrupted run",
  "If a checkpoint taken at any time of a run is loaded (into a fresh process at start-up, or back into the running simulation), then from the restored time on all job calls, their times and order, model state, on/off states, events and data recording continue exactly as in the uninterrupted run. checkpoint, post_checkpoint, preload_checkpoint and restart jobs each run exactly once per operation, in that order, and initialization jobs are not run again.",
  ["crash_points", "histories", "configurations"], "every job table and every checkpoint instant, chains of several dumps and loads",
  "Tests load one checkpoint and compare a few variables, not the rest of the run.",
  [S+"CheckPointRestart/CheckPointRestart.cpp", EX+"Executive_restart.cpp", EX+"Executive_checkpoint.cpp", S+"SimObject/JobData.cpp"],
  [("saving/restoring job data", EX+"Executive_restart.cpp"), ("ordering of the checkpoint job classes", S+"CheckPointRestart/CheckPointRestart.cpp")], ["user job bodies", "checkpoint files"])
p("C11", "Integration loops call derivative and integration jobs in the prescribed order",
  "For each integration step a loop runs its pre-integration jobs once, then alternates derivative and integration jobs until every integration job reports the step complete, then dynamic events to convergence and post-integration jobs once. Each loop advances simulation state from one loop time to the next with no step skipped or repeated, and only the jobs of sim objects assigned to that loop are called.",
  ["configurations"], "every number of loops, cycles, integrators (pass counts), and assignments of sim objects to loops",
  "Tests compare final numbers for one configuration, not the call protocol.",
  [S+"Integrator/src/IntegLoopScheduler.cpp", S+"Integrator/src/IntegLoopManager.cpp"],
  [("integrate()", S+"Integrator/src/IntegLoopScheduler.cpp")], ["user job bodies"])
p("C12", "Managed memory: every allocation is found by its name and any inner address",
  "At all times the set of managed variables is exactly those declared or registered and not yet deleted: each is found by name, and by every address inside it and by no other address; names are unique, a rejected request changes nothing, and allocations never overlap. Resizing keeps the leading elements and the name; deleting releases exactly one variable.",
  ["histories"], "every sequence of declare (anonymous, named, extern, typed, arrays, string), resize, delete by name or address and lookup, including failing ones",
  "Unit tests do one or two operations each on fresh managers; interactions between adjacent allocations and failures are not covered.",
  [S+"MemoryManager/MemoryManager_declare_var.cpp", S+"MemoryManager/MemoryManager_delete_var.cpp", S+"MemoryManager/MemoryManager_get_alloc_info.cpp", S+"MemoryManager/MemoryManager_resize_array.cpp"],
  [("allocation and variable maps", S+"MemoryManager/MemoryManager.cpp")], ["MemoryManager C++ API"])
p("C13", "A checkpoint restores an identical object graph",
  "Writing a checkpoint of all or selected managed variables and reading it back into a cleared manager reproduces every variable with the same name, type, dimensions and value, and every pointer leads to the same element of the same variable (or null) as before, including aliases, interior pointers, cycles, pointer arrays and anonymous allocations. Checkpointing changes nothing, and a second checkpoint of the restored state equals the first.",
  ["inputs", "histories"], "every finite graph of managed objects, with extreme values, strings with any characters, enums, bit-fields, multi-dimensional arrays and STL members",
  "Unit tests write hand-made graphs of one or two variables.",
  [S+"MemoryManager/MemoryManager_write_checkpoint.cpp", S+"CheckPointAgent/ClassicCheckPointAgent.cpp", S+"MemoryManager/MemoryManager_read_checkpoint.cpp", S+"MemoryManager/MemoryManager_restore_stls.cpp"],
  [("dependency closure and name assignment", S+"MemoryManager/MemoryManager_get_alloc_deps_in_addressing_order.cpp"), ("assignment parser", S+"CheckPointAgent/input_parser.y")], ["checkpoint stream", "MemoryManager API"])
p("C14", "Variable names and addresses resolve to each other",
  "For every element reachable from a managed variable, its dotted/indexed name resolves to its address, type and units, and the name produced for that address and type resolves back to the same address. Names that designate nothing (unknown member, index out of range, null pointer on the path) are rejected and resolve to no address outside a managed variable.",
  ["inputs"], "every path through nested structures, arrays, pointers and STL containers, valid or not",
  "Tests try a few dozen names.",
  [S+"MemoryManager/MemoryManager_ref_attributes.cpp", S+"MemoryManager/ref_parser.y", S+"MemoryManager/MemoryManager_ref_name_from_address.cpp"],
  [("reference parser and name builder", S+"MemoryManager/")], ["ref_attributes", "ref_name_from_address"])
p("C15", "Data recording writes one correct row per due time",
  "A recording group writes exactly one row at each of its due times (the union of its recording cycles, while enabled) holding the time and every variable's value at that time; in change mode it writes a row exactly when a watched variable has changed since it was last seen, and in step mode each such row is preceded by a row at the same time holding the previously recorded values. Rows appear in time order and no row mixes values of different times.",
  ["configurations", "histories"], "every cycle set, change pattern, frequency mode, enable/disable and record-now sequence, phase and job class",
  "Tests compare a few logs at one rate.",
  [S+"DataRecord/DataRecordGroup.cpp"], [("data_record()", S+"DataRecord/DataRecordGroup.cpp")], ["log files"])
p("C16", "Recorded rows survive buffering unchanged",
  "With thread or no buffering every recorded row reaches the file exactly once and in order, whatever the buffer size, the relative speed of the writer thread, or how often the buffer wraps; with the ring policy exactly the most recent rows that fit are written. The file holds all of them after a graceful shutdown, and recording stops at the first row boundary after the file-size limit.",
  ["schedules", "configurations"], "every interleaving of recording and writer thread, buffer size, burst length, number of groups",
  "Writer-thread interleaving and wrap-around are never controlled by tests.",
  [S+"DataRecord/DataRecordGroup.cpp", S+"DataRecord/DataRecordDispatcher.cpp"],
  [("buffer_num/writer_num and mutex", S+"DataRecord/DataRecordGroup.cpp write_data"), ("dispatcher thread", S+"DataRecord/DataRecordDispatcher.cpp")], ["log files"])
p("C17", "A recorded log reads back the same in every format",
  "The values a reader obtains for a variable from a binary, ASCII or CSV log are the recorded ones, row for row, with the header's names, units and types; the three formats written for the same data agree. Readers that step, seek to a time or reopen deliver each row exactly once and in order and report end of data after the last.",
  ["inputs", "histories"], "every recorded type and value, row count (incl. zero), reader operation sequence",
  "Data-products tests use a few stored logs.",
  [S+"DataRecord/DRAscii.cpp", S+"DataRecord/DRBinary.cpp", "trick_source/data_products/Log/DataStream.cpp", "trick_source/data_products/Log/trick_byteorder.cpp"],
  [("log format readers", "trick_source/data_products/Log/")], ["log files", "trick-dre style readers"])
p("C18", "Events fire once per triggering condition evaluation, as configured",
  "An event's conditions are evaluated at its cycle (and only once added, active and not manually held); it triggers when a condition (or all conditions, if so set) is true, and then its actions run in order, each action whose enable flag is set, exactly once per triggering. Hold makes a condition stay true after it first became so, a condition or action that disables itself runs no more until re-enabled, and disabling, removing or replacing an event takes effect at once.",
  ["histories", "configurations"], "every set of events with conditions, actions, holds, enables and cycles and every truth history of the conditions",
  "SIM_events runs one script.",
  [S+"EventManager/EventProcessor.cpp", S+"InputProcessor/IPPythonEvent.cpp", S+"EventManager/EventManager.cpp"],
  [("process_event queue ordered by next time", S+"EventManager/EventProcessor.cpp"), ("condition/action evaluation", S+"InputProcessor/IPPythonEvent.cpp")], ["event actions", "event state variables"])
p("C19", "A fired set of real-time injections is applied atomically, once, in order",
  "Variable assignments staged by any client become visible only when that client fires them; a fired list is applied completely, in staging order, at one top-of-frame (or freeze) instant, exactly once. Lists of different clients or threads never mix, and un-fired assignments are never applied.",
  ["schedules", "histories"], "every interleaving of several clients staging and firing with the executive consuming",
  "SIM_rti fires from one client.",
  [S+"RealtimeInjector/RtiStager.cpp", S+"RealtimeInjector/RtiExec.cpp", S+"RealtimeInjector/RtiList.cpp"],
  [("list hand-over under mutex", S+"RealtimeInjector/RtiExec.cpp")], ["variable values at each step"])
p("C20", "A variable-server session's reply stream follows its command sequence",
  "Each message a client receives is the reply to its own commands: after a command sequence the list of reported variables, their order, units, format (ASCII, binary with or without names, byte order), pause state and cycle are those the commands prescribe. Periodic messages carry exactly the current list, one value per variable; unknown names are reported as bad references and never stop the session or affect other entries; one-shot requests answer immediately and leave the list unchanged.",
  ["histories", "inputs"], "every sequence of session commands over every mix of valid, duplicate and invalid names and units",
  "SIM_test_varserv is disabled upstream; unit tests mock single calls.",
  [S+"VariableServer/VariableServerSession_commands.cpp", S+"VariableServer/VariableServerSession_write_data.cpp", S+"VariableServer/VariableReference.cpp", S+"VariableServer/var_server_ext.cpp"],
  [("session variable list", S+"VariableServer/VariableServerSession_commands.cpp")], ["client socket"])
p("C21", "A synchronous variable-server message is a consistent snapshot",
  "In scheduled or top-of-frame copy mode all values of one message were copied at one simulation instant, at a time prescribed by the cycle (or frame multiple and offset), values and the reported time belong together, and successive messages never go back in time. Values never come from partially executed job steps.",
  ["schedules", "histories"], "every interleaving of client threads with the executive, every copy/write mode, cycle, frame multiple/offset, freeze and resume",
  "Tearing needs an unlucky interleaving.",
  [S+"VariableServer/VariableServerSession_copy_and_write_modes.cpp", S+"VariableServer/VariableServerSession_copy_sim_data.cpp", S+"VariableServer/VariableServer_copy_and_write_scheduled.cpp"],
  [("copy mutex and double buffering", S+"VariableServer/VariableReference.cpp")], ["client socket"])
p("C22", "Variable-server clients are isolated from each other and from the simulation",
  "Any number of clients may connect, send commands, stall, or vanish at any moment: each keeps its own variable list and settings, no client's commands or disconnection changes what another receives, and the simulation's job calls are unaffected. Every accepted connection is served until it exits, and the simulation always shuts down cleanly with clients attached.",
  ["fault_sequences", "schedules"], "every interleaving of connects, commands, abrupt disconnects and shutdown over several clients",
  "Tests use one well-behaved client.",
  [S+"VariableServer/VariableServer.cpp", S+"VariableServer/VariableServerSessionThread_loop.cpp", S+"VariableServer/VariableServer_shutdown.cpp", S+"ThreadBase/SysThread.cpp"],
  [("per-session state and session maps", S+"VariableServer/VariableServer.cpp")], ["client sockets", "job calls", "exit status"])
p("C23", "Each message reaches every enabled subscriber exactly once, in order",
  "A published message is delivered, with level, time header and full text, exactly once to every subscriber that is subscribed and enabled at that moment and to no other, in publication order per subscriber, also when several threads publish. Subscribing, unsubscribing, enabling and level filters take effect for later messages only.",
  ["histories", "schedules"], "every sequence of subscribe/unsubscribe/enable/publish and every interleaving of publishing threads",
  "No existing test covers the message classes beyond a smoke run.",
  [S+"Message/MessagePublisher.cpp", S+"Message/MessageCustomManager.cpp", S+"Message/MessageThreadedCout.cpp"],
  [("publish under lock to list of subscribers", S+"Message/MessagePublisher.cpp")], ["subscriber update calls", "message files"])
p("C24", "Every Monte Carlo run is dispatched and accounted for exactly once",
  "In a Monte Carlo execution every enabled run within the valid ranges is eventually processed and resolved exactly once, in spite of slaves that fail, time out, report late or disconnect: lost runs are re-dispatched up to the retry limit, at most one result per run is accepted, and no run is dispatched outside the ranges. Pre/post jobs of the master and slave run once per run around it with that run's inputs, and the final counts of succeeded/failed runs agree with the outcomes.",
  ["fault_sequences", "schedules"], "every number of slaves and runs, ranges, failure kind and moment, retry and timeout setting",
  "Unit tests exercise dispatch bookkeeping without slave failures.",
  [S+"MonteCarlo/MonteCarlo_dispatch_run_to_slave.cpp", S+"MonteCarlo/MonteCarlo_receive_results.cpp", S+"MonteCarlo/MonteCarlo_funcs.cpp", S+"MonteCarlo/MonteCarlo_slave_process_run.cpp"],
  [("run/slave bookkeeping", S+"MonteCarlo/MonteCarlo_funcs.cpp")], ["MonteCarlo API", "sockets"])
p("C25", "Each Monte Carlo run gets the inputs prescribed for its index",
  "The value every Monte Carlo variable takes in run k depends only on its definition and k (file row k, k-th value of the range or k-th draw of its seeded generator, constant), not on which slave runs it, the order or number of dispatches or retries. Derived variables see the values of the same run, and re-running a single index reproduces its inputs.",
  ["configurations", "histories"], "every mix of variable kinds, seeds, bounds, run ranges and dispatch orders",
  "Tests evaluate the variables in one sequential pass.",
  [S+"MonteCarlo/MonteVarFile.cpp", S+"MonteCarlo/MonteVarRandom.cpp", S+"MonteCarloGeneration/mc_master.cc", S+"MonteCarloGeneration/mc_variable_file.cc"],
  [("per-run value generation", S+"MonteCarlo/MonteCarlo_master.cpp")], ["run inputs"])
p("C26", "Real-time pacing: never ahead of the clock, overruns counted exactly",
  "With real-time enabled the simulation never begins a frame before the real-time clock has reached the frame's time; frames that finish late are counted as overruns, one each, consecutive and total counts being exact and reset as documented. When either overrun limit is reached the simulation freezes or terminates as configured, and not before; enabling, disabling, clock ratio and freezes never make simulation time jump.",
  ["schedules", "histories", "configurations"], "every sequence of frame durations, limits, clock ratios, freezes and enable/disable commands",
  "Wall-clock tests cannot produce chosen frame durations; none exist for this class.",
  [S+"RealtimeSync/RealtimeSync.cpp", S+"Clock/Clock.cpp", S+"Clock/TPROCTEClock.cpp"],
  [("rt_monitor", S+"RealtimeSync/RealtimeSync.cpp"), ("reference time adjustment", S+"Clock/Clock.cpp")], ["virtual clock", "job calls"])
p("C27", "Master and slave simulations advance in lock-step",
  "Connected master and slave simulations complete each frame together: no slave starts frame n+1 before the master has finished frame n and vice versa, all are in the same mode, and freeze, run, checkpoint and shutdown commands given to the master take effect in every slave at the same frame. Loss of a peer leads to the configured reaction (continue, freeze or terminate) within one frame, never to a hang or a silent divergence.",
  ["schedules", "fault_sequences"], "every interleaving of master and slaves, command, and peer failure at any protocol step",
  "No test runs a master with a slave.",
  [S+"MasterSlave/Master.cpp", S+"MasterSlave/Slave.cpp", S+"MasterSlave/MSSocket.cpp"],
  [("end-of-frame status exchange", S+"MasterSlave/Master.cpp end_of_frame_status_from_slave")], ["MS connection calls"])
p("C28", "The communication library delivers byte streams intact",
  "Bytes written on a connection arrive at the peer complete, in order and unduplicated under every split of writes and reads and every blocking mode; a read returns the number of bytes actually delivered, reports would-block, timeout and disconnection as documented, and never loses data already received. Several pending connections sharing a port are matched by tag.",
  ["schedules", "fault_sequences", "inputs"], "every sequence of write/read sizes, blocking modes and disconnections on both ends",
  "Unit tests exchange one or two buffers.",
  ["trick_source/trick_utils/comm/src/tc_read.c", "trick_source/trick_utils/comm/src/tc_write.c", "trick_source/trick_utils/comm/src/tc_connect.c", "trick_source/trick_utils/comm/src/tc_multiconnect.c"],
  [("partial transfer loops", "trick_source/trick_utils/comm/src/tc_read.c")], ["tc_* API"])
p("C29", "Container utilities behave as sequences",
  "The list, queue, stack, search-tree and string-map utilities behave as the mathematical sequences, bags and maps they represent: every operation returns and leaves what the operation prescribes, whatever the history, with positions and counts always consistent and no element lost or duplicated by insert, remove, sort, lookup or traversal in either direction.",
  ["histories"], "every sequence of operations up to a bound, with duplicate values and empty containers",
  "Unit tests apply each operation to a few lists.",
  ["trick_source/trick_utils/trick_adt/src/dllist.c", "trick_source/trick_utils/trick_adt/src/lqueue.c", "trick_source/trick_utils/trick_adt/src/lstack.c", "trick_source/trick_utils/trick_adt/src/bst.c", "trick_source/trick_utils/trick_adt/src/MapStrToPtr.c"],
  [("pointer manipulation", "trick_source/trick_utils/trick_adt/src/dllist.c")], ["C API"])
p("C30", "Workflow jobs run within the CPU limit, once each, with the right status",
  "The workflow tool runs each submitted job exactly once, never more at the same time than the CPU limit allows, in submission order of starting, and reports success exactly when every job ended with its expected exit status; failures, time-outs and kills are attributed to the right job.",
  ["configurations", "fault_sequences"], "every list of jobs, durations, exit codes and CPU limits",
  "Tests run a handful of jobs.",
  ["share/trick/trickops/WorkflowCommon.py"], [("execute_jobs loop", "share/trick/trickops/WorkflowCommon.py")], ["job objects", "child processes"])
p("C31", "Instrumentation wraps exactly the addressed jobs",
  "An instrumentation job added before or after one job or all jobs is called exactly once before or after every call of exactly those jobs, in phase order, until removed, and changes nothing about when or in which order the jobs run.",
  ["histories", "configurations"], "every sequence of instrument/remove operations, target sets and phases",
  "No test checks instrumentation against a schedule.",
  [EX+"Executive_instrument_job.cpp", S+"SimObject/JobData.cpp", S+"ScheduledJobQueue/ScheduledJobQueue.cpp"],
  [("inst_before/inst_after lists", S+"SimObject/JobData.cpp")], ["user job bodies"])
p("C32", "Collections hold exactly the current set of collected items",
  "After any sequence of collecting and un-collecting items, a collect pointer array contains exactly the collected and not yet removed items, in insertion order, with a correct count; other collections are untouched.",
  ["histories"], "every sequence of add/remove over several collections",
  "No unit test exists.",
  [S+"Collect/collect.cpp"], [("count stored before the array", S+"Collect/collect.cpp")], ["add_collect/delete_collect/num_collect"])
p("C33", "Unit conversion is exact and composition-consistent",
  "Converting a value between two compatible units and back yields the original to rounding, converting via a third unit agrees with converting directly, and incompatible units are refused with the value left unchanged.",
  ["inputs"], "every unit pair and value", "Tests sample a few pairs.",
  ["trick_source/trick_utils/units/src/", S+"UdUnits/UdUnits.cpp"], [("UDUNITS conversion", S+"UdUnits/UdUnits.cpp")])
p("C34", "Numerical integrators reach their order of accuracy",
  "Each integrator advances any smooth system with its nominal order of accuracy, and adaptive integrators keep the local error within the requested tolerance.",
  ["inputs"], "every smooth right-hand side and step size", "Tests integrate a few closed-form problems.",
  ["trick_source/er7_utils/integration/", "trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp"], [("Runge-Kutta and multistep tableaux", "trick_source/er7_utils/integration/")])
p("C35", "Generated interface code describes every C++ type faithfully",
  "For every class the interface code generator accepts, the generated attribute table lists exactly its accessible members with their true offset, size, type, dimensions, units and I/O permission, following inheritance, templates, typedefs and namespaces.",
  ["programs"], "every C++ header the generator accepts", "Tests cover the headers of the test sims.",
  ["trick_source/codegen/Interface_Code_Gen/"], [("AST visitors", "trick_source/codegen/Interface_Code_Gen/")])
p("C36", "Math utilities satisfy their algebraic identities",
  "Matrix, vector, quaternion and Euler-angle utilities satisfy their defining identities for every non-degenerate input.",
  ["inputs"], "every real input", "Tests sample inputs.",
  ["trick_source/trick_utils/math/src/"], [("closed-form formulas", "trick_source/trick_utils/math/src/")])
