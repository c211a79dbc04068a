"""The properties: the single source of properties.jsonl and MANIFEST.json (tools/gen.py)."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, driver=None, na=None, note="", state=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(),
                      text=" ".join(text.split()), why=" ".join(why.split()),
                      files=["src/uvm/" + f for f in files.split()], mech=mech, driver=driver, na=na,
                      note=note, state=state or []))


P("C01", "Objection counts are exact and propagate through the hierarchy",
  """The total objection count of an object always equals its own outstanding raises plus the outstanding
  raises of all its descendants, every raise and drop notifies the raised, dropped and all_dropped hooks of the
  object and then of each ancestor up to the top exactly once with the right source and count (a raise made while an
  ancestor's drain of an earlier drop is pending reaches that ancestor only with what it adds to it),
  and an unbalanced drop is rejected and changes nothing.""",
  "histories schedules inputs",
  "every sequence of raise, drop, clear and query operations, with any counts, on any component tree",
  "Tests raise and drop one objection on one or two components; the totals must be right for every history and tree shape.",
  "base/uvm_objection.py", [("raise/drop propagate up the parent chain", "UVMObjection.m_propagate/m_raise/m_drop")],
  driver="objection")
P("C02", "all_dropped only after the drain time with no re-raise, and always then",
  """When the last objection below an object is dropped, all_dropped is signalled once its drain time has elapsed
  with no new raise, never earlier, and then exactly once; a raise during the drain cancels the pending
  all_dropped.  Several objects may drain at the same time without delaying or losing each other's all_dropped.""",
  "schedules histories",
  "every interleaving of raises, drops and drain times of several components at the same or different times",
  "Needs overlapping drains and raises that land exactly inside a drain; tests use a single drain.",
  "base/uvm_objection.py", [("scheduled forks and drain processes", "UVMObjection.m_execute_scheduled_forks/m_forked_drop")],
  driver="objection")
P("C03", "Every component runs each common phase once, in order, build top-down",
  """In every test run, each component executes build, connect, end_of_elaboration, start_of_simulation, run,
  extract, check, report and final exactly once and in that order; build visits a parent before its children, the
  other function phases visit children before their parent, and no component starts a phase before
  every component finished the preceding one.""",
  "programs schedules",
  "every component tree, including components created during build, and every duration of the run phases",
  "Tests contain a few fixed small trees and assert little about the global phase order.",
  "base/uvm_phase.py base/uvm_common_phases.py base/uvm_topdown_phase.py base/uvm_bottomup_phase.py base/uvm_root.py",
  [("phase graph and hopper", "UVMPhase.m_run_phases/execute_phase"), ("traversal", "UVMBottomupPhase/UVMTopdownPhase.traverse")],
  driver="phasing")
P("C04", "A time-consuming phase lasts while anyone objects to it",
  """A time-consuming phase does not end while an objection to it is outstanding, and ends once all objections
  have been dropped and drained; the twelve run-time phases run strictly one after another in schedule order,
  in parallel with the run phase; the phase task of a component still running when its phase ends makes no further progress.""",
  "schedules programs",
  "every set of components that raise and drop objections in any of the phases at any times",
  "The end of a phase depends on the interleaving of all objectors; tests cover single objectors.",
  "base/uvm_phase.py base/uvm_task_phase.py base/uvm_runtime_phases.py base/uvm_objection.py",
  [("phase end on all_dropped", "UVMPhase.execute_phase"), ("process kill", "UVMPhase/UVMTaskPhase.execute")],
  driver="phasing")
P("C42", "Each domain runs its own run-time phases, independently of other domains",
  """A component executes the run-time phases of the domain it (or the component above it) was last moved to, each
  once and in order, and no run-time phase of another domain; run-time phases of different domains do not wait for each
  other, an objection holds only the phase of its own domain, while the common phases are shared: extract starts when the run phase and
  the last phase of every domain ended together.""",
  "schedules programs",
  "every assignment of the components of a tree to domains before or during build and every set of objections",
  "Tests use only the default domain.",
  "base/uvm_phase.py base/uvm_domain.py base/uvm_component.py base/uvm_runtime_phases.py base/uvm_task_phase.py",
  [("domains", "UVMComponent.set_domain/define_domain, UVMDomain"), ("traversal by domain", "UVMTaskPhase.m_traverse")],
  driver="phasing")
P("C43", "The state of a phase always tells what the phase is doing",
  """A phase passes through scheduled, syncing, started, executing, ready-to-end (time-consuming phases only, and as
  often as it is asked to stay), ended, cleanup and done in exactly this order; the hooks and bodies of components
  see the matching state, registered phase callbacks are told of every change with its previous state, and
  wait_for_state returns exactly when the state is reached.""",
  "schedules programs",
  "every component tree, script of objections and set of watched phases",
  "No test registers a phase callback or reads the state of a phase.",
  "base/uvm_phase.py base/uvm_task_phase.py base/uvm_callback.py",
  [("state machine", "UVMPhase.execute_phase/set_state"), ("callbacks", "UVMPhaseCb.phase_state_change"), ("waiting", "UVMPhase.wait_for_state")],
  driver="phasing")
P("C05", "Phase schedules keep the order they were built with",
  """A phase inserted with, before or after others in a schedule is ordered exactly so by the resulting graph, all
  previously existing orderings are preserved, and lookup and before/after queries agree with that graph.""",
  "histories inputs", "every sequence of phase insertions (append, with, before, after, between) in nested schedules",
  "Tests insert one or two phases at the end of a schedule; the pointer surgery has many cases.",
  "base/uvm_phase.py base/uvm_domain.py", [("graph surgery", "UVMPhase.add"), ("queries", "UVMPhase.is_before/is_after/find")],
  driver="phase_graph")
P("C06", "The sequencer grants one relevant waiting sequence per the arbitration mode",
  """A sequence is granted only when the driver asks for an item, one at a time, and only if the sequence is waiting,
  relevant and not blocked; with FIFO arbitration it is the eligible one that has waited longest, with random arbitration any eligible one.  Every waiting
  eligible sequence is eventually served while the driver keeps asking.""",
  "schedules histories programs",
  "every set of concurrent, nested sequences, priorities, relevance changes and driver behaviours",
  "Tests run one or two sequences with one arbitration outcome.",
  "seq/uvm_sequencer_base.py seq/uvm_sequencer_param_base.py seq/uvm_sequencer.py",
  [("arbitration queue", "UVMSequencerBase.m_choose_next_request/m_select_sequence")], driver="sequencer")
P("C07", "Sequence-driver handshake delivers each item exactly once and in step",
  """Each item a sequence finishes is delivered to the driver exactly once, in grant order, unmodified; the
  sequence is unblocked from finishing an item only after the driver reports that item done, and try_next_item, peek,
  get and put keep that protocol.""",
  "schedules histories",
  "every interleaving of start_item/finish_item in concurrent sequences with get_next_item, try_next_item, peek, get, item_done in the driver",
  "Depends on interleavings of sequence and driver processes that fixed tests do not vary.",
  "seq/uvm_sequencer.py seq/uvm_sequence_base.py seq/uvm_sequencer_param_base.py",
  [("request FIFO and item-done handshake", "UVMSequencer.get_next_item/item_done, UVMSequenceBase.finish_item")], driver="sequencer")
P("C08", "Each response reaches the sequence that issued the request, in order",
  """Every response sent by the driver is delivered exactly once to the sequence whose request it answers, in order of
  arrival, or by transaction id when asked for one; the queue depth is respected with an error on overflow and
  no response reaches another sequence.""",
  "schedules histories", "every number of concurrent sequences, response orders, response queue depths and handlers",
  "Response routing matters with concurrent sequences and reordered responses; tests use one sequence.",
  "seq/uvm_sequence_base.py seq/uvm_sequencer_param_base.py seq/uvm_sequence.py",
  [("sequence ids and response queue", "put_response/get_base_response")], driver="sequencer")
P("C09", "A sequence runs its hooks in order and its state only moves forward",
  """Starting a sequence runs pre_start, pre_body, body, post_body and post_start (and the parent's
  pre_do, mid_do and post_do) in the documented order, with body hooks skipped on request; its state follows
  that order, waiting for a state unblocks when it is reached, and a finished sequence can be started again.""",
  "programs schedules histories", "every nesting of sequences, call_pre_post setting and restart",
  "Tests observe only the final effect of sequences.",
  "seq/uvm_sequence_base.py", [("start()", "UVMSequenceBase.start")], driver="seq_life")
P("C10", "TLM FIFOs are bounded lossless queues",
  """Items leave a TLM FIFO, analysis FIFO or mailbox in the order they entered, each exactly once; it never holds more than
  its size, blocking calls block exactly while the FIFO is full or empty, peeking never removes, non-blocking calls
  and the status queries report the true state, and each put or get is broadcast once with the item concerned.""",
  "schedules histories", "every interleaving of blocking and non-blocking putters, getters, peekers and flushes, for every size",
  "Tests use depth 1 and one producer and consumer; several waiters and depths expose lost or stale wake-ups.",
  "tlm1/uvm_tlm_fifos.py tlm1/uvm_tlm_fifo_base.py base/uvm_mailbox.py",
  [("mailbox events", "UVMMailbox.put/get/peek"), ("FIFO on top of a mailbox", "UVMTLMFIFO")], driver="tlm_fifo")
P("C11", "Port connections reach exactly the connected implementations",
  """After elaboration each port reaches exactly the implementations connected to it directly or through
  intermediate ports and exports, each once; an analysis write is delivered once to every one of them with the object
  written, a connection count outside the port's bounds and illegal connections are reported, and calls reach the implementation they name.""",
  "configurations inputs", "every connection graph of ports, exports and implementations with any bounds",
  "The binding resolution is a graph computation; tests use one- or two-hop chains.",
  "base/uvm_port_base.py tlm1/uvm_analysis_port.py tlm1/uvm_ports.py tlm1/uvm_exports.py tlm1/uvm_imps.py",
  [("resolve_bindings", "UVMPortBase.resolve_bindings"), ("broadcast", "UVMAnalysisPort.write")], driver="ports")
P("C12", "Request/response channels carry requests and responses in order",
  """A request/response channel carries requests from masters to slaves and responses back independently of each other, each in order, without loss or duplication and
  within its capacity, whichever export of the channel is used, and broadcasts each request and each response once.""",
  "schedules histories", "every interleaving of masters and slaves on both sides of the channel",
  "Tests perform one transfer at a time.",
  "tlm1/uvm_tlm_req_rsp.py tlm1/uvm_tlm_imps.py", [("two FIFOs", "UVMTLMReqRspChannel")], driver="req_rsp")
P("C13", "Events wake every waiter once and carry data and state",
  """Triggering an event wakes all processes waiting for its trigger, records the data and time, sets it on until it is reset, and
  runs each registered callback's pre and post hooks once in order, where a pre hook may veto the trigger; waiting for an event
  that is on returns immediately, waiting for a trigger does not, and cancel reduces the waiter count.""",
  "schedules histories", "every interleaving of waits of all kinds, triggers, resets, cancels and callback changes",
  "Wake-up semantics depend on the order of waiters and triggers; tests cover a single waiter without callbacks.",
  "base/uvm_event.py", [("trigger/wait", "UVMEventBase")], driver="event")
P("C14", "Barriers release waiters together at the threshold",
  """Processes waiting at a barrier are released only when as many as the threshold wait, and then all of them; with auto reset the
  next group is gathered anew, without it later arrivals pass; reset and threshold changes act as documented.""",
  "schedules histories", "every interleaving of arrivals, resets, cancels and threshold changes",
  "No test exercises a barrier.", "base/uvm_barrier.py", [("threshold test", "UVMBarrier.wait_for/m_trigger")], driver="event")
P("C15", "A semaphore never hands out more keys than it holds",
  """The keys taken from a semaphore never exceed those it was created with plus those put back; requests are granted in the order
  they were made, each as soon as enough keys are there, and a try that fails takes nothing.""",
  "schedules histories", "every interleaving of get, try_get and put with any key counts",
  "Over-granting appears only for multi-key requests by several processes.",
  "base/sv.py", [("count", "semaphore")], driver="semaphore")
P("C16", "Queues and pools behave as the sequence and map they stand for",
  """A queue behaves as an ordered list under push, pop, insert, delete and indexing, and a pool as an insertion-ordered map under
  add, get, delete, exists and iteration by first, next, last and prev; copies are independent, and shared pools are one object per type.""",
  "histories inputs", "every sequence of operations with any keys, values and indices",
  "Tests check a few operations each.", "base/uvm_queue.py base/uvm_pool.py base/uvm_globals.py",
  [("list and map wrappers", "UVMQueue/UVMPool/UVMObjectStringPool")], driver="containers")
P("C17", "Configuration lookups return the highest-precedence matching setting",
  """A configuration lookup returns the value last set for a matching instance scope and field name, where settings made
  during build by a component higher in the hierarchy override those made lower, and settings after build override by order alone;
  a lookup nothing matches fails and leaves the caller's value untouched.""",
  "histories inputs configurations", "every history of set and get from any contexts, with exact, wildcard and regular expression scopes",
  "Precedence is a global function of the history; tests set one or two values.",
  "base/uvm_config_db.py base/uvm_resource.py base/uvm_resource_db.py base/uvm_globals.py",
  [("precedence and queue order", "UVMConfigDb.set/get, UVMResourcePool")], driver="config_db")
P("C18", "Resource lookups match scope, name and precedence",
  """A resource is found by name exactly when its scope matches, the highest precedence wins and among equals the one set with an
  override or earlier; reads return the last value written, read-only resources reject writes, and waiters see changes.""",
  "histories inputs", "every history of sets, overrides, priority changes, reads and writes",
  "Tests set a handful of resources.", "base/uvm_resource.py base/uvm_resource_db.py",
  [("resource pool", "UVMResourcePool")], driver="resources")
P("C19", "The factory creates the most specific override in force",
  """Creating an object by type or name yields the type named by the first matching instance override, else by the type override, applied
  transitively; replaced overrides take effect, loops are reported, and without an override the requested type is made.""",
  "histories inputs configurations", "every history of type and instance overrides, with wildcards, replacements and chains, and every requested path",
  "Override resolution is recursive and order dependent; tests use single overrides.",
  "base/uvm_factory.py base/uvm_registry.py", [("override search", "UVMDefaultFactory.find_override_by_type/name")], driver="factory")
P("C20", "Callbacks run once each, in order, for the objects they are registered with",
  """Executing callbacks on an object calls each enabled callback registered with the object or type-wide exactly once, in the order
  defined by appending and prepending; disabled callbacks are not called and adding one twice is rejected.""",
  "histories inputs", "every history of add (instance or type-wide, append or prepend), enabling and disabling, before or after objects exist",
  "Tests register one or two callbacks on one object.", "base/uvm_callback.py macros/uvm_callback_defines.py",
  [("callback queues", "UVMCallbacks")], driver="callbacks")
P("C21", "Messages are filtered and acted upon by verbosity, severity and id settings",
  """A message is issued exactly when its verbosity passes the threshold in force for its component, severity and id, with
  the severity override applied and the action chosen by the most specific setting; hierarchical settings reach all descendants.""",
  "histories inputs configurations", "every history of verbosity, action, severity override and file settings and every message",
  "Tests cover few combinations of the setting tables.", "base/uvm_report_handler.py base/uvm_report_object.py base/uvm_component.py",
  [("lookup order", "UVMReportHandler.get_verbosity_level/get_action")], driver="reporting")
P("C22", "Report counts are exact and the quit count ends the test",
  """The report server counts every issued message (one with any action) by severity and by id exactly once, messages with the count action add to the quit count
  while a maximum is set, and the run is ended, with pre_abort called once for every component, when that reaches the maximum quit count or a message with the exit action is issued, not before.""",
  "histories inputs", "every history of messages, count resets and quit count settings",
  "Tests check a single counter.", "base/uvm_report_server.py", [("counters", "UVMDefaultReportServer")], driver="reporting")
P("C23", "Report catchers see every message, in order, and can change or drop it",
  """Every message that would be issued passes through each enabled catcher registered for its source, in order, until one catches
  it; modifications are visible to later catchers and the output, a caught message is neither issued nor counted.""",
  "histories inputs", "every set and order of catchers, with any modification, and every message",
  "Tests use one catcher.", "base/uvm_report_catcher.py base/uvm_report_server.py", [("catcher loop", "UVMReportCatcher.process_all_report_catchers")], driver="reporting")
P("C24", "Copy, clone and compare agree on object contents",
  """A copy or clone of an object compares equal to it and shares no field state that was to be copied, compare reports a difference exactly when some compared field
  differs, with the right count, and fields excluded by flags take part in neither.""",
  "inputs programs", "every object structure with registered fields, nesting, arrays and flags and all values",
  "Tests use a few classes with fixed values.", "base/uvm_object.py base/uvm_comparer.py macros/uvm_object_defines.py",
  [("field automation", "UVMObject.__m_uvm_field_automation")], driver="objects")
P("C25", "Unpacking what was packed restores it",
  """Packing values and objects and unpacking them again with the same settings restores every value, for every width and bit order (registered integer fields are 32 bits wide), and the
  packed size is the sum of the field widths.""",
  "inputs programs", "every sequence of fields of any widths and values, in both bit orders and with or without metadata",
  "Widths, orders and alignment multiply; tests use a few byte-sized values.", "base/uvm_packer.py base/uvm_object.py",
  [("bit queue", "UVMPacker.pack_*/unpack_*")], driver="packer")
P("C26", "Each field access policy has its specified effect on the mirror",
  """For each predefined field access policy, a write or a read through the model updates the mirrored and desired value exactly as
  the policy says for every value, and reserved or read-only bits are never changed by a write.""",
  "inputs histories", "every access policy, old value, written value and field width",
  "Tests try a few policies with few values.", "reg/uvm_reg_field.py reg/uvm_reg.py", [("policy table", "UVMRegField.XpredictX/do_predict")], driver="reg_field")
P("C27", "Desired and mirrored register values track sets, writes and predictions",
  """A register's desired and mirrored values are the composition of its fields', setting changes only the desired value, update writes exactly
  when they differ, and after a write, read, mirror or reset they are what the operation implies.""",
  "histories inputs", "every sequence of set, get, reset, predict, update, write, read, mirror on registers of any field layout",
  "Tests follow fixed short sequences.", "reg/uvm_reg.py reg/uvm_reg_field.py reg/uvm_reg_block.py",
  [("mirror", "UVMReg.do_predict/update/mirror")], driver="reg_model")
P("C28", "Address maps give every register a unique, correct bus address",
  """The bus addresses of a register or memory in a map, its submaps and parent maps follow from its offset, the base addresses, the bus widths, the
  addressing mode and the endianness, lookup by address inverts this, and overlapping or out-of-range mappings are reported.""",
  "configurations inputs", "every nesting of maps with any offsets, widths and addressing modes",
  "Address arithmetic has many width combinations; tests use flat maps.", "reg/uvm_reg_map.py reg/uvm_reg_block.py",
  [("address computation", "UVMRegMap.get_physical_addresses/Xinit_address_mapX")], driver="reg_map")
P("C29", "A frontdoor access becomes the bus operations that move its bits",
  """A frontdoor write or read of a register or memory performs exactly the bus operations that cover its bytes, in the map's order, with correct data slices and
  byte enables, and a read returns what the bus holds.""",
  "inputs configurations", "every register and bus width, endianness, offset, field access and value",
  "Splitting over bus accesses is width arithmetic; tests use bus-wide registers.", "reg/uvm_reg_map.py reg/uvm_reg.py reg/uvm_mem.py",
  [("do_bus_write/do_bus_read", "UVMRegMap")], driver="reg_bus")
P("C30", "Memory accesses read back what was written, within bounds",
  """Single, burst and backdoor accesses of a memory model reach exactly the addressed locations in order, out-of-range accesses are rejected, a read-only memory keeps its content when written, and reads return the data last written.""",
  "inputs histories", "every size, width, access right, burst and offset",
  "Tests use a few offsets.", "reg/uvm_mem.py reg/uvm_reg_map.py", [("checks and bursts", "UVMMem.do_write/do_read/Xcheck_accessX")], driver="reg_bus")
P("C32", "The predictor updates the mirror once per complete observed access",
  """For each observed bus operation the predictor updates the register at that address exactly once all parts of a wide access were seen, with the assembled value, and ignores or reports others.""",
  "histories inputs", "every interleaving of observed bus operations to registers of any width",
  "Tests observe single operations.", "reg/uvm_reg_predictor.py reg/uvm_reg_indirect.py", [("pending list", "UVMRegPredictor.write")], driver="predictor")
P("C33", "A FIFO register models a queue",
  """Writes to a FIFO register append up to its capacity and reads remove the oldest entry; the model's content, size and mirror follow.""",
  "histories inputs", "every sequence of set, update, write, read and prediction for every capacity",
  "Tests push a few values.", "reg/uvm_reg_fifo.py", [("fifo queue", "UVMRegFIFO")], driver="reg_fifo")
P("C34", "Access-policy containers enforce their discipline",
  """A set-before-get container rejects reads before a set, a get-to-lock container rejects writes after a read, and a simple-lock container rejects changes while locked; otherwise a read
  returns the last accepted value, and try variants report refusal without error.""",
  "histories inputs", "every sequence of operations on the containers", "Tests cover few sequences.",
  "dap/uvm_set_before_get_dap.py dap/uvm_get_to_lock_dap.py dap/uvm_simple_lock_dap.py dap/uvm_set_get_dap_base.py",
  [("lock flags", "dap classes")], driver="dap")
P("C35", "Comparators count each match and mismatch once, in order",
  """An in-order comparator pairs the n-th item of one stream with the n-th of the other whatever their interleaving, counts each pair once as match or mismatch,
  and broadcasts every pair; an algorithmic comparator does so for the transformed items of the first stream.""",
  "schedules inputs", "every interleaving and content of the two streams", "Tests interleave regularly.",
  "comps/uvm_in_order_comparator.py comps/uvm_algorithmic_comparator.py", [("two FIFOs", "UVMInOrderComparator.run_phase")], driver="comparator")
P("C36", "Component hierarchy, full names and lookups are consistent",
  """Each component has a unique full name formed from its ancestors', every child is found by name, iteration visits each child once, lookup and search return exactly the components that match, and duplicate or misplaced children are rejected.""",
  "programs inputs", "every component tree, name and search pattern", "Tests use small trees.",
  "base/uvm_component.py base/uvm_root.py", [("children tables", "UVMComponent.m_add_child/lookup, UVMRoot.find_all")], driver="hierarchy")
P("C37", "Transaction lifecycle and recording are consistent",
  """A transaction is accepted, begun and ended once each in time order, its handles and events reflect that state, each recorded transaction is opened before it is closed, closed once
  and linked to its parent, and recorded attributes belong to the open transaction.""",
  "histories schedules", "every history of accept, begin, end, child and link operations on several streams", "Tests record one transaction.",
  "base/uvm_transaction.py base/uvm_tr_database.py base/uvm_tr_stream.py base/uvm_recorder.py base/uvm_component.py",
  [("open/closed sets", "UVMTrStream/UVMRecorder")], driver="recording")
P("C38", "Built-in register sequences pass conforming devices and report deviations",
  """The built-in test sequences (hardware reset, bit bash, register access, memory walk, memory access, and the combined sequence) report no error on a device which behaves as its register model,
  visit every register, memory and map not excluded, and report an error for every deviation their procedure can see: a wrong reset value, a bit which does not behave as its access policy,
  a frontdoor that reaches another place than the backdoor, a memory location that does not keep its data.""",
  "programs inputs configurations", "every model (blocks, maps, registers, memories, access policies, exclusions) and every single deviation of the device",
  "Tests run them on one correct device.", "reg/sequences/uvm_reg_hw_reset_seq.py reg/sequences/uvm_reg_bit_bash_seq.py reg/sequences/uvm_reg_access_seq.py reg/sequences/uvm_mem_walk_seq.py reg/sequences/uvm_mem_access_seq.py reg/sequences/uvm_reg_mem_built_in_seq.py",
  [("built-in sequences", "UVMRegHWResetSeq, UVMRegBitBashSeq, UVMRegAccessSeq, UVMMemWalkSeq, UVMMemAccessSeq, UVMRegMemBuiltInSeq")], driver="builtin_seq")
P("C39", "Generic transports reach their peers and time annotations are exact",
  """A blocking or nonblocking transport call made at any socket, port or export of a chain, connected in any order, reaches exactly once the implementation at the end of the chain in its direction (forward: the target; backward: the initiator)
  with the arguments given, and returns what it returned when it returned; a missing delay, a connection between incompatible ends and an open chain are reported.  Time values keep amounts exactly across resolutions and scales,
  and a generic payload's command and address are read back as set.""",
  "configurations histories inputs", "every chain of initiator, passthrough and target sockets and of plain ports, every order of connecting, every set of overlapping calls; every resolution, scale and amount",
  "Tests connect one initiator directly to one target.",
  "tlm2/uvm_tlm2_sockets.py tlm2/uvm_tlm2_sockets_base.py tlm2/uvm_tlm2_imps.py tlm2/uvm_tlm2_ports.py tlm2/uvm_tlm2_exports.py tlm2/uvm_tlm2_time.py tlm2/uvm_tlm_time.py tlm2/uvm_tlm2_generic_payload.py",
  [("sockets", "connect() and b_transport/nb_transport_fw/nb_transport_bw"), ("scaling", "UVMTLMTime")], driver="tlm2")
P("C40", "Name matching follows glob and regular-expression rules",
  """A glob pattern matches a string exactly when its wildcards can be expanded to it over the whole string, a slash-delimited pattern is used as a regular expression, and all lookups in the library agree on this.""",
  "inputs", "every pattern and string over the permitted alphabet", "Tests match few patterns.",
  "base/uvm_globals.py base/uvm_resource.py base/sv.py", [("uvm_glob_to_re/uvm_re_match", "matching")], driver="globs")
P("C41", "Command-line settings apply exactly as given",
  """Each recognised command-line argument (verbosity, severity, action, time-out, configuration, factory override settings) has exactly its documented effect on the components, ids and phases it names, and argument queries return all matching arguments in order.""",
  "inputs configurations", "every list of arguments", "Tests parse few arguments.",
  "base/uvm_cmdline_processor.py base/uvm_root.py base/uvm_component.py", [("parsing", "UVMCmdlineProcessor, UVMRoot.m_process_*")], driver="cmdline")
P("C44", "Printing shows every part of an object once, in its place, with its value",
  """What a table, tree or line printer prints for an object or component is its header followed, one level deeper, by its printed children, every registered field not excluded from printing
  and everything its do_print() asks for, each exactly once, in order, with its name, type, size and value in the selected radix, as far as the knobs select; nested objects and arrays are expanded the same way unless the depth limit
  is reached or the object is already being printed further out; columns are aligned, brackets balanced, and printing changes neither the object nor the printer.""",
  "inputs configurations histories", "every set of objects with fields, references (also cyclic), arrays and components; every combination of knobs; repeated use of a printer",
  "Tests print single values and look for them in the text.",
  "base/uvm_printer.py base/uvm_scope_stack.py base/uvm_misc.py base/uvm_object.py macros/uvm_object_defines.py",
  [("rows", "UVMPrinter.print_*"), ("rendering", "UVMTablePrinter.emit, UVMTreePrinter.emit"), ("fields", "_m_uvm_field_automation(UVM_PRINT)")], driver="printing")
P("C45", "HDL paths are composed exactly and backdoor accesses reach their signals",
  """The full HDL paths of a block, register or memory for an abstraction are exactly the combinations of the paths given for it with those of its enclosing blocks, down from the nearest block that is a path root, in order,
  and missing paths are reported.  A backdoor write deposits exactly the bits of each slice in its signal on every path of the register or memory location, keeping read-only bits; a backdoor read assembles its value from the slices, and reports paths which disagree;
  the mirror ends up with what the signals hold.""",
  "inputs configurations histories", "every block hierarchy, set of paths, slices, roots and abstractions; every sequence of backdoor reads, writes, peeks and pokes interleaved with changes of the signals",
  "Tests use one path per register, in one abstraction, without slices.",
  "reg/uvm_reg.py reg/uvm_mem.py reg/uvm_reg_block.py reg/uvm_reg_model.py dpi/uvm_hdl.py",
  [("paths", "get_full_hdl_path, add_hdl_path, add_hdl_path_slice, set_hdl_path_root"), ("accesses", "backdoor_write, backdoor_read_func"), ("design access", "uvm_hdl")], driver="hdl_path")

BY_ID = {p["id"]: p for p in PROPS}
