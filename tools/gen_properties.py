"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib
S = "src/upstage_des/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "An interrupt ends, restarts or leaves a task exactly as its handler says",
  "When a running task is interrupted, END stops it and lets its network move on, RESTART re-runs it from its first step, and IGNORE leaves the awaited event, its completion time and its result exactly as if no interrupt had happened; without a handler the action of the last set marker decides, and END when there is none or it was cleared. "
  "END and RESTART cancel everything the task was awaiting, so that nothing it awaited resumes it later, deactivate exactly the active and mimic states that this task activated, and remove the knowledge event it was awaiting. "
  "This holds for an interrupt delivered at any instant, also in the same instant in which the awaited event completes.",
  ["schedules", "programs"],
  "every task program over all event kinds (waits, gets, puts, events, knowledge events, holds, any/all, processes, routines), every handler decision, and every placement and number of interrupts, including several in the same instant and ones coinciding with completion",
  "Tests interrupt a handful of fixed tasks at one fixed time each; which event is pending, what else happens in the same instant and which sequence of interrupts arrives are unbounded.",
  ["task.py", "events.py", "actor.py"],
  [("Task.run interrupt loop", "task.py:Task.run"), ("interrupt clean up", "task.py:Task._handle_interruption"),
   ("marker default action", "task.py:Task.set_marker"), ("event cancellation", "events.py:*.cancel")],
  [("active states by task", "states a task activated", "actor.py:Actor.activate_state")],
  ["order and times of task steps", "actor.knowledge", "state values after the interrupt"])

p("C02", "Cancelled requests neither lose nor duplicate items or amounts",
  "Over any history, what was put into a store or container equals what it now holds plus what was handed to a requester that received it: a request cancelled by an interrupt, by a direct cancel or because its task ended never removes or adds anything later. "
  "An item or amount assigned to a request that has not completed when its task is interrupted is back in the store or container. "
  "A held resource unit is given back exactly once, and a cancelled hold request never takes a unit.",
  ["schedules", "histories"],
  "every interleaving of gets, filtered gets, puts and holds by several tasks on shared stores, containers and resources, alone or inside any/all, with interrupts and cancels at every point of the same-instant event order",
  "Tests interrupt one waiting get; the loss needs a request that is granted and interrupted in the same instant, or a queue of several requesters with a cancelled one in the middle.",
  ["events.py", "task.py", "routines.py"],
  [("request cancellation", "events.py:BaseRequestEvent.cancel"), ("multi-event cancellation", "events.py:MultiEvent.cancel"),
   ("hold and release", "events.py:ResourceHold.as_event")],
  [("store content", "items held", "events.py:Get/Put")], ["store.items", "container.level", "values delivered to tasks", "resource.count"])

p("C03", "Routines run in place, return their value and clean up once on interrupt",
  "A routine yielded by a task runs its events in order on that task's clock, and the task then continues with the routine's return value (nothing when it returns nothing), whatever the task yielded before it. "
  "When the task is ended or restarted by an interrupt while inside the routine, the awaited event is cancelled first and the routine's clean-up then runs exactly once and to its end before the task ends or restarts; an ignored interrupt leaves the routine undisturbed and a finished routine is never cleaned up. "
  "The built-in windowed get returns, in order, exactly the items that arrived within its window, counted from the first arrival or from the latest one when the window resets, leaves later items in the store, and on interrupt puts back everything it took.",
  ["schedules", "programs"],
  "every sequence of events and routines in a task, every arrival pattern into the store (also at the instant the window closes), every window option and every interrupt time",
  "Tests run two fixed arrival patterns and one interrupt; the order of same-instant arrival and window close, and the event yielded before the routine, are not explored.",
  ["routines.py", "task.py"],
  [("generator stack", "task.py:Task.run"), ("windowed get", "routines.py:WindowedGet.run"), ("clean-up", "routines.py:Routine._run_cancel")],
  None, ["routine result", "times of task steps", "store.items"])

p("C04", "Task networks run the queue first, then the default, one task at a time",
  "In every network of an actor the next task starts in the instant the previous one finishes, is the head of that network's queue if there is one and otherwise the default follow-on, and starting a queued task removes exactly that head. "
  "A follow-on that the links do not allow, or no follow-on at all, raises an error instead of running; a queue can only be set when it is empty, and networks with different names never affect each other. "
  "The queries for the queue, the next task and the running task agree with this at every instant, a decision task runs in zero time, and a terminal task never ends and rejects interrupts.",
  ["programs", "histories", "configurations"],
  "every set of links, initial task, queue manipulation from inside and outside tasks, number of parallel networks, and factory used to make them",
  "Tests cover a few hand-made networks; queue edits at arbitrary points, illegal links reached at run time and parallel networks are open-ended.",
  ["task_network.py", "actor.py", "task.py"],
  [("network loop", "task_network.py:TaskNetwork.loop"), ("next task", "task_network.py:TaskNetwork._next_task_name"),
   ("queue", "actor.py:Actor.set_task_queue"), ("factories", "task_network.py:TaskNetworkFactory")],
  [("task queue", "names waiting per network", "actor.py:Actor._task_queue")],
  ["actor.get_task_queue / get_next_task / get_running_task(s)", "order and time of task starts"])

p("C05", "A nucleus interrupts exactly the networks watching the state that was set",
  "Setting a watched state on an actor interrupts the running task of every network registered for that state, once per assignment, with a cause that names the state and carries the assigned value, in the instant of the assignment, and it interrupts no other network. "
  "Removing a network from the nucleus stops all its interrupts while the registrations of other networks are unchanged. "
  "An assignment made while a watching network has no task that can be interrupted does not fail.",
  ["histories", "configurations", "schedules"],
  "every assignment of states to networks, every order of adding and removing registrations, and every sequence and instant of state assignments, also several in one instant and ones made between two tasks",
  "Tests use one or two networks and a fixed sequence of assignments; registrations that overlap, are removed, or fire between tasks are not exercised.",
  ["nucleus.py", "states.py", "actor.py"],
  [("change notification", "nucleus.py:TaskNetworkNucleus.send_change"), ("registration", "nucleus.py:TaskNetworkNucleus.add_network/remove_network"),
   ("hook in state assignment", "states.py:State.__set__")],
  None, ["cause given to on_interrupt", "task restarts per network"])

p("C06", "A linearly changing state equals start value plus rate times elapsed time",
  "At any time an active linear state reads as its value at activation plus its rate times the time since, no matter how often or when it is read, and after deactivation it stays at the value it had then; a later activation continues from there. "
  "Assigning the state while it is active sets its value at that instant and it goes on changing from the assigned value. "
  "Only the task that activated it can deactivate it, and a second task that activates it meanwhile gets an error that changes nothing.",
  ["schedules", "histories"],
  "every sequence of activations, deactivations, reads, assignments and clock advances with any rates, by any tasks",
  "Tests read at a few fixed times; errors that accumulate with reads, or need an assignment or a re-activation at a particular moment, need arbitrary histories.",
  ["states.py", "actor.py"],
  [("value on read", "states.py:LinearChangingState._active"), ("locks", "actor.py:Actor._lock_state/_unlock_state")],
  [("active data", "start time, start value, rate", "actor.py:Actor._active_states")], ["attribute reads", "state history"])

p("C07", "A shared linear state changes at the sum of the rates of its active tasks",
  "A linear state that several tasks may share changes, at every instant, at the sum of the rates of the tasks that have it active, independently of when or how often it is read and of the order in which the tasks activate and deactivate it. "
  "Deactivation by one task removes exactly that task's rate, and the state stays constant once no task has it active. "
  "A task that activates it twice or deactivates it without having activated it gets an error that changes nothing.",
  ["schedules", "histories"],
  "every interleaving of activations, deactivations, reads and clock advances by any number of tasks and any rates, including several in one instant",
  "One test with two tasks; the sum must be right for every overlap pattern.",
  ["state_sharing.py", "states.py", "actor.py"],
  [("sum of rates", "state_sharing.py:SharedLinearChangingState._active"), ("shared lock", "actor.py:Actor._lock_state")],
  None, ["attribute reads", "state history"])

p("C08", "A moving location lies on its path at distance speed times elapsed time",
  "An active location state, read at any time, is the point of the path from its activation position through the given waypoints at distance speed times elapsed time, and once deactivated it stays where it was. "
  "The remaining-waypoints query returns exactly the waypoints not yet passed, and travelling beyond the last waypoint raises an error rather than returning a position. "
  "This does not depend on how often or when the state is read.",
  ["schedules", "histories", "inputs"],
  "every waypoint list, speed and schedule of reads, deactivations and re-activations, also exactly at waypoints",
  "Tests read at a few times on fixed paths; skipped waypoints between reads, reads at waypoints and repeated activation are not enumerated.",
  ["states.py", "actor.py", "data_types.py"],
  [("position on read", "states.py:_LocationChangingState/CartesianLocationChangingState"), ("remaining waypoints", "actor.py:Actor.get_remaining_waypoints")],
  None, ["attribute reads", "get_remaining_waypoints", "state history"])

p("C09", "A mimic state mirrors its source while active and keeps the last value after",
  "While a task mimics another actor's state, reading the mimicking state gives the source's value at that time, and every value change of the source shows in the mimicking state's history at that time. "
  "After the mimic is deactivated, by call or by interrupt, the state keeps the source's value of that instant, no longer follows it, can be used normally and never changes the source. "
  "Ending or interrupting one task leaves mimics of other tasks alone, and an actor may mimic several states, and be mimicked by several actors, at once.",
  ["schedules", "histories", "configurations"],
  "every set of actors, mimicked states of every kind, tasks and interleavings of activation, source changes, reads and deactivation",
  "Tests use one mimic by one task; chains, several mimics, several tasks and interrupts are open-ended.",
  ["actor.py", "states.py"],
  [("mimic activation", "actor.py:Actor.activate_mimic_state"), ("mimic deactivation", "actor.py:Actor.deactivate_mimic_state/deactivate_all_mimic_states"),
   ("forwarding reads", "states.py:State.__get__")],
  None, ["attribute reads on both actors", "state histories"])

p("C10", "A recording state's history is exactly its timed sequence of distinct values",
  "A recording state's history holds, in time order, one entry per assignment or observed change with the simulation time and the value at that time, no second entry when both time and value repeat the last entry unless duplicates are asked for, and the activation and deactivation marks of active states right after the value recorded at that instant. "
  "Later changes to a mutable value never alter an entry already recorded, and a state that does not record has no history. "
  "Recording functions get their own history under their own name, computed from the value at the time of each recording, and follow the same rule for duplicates.",
  ["histories", "inputs"],
  "every sequence of assignments, activations, reads, mutations of the assigned object and clock advances, with every combination of recording options and recording functions",
  "Tests look at a few short histories; duplicates, same-time changes, mutable values and recording functions interact in many orders.",
  ["states.py", "data_utils/data_recorder.py", "actor.py"],
  [("recording", "states.py:State._do_record"), ("activation marks", "states.py:ActiveState.activate/deactivate"), ("explicit recording", "actor.py:Actor.record_state")],
  [("histories", "list of (time, value) per state", "actor.py:Actor._state_histories")], ["state histories"])

p("C11", "Keyed states behave as a mapping and record each changed key with its time",
  "A dictionary or dataclass state reads back, for every sequence of sets, setdefaults and reads through any reference to it, exactly like an ordinary mapping or object with the same operations; it cannot be replaced as a whole, and two actors never share its content. "
  "Every change of a key is recorded at its time in a history of that key's own (named state.key), with duplicates skipped or kept as asked, and the recording functions see the whole content after each change. "
  "A value of a disallowed type is refused and leaves the state and its history unchanged.",
  ["histories", "inputs"],
  "every sequence of key operations, with allowed and disallowed values, option combinations and clock advances",
  "Tests set a few keys; operation orders, refused values and option combinations are unbounded.",
  ["states.py", "state_proxies.py"],
  [("proxy operations", "state_proxies.py:_DictionaryProxy/_DataclassProxy"), ("per key recording", "states.py:_KeyValueBase._record_single")],
  None, ["attribute reads", "per-key histories"])

p("C12", "Actor knowledge is a write-once map and knowledge events fire exactly once",
  "Knowledge set under a name is returned unchanged until it is cleared or overwritten on request; setting a name that exists without asking to overwrite, clearing or requiring a name that does not exist raises an error and changes nothing, and the bulk and get-and-clear forms agree with the single operations. "
  "A knowledge event is stored under its name until it is succeeded, and succeeding it removes it and resumes exactly the waiting task with the given payload; succeeding a name that is missing or is not an event raises an error. "
  "No operation on one name or one actor affects another.",
  ["histories", "programs"],
  "every sequence of single and bulk operations through the actor and through tasks, on any names and actors, with knowledge events awaited by tasks",
  "Tests run short fixed sequences; error atomicity and interplay of bulk forms and events need arbitrary sequences.",
  ["actor.py", "task.py"],
  [("knowledge operations", "actor.py:Actor.set_knowledge/get_knowledge/clear_knowledge/..."), ("knowledge events", "actor.py:Actor.create_knowledge_event/succeed_knowledge_event")],
  [("knowledge", "name to value", "actor.py:Actor._knowledge")], ["get_knowledge", "resumption of the waiting task"])

p("C13", "Events complete once, at the right time, with the right result",
  "A wait completes exactly its duration after it is first yielded; an any completes in the instant its first member does and an all in the instant its last member does, however they are nested, and afterwards exactly the members that have completed report so. "
  "An event completes for every task waiting on it in the instant it is succeeded, keeps the payload of that success, may not be succeeded again until reset, and is awaitable again after completion only if it resets automatically. "
  "A get delivers the item that the store gave it, its value query errors until then, and a hold takes the unit on its first yield and gives it back on its second.",
  ["schedules", "programs"],
  "every combination and nesting of event kinds, in every order of completion including simultaneous ones, awaited by any number of tasks and reused after completion",
  "Tests cover single combinations; nesting, simultaneity and reuse multiply.",
  ["events.py", "task.py"],
  [("conversions", "events.py:*.as_event"), ("success and reset", "events.py:Event.succeed/reset"), ("completion queries", "events.py:*.is_complete")],
  None, ["times of task steps", "is_complete", "get_value", "get_payload"])

p("C14", "Rehearsing changes nothing in the real simulation",
  "Rehearsing any task or network, whether it completes or raises, leaves the real actor's states, histories, knowledge and task queue, the network's running task, the clock and pending events, and every store, container and resource the task uses exactly as they were (but that reading an active state brings it up to date, as every reading does), and the real simulation afterwards runs as if no rehearsal had taken place. "
  "A rehearsal started while the actor is in the middle of a task does not disturb that task. "
  "Rehearsing twice gives the same result. What a task does itself to shared objects it holds (other actors, events, values nested in states, the stage) is not undone, and random draws are not given back.",
  ["programs", "histories", "schedules"],
  "every task program and network path, actor with any kinds of states and any queue content, started at any time and with any knowledge, and rehearsals that fail part way",
  "Tests check the planned result and rarely the original; any kind of state, queue content and failing point can leak.",
  ["task.py", "task_network.py", "actor.py", "base.py"],
  [("task rehearsal", "task.py:Task.rehearse"), ("network rehearsal", "task_network.py:TaskNetwork.rehearse_network"), ("cloning", "actor.py:Actor.clone"), ("mock clock", "base.py:MockEnvironment")],
  None, ["actor states, histories, knowledge, queue", "env.now", "store.items"])

p("C15", "A rehearsal predicts the time and states that running the plan would give",
  "The actor returned by a rehearsal has the clock, state values, state histories and knowledge that really running the same tasks would give when every event takes its stated rehearsal time: waits take their duration, an any the least and an all the greatest of its members' times, and members count as complete when their time does not exceed it. "
  "Store requests, events and routines give the task the documented planning value. "
  "Mimicking in a rehearsal is refused. The tasks rehearsed are the listed ones in order, then the queue and the defaults until the named end task, which is not run, and an infeasible step raises an error.",
  ["programs", "inputs"],
  "every task program made of waits, any/all, requests, events, routines and active states, and every list, queue and end task",
  "Tests rehearse a few plans; agreement with a real run must hold for every program.",
  ["task.py", "task_network.py", "events.py", "routines.py"],
  [("task rehearsal", "task.py:Task.rehearse"), ("event rehearsal", "events.py:*.rehearse"), ("path", "task_network.py:TaskNetwork.rehearse_network")],
  None, ["returned actor's env.now, states, histories, knowledge"])

p("C16", "A cloned actor starts equal to the original and shares no mutable state",
  "A clone has the class, states, histories (also of recording functions and keys), knowledge and task queue of the original at that moment, so every state reads the same on both at the time of cloning, and stores and containers have equal but separate contents. A state that was active holds its value of that moment in the clone and is not active there. "
  "Afterwards no operation on either one is visible on the other, except through objects nested in the values of states, which are copied shallowly as documented. The clone does not join the simulation's groups of entities. "
  "This holds for every kind of state and for clones of clones, and the clone's extra knowledge is added only to the clone.",
  ["histories", "configurations"],
  "actors with every kind of state, at any point of any history, cloned any number of times and then operated on in any order",
  "Tests clone a few actors and look at a few attributes.",
  ["actor.py", "states.py"],
  [("clone", "actor.py:Actor.clone")], None, ["states, histories, knowledge of both actors"])

p("C17", "A continuous container's level is the integral of its rates within its bounds",
  "The level of a continuous container at any time is its initial level plus every rate applied for as long as it was applied, whatever the order, overlap or cancellation of puts and gets, and it never leaves the range from zero to capacity. "
  "A request of finite duration completes exactly at its end; when the level reaches empty or full the requests draining or filling it are ended at that very instant, with the error behaviour the user chose. "
  "The level recorded by its monitor and the predicted time to a level agree with this.",
  ["schedules", "histories"],
  "every set of overlapping puts and gets with rates and durations, cancelled or not, queried at any time",
  "Tests use a few profiles; crossings that coincide with ends, cancellations and several changes in one instant are not enumerated.",
  ["resources/container.py"],
  [("level update", "resources/container.py:ContinuousContainer"), ("empty and full handling", "resources/container.py:ContinuousContainer._check...")],
  None, ["container.level", "completion times", "recorded quantities"])

p("C18", "Reserved amounts are exclusive and expire exactly when promised",
  "In a reservable container the available amount plus all outstanding reservations equals the content, so an amount reserved by one requester can never be given to another, and what is available never goes below zero nor the content above capacity. "
  "A reservation is granted only if the amount is available, is handed over once when taken, and returns to the available amount when cancelled or when its own expiration time arrives, never earlier or later. "
  "Taking or cancelling what is not reserved is refused and changes nothing.",
  ["histories", "schedules"],
  "every sequence of reservations with and without expirations, takes, cancels, puts and clock advances by any requesters, with re-reservation by the same requester",
  "Tests make one or two reservations; re-reserving after a take, cancel or expiry needs longer histories.",
  ["resources/reserve.py"],
  [("reservations", "resources/reserve.py:ReserveContainer.reserve/cancel_request/take"), ("expiry", "resources/reserve.py:ReserveContainer._expire_request")],
  None, ["available, remaining and reserved amounts"])

p("C19", "A sorted filter store hands out the best matching item and blocks no one else",
  "A request on a sorted filter store receives, among the items present that pass its filter, one with the smallest sort key, or the largest when reversed, and the earliest put among equals; any value may be an item. "
  "It waits while no item passes, without holding up later requests that can be satisfied, and every item is given to exactly one request. "
  "The remaining items keep their order.",
  ["histories", "inputs", "schedules"],
  "every sequence of puts and requests with any filters, keys, reverse flags and item values, including equal keys and equal or falsy items",
  "Tests use a handful of distinct truthy items.",
  ["resources/sorted.py"],
  [("selection", "resources/sorted.py:SortedFilterStore._do_get"), ("queue scan", "resources/sorted.py:SortedFilterStore._trigger_get")],
  None, ["delivered items", "store.items"])

p("C20", "Self-monitoring resources record exactly the true course of their content",
  "The record of a self-monitoring store, filter store, sorted store, container, reserve container or continuous container is, in time order, the starting quantity and every later change with its time and the resulting quantity, so the last entry always equals the present content; a continuous container records at every start and end of a rate the level it has then. "
  "A monitoring function is applied to the content at that time. "
  "Recording never changes which requests are served or when, compared to the unmonitored resource.",
  ["histories", "schedules"],
  "every sequence of puts, gets, blocked and cancelled requests on each of the monitoring resources, with any capacity and monitoring function",
  "Tests run one short sequence per class; blocked requests and same-instant changes matter.",
  ["resources/monitoring.py", "resources/container.py"],
  [("recording", "resources/monitoring.py:SelfMonitoring*._do_put/_do_get")], None, ["recorded quantities", "store.items", "container.level"])

p("C21", "Direct messages arrive once, on time, at the right store, or are dropped",
  "A message sent directly arrives exactly once in the communication store of its destination for that mode of communication, at the time it was given to the manager plus the transit time plus the retry intervals spent on a failed link, with content, sender and mode unchanged and its sending time stamped; messages sent together over the same way stay in order. "
  "While the link or an end is down or the manager is degraded the sender tries again at the retry rate until the retry time is used up (rounded up to whole intervals) and then gives up for good, and without retries a failed message is dropped. "
  "Other destinations, modes and links are not affected, and failures and repairs at any time act on exactly the attempts made while they last.",
  ["fault_sequences", "schedules", "configurations"],
  "every sequence of sends among several actors over several modes and of failing and repairing links, nodes and the whole manager, with any transit, retry rate and retry time",
  "Tests fail one link at a fixed time; the time of failures relative to attempts and several messages at once are open-ended.",
  ["communications/comms.py", "communications/processes.py", "states.py"],
  [("transfer", "communications/comms.py:CommsManager"), ("link test", "communications/comms.py:CommsManager.test_if_link_is_blocked"), ("store by mode", "states.py:CommunicationStore")],
  None, ["destination store items and arrival times", "message.time_sent"])

p("C22", "Routed messages follow shortest working paths and are never stuck or duplicated",
  "A routed message moves hop by hop, each hop being the first of a path with the fewest hops from where it is and taking one transit time, and ends exactly once at its destination or is dropped; it only ever travels along links of the network. "
  "When a hop stays blocked for the whole retry time, that next node is avoided and the message is re-planned from where it is; failed nodes are forgotten after a successful hop unless they are remembered globally, and when no path is left, or the node avoided is the destination, the message is dropped at once. "
  "Two messages in the same situation at the same time take the same hop. (Without remembering globally a message may go back and forth as long as a link stays down, as documented.)",
  ["fault_sequences", "configurations", "schedules"],
  "every network graph, source and destination, every sequence of link and node failures and repairs, and every combination of retry and ignore options",
  "Tests use one graph with a few failed links; re-planning sequences and graph shapes are unbounded.",
  ["communications/routing.py", "communications/comms.py"],
  [("route choice", "communications/routing.py:RoutingTable.select_hop"), ("hop transfer", "communications/comms.py:RoutingCommsManager"), ("path search", "communications/routing.py:*._shortest_path")],
  None, ["arrival time and place", "nodes visited"])

p("C23", "Sensors are told once of every entry and exit, at the geometric crossing time",
  "For every motion and every sensor area, a sensor is notified that a detectable actor entered at the time the path crosses into the area and that it left at the time it crosses out, in alternation, once each per crossing, and also when the actor starts inside, stops inside or starts again. "
  "An actor that cannot be detected when its motion starts is not seen, one that becomes undetectable is reported as gone at that moment by every sensor that sees it, and (as documented) one that becomes detectable while moving is seen from its next motion on. A sensor added later sees the movers on their way from then on. A path that only touches the edge at one instant may or may not be reported. "
  "This holds for every number of sensors, movers and waypoints, in flat coordinates and along great circles, and a motion that is interrupted causes no later notification.",
  ["histories", "schedules", "inputs"],
  "every straight multi-waypoint path and sensor placement, any number of movers and sensors added at any time, with stops, interrupts and detectability changes at any time",
  "Tests use one path and one sensor per case; multi-segment paths, misses and interruptions are not enumerated.",
  ["motion/motion.py", "motion/cartesian_model.py", "motion/geodetic_model.py", "motion/great_circle_calcs.py", "geography/intersections.py", "states.py"],
  [("scheduling of notifications", "motion/motion.py:SensorMotionManager"), ("intersections", "motion/cartesian_model.py:cartesian_linear_intersection"), ("intersections on the globe", "motion/geodetic_model.py:analytical_intersection"), ("detectability", "states.py:DetectabilityState")],
  None, ["calls to the sensor's detection and loss methods with their times"])

p("C24", "Stepped sensing reports exactly the entries and exits visible at its time steps",
  "The stepped motion manager compares, at every time step, which of the entities it considers (movers while they move, and whatever was registered until its motion stops) are detectable and within each sensor's present range or accepted by its own check, and notifies each sensor of exactly the newcomers and the departures since it was last told, once each and never out of alternation. "
  "Entities that start, stop, are placed or are registered between steps are treated by their status at the step; one that becomes undetectable is reported as gone at once, and one that becomes detectable is looked at at once. "
  "Sensors, also moving ones, and entities do not affect each other's notifications, no sensor sees itself, an entity with its own rate is looked at at that rate too, and the stepping ends only after the given number of steps without any other event and can be started again.",
  ["histories", "schedules"],
  "every set of sensors and movers, path, step size and history of starting, stopping, registering, placing and detectability changes, also by a sensor that is being notified",
  "Tests use two movers that sense each other and one history of each kind.",
  ["motion/stepped_motion.py"],
  [("step", "motion/stepped_motion.py:SteppedMotionManager._run_detectable"), ("loop and shutdown", "motion/stepped_motion.py:SteppedMotionManager.run"), ("detectability", "motion/stepped_motion.py:SteppedMotionManager._mover_not_detectable")], None, ["calls to the sensor's detection and loss methods with their times"])

p("C25", "Environment contexts isolate simulations and keep complete entity registries",
  "Whatever runs while an environment context is the innermost one entered sees that context's clock, random source and stage variables and no other's, also when contexts are nested, used one after another or left through an exception, and after leaving one the state before it is back. "
  "A stage variable can be set once and then keeps its value, and using the stage or clock outside any context raises an error. "
  "The entity queries return every living member of a class, group or kind in that context exactly once, in creation order, and nothing from another.",
  ["programs", "configurations"],
  "every nesting and sequence of contexts, entity creations with any class hierarchy and groups, stage operations and exceptions",
  "Tests use one context at a time.",
  ["base.py", "actor.py"],
  [("context variables", "base.py:EnvironmentContext"), ("entity registry", "base.py:NamedUpstageEntity"), ("stage", "base.py:StageProtocol/add_stage_variable")],
  None, ["env.now", "stage attributes", "get_actors / get_entity_group / get_all_entity_groups"])

p("C26", "The same model and seed give the same simulation in every process",
  "Running the same model with the same random seed gives the same sequence of timed events, state histories, deliveries and tables in every process and on every repetition, independent of hash randomisation and of simulations run before. "
  "Random waits draw from the context's own random source only. "
  "Giving the random generator or the seed are equivalent.",
  ["configurations", "inputs", "histories"],
  "every model (networks, nuclei, several active states per task, routing with ties, stores), every seed, every hash seed and any number of earlier runs",
  "Tests run in a single process with one hash seed.",
  ["base.py", "events.py", "nucleus.py", "actor.py", "communications/routing.py"],
  [("random source", "base.py:EnvironmentContext"), ("random wait", "events.py:Wait.from_random_uniform"), ("interrupt order", "nucleus.py:TaskNetworkNucleus.send_change")],
  None, ["whole recorded history of a model run in separate processes"])

p("C27", "Data tables hold every recorded value once and nothing else",
  "The state table has exactly one row per recorded entry of every recording state, recording function, keyed state, shared-monitored or stored resource of every actor and of every monitored named entity, with its entity, kind, state name, time and value, and marks of activation as documented; states that do not record appear, if asked for, once with their present value. "
  "The location table has exactly one row per recorded position with its coordinates under the right column names. "
  "Building a table changes nothing and building it again gives the same table.",
  ["histories", "configurations"],
  "every set of actors, kinds of states, recording options and histories, at any time of the simulation",
  "Tests compare one model's table; kinds of states and histories combine without bound.",
  ["data_utils/data_utils.py", "states.py", "resources/monitoring.py"],
  [("table", "data_utils/data_utils.py:create_table"), ("location table", "data_utils/data_utils.py:create_location_table")], None, ["rows and columns returned"])

p("C28", "Durations mean the same time in every unit and clock text is the exact clock",
  "A wait given in any supported time unit and any accepted spelling lasts the same physical time whatever the stage's time unit, and one without a unit lasts its bare number. "
  "The formatted clock shows the present time split into days, hours, minutes and seconds, whatever the stage's unit, and the conversion functions are inverses that keep ratios between units. "
  "An unknown unit raises an error rather than passing a number through.",
  ["inputs", "configurations"],
  "every pair of units and spellings, every duration, stages with and without a unit",
  "Tests convert a few values.",
  ["units/convert.py", "events.py", "base.py"],
  [("conversion", "units/convert.py:unit_convert"), ("wait", "events.py:Wait._convert_time"), ("clock text", "base.py:UpstageBase.pretty_now")], None, ["env.now after waits", "pretty_now", "unit_convert results"])

p("C29", "State declarations are enforced at construction and at every assignment",
  "An actor can be made exactly when every declared or inherited state without a default is given, nothing undeclared is given, nothing marked not for construction is given and no recording name clashes; each state then has the given or default value, and mutable defaults from factories are never shared between actors. "
  "A value of a type outside the declared ones is refused at construction and assignment and the old value stays; a frozen state can never change after its first value. "
  "This holds through every inheritance hierarchy.",
  ["configurations", "inputs", "histories"],
  "every declaration (type, default, factory, frozen, not for construction, allow-none, recording names), inheritance chain, and sequence of constructions and assignments",
  "Tests check each option alone.",
  ["actor.py", "states.py"],
  [("construction", "actor.py:Actor.__init_states"), ("type and frozen checks", "states.py:State.__set__"), ("defaults", "states.py:State._set_default")], None, ["construction success or error", "attribute values"])

p("C30", "Points, distances, courses and paths agree with each other all over the globe",
  "On the sphere and on the WGS84 ellipsoid, wherever on the globe (at the poles, across the date line, next to or opposite each other) and in whichever units: going from a point on a course for a distance leads to the point that lies at that distance on that course, and the distance and course between two points lead from one to the other; distances are the same in both directions and by every way of asking. "
  "Points along a path lie on the shortest path at the asked fraction, evenly spaced paths have equal parts (heights too), the points of a circle are its radius away on evenly spread bearings, and the distance from a path and the point of it nearest to another are those of the great circle. "
  "The places where a path is cut by a circle, and where it enters and leaves a sphere, are the points at that range, in order, within the documented error. "
  "Conversions to cartesian coordinates and back give the same place and height.",
  ["inputs", "histories"], "every pair of places, bearing, distance, unit, subdivision and earth model, and every chain of such computations",
  "Tests check tabulated points, mostly away from poles and antipodes.",
  ["geography/spherical.py", "geography/wgs84.py", "geography/intersections.py", "geography/conversions.py", "motion/great_circle_calcs.py"],
  [("spherical formulas", "geography/spherical.py:Spherical"), ("Vincenty formulas", "geography/wgs84.py:WGS84"), ("great circles", "motion/great_circle_calcs.py:get_great_circle_points"),
   ("crossings", "geography/intersections.py:get_intersection_locations"), ("conversions", "geography/conversions.py:BaseConversions")], None,
  ["returned positions, distances, bearings and crossings"])

p("C31", "Locations are immutable values whose distance and equality respect units",
  "A location keeps the values it was made with: assigning to it is refused, and copies, conversions between degrees and radians and locations made from stored data denote the same place. "
  "Two locations compare equal exactly when they denote the same place, whichever is asked and whichever units each was given in (heights in altitude or distance units, angles in degrees or radians); equal copies work as the same key. "
  "Distances (straight, along the ground, with altitude) are in the stage's distance units whatever units the altitudes are in, are the same in both directions, and are refused for other kinds of things or when units they need are not set; travel time over waypoints is the total distance divided by the speed.",
  ["inputs", "configurations"], "every pair of locations, combination of distance and altitude units, and earth model",
  "Tests check a few points with one pair of units.",
  ["data_types.py", "utils.py", "geography/conversions.py", "geography/wgs84.py", "geography/spherical.py"],
  [("immutability", "data_types.py:Location.__setattr__"), ("Cartesian distance", "data_types.py:CartesianLocation._as_array"), ("geodetic distances", "data_types.py:GeodeticLocation.straight_line_distance"), ("stored data", "data_types.py:GeodeticLocationData")], None,
  ["coordinates read back", "differences", "comparisons", "waypoint_time_and_dist"])

p("C32", "An actor's task networks are told apart by name and run side by side",
  "A network can be added to an actor exactly when no network of that actor has its name, a suggested name is never one in use, and a deleted network is no longer known to any query, while its loop goes on unaffected. "
  "Networks made from one factory, under different names or on different actors, run their tasks in the factory's order (looping, or stopping in a terminal task) with their own queue: starting, queueing, interrupting or deleting one changes nothing of any other. "
  "Every query (has, queue, all queues, next, running, all running) tells exactly the networks known at that instant, and operations on unknown or not yet started networks are refused and change nothing.",
  ["histories", "schedules"], "every sequence of adding, suggesting, deleting, starting, queueing and interrupting networks from any factories on several actors",
  "Tests add one or two networks and never delete one that runs.",
  ["actor.py", "task_network.py"],
  [("adding", "actor.py:Actor.add_task_network"), ("names", "actor.py:Actor.suggest_network_name"), ("deleting", "actor.py:Actor.delete_task_network"), ("factories", "task_network.py:TaskNetworkFactory"), ("loop", "task_network.py:TaskNetwork.loop")], None,
  ["begin of each task with its network and time", "answers of the queries", "errors"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
