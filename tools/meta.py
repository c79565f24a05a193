"""The properties: text, anchors, and how each is decided.  tools/gen.py writes
properties.jsonl and MANIFEST.json from this."""

QSRV = 'queueing_tool/queues/queue_servers.py'
QEXT = 'queueing_tool/queues/queue_extentions.py'
QAGT = 'queueing_tool/queues/agents.py'
QCH = 'queueing_tool/queues/choice.pyx'
QNET = 'queueing_tool/network/queue_network.py'
QPRI = 'queueing_tool/network/priority_queue.pyx'
GGEN = 'queueing_tool/graph/graph_generation.py'
GPRE = 'queueing_tool/graph/graph_preparation.py'
GWRA = 'queueing_tool/graph/graph_wrapper.py'
GFUN = 'queueing_tool/graph/graph_functions.py'
UFND = 'queueing_tool/union_find.py'

AI = 'path-sensitive interprocedural abstract interpretation of the source'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique='', note='', how='',
         assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, how=how, assume=list(assume)))


HIST = 'every history of events, method calls and time-function results, for every queue class and agent class'
prop('C01', 'Queue population counts match the agents actually present',
     'After every operation on a queue, the number of agents in the system equals the number in service plus the '
     'number waiting, the total also includes those scheduled to arrive, and admitted minus departed arrivals '
     'account for the change of the number in the system. Every agent is in exactly one place: none is lost, '
     'duplicated or put in two places by an arrival, a departure, a start of service, a delay or a change of the '
     'number of servers (a blocked arrival at a finite queue and an absorbed resource are the only ones dropped).',
     ['histories', 'inputs'], HIST,
     'The tests run a handful of seeded simulations and compare totals at the end; a counter that is wrong only on '
     'one combination of branches (blocked and collecting data, returning agent, delayed departure) never shows.',
     [QSRV, QEXT], [('QueueServer.next_event', QSRV), ('QueueServer._add_arrival', QSRV),
                    ('LossQueue.next_event', QSRV), ('ResourceQueue.next_event', QEXT)],
     [('num_system, num_departures, _num_arrivals, _num_total', 'population counters', QSRV),
      ('_arrivals, _departures, queue', 'the containers that own the agents', QSRV)],
     ['num_system', 'num_departures', 'num_arrivals', 'number_queued()'],
     AI + ': ownership of agents and linear relations between counters and container sizes')
prop('C02', 'Agents are served first come, first served',
     'Agents waiting in a queue start service in the order in which they arrived: the longest waiting agent is '
     'always the next one to start service, an arriving agent starts service at once only if nobody is waiting, '
     'and the waiting line is never reordered or skipped. Only arriving agents join the line, and an agent that '
     'leaves the line starts service.',
     ['histories', 'inputs'], HIST,
     'A test would have to record arrival and service order for every interleaving; the existing ones never look '
     'at the order.',
     [QSRV, QEXT], [('QueueServer._service_from_queue / next_event', QSRV), ('QueueServer.set_num_servers', QSRV)],
     [('queue', 'the waiting line', QSRV)], ['data rows: service start order'],
     AI + ': order-preserving ownership of the waiting line')
prop('C03', 'Servers are neither exceeded nor left idle while agents wait',
     'An agent starts service only when fewer agents than the number of servers are in service, and an agent waits '
     'only while every server is busy. Both keep holding when the number of servers is raised or lowered at run '
     'time: raising it starts as many waiting agents as there are idle servers, no more and no fewer.',
     ['histories', 'inputs', 'configurations'], HIST + ', and every number of servers including infinity',
     'The tests check totals of a few seeded runs; whether a server idles in one particular state after '
     'set_num_servers or a departure is not visible in them.',
     [QSRV, QEXT], [('QueueServer.next_event', QSRV), ('QueueServer.set_num_servers', QSRV),
                    ('ResourceQueue.set_num_servers', QEXT)],
     [('num_servers', 'number of servers', QSRV), ('_departures', 'agents in service', QSRV)],
     ['num_system - number_queued() vs num_servers'],
     AI + ': linear capacity invariants at every start of service')
prop('C04', 'Finite queues block exactly when full and account for it',
     'A queue with a finite buffer admits an arrival exactly when it holds fewer agents than servers plus buffer, '
     'and reports being at capacity by the same rule; a queue without a buffer limit admits every arrival. Each '
     'blocked arrival is counted exactly once as blocked by the queue, is told so exactly once with the edge it '
     'was lost at, and changes no other population count; nothing else is counted as blocked. The agent counts each '
     'block it is told of (an InfoAgent: as a loss of the edge).',
     ['histories', 'inputs', 'configurations'], HIST + ', every number of servers and every buffer size',
     'Tests compare a blocking fraction with a formula at one parameter setting and tolerance; off-by-one at the '
     'boundary or a double count is within the noise.',
     [QSRV, QEXT, QAGT], [('LossQueue.next_event', QSRV), ('LossQueue.at_capacity', QSRV), ('Agent.add_loss', QAGT)],
     [('num_blocked', 'blocked arrivals', QSRV), ('buffer', 'waiting room', QSRV)],
     ['num_blocked', 'at_capacity()', 'Agent.blocked'],
     AI + ': path conditions of admission compared with the capacity relation')
prop('C05', 'Each queue event is the earliest scheduled one and moves the clock',
     'The next event of a queue is the earliest scheduled arrival or departure (an arrival if both are due at the '
     'same time), the clock moves to the time of that event, and a departure hands out that agent while an arrival '
     'hands out none. The next-event time a queue publishes and the event it describes are always those of the '
     'event that happens next, after every operation; with nothing scheduled nothing happens.',
     ['histories', 'inputs'], HIST,
     'Event times are random draws; the tests assert monotone times on one seeded run and cannot enumerate ties, '
     'delays, empty schedules or changes of the number of servers.',
     [QSRV, QEXT, QAGT], [('QueueServer.next_event', QSRV), ('QueueServer._update_time', QSRV),
                          ('QueueServer.next_event_description', QSRV), ('QueueServer.delay_service', QSRV)],
     [('_time', 'published next-event time', QSRV), ('_current_t', 'clock', QSRV)],
     ['time', 'current_time', 'next_event_description()'],
     AI + ': symbolic heap heads and ordering constraints')
prop('C06', 'Outside arrivals respect the active flag, cap and stopping time',
     'While a queue is active, exactly one future outside arrival is pending: the next one is drawn when the '
     'previous one becomes due, is scheduled at the time the arrival function returned, and the stream never stops '
     'by itself. No outside agent is created by an inactive queue, beyond the cap, or at or after the stopping '
     'time, and reaching either makes the queue inactive; every created agent is counted and gets a new id made of '
     'the edge index and a running number.',
     ['histories', 'inputs', 'configurations'], HIST + ', every cap and stopping time, and every order of activation '
     'and deactivation',
     'Tests check the cap and the stopping time once each on one class; re-activation, simultaneous arrivals from '
     'other queues and each subclass multiply the histories.',
     [QSRV, QEXT], [('QueueServer._add_arrival', QSRV), ('QueueServer.set_active', QSRV),
                    ('InfoQueue._add_arrival', QEXT)],
     [('_oArrivals', 'outside arrivals so far', QSRV), ('_next_ct', 'time of the pending outside arrival', QSRV)],
     ['active', 'num_arrivals', 'agent ids in data'],
     AI + ': typestate of the arrival stream with linear time constraints')
prop('C07', 'Service and arrival time functions are called and used as documented',
     'A service time is drawn exactly once per start of service, with the time at which service starts, and the '
     'agent departs at the time returned; the arrival function is called with the current time. Delaying a service '
     'reschedules exactly the agent due to depart next, to the given time or to one service time after its planned '
     'departure, and changes nothing else.',
     ['histories', 'inputs'], HIST + ', and every pair of time functions',
     'The tests pass fixed time functions and never observe with which arguments or how often they are called.',
     [QSRV, QEXT], [('QueueServer._service_from_queue / next_event', QSRV), ('QueueServer.delay_service', QSRV),
                    ('QueueServer._add_arrival', QSRV)],
     [], ['calls of service_f and arrival_f', 'departure times'],
     AI + ': effect analysis of the user callbacks')
prop('C08', 'Collected data has one correct row per arrival',
     'While data is collected, every arrival (also a blocked one) adds exactly one record with its arrival time, '
     'the number queued and the number in the system, without discarding earlier records of the same agent. The '
     'start of service and the departure of that visit are filled into that record when they happen, and nothing '
     'is recorded while data is not collected.',
     ['histories', 'inputs'], HIST + ', with collection on or off, for agents with and without earlier records',
     'Tests look at the shape of the data of one seeded run and at aggregate averages; a field filled in from the '
     'wrong time or for the wrong agent is not noticed.',
     [QSRV, QEXT], [('QueueServer.next_event', QSRV), ('LossQueue.next_event', QSRV),
                    ('ResourceQueue.next_event', QEXT)],
     [('data', 'agent id -> list of records', QSRV)], ['fetch_data()', 'data'],
     AI + ': effect analysis of every write to the collected data')
prop('C09', 'Clearing a queue resets the whole run state and keeps its parameters',
     'After clearing a queue it has no agents in service, waiting or scheduled, no collected data, a clock of zero, '
     'no next event, no outside arrival pending, is inactive, and its arrival, departure and blocked counts are '
     'zero. Its parameters (time functions, servers, buffer, caps, colors, edge) are as before.',
     ['histories'], 'every state a queue can be in when it is cleared, for every queue class that is cleared',
     'The tests clear one queue after one run and look at some of the fields.',
     [QSRV, QEXT], [('QueueServer.clear', QSRV), ('LossQueue.clear', QSRV), ('ResourceQueue.clear', QEXT),
                    ('InfoQueue.clear', QEXT)],
     [], ['num_arrivals', 'num_departures', 'num_system', 'data', 'time', 'active'],
     AI + ': post-state of clear() from an arbitrary pre-state')
prop('C29', 'Resources are conserved by resource queues and agents',
     'An agent leaving a resource queue takes exactly one resource with it if it has none, lowering the number of '
     'servers by one, and only where there is one; an agent that brings a resource back is absorbed on arrival and '
     'raises it by exactly one. Other agents and other events move no resources, and exceeding the maximum is '
     'counted once per deposit beyond it.',
     ['histories', 'inputs'], HIST,
     'The tests run one seeded network and compare totals.',
     [QEXT], [('ResourceQueue.next_event', QEXT), ('ResourceAgent.queue_action', QEXT),
              ('ResourceQueue.set_num_servers', QEXT)],
     [('num_servers', 'resources available', QEXT), ('over_max', 'deposits beyond the maximum', QEXT)],
     ['num_servers', 'over_max'],
     AI + ': resource accounting on every path')
prop('C31', 'Terminal queues absorb agents without keeping them',
     'An agent arriving at a terminal queue is gone: the queue keeps no agent, schedules nothing, never blocks, '
     'reports nobody waiting and no next event. If data is collected each arrival adds exactly one record with the '
     'arrival time, keeping earlier records of the same agent, and otherwise none.',
     ['histories', 'inputs'], 'every arrival at a terminal queue, with data collection on or off and with or without '
     'earlier records of the agent',
     'The tests use terminal queues only as the end of seeded networks.',
     [QSRV], [('NullQueue', QSRV)], [], ['num_system', 'fetch_data()', 'at_capacity()'],
     AI + ': effect analysis of every method of the terminal queue')
prop('C33', 'Exported data holds every collected record once, in order',
     'fetch_data returns one row per collected record of the queue: its five values followed by the edge index of '
     'the queue, sorted by arrival time (no rows if nothing was collected). get_queue_data returns the rows of all '
     'selected queues, none left out, repeated or changed. get_agent_data returns for every agent all its rows '
     'from the selected queues, sorted by arrival time. The header names these six columns and is returned '
     'exactly when asked for.',
     ['inputs', 'histories'], 'every collected data set (agents seen by one or several queues, with any number of '
     'records, queues without data) and every selection',
     'Tests compare the shapes and means of one seeded run; a queue with a single record, an agent seen by a queue '
     'again, or rows in the wrong order do not show in them.',
     [QSRV, QNET], [('QueueServer.fetch_data', QSRV), ('QueueNetwork.get_queue_data / get_agent_data', QNET)],
     [('data', 'agent id -> list of records', QSRV)], ['fetch_data()', 'get_queue_data()', 'get_agent_data()'],
     AI + ': row and column provenance of the tables that are built')
prop('C36', 'Agents get exactly one callback per arrival, service start, departure',
     'An agent admitted to a queue has its action callback called exactly once with code 0 when it arrives, exactly '
     'once with code 1 when its service starts and exactly once with code 2 when it departs, each time with the '
     'queue it is at. Blocked agents and agents to which nothing happens are not called.',
     ['histories', 'inputs'], HIST,
     'No test counts the callbacks.',
     [QSRV, QEXT, QAGT], [('QueueServer.next_event', QSRV), ('QueueServer._service_from_queue', QSRV)],
     [], ['Agent.queue_action'],
     AI + ': call protocol (typestate) of the agent callback')

STEP = 'every state of the network and of the two queues involved, destination equal to or different from the source'
prop('C10', 'Simulations run exactly as long as requested',
     'simulate(n) simulates exactly n events. With an amount of time, of arrivals or of departures, simulating goes '
     'on until that much additional simulation time has passed or that many additional arrivals or departures have '
     'happened, and no event is simulated once it has; a queue stops early only when nothing is scheduled. This '
     'holds for networks and for single queues, wherever the clock and the counters start.',
     ['inputs', 'histories'], 'every n, t, number of arrivals and departures and every starting state',
     'The tests call simulate with a few fixed amounts from a fresh start; off-by-one and restart errors show only '
     'for particular event times.',
     [QNET, QSRV], [('QueueNetwork.simulate', QNET), ('QueueServer.simulate', QSRV)],
     [('_t, num_events', 'network clock and event count', QNET)], ['num_events', 'current_time', 'num_departures'],
     AI + ': loop-exit and loop-continue conditions of simulate against counter invariants')
prop('C11', 'Agents move between queues without loss, duplication or delay',
     'When an agent departs from a queue in a network it arrives at its chosen destination and nowhere else, exactly '
     'once, at the very time it departed: the departure is processed first, then the agent is handed over, then its '
     'arrival is processed. An arrival from outside involves only its own queue. After every event num_agents is the '
     'number of agents at each queue that took part and is unchanged for all others.',
     ['histories', 'inputs'], STEP,
     'Tests compare a few totals of seeded simulations; an agent handed over late, or a stale count on one branch, '
     'does not change them.',
     [QNET], [('QueueNetwork._simulate_next_event', QNET)],
     [('num_agents', 'agents per edge', QNET)], ['num_agents', 'agent data'],
     AI + ': event protocol of one simulation step on every path')
prop('C12', 'The scheduler always holds the next event of every queue',
     'Each simulation step of a network takes exactly one event, the earliest scheduled, sets the clock to its time '
     'and counts it once. Afterwards every queue whose next event changed is scheduled at exactly its new '
     'next-event time under its own edge index, a queue without a next event is not, nothing else is scheduled, and '
     'when nothing is scheduled a step changes no queue and counts no event.',
     ['histories', 'inputs'], STEP,
     'A missing reschedule only loses the events of one queue in particular circumstances (blocking, self loops, '
     'closed queues); seeded runs keep going.',
     [QNET, QSRV], [('QueueNetwork._simulate_next_event', QNET), ('QueueServer._key', QSRV)],
     [('_fancy_heap', 'the scheduler', QNET), ('_t, num_events', 'clock and event count', QNET)],
     ['time', 'current_time', 'num_events', 'next_event_description()'],
     AI + ': obligations on every scheduler operation of a step')
prop('C13', 'A network never holds more than max_agents agents',
     'If the network holds at most max_agents agents (including those scheduled to arrive), it still does after any '
     'simulated event. Queues are closed for outside arrivals by this rule only when the network is full.',
     ['histories', 'inputs', 'configurations'], STEP + ', every max_agents including infinity',
     'The tests check one network with one max_agents; the last admissible arrival depends on the order of events.',
     [QNET], [('QueueNetwork._simulate_next_event', QNET)],
     [('max_agents', 'the limit', QNET), ('num_agents', 'agents per edge', QNET)], ['num_agents.sum()'],
     AI + ': linear bound on the number of agents over one event')
prop('C14', 'Full destinations block departing agents by the chosen discipline',
     'A departing agent is blocked exactly when its destination is another queue that is at capacity: it stays at '
     'its queue, and the destination and the agent each count the block once; otherwise it moves and nothing is '
     'counted. Under BAS it then waits until just after the next departure of the destination, under RS it receives '
     'another service. An agent that returns to its own queue is never blocked by it.',
     ['histories', 'inputs', 'configurations'], STEP + ', both blocking disciplines',
     'Tests compare blocking totals of seeded runs; which branch is taken for loops and full queues is not visible.',
     [QNET], [('QueueNetwork._simulate_next_event', QNET)],
     [('_blocking', 'BAS or RS', QNET), ('num_blocked', 'blocks at a queue', QSRV)],
     ['num_blocked', 'Agent.blocked', 'departure times'],
     AI + ': path conditions and effects of blocking on every path of a step')
prop('C15', 'Agents choose their destination by the documented routing rule',
     'A departing agent chooses its destination exactly once, and always an out edge of the vertex it arrives at. '
     'Agents take the only out edge if there is just one, otherwise one uniform draw on [0, 1) decides among all of '
     'them by the routing probabilities of that vertex. A GreedyAgent takes the out edge with the fewest agents '
     'waiting, the first one in case of ties. Choosing changes nothing.',
     ['inputs', 'histories'], 'every edge, every number of out edges, all routing probabilities and queue lengths',
     'The tests compare visit frequencies of one seeded run with a tolerance.',
     [QAGT, QNET], [('Agent.desired_destination', QAGT), ('GreedyAgent.desired_destination', QAGT)],
     [('_route_probs', 'routing probabilities per vertex', QNET), ('out_edges', 'out edges per vertex', QNET)],
     ['visited edges'],
     AI + ': provenance of the returned edge and of every argument of the draw')

prop('C18', 'Data operations act on exactly the selected queues',
     'Starting, stopping and clearing data collection and reading the data by queue or by agent act on exactly the '
     'selected queues: those with the given edge indices, those of the given edge or edges (a pair, or an iterable '
     'of pairs, of vertices), those whose edge type is the given one or among the given ones, and all queues when '
     'nothing is given. No other queue is used and none of the selected ones is left out.',
     ['inputs'], 'every form and value of the selection parameters and every graph',
     'The tests pass one or two forms of each parameter on one graph; a form that selects other queues silently '
     'returns the wrong data.',
     [QNET], [('_get_queues', QNET), ('QueueNetwork.start_collecting_data', QNET),
              ('QueueNetwork.get_queue_data', QNET), ('QueueNetwork.get_agent_data', QNET)],
     [('edge2queue', 'queues by edge index', QNET), ('g.edge_index', 'edge -> edge index', GWRA)],
     ['collect_data', 'data', 'returned arrays'],
     AI + ': provenance of every queue used, per form of the selection')
prop('C16', 'Routing probabilities are set exactly as given or not at all',
     'Setting transitions either makes the probability of every out edge of each given vertex exactly the one given '
     'for its target (zero if none is given), or raises and changes no probability at all. It raises a ValueError '
     'exactly for unknown vertices, negative probabilities, a matrix of the wrong shape, or probabilities over the '
     'out edges of a vertex that do not sum to one, and a TypeError for anything but a dict or an array. Reading '
     'the transitions reports each current probability under its own source and target.',
     ['inputs'], 'every graph, every dict or array passed, and every current state of the probabilities',
     'The tests pass a few well formed matrices and dicts on graphs whose edges are in order; partly listed rows, '
     'rejected input after a valid row and unordered edges are not covered.',
     [QNET], [('QueueNetwork.set_transitions', QNET), ('QueueNetwork.transitions', QNET)],
     [('_route_probs', 'probability of each out edge, per vertex', QNET)], ['transitions()', 'routes of agents'],
     AI + ': validation before effect, and provenance of every stored probability')
prop('C17', 'Initializing activates exactly the selected queues and schedules all',
     'A successful initialize activates exactly the queues given by index, by edge or by edge type (otherwise nActive '
     'distinct ones drawn at random, or all if there are fewer), leaving out those of edge type 0 and those that '
     'would exceed max_agents; updates the tally of their agents; schedules every queue with an event due; and makes '
     'the network ready. It raises TypeError or ValueError for a bad nActive and QueueingToolError if no queue is '
     'left, changing nothing. Only an initialized network simulates; clear resets time, counts and every queue.',
     ['inputs', 'histories'], 'every form and value of the parameters, every graph, and every earlier history',
     'The tests initialize small networks in a few ways; networks at their agent limit, null queues in the selection '
     'and repeated initialization are not covered.',
     [QNET], [('QueueNetwork.initialize', QNET), ('QueueNetwork.clear', QNET), ('QueueNetwork.simulate', QNET)],
     [('num_agents', 'agents per queue', QNET), ('_fancy_heap', 'schedule of the queues', QNET),
      ('_initialized', 'ready to simulate', QNET)], ['num_agents', 'active queues', 'exceptions raised'],
     AI + ': provenance of every activated queue, path conditions of refusals, final state of the schedule')
prop('C19', 'A copy has the whole state of the original and shares none of it',
     'The copy of a network has every attribute that any operation of the network reads, each a deep copy of (or, if '
     'immutable, equal to) that of the original, and, if the original is initialized, a schedule of its own with '
     'every queue that has an event due under the time and index of that queue. The copy of a queue is a deep copy. '
     'Copying changes nothing in the original.',
     ['histories'], 'every state of a network or queue at the moment it is copied',
     'The one test copies a network before anything has happened and compares a few attributes; a shared container '
     'or a forgotten attribute only shows when both go on to be used.',
     [QNET, QSRV], [('QueueNetwork.copy', QNET), ('QueueServer.copy', QSRV)],
     [('every instance attribute', 'state of the network', QNET)], ['attributes and later behaviour of both networks'],
     AI + ': provenance of every attribute of the copy against the attributes the class reads')
prop('C20', 'Every edge gets its own queue of the class and arguments of its type',
     'Building a network creates exactly one new queue for every edge of its graph, of the class set for the type of '
     'the edge, with the arguments set for that type and its own edge (source, target, edge index, type), and stores '
     'it in edge2queue at the index of the edge. Classes and arguments given by the caller are kept; only types that '
     'are missing get the default class and no arguments. While queues are built, the arguments, which all queues of a '
     'type share, change only in that a missing number of servers is filled in, with at least 1, from vertex caps.',
     ['inputs', 'configurations'], 'every graph, every edge order and every q_classes and q_args',
     'The tests build networks whose edges come in index order and whose types are all configured; a queue stored at '
     'the wrong place or with the arguments of another type only shows on other graphs.',
     [QNET, GPRE], [('QueueNetwork.__init__', QNET), ('_prepare_graph', GPRE), ('_set_queues', GPRE)],
     [('edge2queue', 'queues by edge index', QNET)], ['edge2queue', 'edge of a queue'],
     AI + ': provenance of the class, the arguments and the place of every queue, in one loop over the edges')
prop('C21', 'A new network has correct tables, uniform routing and a clean state',
     'After building a network, out_edges and in_edges hold for each vertex the indices of all the edges out of it '
     '(into it), in the order of the edges; routing probabilities are 1/n for each of the n edges out of a vertex; '
     'nV, nE and the zero tally match the graph; time and event count are zero, it is not initialized, its schedule '
     'is empty, max_agents is the one given, and blocking is RS exactly when asked for in any case. A blocking rule '
     'that is not a string is refused.',
     ['inputs', 'configurations'], 'every graph and every combination of parameters',
     'The tests use graphs with few edges per vertex and look at totals; the order within a table is what every '
     'routing decision relies on.',
     [QNET], [('QueueNetwork.__init__', QNET)],
     [('out_edges, in_edges', 'edge indices per vertex', QNET), ('_route_probs', 'probabilities per vertex', QNET)],
     ['out_edges', 'in_edges', 'transitions()', 'blocking'],
     AI + ': provenance of every table entry over complete loops of the vertices')
prop('C26', 'The schedule always pops the earliest current time of a queue',
     'A schedule (PriorityQueue) holds exactly the given and the pushed entries that were not taken: none is lost or '
     'doubled, and no time is paired with the queue of another entry. They always form a heap: no entry is earlier '
     'than its parent. A push makes its time the current one of its queue. A pop takes entries from the root, passes '
     'over only those whose time is not the current one of their queue, and returns the first that is; its queue '
     'then has no current time. Nothing is returned only if no entry is left.',
     ['histories', 'inputs'], 'every sequence of pushes and pops of any finite times, and every heap size',
     'The tests push random times and compare the order of pops; an order that breaks for one heap size or shape, or '
     'for one pattern of superseded times, needs the exact sequence.',
     [QPRI], [('PriorityQueue.push / pop / heappop', QPRI), ('_siftdown, _siftup, heapify', QPRI)],
     [('sorted_times, sorted_edges', 'the heap', QPRI), ('q_times', 'current time per queue', QPRI)],
     ['pop()', 'times', 'edges', 'q_map()'],
     AI + ': abstract domain of binary heaps with one hole, inductive over the loops that move the hole')
prop('C27', 'The schedule stays inside its arrays',
     'The code of the schedule (PriorityQueue) is compiled without bounds checks; still, every index it uses is '
     'inside its array, for every size of the heap, and current times are only read and written for queues that '
     'exist. The capacity equals the length of both arrays and is never below the number of entries, which is never '
     'negative; growing keeps all entries and renews the views of the arrays; nothing is taken from an empty heap.',
     ['histories', 'inputs'], 'every sequence of pushes and pops of valid queues, and every heap size',
     'An access one past the end is silent: it reads or damages other memory, and no test fails.',
     [QPRI], [('PriorityQueue.push / pop / heappop', QPRI), ('_siftdown, _siftup, heapify', QPRI)],
     [('size, actual_size', 'entries and capacity', QPRI), ('array_times, array_edges', 'arrays', QPRI)],
     ['size', 'arraysize', 'times', 'edges'],
     AI + ': inductive linear relations between indices, sizes and array lengths')
prop('C28', 'A draw picks by cumulative probability; ties pick the first minimum',
     'For n >= 2 probabilities and 0 <= u < 1, _choice returns an index k in 0..n-1 with p_0+...+p_(k-1) <= u <= '
     'p_0+...+p_k, where the upper bound need not hold for the last index (so rounding cannot lose an edge). For a '
     'list of at least one queue length, _argmin returns the index of the first smallest one. Neither reads an '
     'element outside its array, which is compiled without bounds checks.',
     ['inputs'], 'every array of probabilities, every u in [0, 1) and every list of lengths, of any size',
     'The tests of routing are statistical over a few probabilities: a draw at a boundary, a probability of zero, an '
     'edge that is never drawn or an unchecked read past the end are not seen.',
     [QCH], [('_choice', QCH), ('_argmin', QCH)],
     [('k', 'drawn index', QCH), ('amin', 'index of the minimum', QCH)], ['edge chosen by an agent'],
     AI + ': inductive loop invariants over symbolic prefix sums and running minima')

prop('C22', 'minimal_random_graph joins nearest pairs until everything is connected',
     'minimal_random_graph(n) takes all pairs of its n points in order of distance, makes each an edge in both '
     'directions and stops exactly when the union-find of the vertices has one set left; vertex j is at point j and '
     'n = 1 gives one vertex. UnionFind: find returns the leader of the set and only shortens paths to it, union gives '
     'the leader of one set the leader of the other, adds up the sizes and lowers nClusters by one, unless both are in '
     'one set already.',
     ['inputs'], 'every number of vertices, every placement of the points, every history of unions and searches',
     'Tests build a few random graphs; a pair that is never considered, a count that drifts or a path compressed to '
     'the wrong element shows only for particular placements or orders of unions.',
     [GGEN, UFND], [('minimal_random_graph', GGEN), ('find', UFND), ('union', UFND)],
     [('_leader', 'leader of an element', UFND), ('nClusters', 'number of sets', UFND),
      ('_size', 'size of a set', UFND)], ['edges of the graph', 'nClusters', 'size of a set'],
     AI + ': leader chains as an inductive typestate, loop events of the candidate and choice loops')

prop('C39', 'Edge indices, properties, positions and drawing data of a graph agree',
     'QueueNetworkDiGraph numbers its edges by their rank, a new edge gets the next index and an old one keeps its own; '
     'ep and vp read what set_ep and set_vp stored, and the arrays used for drawing get the value at the index of the '
     'same edge or vertex; row v of pos is the position of vertex v; get_edge_type returns exactly the edges of a type; '
     'lines_scatter_args draws every edge between its own two vertices at its own index, with the positions that are '
     'given, else those the graph has, else new ones, and given drawing and savefig arguments are used.',
     ['inputs'], 'every graph, every order of its edges and vertices, every property name and value',
     'Tests use graphs whose edges come out sorted and draw without looking at the picture: an index, a row or a color '
     'of another edge goes unnoticed.',
     [GWRA], [('__init__', GWRA), ('add_edge', GWRA), ('set_ep', GWRA), ('set_vp', GWRA), ('lines_scatter_args', GWRA),
              ('draw_graph', GWRA)],
     [('edge_index', 'index of each edge', GWRA), ('pos', 'positions', GWRA), ('edge_color', 'edge colors', GWRA)],
     ['edge indices', 'properties', 'arguments of the drawing calls'],
     AI + ': edge order as symbolic terms (iteration order and sorted order are different)')

prop('C37', 'Colors show the state of the network, and looking at it changes nothing',
     'Bringing colors up to date gives every edge the color its own queue asks for (loops the loop color), the vertex of a '
     'loop its pen and fill color, and shades other vertices by their in edges; a shade is darker with more agents. show_active and show_type highlight exactly '
     'what is active or of the type, draw once and restore the colors; reset_colors gives the defaults. These methods, '
     'get_agent_data, get_queue_data, transitions, next_event_description and the read-only methods of queues change '
     'nothing but colors and use no random number.',
     ['histories', 'inputs'], 'every network, every edge order, every state of the queues and every combination of edge types',
     'Tests look at a few colors of one network; a color that goes to the wrong vertex or a getter that '
     'changes a list in place shows only for particular edge orders, loops and later events.',
     [QNET, QSRV, QEXT], [('_update_all_colors', QNET), ('_update_graph_colors', QNET), ('_update_vertex_color', QNET),
                          ('show_active', QNET), ('show_type', QNET), ('reset_colors', QNET), ('_current_color', QSRV),
                          ('fetch_data', QSRV)],
     [('colors', 'colors of the network and of each queue', QNET), ('_prev_edge', 'edge of the event before', QNET)],
     ['edge and vertex colors', 'state before and after looking'],
     AI + ': color terms per edge and vertex, and an effect analysis of the looking methods')

prop('C38', 'adjacency2graph makes the graph that the adjacency data describes',
     'adjacency2graph returns a directed graph of the given matrix, dict of lists or dict of dicts: rows or keys are the '
     'vertices, nonzero entries or list members are the edges, a vertex that is only a target takes part, no entry of a '
     'dict is lost. A given edge type goes to the same edge; an edge without a type gets 1 and one with a type keeps it. '
     'With adjust 1 every vertex without out-edges gets a loop of type 0; with adjust 2 every edge into such a vertex '
     'gets type 0. Other data is a TypeError.',
     ['inputs'], 'every matrix and dict of any size, with or without edge types',
     'Tests convert two or three small graphs; an edge whose type is lost, overwritten or taken from the reverse edge, '
     'or a terminal vertex that only appears as a target, needs other data.',
     [GWRA], [('adjacency2graph', GWRA), ('_adjacency_adjust', GWRA), ('_matrix2dict', GWRA), ('_dict2dict', GWRA)],
     [('edge_type', 'type of each edge', GWRA), ('adjacency', 'dict of dicts', GWRA)],
     ['edges of the graph', 'edge_type of each edge'],
     AI + ': nested loop events over symbolic dicts, one obligation per edge and vertex case')

prop('C23', 'generate_transition_matrix makes rows of probabilities on out edges',
     'generate_transition_matrix returns a square matrix with a row and a column for every vertex. The row of a vertex '
     'with out edges is stored exactly at the targets of its out edges: 1 for a single edge, else non-negative numbers '
     'divided by their own sum, which cannot be zero. Everything else stays zero.',
     ['inputs'], 'every graph and every draw of random numbers',
     'Tests sum the rows of a few random matrices; a degree that is skipped, an entry at a vertex without an edge or a '
     'draw of zeros only needs the right graph or draw.',
     [GGEN], [('generate_transition_matrix', GGEN)], [('mat', 'transition matrix', GGEN)], ['returned matrix'],
     AI + ': array stores with symbolic index sets and values, sign domain for random arrays')

prop('C34', 'Random edge types are drawn edge by edge from the given proportions',
     'set_types_random gives every edge a type: its own draw among the keys of proportions (loops: loop_proportions) '
     'with the values of the same dict as probabilities; the defaults are 1, 2, 3 with 1/3 each and for loops 0, 1, 2, 3 '
     'with 1/4 each; proportions that do not sum to one are a ValueError. generate_random_graph gives a vertex without a '
     'loop one if and only if its draw is below prob_loop, and sets the types when all edges exist.',
     ['inputs'], 'every graph, all proportions, all draws',
     'The types are random, so tests can only look at rough counts for one or two graphs.',
     [GGEN], [('set_types_random', GGEN), ('generate_random_graph', GGEN)],
     [('eTypes', 'type of each edge', GGEN)], ['edge_type of each edge', 'loops of the graph'],
     AI + ': provenance of draws through loops over filtered edge sets')

prop('C40', 'set_types_rank marks top vertices and gives their loops the matching type',
     'set_types_rank chooses the vertices whose rank is at least the ceil(nV * pType2)-th largest one (none when that is '
     'zero). A chosen vertex gets loop_type 3, a vertex that was found near one and is not chosen gets 2, and each of '
     'them has a loop afterwards. Every edge gets type 1, then the loop of each marked vertex the type of the vertex. '
     'generate_pagerank_graph passes each vertex its own page rank.',
     ['inputs'], 'every graph, every rank, all proportions',
     'Tests count types in one seeded graph; ties in rank, a vertex that has a loop already or a proportion of zero are '
     'not sampled.',
     [GGEN], [('set_types_rank', GGEN), ('generate_pagerank_graph', GGEN)],
     [('dests', 'chosen vertices', GGEN), ('loop_type', 'type of a vertex', GGEN)], ['edge_type of loops', 'loop_type'],
     AI + ': loop events with membership conditions, order of the passes over vertices and edges')

prop('C24', 'An integer seed decides every draw that follows',
     'Every random number of the package comes from the global generator of numpy. With an integer seed (numpy integers '
     'included, 0 included) QueueNetwork, every kind of queue and each random graph, type and matrix function restart '
     'that generator with this seed before anything is drawn; without a seed they leave its state alone. '
     'generate_random_graph and generate_pagerank_graph pass the seed on. Nothing else restarts the generator.',
     ['inputs', 'histories'], 'every seed, every graph, every sequence of calls before it',
     'Two runs with one seed agree in a test when the unseeded part happens not to matter; a second source of '
     'randomness, a restart in the middle of a simulation or seed 0 is not sampled.',
     [GGEN, QSRV, QNET, QAGT, QCH], [('minimal_random_graph', GGEN), ('set_types_random', GGEN), ('set_types_rank', GGEN),
                          ('generate_transition_matrix', GGEN), ('__init__', QNET), ('__init__', QSRV)],
     [('numpy.random', 'state of the generator', GGEN)], ['random numbers drawn'],
     'name resolution over the whole program for sources of randomness and seeding sites; ' + AI +
     ': order of seeding and draws on every path of each entry')

prop('C30', 'Information about the network only gets fresher and is stamped correctly',
     'An InfoQueue that an InfoAgent arrives at (ties of times included) first takes over exactly the rows that the agent '
     'has a newer stamp for; at a departure nobody is asked. queue_action gives the agent every row that the queue has a '
     'newer stamp for, no older one, and stamps the row of this edge with time, number of servers and load. A wait is '
     'counted once, at the departure. All data starts at -1 with a row per edge, clear forgets it, new agents get as '
     'many rows as their queue.',
     ['inputs', 'histories'], 'every table of stamps, every order of arrivals and departures',
     'Tests check that the table has the right shape after a run; one row overwritten by older news, or a tie, is '
     'invisible there.',
     [QEXT], [('extract_information', QEXT), ('queue_action', QEXT), ('next_event', QEXT), ('networking', QEXT)],
     [('net_data', 'what is known of each edge', QEXT), ('stats', 'what the agent counted', QEXT)],
     ['net_data of queue and agent', 'stats of the agent'],
     AI + ': row updates under masks or in loops, decided for all order types of the two stamps')

prop('C41', 'Networks, queues, agents and graphs report their current state',
     'The time of a network is the time of its next event (infinite with none) and next_event_description names the queue '
     'with the smallest next-event time and what happens there, or nothing exactly when nothing is scheduled; current_time, '
     'blocking and the numbers of vertices and edges are the stored ones. A queue reports its own active flag, next-event '
     'time, clock, arrival counts and number of waiting agents. Agents compare by their times. graph2dict returns every '
     'vertex with its edges, as dicts or lists.',
     ['histories', 'inputs'], 'every state of the network and its queues, every pair of agents, every graph',
     'Tests read the properties in one or two states; which queue comes next among many, equal times and an empty schedule '
     'are not reached by them.',
     [QNET, QSRV, QAGT, GFUN], [('time', QNET), ('next_event_description', QNET), ('blocking', QNET), ('num_arrivals', QSRV),
                                ('number_queued', QSRV), ('__lt__', QAGT), ('graph2dict', GFUN)],
     [('_fancy_heap', 'schedule of the next events', QNET), ('_time', 'next-event time', QSRV)],
     ['values of the properties', 'order of agents', 'returned dictionaries'],
     AI + ': returned terms compared with the terms they stand for, comparisons case by case over the order of the times')

prop('C32', 'New queues and agents start from the documented state',
     'A new queue is empty and inactive: all counts and its clock are 0, its next event is at infinity, nothing is waiting, '
     'in service or recorded. It has exactly the parameters given, and the documented defaults for the others. A number of '
     'servers that is not an integer or infinity is rejected with TypeError, one that is not positive with ValueError, by '
     'the constructors and by set_num_servers, and a rejected call changes nothing. A new agent has its id, was never '
     'blocked and holds no resource.',
     ['inputs'], 'every combination of parameters, every number of servers, every kind of queue and agent',
     'Tests construct queues with a few parameter sets and look at one or two attributes of them; a counter that starts '
     'at 1, a parameter that a subclass drops or an accepted 0 servers in one class is not sampled.',
     [QSRV, QEXT, QAGT], [('__init__', QSRV), ('set_num_servers', QSRV), ('__init__', QEXT), ('__init__', QAGT)],
     [('num_servers', 'number of servers', QSRV), ('num_system', 'number of agents in the system', QSRV)],
     ['attributes of a new queue', 'exceptions'],
     AI + ': all paths of the constructors and of set_num_servers, for integer, infinite and other numbers of servers')

prop('C25', 'Networks, queues, agents and graphs share no state that changes',
     'Creating, running, drawing or clearing a network, queue, agent or graph never changes a class attribute, a module '
     'variable, the default value of a parameter, or an element that several slots of a new list share. Hence an object '
     'created later with the same arguments starts from the same state whatever was done with the others, and two of them '
     'used side by side do not influence each other.',
     ['histories', 'inputs'], 'every sequence of calls on any number of objects, every place in the package that changes an '
     'object in place',
     'Tests use one object at a time, or compare shapes; a default color or a counter that leaks from one queue to all later '
     'ones needs two objects and a particular order of calls.',
     [QSRV, QEXT, QAGT, QNET, QPRI, GGEN, GPRE, GWRA, GFUN, UFND], [('__init__', QSRV), ('__init__', QNET), ('_prepare_graph', GPRE)],
     [('_default_colors', 'default colors of a queue', QSRV), ('default_q_colors', 'default colors by type', QNET)],
     ['class attributes', 'module variables', 'default values of parameters'],
     'whole-program alias analysis (flow-sensitive names, field-based attributes, interprocedural fixpoint over containers '
     'and copies); every in-place change is an obligation')

prop('C35', 'poisson_random_measure thins a homogeneous Poisson process',
     'poisson_random_measure(t, rate, rate_max) starts at t, moves from one candidate to the next by an exponential draw of '
     'mean 1/rate_max, evaluates the rate at each candidate, keeps it exactly when rate_max times a uniform draw of its own '
     'is at most that rate, and returns the first candidate it keeps. By the thinning theorem this is the next point of a '
     'Poisson process with that rate.',
     ['inputs'], 'every start time, every rate function, every sequence of draws',
     'A test sees a few sampled times; a rate taken at the previous time or a uniform draw that is used twice gives '
     'plausible times with a wrong distribution.',
     [QSRV], [('poisson_random_measure', QSRV)], [('t', 'candidate time', QSRV)], ['returned time', 'random numbers drawn'],
     AI + ': words of draws, rate evaluations and decisions on every path, accepted by the automaton of the thinning '
     'algorithm with its state as loop invariant')

prop('C42', 'Simulated queues have the distributions that queueing theory predicts',
     'The distributions of waiting times, queue lengths and losses of simulated queues and networks approach those of the '
     'M/M/c, M/M/c/K, Jackson and similar models that their parameters describe.',
     ['inputs', 'histories'], 'every arrival and service distribution, in the long run',
     'A test compares averages of one long run with a tolerance; it can neither show nor refute a distribution.',
     [QSRV, QNET], [('next_event', QSRV), ('simulate', QNET)], [('data', 'collected times', QSRV)], ['collected data'], None)

prop('C43', 'Pictures and animations show the graph and its colors',
     'draw, animate, show_active and show_type put every vertex and edge of the graph on the matplotlib axes, at its position '
     'and in its current color, and an animation has the requested frames.',
     ['inputs', 'histories'], 'every graph, every state of the queues',
     'Tests can check that a file was written, not what it shows.',
     [QNET, GWRA], [('animate', QNET), ('draw_graph', GWRA)], [('edge_color', 'color of each edge', GWRA)],
     ['matplotlib axes'], None)

prop('C44', 'Simulating and generating always come to an end',
     'simulate with an amount of time, arrivals or departures, poisson_random_measure and the random graph generators return '
     'for every input that they accept.',
     ['inputs', 'schedules'], 'all arrival and service functions, rates and seeds',
     'A test cannot wait for a run that does not end, and termination depends on the user\'s functions and the draws.',
     [QNET, QSRV, GGEN], [('simulate', QNET), ('poisson_random_measure', QSRV), ('minimal_random_graph', GGEN)],
     [('_t', 'clock', QNET)], ['return of the call'], None)

NA = [('C42', 'A statement about limits of random processes: it quantifies over probability distributions of long runs, which no '
       'dataflow or typestate argument over the source bounds. The structural premises (FIFO, one draw per service, clock, '
       'thinning, routing by cumulative probability) are C02, C05, C07, C15, C28 and C35.'),
      ('C43', 'What is visible is decided inside matplotlib, whose source is not part of the repository; the data handed to it is '
       'C37 and C39.'),
      ('C44', 'Termination depends on values that user functions and random draws return (a service time of 0 keeps the clock '
       'still, a rate of 0 rejects every candidate), so it does not hold for all accepted inputs and no static ranking '
       'argument bounds it.')]
