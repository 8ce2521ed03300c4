def add(prop, HOOK):
    prop("C15", "Equilibrium iterations keep demand and move to cheaper paths",
         "After every iteration of the user-equilibrium and system-optimum solvers the path flows are non-negative and add up to the demand of each pair and departure interval (over all intervals when departure times are chosen), on valid, distinct paths. "
         "Each loading releases those flows; the reported gap and total travel time are those of the flows and of the travel times of that loading; the next flows follow the solver's step rule towards the cheapest path. "
         "With departure-time choice the disutility adds the penalties of arriving early or late.",
         ["inputs", "histories"], "all networks, demands, solver methods, step rules and iteration counts",
         "No test runs the solvers.",
         ["src/due.cpp", "src/dso.cpp", "macposts/_ext/dta.cpp"],
         [("flow updates", "src/due.cpp MNM_Due_Msa::update_path_table"), ("gradient projection", "src/due.cpp update_path_table_gp_fixed_departure_time_choice"), ("gap", "src/due.cpp compute_merit_function"), ("system optimum", "src/dso.cpp")],
         "offline checker replays every iteration from the recorded path tables and cumulative curves of a run", "random networks, 1 to 4 iterations", HOOK)
    prop("C16", "No workload touches memory it does not own",
         "Loading networks, running them with any supported model, querying results and destroying the simulators never reads or writes outside live objects, never uses uninitialised values and never has other undefined behaviour. "
         "Simulators that are created, used and destroyed over and over do not accumulate memory.",
         ["inputs", "histories", "configurations"], "all supported workloads and call sequences of the Python interface",
         "Tests run without sanitizers, and wrong accesses mostly stay invisible.",
         ["src/dta.cpp", "src/multiclass.cpp", "src/dlink.cpp", "src/shortest_path.cpp", "src/path.cpp", "src/due.cpp", "src/cc_tree.cpp", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
         [("simulator", "src/dta.cpp"), ("two classes", "src/multiclass.cpp"), ("bindings", "macposts/_ext/mcdta.cpp"), ("trees", "src/shortest_path.cpp")],
         "AddressSanitizer, UndefinedBehaviorSanitizer, container and matrix bounds checks and valgrind memcheck under the workloads of all other checks, plus heap growth over create/destroy cycles", "the workloads of all other checks", None)
    prop("C17", "Generated path sets and covering paths are valid and complete",
         "A generated path set holds, for every demanded pair, exactly the paths longer than the limit that are cheapest (toll plus value of time) on free-flow costs or, in each further round, on the raised costs of the links used so far, once each. "
         "Covering links with paths keeps every path and its flows, adds only flowless shortest routes of demanded pairs through a missing link, and reports correctly which links are on a path. "
         "The path table written can be loaded again.",
         ["inputs", "configurations"], "all networks, demands, tolls, path tables and sets of links",
         "Tests never generate path sets or cover links.",
         ["macposts/_ext/mcdta.cpp", "macposts/_ext/dta.cpp", "src/path.cpp", "src/multiclass.cpp", "src/io.cpp"],
         [("path set", "src/multiclass.cpp build_pathset_multiclass"), ("cover", "macposts/_ext/mcdta.cpp generate_paths_to_cover_registered_links"), ("path table file", "src/io.cpp save_path_table")],
         "offline checker replays the generation with an independent search and checks every added path", "random networks with and without tolls", None)
    prop("C18", "Link attributes and tolls change exactly when the table says",
         "When a table changes length, lanes, speeds, capacities, densities or toll of links at given intervals of a two-class loading, everything before the first change is as without the table, and from the change on the links behave and are priced as links with the new attributes. "
         "A change before any departure gives the same loading as a network built with the new attributes, a change after the end gives the loading without it, and no change loses or duplicates vehicles.",
         ["inputs", "schedules", "histories"], "all networks, tables and change times that the link models allow",
         "Tests have no such table.",
         ["src/multiclass.cpp", "src/io.cpp", "src/dta.cpp"],
         [("apply the table", "src/multiclass.cpp MNM_Link_Factory_Multiclass::update_link_attribute"), ("link models", "src/multiclass.cpp modify_property"), ("read the table", "src/io.cpp")],
         "differential monitor: the log of the loading against the same loading without the table and with a static network; travel time and toll of every link at every interval", "random two-class networks, changes before, during and after the loading", HOOK)
    prop("C19", "A loading runs exactly as long as asked and releases in its window",
         "With a horizon, a loading simulates that many intervals, or until the last departure interval if that is later; without one it stops at the first interval after the departures at which nobody is under way; each interval is simulated once. "
         "Departures take place at the start of the departure intervals from the configured first to the last, and the first one is at interval zero. "
         "Printing progress or deleting the vehicles afterwards does not change results.",
         ["inputs", "configurations"], "all networks, demands, horizons and first departure intervals",
         "Tests use one horizon setting.",
         ["src/dta.cpp", "src/multiclass.cpp", "macposts/_ext/dta.cpp"],
         [("main loop", "src/dta.cpp MNM_Dta::loading"), ("end", "src/dta.cpp MNM_Dta::finished_loading"), ("release", "src/dta.cpp MNM_Dta::load_once")],
         "online monitor of intervals, departures and vehicles under way", "random networks and horizons", HOOK)
    prop("C20", "Travel statistics, queues and waiting times match the vehicles",
         "The reported numbers of released, en-route and finished vehicles and vehicle hours, the series of en-route and queued vehicles, the queue of each link, the mean waiting times at the end of links per class and the spillback flags equal what the vehicles did: every vehicle counts from its departure to its arrival or the end of the loading.",
         ["inputs", "histories"], "all networks, demands, horizons and aggregation intervals",
         "Tests check a few shapes and totals.",
         ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "src/dta.cpp", "src/multiclass.cpp"],
         [("statistics", "macposts/_ext/mcdta.cpp get_travel_stats"), ("series", "src/dta.cpp record_queue_vehicles, record_enroute_vehicles"), ("waiting", "src/multiclass.cpp get_average_waiting_time_at_intersection")],
         "offline checker recomputes every number from the vehicle and queue log of the monitor", "random networks, congested and cut off", HOOK)
    prop("C21", "Emission totals follow from the traffic on the observed links",
         "Fuel, CO2, HC, CO, NOX, miles and hours that are reported for the observed links are the sums, over all intervals, of the documented rates at the speed of the link times the vehicles on it, electric vehicles counting for miles only and trucks by their own factors. "
         "The number of trips is the number of different vehicles that used an observed link.",
         ["inputs", "histories"], "all networks, demands, vehicle labels and sets of observed links",
         "No test computes emissions.",
         ["src/emission.cpp", "src/multiclass.cpp", "src/dlink.cpp"],
         [("rates", "src/emission.cpp"), ("trucks, trips", "src/multiclass.cpp MNM_Cumulative_Emission_Multiclass::update"), ("vehicles on links", "src/dlink.cpp get_link_flow_emission")],
         "offline checker accumulates emissions from the vehicles and travel times in the monitor's log", "random networks, labels and observed links; without vehicles waiting in front of an observed link", HOOK)
    prop("C22", "Result files and silenced output are faithful",
         "The link result file has one row per link and complete period, with the flows of the cumulative curves and free-flow and mean travel times and speeds over evenly spaced entry times. "
         "The vehicle tracking file has, at every sampled interval, one row with the true route position of every tracked vehicle under way, for the pairs, departure times and rate asked for. "
         "Silencing a descriptor drops what is written to it inside the block, and nothing else.",
         ["inputs", "histories"], "all networks, periods, sampling settings and nestings",
         "Tests read no result file.",
         ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "src/multiclass.cpp", "macposts/utils.py"],
         [("link results", "macposts/_ext/mcdta.cpp print_simulation_results"), ("tracking", "src/multiclass.cpp print_vehicle_route_results"), ("silence", "macposts/utils.py silence")],
         "offline checker of the files against the curves and the monitor's vehicle log; random nestings of silence()", "random networks", HOOK)
