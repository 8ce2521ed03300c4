def add(prop, HOOK):
    prop("C23", "Multimodal travellers are released, in one place, and arrive",
         "In a multimodal loading cars, trucks, park-and-ride cars, bus passengers and buses are released as the demand of their mode, pair (or line) and interval says, and each is in exactly one place after every interval until it arrives at its own destination. "
         "Each follows its line or a route that is open to it; a park-and-ride car ends at a parking lot and sets free exactly one passenger there, at that moment, who goes on to the traveller's destination; somebody is in a bus exactly while travelling on a link of its line. "
         "The totals reported per mode, and the counts of the simulator and of parking lots after every interval, equal what happened.",
         ["inputs", "configurations", "histories"], "all well-formed multimodal networks, demands of all modes, routing mixes, scalars and random states",
         "Tests load one bundled multimodal network once and look at shapes.",
         ["src/multimodal.cpp", "macposts/_ext/mmdta.cpp"],
         [("release", "src/multimodal.cpp MNM_Origin_Multimodal::release_one_interval"), ("passengers walk, wait, arrive", "src/multimodal.cpp MNM_Walking_Link::evolve, MNM_Destination_Multimodal::receive_passenger"), ("parking lots", "src/multimodal.cpp MNM_Parking_Lot"), ("routing", "src/multimodal.cpp MNM_Routing_PnR_Fixed, MNM_Routing_Bus, MNM_Routing_Multimodal_Hybrid")],
         "online monitor of every vehicle and passenger at every interval; offline checker against demand, lines, routes and counters", "random multimodal networks", HOOK)
    prop("C24", "Buses, stops and walking follow the service rules",
         "A bus never carries more than its capacity, visits the stops of its line in order on the link of the stop, stays for the dwell time (for all buses the scalar makes it stand for), opens its doors only after the lost time, and in every interval at most as many get on and off as boarding and alighting times allow. "
         "Everybody who wants off gets off first, who waited longest gets on first, and no bus that stopped leaves while somebody waits and there is room. "
         "Walking takes the time of the walking link, a park-and-ride car waits for its passenger, and without buses on the road waits and rides last as long as the timetable and the traffic say.",
         ["inputs", "configurations", "histories"], "all multimodal networks, lines, capacities, dwell, lost, boarding and alighting times, scalars and demands",
         "Tests never look at a bus, a stop or a passenger in time.",
         ["src/multimodal.cpp"],
         [("stops on links", "src/multimodal.cpp evolve, board_and_alight"), ("boarding", "src/multimodal.cpp MNM_Veh_Multimodal::board_and_alight"), ("walking", "src/multimodal.cpp MNM_Walking_Link::evolve"), ("scheduled buses", "src/multimodal.cpp MNM_Bus_Link"), ("pickup", "src/multimodal.cpp MNM_Dlink_Pq_Multimodal")],
         "offline checker replays every stay of every bus from the observed passengers and stops", "random multimodal networks, crowded and empty", HOOK)
    prop("C25", "Multimodal records match what the travellers did",
         "After a multimodal loading the cumulative curves of cars, trucks and passengers on driving, walking and bus links and of buses at stops, the inflows and counts derived from them, the travel statistics per mode and the series of travellers under way and in queues all equal what the vehicles and passengers did. "
         "Numbers are in real units (divided by the scalar), answers come in the order the links were registered in, and questions about times outside the loading are refused.",
         ["inputs", "configurations", "histories"], "all multimodal networks, demands, routing mixes, registrations of links, query intervals",
         "Tests look at the shape of a few results on one network.",
         ["src/multimodal.cpp", "macposts/_ext/mmdta.cpp"],
         [("curves", "src/multimodal.cpp MNM_Transit_Link::install_cumulative_curve, MNM_Busstop"), ("getters", "macposts/_ext/mmdta.cpp get_*_cc, get_*_inflow, get_travel_stats, get_enroute_and_queue_*"), ("recorders", "src/multimodal.cpp MNM_Dta_Multimodal::record_enroute_vehicles, record_queue_passengers")],
         "online monitor of every vehicle and passenger; offline checker recomputes every curve and statistic from the log", "random multimodal networks, random registrations and queries", HOOK)
    prop("C26", "Multimodal assignment records say which flow used which link when",
         "For every kind of path (driving, bus, park-and-ride, bus line) and every kind of link, the assignment records give for each path, departure interval, link and arrival interval exactly the flow that departed on that path in that interval and entered that link in that interval, and nothing else. "
         "The share of a driving link reported to lie under a bus link is the part of it between the two stops.",
         ["inputs", "configurations", "histories"], "all multimodal networks with pre-trip routing, all registrations of links and paths, all query intervals",
         "Tests check the shape of the matrices on one network.",
         ["src/multimodal.cpp", "macposts/_ext/mmdta.cpp"],
         [("records", "src/multimodal.cpp MNM_DTA_GRADIENT::add_dar_records_*"), ("curve trees", "src/multimodal.cpp install_cumulative_curve_tree"), ("getters", "macposts/_ext/mmdta.cpp get_*_dar_matrix*, get_links_overlapped_bus_driving")],
         "online monitor of every vehicle and passenger; offline checker rebuilds every matrix from the log", "random multimodal networks, random registrations and queries", HOOK)
    prop("C27", "Multimodal travel times and costs follow from the records",
         "Travel times and speeds of driving, walking and bus links for every mode and moment, single or averaged over an interval, are what the recorded curves say: how long somebody entering then would take, with the wait for the bus where one is needed, and the stated answer where there is none. "
         "A path takes the times of its links one after the other, is as long as its links, and costs time, early or late arrival, tolls, parking and fares at the configured prices. "
         "Answers come in the order of registration and questions about times outside the loading are refused.",
         ["inputs", "configurations", "histories"], "all multimodal networks, demands, prices, registrations of links and paths, query times and intervals",
         "Tests compare shapes and a few numbers of one network.",
         ["src/multimodal.cpp", "macposts/_ext/mmdta.cpp"],
         [("bus times", "src/multimodal.cpp get_travel_time_bus, get_bus_waiting_time"), ("path times and costs", "src/multimodal.cpp MNM_Passenger_Path_Driving::get_travel_cost and siblings"), ("getters", "macposts/_ext/mmdta.cpp get_*_tt*, get_*_speed, get_registered_path_*")],
         "offline checker recomputes every time, distance and cost from the recorded curves and the prices", "random multimodal networks, random registrations and queries", HOOK)
    prop("C28", "Multimodal path sets: connectivity, coverage, lowest-cost paths",
         "Which modes connect a pair, which links the registered paths cover and which travellers' paths are saved is exactly what network and path tables say; paths made to cover further links are real paths of pairs with demand, every link that can be covered is, and existing paths keep their flows. "
         "The lowest-cost path asked for a pair and departure is a valid path of an available mode, known or new as reported, and no path of any available mode costs less at the recorded link times and configured prices.",
         ["inputs", "configurations", "histories"], "all multimodal networks, enabled modes, demands, prices, registrations of links and paths, departure times",
         "Tests never ask for connectivity, coverage or lowest-cost paths.",
         ["src/multimodal.cpp", "src/path.cpp", "macposts/_ext/mmdta.cpp"],
         [("connectivity", "src/multimodal.cpp MNM_MM_Due::check_od_mode_connectivity; macposts/_ext/mmdta.cpp get_od_mode_connectivity"), ("coverage", "macposts/_ext/mmdta.cpp generate_paths_to_cover_registered_links_*"), ("lowest cost", "src/multimodal.cpp MNM_MM_Due::get_best_path_for_single_interval and siblings; macposts/_ext/mmdta.cpp get_lowest_cost_path"), ("saved tables", "src/multimodal.cpp save_passenger_path_table and siblings")],
         "offline checker recomputes reachability and coverage and searches all lowest-cost paths independently", "random multimodal networks, random registrations, prices and departures", HOOK)
    prop("C29", "Multimodal departures split over paths as the shares say",
         "In a multimodal loading the cars, trucks, park-and-ride travellers and bus passengers on pre-trip routes that depart while a column of their share table is in force choose the paths of their pair with the normalised shares of that column. "
         "Paths of share zero get nobody, a path of share one gets everybody, all-zero columns mean equal shares, and the columns change at the configured frequency with the last one staying in force.",
         ["inputs", "configurations", "histories"], "all multimodal networks, demands, share tables, column lengths, random states",
         "Tests load one network and look at no traveller's path.",
         ["src/multimodal.cpp", "src/multiclass.cpp", "src/path.cpp"],
         [("transit shares", "src/multimodal.cpp MNM_Routing_PassengerBusTransit_Fixed::change_choice_portion, register_passenger"), ("park-and-ride shares", "src/multimodal.cpp MNM_Routing_PnR_Fixed::change_choice_portion, register_veh"), ("driving shares", "src/multiclass.cpp MNM_Routing_Biclass_Fixed")],
         "online monitor of every traveller's path; offline checker counts departures per path and column, exact for shares 0 and 1, pooled at 6 standard deviations otherwise", "random multimodal networks with zero, full, mixed, tiny and huge shares", HOOK)
    prop("C30", "Multimodal en-route choice follows the recorded travel times",
         "Whenever an en-route car, truck, park-and-ride car or passenger of a multimodal loading enters a link, that link starts a cheapest way on (time weighted by the value of time, plus tolls on roads) under the travel times recorded at the latest routing update: to the destination, or for a park-and-ride car to a parking lot from which public transport leads on. "
         "The statistics files list for every interval and period the volume and the travel times of every driving link, and for transit links the walking time, the wait, or the time on the road between the stops while buses are still to come.",
         ["inputs", "configurations", "histories"], "all multimodal networks, demands, tolls, routing and recording frequencies",
         "Tests never check a turn of a traveller or a statistics file of a multimodal loading.",
         ["src/multimodal.cpp", "src/multiclass.cpp", "src/shortest_path.cpp"],
         [("routing", "src/multimodal.cpp MNM_Routing_Multimodal_Adaptive"), ("records", "src/multimodal.cpp MNM_Statistics_Lrn_Multimodal; src/multiclass.cpp MNM_Statistics_Lrn_Multiclass"), ("transit times", "src/multimodal.cpp MNM_Bus_Link::get_link_tt, MNM_Walking_Link::get_link_tt")],
         "online monitor of every traveller; offline checker recomputes the files and a shortest-path search at every routing update", "random multimodal networks with tolls, routing and recording frequencies", HOOK)
    prop("C31", "Multimodal equilibrium rounds keep demand and move to cheaper choices",
         "Every round of the multimodal equilibrium splits each pair's and interval's travellers over valid paths of the modes allowed without losing or creating any or going negative, starting evenly, and loads exactly those flows. "
         "The times, costs and disutilities written for every path and the gap written follow from that loading, the configured prices and the flows. "
         "The next round moves travellers of a departure interval from paths in use whose disutility lies above the average of those paths and the best one to those below it, in proportion to the distance from the average, as far as no path loses more than the step size allows.",
         ["inputs", "configurations", "histories"], "all multimodal networks with passenger demand, mode sets, prices, step sizes, fixed or growing path sets, numbers of rounds",
         "Tests never run the multimodal equilibrium.",
         ["src/multimodal.cpp", "src/routing.cpp", "macposts/_ext/mmdta.cpp"],
         [("rounds", "macposts/_ext/mmdta.cpp Mmdta::initialize_mmdue, run_mmdue"), ("flow update", "src/multimodal.cpp MNM_MM_Due::update_path_table_gp_fixed_departure_time_choice"), ("gap", "src/multimodal.cpp MNM_MM_Due::compute_merit_function_fixed_departure_time_choice"), ("loading", "src/multimodal.cpp MNM_MM_Due::run_mmdta, passenger_path_table_to_multimodal_path_table")],
         "online monitor of every release and trip of the loading; offline checker recomputes flows, times, costs, disutilities, gap and step", "random multimodal networks with random prices, step sizes, mode sets; 1, 2 and 3 rounds each", HOOK)
    prop("C32", "Delivery tours visit every stop in order",
         "In a loading with delivery traffic each vehicle of a tour drives from its first origin to its first destination, then appears at the next origin and so on through every pair of its tour in order, a pair visited twice included, and finishes after the last one and never earlier; tours and ordinary trips set out in the numbers asked for. "
         "At every later origin it is held for the configured pick-up time before it drives on, holding up nobody else, and takes a route of that leg's path table with the share in force then. "
         "Curves, the congestion file and the statistics written (released, finished, under way, delivery vehicles, hours) follow from these trips.",
         ["inputs", "configurations", "histories"], "all networks, demands, tours, pick-up times, shares of en-route routing, horizons",
         "Tests never load delivery traffic.",
         ["src/delivery_traffic.cpp", "macposts/_ext/dta.cpp"],
         [("tours", "src/delivery_traffic.cpp MNM_Destination_Delivery::receive, MNM_Veh_Delivery::move_to_next_od"), ("release", "src/delivery_traffic.cpp MNM_Origin_Delivery::release_one_interval"), ("pick-up", "src/delivery_traffic.cpp MNM_Dlink_Pq_Delay::clear_incoming_array"), ("inputs", "src/delivery_traffic.cpp MNM_IO_Delivery"), ("results", "macposts/_ext/dta.cpp Dta::run_dnl_delivery_traffic")],
         "online monitor of every vehicle; offline checker splits its links into legs and compares them with the tours, waits and shares", "random networks with random tours, congested and free, drained and cut off", HOOK)
    prop("C33", "Electric vehicles charge at the cheapest station in turn",
         "In a loading with electric vehicles only those that charge on the road visit a station, once per leg, and it is the candidate of their origin-destination pair that made the trip cheapest (recorded travel times, waiting, charging and price weighted by ten) when they set out; every other turn follows the path table or a cheapest way on. "
         "A station serves vehicles in order of arrival, each at the slot with the shortest queue and for the charging time, and lets none go earlier or later. "
         "Shares of electric and charging vehicles, curves, the waiting and charging files and the statistics written follow from these trips.",
         ["inputs", "configurations", "histories"], "all networks, stations, slots, charging times, ranges, electric shares, tolls, tours, horizons",
         "Tests never load electric vehicles.",
         ["src/ev_traffic.cpp", "macposts/_ext/dta.cpp"],
         [("stations", "src/ev_traffic.cpp MNM_Charging_Station::evolve"), ("assignment", "src/ev_traffic.cpp MNM_Routing_Adaptive_With_POIs::update_best_POI, update_routing"), ("release", "src/ev_traffic.cpp MNM_Origin_EV"), ("inputs", "src/ev_traffic.cpp MNM_IO_EV"), ("results", "macposts/_ext/dta.cpp Dta::run_dnl_electrified_traffic")],
         "online monitor of every vehicle; offline checker replays each vehicle, simulates every station's slots from its arrivals and recomputes files and best stations", "random networks with stations, ranges, tolls, tours and shares of electric and charging vehicles", HOOK)
