def add(prop, HOOK):
    prop("C10", "The network graph answers every query consistently",
         "After any sequence of node and link additions, accepted or refused, the directed graph lists exactly the nodes and links that were added, with their ends, and each node's incoming and outgoing links and distinct neighbours. "
         "Duplicates, self loops and links to unknown nodes are refused without changing the graph. "
         "The graph of a loaded network is the one in its file.",
         ["inputs", "histories"], "all sequences of graph operations and all network files",
         "Tests build three small graphs.",
         ["src/graph.h", "src/graph.cpp", "macposts/graph.py", "macposts/_ext/macposts.cpp", "src/io.cpp"],
         [("container", "src/graph.h"), ("bindings", "macposts/_ext/macposts.cpp")],
         "model-based histories with an audit of every query after every operation, plus ASan on the container", "random histories", None)
    prop("C11", "Time-dependent shortest paths are optimal and consistent",
         "For every node and departure interval the least-cost tree to a destination gives the least cost over all routes when a link's cost is the one at the interval it is entered, travel times are rounded up to intervals, and the last interval lasts forever; unreachable nodes have infinite cost. "
         "The extracted route is a connected one from the node to the destination, and its links' travel times and costs, turning ones included, add up to the reported values. "
         "The cheapest path of a pair after a loading is the cheapest under the loaded travel times, value of time and tolls.",
         ["inputs"], "all networks, travel-time and cost tables, departure intervals and loadings",
         "No test uses these trees.",
         ["src/shortest_path.cpp", "macposts/_ext/tdsp.cpp", "macposts/_ext/mcdta.cpp", "src/dta_gradient_utls.cpp"],
         [("trees", "src/shortest_path.cpp MNM_TDSP_Tree"), ("bindings", "macposts/_ext/tdsp.cpp"), ("after a loading", "macposts/_ext/mcdta.cpp get_lowest_cost_path")],
         "differential: every tree entry against an independent dynamic program and the extracted route", "random tables and two-class loadings", None)
    prop("C12", "Reported travel times follow from the cumulative curves",
         "The travel time reported for entering a link at an interval is the time until the link's outgoing curve reaches the number that had entered by then (the level just below, where it jumps past), never less than free flow, which is the answer for an empty link; whoever has not left by the end is answered with the last that has. "
         "Times above twenty times free flow are cut off there or reported as infinite, and mean times, speeds, path times and path costs (value of time and tolls, each link at its entry interval) follow from them, per class. "
         "Queries outside the loaded period are refused.",
         ["inputs", "histories"], "all loadings, link types, classes, departure intervals and registered links and paths",
         "Tests look at the shape of these answers.",
         ["src/dta_gradient_utls.cpp", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "src/multiclass.cpp", "src/path.cpp"],
         [("one link", "src/dta_gradient_utls.cpp get_travel_time"), ("cost maps", "macposts/_ext/dta.cpp build_link_cost_map"), ("paths", "src/path.cpp get_path_fftt and src/due.cpp get_tt")],
         "offline checker recomputes every query from the recorded cumulative curves", "random loadings", None)
    prop("C13", "Assignment records say which path flow enters which link when",
         "With pre-trip routing, the assignment records of a link list, for every registered path, departure interval and queried period, exactly the vehicles of that path and departure interval that entered the link in that period, per class; with all paths registered they add up to the link's inflow. "
         "The ratio matrix and the ratio file hold the same flows divided by the given path flows, at the row of the link and period and the column of the path and departure interval. "
         "Links out of origins are not recorded, and periods outside the loading are refused.",
         ["inputs", "histories"], "all pre-trip loadings, registered links and paths, and query periods",
         "Tests do not use these matrices.",
         ["src/cc_tree.cpp", "src/dta_gradient_utls.cpp", "src/multiclass.cpp", "src/dnode.cpp", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
         [("recording", "src/cc_tree.cpp add_flow"), ("records", "src/dta_gradient_utls.cpp add_dar_records"), ("matrices", "macposts/_ext/mcdta.cpp get_complete_car_dar_matrix")],
         "monitor counts entries per path and departure interval; every record and ratio is compared", "random pre-trip loadings", HOOK)
    prop("C14", "Recorded link statistics equal what was on the links",
         "The per-interval statistics files list, for every interval and link, the number of vehicles on the link at the end of the interval and the travel time the link's density implies, and the aggregated files the means over each recording period, per class in two-class loading. "
         "Exactly the configured files are written, with one row per interval or period and one column per link.",
         ["inputs", "configurations"], "all networks, loadings and recording settings",
         "No test reads these files.",
         ["src/statistics.cpp", "src/multiclass.cpp", "src/dlink.cpp"],
         [("single class", "src/statistics.cpp update_record"), ("two classes", "src/multiclass.cpp MNM_Statistics_Lrn_Multiclass"), ("volumes", "src/dlink.cpp get_link_flow")],
         "offline checker recomputes every recorded number from the vehicles the monitor saw on the links", "random loadings and settings", HOOK)
