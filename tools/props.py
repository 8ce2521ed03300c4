"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, hook=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, hook=hook, observe=observe))


HOOK = "per-interval callback behind MACPOSTS_VERIFY (src/dta.cpp), read by mon/vmon.cpp"

prop("C01", "Single-class vehicles are conserved",
     "In a single-class loading every released vehicle is, after every interval, either waiting at its origin, on exactly one link, or counted as finished, and never appears twice or disappears. "
     "At every junction the flow in equals the flow out at every tick, and the released, en-route and finished totals that are reported always balance. "
     "A loading without a fixed horizon ends with every vehicle at its destination.",
     ["inputs", "configurations", "histories"], "all well-formed networks, demands, routing types, link and junction models and random states",
     "The tests load two bundled networks and compare a few totals; they see neither other link and junction models nor any interval in between.",
     ["src/dta.cpp", "src/dnode.cpp", "src/dlink.cpp", "src/od.cpp", "src/factory.cpp"],
     [("move vehicles between links", "src/dnode.cpp move_vehicle"), ("link queues and cells", "src/dlink.cpp evolve / clear_incoming_array"), ("receive at destinations", "src/od.cpp MNM_Destination::receive")],
     "online monitor of every vehicle at every interval + conservation checker over the cumulative curves, random networks",
     "held on thousands of random single-class loadings; LTM links excluded by a known finding", HOOK)
prop("C02", "Cars and trucks are conserved separately",
     "In a two-class loading the numbers of cars and of trucks are each conserved at every junction, link and tick, no vehicle changes class, and every released car and truck is waiting, on exactly one link, or finished. "
     "The per-class totals that are reported equal what was released, and a loading without a fixed horizon ends with every vehicle of both classes at its destination.",
     ["inputs", "configurations", "histories"], "all well-formed two-class networks, demands, routing types and random states",
     "The tests check a few totals on one bundled network.",
     ["src/multiclass.cpp", "src/dta.cpp"],
     [("two-class junctions", "src/multiclass.cpp MNM_Dnode_Inout_Multiclass::move_vehicle"), ("two-class links", "src/multiclass.cpp evolve / clear_incoming_array")],
     "online monitor of every vehicle at every interval + per-class conservation checker", "random two-class loadings", HOOK)
prop("C03", "Demand is released exactly as the input says",
     "For every origin, destination, class and departure interval the number of vehicles released equals the demand in the input times the flow scalar, up to the documented random rounding to a whole vehicle, and at the right time. "
     "Departures are never released for pairs or intervals without demand. "
     "The shares of adaptive vehicles (global, or per pair and interval) and of vehicle labels follow the inputs.",
     ["inputs", "configurations"], "all demand tables, interval lengths, scalars, adaptive ratios and label tables",
     "Tests only see totals of the bundled demand; rounding, per-pair timing, ratios and labels are statistical and need many inputs.",
     ["src/od.cpp", "src/multiclass.cpp", "src/dta.cpp", "src/io.cpp"],
     [("release", "src/od.cpp release_one_interval"), ("two-class release", "src/multiclass.cpp release_one_interval"), ("reading demand", "src/io.cpp build_demand")],
     "monitor attributes every released vehicle; counts compared with the demand file; pooled statistical oracle at 6 sd", "random demand tables", HOOK)
prop("C04", "Cumulative curves record exactly what moved",
     "For every link, tick and class the incoming and outgoing cumulative curves equal the number of vehicles (divided by the flow scalar) that have entered and left the link, they start at zero and never decrease, and the outgoing one never exceeds the incoming one. "
     "Every query that exposes them (single-link curves, matrices over registered links, interval inflows, counts at a time) agrees with them, in the order in which links were registered. "
     "Queries for intervals outside the loaded period are refused.",
     ["inputs", "histories"], "all loadings, registered link lists and queried intervals",
     "Tests compare shapes and a few values on bundled networks.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp", "macposts/dta.py", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp"],
     [("record increments", "src/dnode.cpp record_cumulative_curve"), ("curve arithmetic", "src/dlink.cpp MNM_Cumulative_Curve"), ("wrappers", "macposts/dta.py get_in_ccs")],
     "offline checker: curves and queries against the monitor's vehicle log, tick by tick", "random loadings", HOOK)
prop("C05", "Links and junctions respect speed, capacity, storage and order",
     "No vehicle crosses a link faster than its free-flow time allows, no link takes in more vehicles per interval than its capacity and the junction rule permit, and links with limited storage never hold more than their jam density allows. "
     "A junction lets through everything that wants to pass when there is room, and otherwise shares the exit's capacity in proportion to demand and uses it up (a general junction slows all entries by one common factor, the largest that overloads no exit); vehicles on pre-trip routes leave a link in the order they entered it towards the same exit. "
     "A lone vehicle takes exactly the free-flow time on point-queue and cell-transmission links, and saturated links keep discharging near capacity.",
     ["inputs", "configurations", "histories"], "all networks, link models, capacities, demands and random states",
     "Tests never look at the movement of vehicles in time.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
     [("junction flow", "src/dnode.cpp compute_flow / round_flow_to_vehicle"), ("link models", "src/dlink.cpp get_link_supply, evolve"), ("two-class", "src/multiclass.cpp")],
     "trace checker: tick-exact reference model for point-queue networks, bounds for all models, corridor experiments", "random networks and corridors", HOOK)
prop("C06", "Every vehicle drives a connected route to its own destination",
     "Each vehicle starts at its own origin, moves only from a link to one that leaves the node the first one enters, and is taken out only at its own destination. "
     "A vehicle with pre-trip routing drives, link by link, one path of the path table of its origin-destination pair, whatever the order of the table.",
     ["inputs", "configurations", "histories"], "all networks, path tables, demands and random states",
     "Tests never look at individual routes.",
     ["src/routing.cpp", "src/dnode.cpp", "src/path.cpp", "src/io.cpp", "src/od.cpp"],
     [("follow the path", "src/routing.cpp MNM_Routing_Fixed::update_routing"), ("path table input", "src/io.cpp load_path_table")],
     "monitor reconstructs each vehicle's chain of links and compares it with network and path table", "random networks and tables", HOOK)
prop("C07", "Departures split over paths as the interval's shares say",
     "In pre-trip routing the vehicles of a pair that depart while a column of the share table is in force choose its paths with the normalised shares of that column: paths of share zero get nobody, a path of share one gets everybody, and all-zero columns mean equal shares. "
     "Columns change at the configured frequency, the last one stays in force, and in two-class routing with separate shares cars use the first half of the columns and trucks the second.",
     ["inputs", "configurations"], "all share tables, frequencies and demands",
     "A statistical property per interval and pair; tests do not look at path choice.",
     ["src/routing.cpp", "src/path.cpp", "src/dta.cpp"],
     [("switch columns", "src/routing.cpp change_choice_portion"), ("normalise", "src/path.cpp normalize_p"), ("choose", "src/routing.cpp register_veh")],
     "monitor counts departures per path; exact for degenerate shares, pooled 6 sd otherwise", "random share tables", HOOK)
prop("C08", "En-route drivers always take a currently cheapest way on",
     "Whenever an adaptive vehicle enters a link, that link starts a route to its destination of least generalised cost (travel time weighted by the value of time, plus tolls) under the travel times recorded at the latest routing update. "
     "Before anything has been recorded the travel times of the empty network are used.",
     ["inputs", "configurations", "histories"], "all networks, tolls, values of time, update frequencies and congestion states",
     "Tests do not look at routes or tolls.",
     ["src/routing.cpp", "src/shortest_path.cpp", "src/statistics.cpp", "src/io.cpp"],
     [("update trees", "src/routing.cpp MNM_Routing_Adaptive::update_routing"), ("shortest paths", "src/shortest_path.cpp all_to_one_FIFO")],
     "monitor logs link travel times and every turn; independent shortest-path oracle per update", "random congested networks", HOOK)
prop("C09", "The same inputs and random state give the same simulation",
     "Setting the random state and loading the same inputs yields identical vehicles, routes, curves and statistics, in the same process, next to other instances, and in another process. "
     "Different random states lead to different simulations.",
     ["inputs", "configurations", "programs"], "all inputs, random states and memory layouts",
     "Tests compare two loadings in one process on a network where memory layout has no effect.",
     ["src/ults.cpp", "src/od.h", "src/od.cpp", "src/dnode.cpp", "macposts/_ext/macposts.cpp"],
     [("seeding", "src/ults.cpp set_random_state"), ("order of random draws", "src/od.h demand tables")],
     "differential runs under perturbed heaps and in fresh processes, digests of all outputs", "random loadings, 4 runs each", HOOK)


def main():
    import sys
    sys.path.insert(0, os.path.join(V, "tools"))
    for extra in ("props2", "props3", "props4"):
        if os.path.exists(os.path.join(V, "tools", extra + ".py")):
            __import__(extra).add(prop, HOOK)
    have = {f[:-3] for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".py")}
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = p["hook"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    commit = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verify:"], capture_output=True, text=True).stdout.split()
    py = "/opt/macposts-venv/bin/python lib/driver.py %s --tier %s"
    m = dict(version=1, setup_cmd="/opt/macposts-venv/bin/python lib/build.py rel",
             hooks=dict(guard="MACPOSTS_VERIFY", enable="lib/build.py compiles /repo's sources with -DMACPOSTS_VERIFY and links mon/vmon.cpp", source_commits=commit),
             checks=[dict(property=p["id"], quick_cmd=py % (p["id"], "quick"), thorough_cmd=py % (p["id"], "thorough"),
                          technique="runtime monitoring: " + p["technique"], level="exploration", level_note=p["note"]) for p in P if p["id"] in have],
             not_applicable=[dict(property=p["id"], reason="no check built yet") for p in P if p["id"] not in have],
             notes="Every check rebuilds /repo's working tree into /verif/.build (content-addressed) and loads the real Python package on top of it.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
