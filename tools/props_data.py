prop("C01", "Graph container stores and reports exactly the links that were added",
     "After any sequence of node and link additions, every lookup, enumeration, endpoint query, per-node connection list and neighbour set reports exactly the nodes and links that were accepted, with their ids and payloads, once each. A duplicate node or link id, a self-loop, or a link from or to an unknown node is rejected with an error and leaves the graph unchanged.",
     ["inputs", "histories"], "every sequence of additions with arbitrary endpoints, ids and payloads, directed and undirected",
     "tests/test_graph.py builds a few fixed graphs; it never sees parallel links, stars with several distinct neighbours in both directions, or every order of rejected and accepted additions.",
     ["src/graph.h"], ["macposts::graph::Graph::add_node", "macposts::graph::Graph::add_link", "macposts::graph::Graph::connections", "macposts::graph::Graph::neighbors", "macposts::graph::Graph::get_endpoints"],
     "Symbolic endpoints, ids and payloads; the container's answers are compared with a reference list.")
prop("C02", "Static shortest-path trees are optimal and mark unreachable nodes",
     "For every network and every non-negative link cost, following the returned next-link tree from any node leads to the destination over existing links at a cost no larger than that of any other route, and reported distances equal that cost. A node that cannot reach the destination has next link -1 whatever the output held before the call; all provided algorithms agree on this.",
     ["inputs", "configurations"], "all link costs, stale output maps and topologies",
     "No test calls the static searches directly; integration tests run one network with one cost pattern, so ties, parallel links, unreachable nodes and reuse of output maps are never seen.",
     ["src/shortest_path.cpp"], ["MNM_Shortest_Path::all_to_one_Dijkstra", "MNM_Shortest_Path::all_to_one_FIFO", "MNM_Shortest_Path::all_to_one_LIFO"],
     "Symbolic link costs; tree cost compared with every simple path.")
prop("C03", "Time-dependent shortest paths are optimal for every departure time",
     "For every time-varying, possibly non-FIFO link travel time and cost, the computed tree gives for each node and departure interval the least cost to the destination (travel time decides arrival, cost is accumulated; beyond the horizon the last interval's values apply), and following the tree yields a connected route with exactly that cost. Nodes that cannot reach the destination are marked as such, and the FIFO test answers yes exactly when no link lets a later departure arrive earlier.",
     ["inputs", "configurations"], "all link travel times and costs per interval, all departure intervals, both tree representations",
     "Integration tests run one network with one loading; the tree is never compared with an independent optimum, and non-FIFO or unreachable cases do not occur.",
     ["src/shortest_path.cpp", "src/shortest_path.h"], ["MNM_TDSP_Tree::update_tree", "MNM_TDSP_Tree::get_tdsp", "MNM_TDSP_Tree::get_distance_to_destination", "MNM_Shortest_Path::is_FIFO"],
     "Symbolic travel times and costs per interval; labels compared with a Bellman recursion and with every route.")
prop("C04", "Generated routes and route sets are valid, loop-free and without duplicates",
     "Every route the library generates from a shortest-path tree runs over existing links from its origin to its destination, removing loops keeps both ends and visits no node twice, and a route's travel time is the sum over its links. A route set contains every distinct route once, membership tests agree with its contents, probabilities are non-negative and sum to one after normalisation, and lookups return the very route asked for.",
     ["inputs", "histories"], "all walks, link costs, flows and buffers within the bounds",
     "The example networks have a handful of fixed routes; loops, duplicate detection, zero total flow and missing origin-destination pairs are never exercised.",
     ["src/path.cpp", "src/path.h"], ["MNM_Path::eliminate_cycles", "MNM_Pathset::normalize_p", "MNM_Pathset::is_in", "MNM::extract_path", "MNM::build_pathset", "MNM::build_shortest_pathset", "MNM::get_path_tt"],
     "Symbolic walks, costs and flows; results compared with reference computations.")
prop("C05", "Cumulative curves are exact, monotone, invertible step functions",
     "A cumulative curve built by any sequence of increments reports at every time exactly the flow recorded up to then, never decreases, and rejects an increment that goes back in time. Linear interpolation meets the recorded values. Its inverse returns the first record time at which a count is reached (rounding up), or the start of the last level not above the count (rounding down), and -1 when the count is never reached or was there from the start. Shrinking keeps the most recent records.",
     ["inputs", "histories"], "all sequences of records and all query times and values, with and without rounding",
     "tests/test_cc.py checks a few concrete queries; queries past the ends, between records, repeated times and shrinking are sampled at most once.",
     ["src/dlink.cpp", "src/dlink.h"], ["MNM_Cumulative_Curve::add_record", "MNM_Cumulative_Curve::add_increment", "MNM_Cumulative_Curve::get_result", "MNM_Cumulative_Curve::get_approximated_result", "MNM_Cumulative_Curve::get_time", "MNM_Cumulative_Curve::shrink"],
     "Symbolic record times, values and queries; compared with a reference curve.")
prop("C06", "Experienced link and route travel times follow from the cumulative curves",
     "The travel time reported for a link and an arrival time is never below its free-flow time and never longer than the last vehicle of that arrival interval needed, equals its exit minus entry time when it can be resolved, is free flow when nobody has entered or left, and is taken at the last valid time when that vehicle has not left yet. Route travel time and cost chain the link values at the successive arrival intervals, and in/outflows of a window equal the difference of curve values.",
     ["inputs", "histories"], "all arrival and departure curves with departures after arrivals, all query times and windows",
     "Tests compare one simulated run; vehicles still on the link, empty curves, flat segments and end-of-horizon queries do not occur there.",
     ["src/dta_gradient_utls.cpp", "src/dlink.cpp"], ["MNM_DTA_GRADIENT::get_travel_time", "MNM_DTA_GRADIENT::get_travel_time_from_cc", "MNM_DTA_GRADIENT::get_travel_time_robust", "MNM_DTA_GRADIENT::get_path_travel_time", "MNM_DTA_GRADIENT::get_link_inflow", "MNM_DTA_GRADIENT::get_link_outflow", "MNM_DTA_GRADIENT::get_last_valid_time"],
     "Symbolic curves and query times; compared with an independent inverse.")
prop("C07", "Assignment-ratio matrix accounts for exactly the recorded path flow",
     "Each entry of the dynamic assignment ratio is the share of a path's departing flow in an interval that enters a link in an interval, as recorded in the link's per-path curves divided by that path's demand. Entries are emitted once each, only for recorded paths, links and intervals, and the record list and the sparse matrix (row = link and interval, column = path and departure interval) agree.",
     ["inputs", "histories"], "all recorded flows, demands and interval layouts within the bounds",
     "The examples only check that the matrix can be produced for one simulation.",
     ["src/dta_gradient_utls.cpp"], ["MNM_DTA_GRADIENT::add_dar_records", "MNM_DTA_GRADIENT::add_dar_records_eigen"],
     "Symbolic recorded flows and demands; matrix entries compared with a reference.")
prop("C08", "Single-class links conserve vehicles, keep order and report true volume",
     "For every link model and every sequence of arrivals within the reported supply and departures, no vehicle is lost, duplicated or overtakes another; arrivals within the supply are accepted; the reported volume, in total and by vehicle label, equals vehicles entered minus vehicles left after every interval; and when the exit is free every vehicle eventually gets through.",
     ["inputs", "histories", "configurations"], "all arrival and departure sequences, all outcomes of random rounding",
     "Whole-network runs follow one demand with one seed and check totals at most; partly blocked exits, vehicles waiting at the exit and fractional capacities in combination are not covered.",
     ["src/dlink.cpp"], ["MNM_Dlink_Ctm::evolve", "MNM_Dlink_Ctm::get_link_flow", "MNM_Dlink_Pq::evolve", "MNM_Dlink_Lq::evolve", "MNM_Dlink_Ltm::evolve", "MNM_Dlink::clear_incoming_array"],
     "Symbolic arrivals, departures and rounding; ten link parameterisations.")
prop("C09", "Link supply, travel times and recorded curves obey the link model",
     "For every single-class link model and history: the reported supply is never negative nor above capacity, admitting up to it never exceeds the storage, no vehicle reaches the exit before the free-flow time, and arrivals and departures appear once each in the cumulative curves one interval later. The travel time used for routing is that of the current volume on the triangular diagram: free flow up to critical density, then growing with density and never below free flow, at most the cost cap when jammed.",
     ["inputs", "histories", "configurations"], "all arrival and departure sequences within the supply, all parameterisations listed, all outcomes of random rounding",
     "Whole-network runs follow a single demand; supply near jam density, very short links, first arrivals and densities above capacity are never compared with the model.",
     ["src/dlink.cpp", "src/dlink.h"], ["MNM_Dlink::get_link_supply", "MNM_Dlink_Ctm::get_link_supply", "MNM_Dlink_Lq::get_link_supply", "MNM_Dlink_Ltm::get_link_supply", "MNM_Dlink_Pq::get_link_supply", "MNM_Dlink::get_link_freeflow_tt_loading", "MNM_Dlink_Ctm::get_link_tt_from_flow", "MNM_Dlink_Pq::get_link_tt_from_flow"],
     "Symbolic arrivals, departures, rounding and density; compared with the model's equations.")
prop("C10", "Junctions and origin nodes move vehicles without loss and within supply",
     "In every loading interval each junction moves vehicles only from the exit of an incoming link to the link each vehicle wants next, in arrival order per incoming link and turn, never more than the outgoing link's supply rounded to whole vehicles, everyone when supplies suffice and (up to rounding) as many as fit when they are scarce; nobody is lost or duplicated and each crossing is recorded once in the curves. An origin node loads waiting vehicles on their first link first come first served within its supply.",
     ["inputs", "histories", "configurations"], "all numbers of waiting vehicles, their next links, supplies of the outgoing links and outcomes of random rounding",
     "Network runs see one demand and mostly uncongested junctions; merges with scarce supply, diverging queues and blocked turns are rare and unchecked.",
     ["src/dnode.cpp", "src/dnode.h"], ["MNM_Dnode_FWJ::compute_flow", "MNM_Dnode_GRJ::compute_flow", "MNM_Dnode_Inout::prepare_supplyANDdemand", "MNM_Dnode_Inout::round_flow_to_vehicle", "MNM_Dnode_Inout::move_vehicle", "MNM_DMOND::evolve"],
     "Symbolic queues, turns, supplies and rounding for merge, diverge and 2x2 junctions; origin nodes with point-queue connectors.")
prop("C11", "Origins release exactly the demanded vehicles with the right attributes",
     "In every assignment interval an origin releases for each destination the scaled demand rounded up or down to whole vehicles, nothing before the first or after the last interval, and queues each once at its origin node with its origin, destination, departure interval and assignment interval. Adaptive drivers occur only with a positive adaptive ratio, static ones only with a ratio below one, a destination's own ratio applying to that destination alone, and labels follow the label ratios.",
     ["inputs", "configurations"], "all demands, flow scalars, release frequencies, adaptive and label ratios and random draws",
     "Tests use a single seed and one demand file and only look at totals, so rounding, per-destination ratios and labels are not checked.",
     ["src/od.cpp"], ["MNM_Origin::release", "MNM_Origin::release_one_interval", "MNM_Origin::generate_label", "MNM_Origin::add_dest_demand"],
     "Symbolic demands, ratios and random draws; released vehicles compared with the demand.")
prop("C12", "Arrivals are accepted once and vehicle accounting balances at all times",
     "A destination node takes over every vehicle that reached the end of its incoming links, the destination finishes each exactly once with the current interval as finish time, and rejects a vehicle bound elsewhere. At every moment the vehicles created equal those finished plus those en route, the vehicle map holds exactly the remaining ones, and total travel time is the sum of the finished trips' durations.",
     ["inputs", "histories"], "all arrival sequences, numbers of vehicles and creation/finish/removal histories",
     "Simulations in the tests end with everybody arrived; wrong destinations, unknown vehicles and intermediate accounting are not examined.",
     ["src/dnode.cpp", "src/od.cpp", "src/factory.cpp"], ["MNM_DMDND::evolve", "MNM_Destination::receive", "MNM_Veh_Factory::make_veh", "MNM_Veh_Factory::remove_finished_veh"],
     "Symbolic arrivals and lifetimes; counters compared with a reference.")
prop("C13", "Drivers follow their chosen route, and adaptive drivers the cheapest one",
     "A route-following driver is assigned at departure a route between its origin and destination, chosen in proportion to the shares of its class and departure interval (a route without share is not chosen when another has one), and then visits exactly the links of that route in order, also when held up, until the destination. An adaptive driver is always directed to a link that starts a least-cost way to its destination under the travel times and tolls at the last re-routing time, weighted by the value of time. Recorded interval averages are the mean of the observed values.",
     ["inputs", "histories", "configurations"], "all route shares, random draws, delays, link travel times, tolls and re-routing periods within the bounds",
     "Tests run one network with one seed and look at totals; the links an individual driver takes are never compared with its route or with the cheapest one.",
     ["src/routing.cpp", "src/statistics.cpp"], ["MNM_Routing_Fixed::update_routing", "MNM_Routing_Fixed::register_veh", "MNM_Routing_Adaptive::update_routing", "MNM_Routing_Hybrid::update_routing", "MNM_Routing_Biclass_Fixed::update_routing", "MNM_Statistics::update_record"],
     "Symbolic random draws, travel times and tolls; vehicles moved through a small network and compared with the route sets.")
prop("C14", "Input files are read faithfully and malformed or truncated ones rejected",
     "For every network, demand, route, toll, cost, label and tracking file, what is stored afterwards equals what the file says: each record once, under the right id, with every value unchanged up to the documented unit conversion (miles, mph, vehicles per hour and per mile), whatever comments, blank lines and extra blanks the format allows. A file that ends before the announced number of records, has too few fields, an unknown type, or a route over nodes without a link is rejected with an error instead of being accepted or looping.",
     ["inputs", "configurations"], "all field values and file layouts within the bounds",
     "The bundled examples are well-formed, with one layout and one set of values each; truncated, commented or malformed files never occur.",
     ["src/io.cpp", "src/multiclass.cpp"], ["MNM_IO::build_node_factory", "MNM_IO::build_link_factory", "MNM_IO::build_od_factory", "MNM_IO::build_graph", "MNM_IO::build_demand", "MNM_IO::build_td_adaptive_ratio", "MNM_IO::build_link_toll", "MNM_IO::load_path_table", "MNM_IO::read_td_link_cost", "MNM_IO::read_td_node_cost"],
     "Files written with symbolic field values are parsed by the real readers; stored values compared with the fields.")
prop("C15", "Two-class links conserve cars and trucks and obey the two-class model",
     "For every car/truck link model and every sequence of arrivals within the reported supply and departures, no car or truck is lost, duplicated or changed, vehicles of a class leave in the order they entered, arrivals are accepted, and the reported volumes, per class and per vehicle label, equal entered minus left. Nobody is faster than its class's free-flow time; supply and the flow between cells follow the two-class fundamental diagram (perceived densities), and the travel time of a class for a given volume is free flow up to critical density, never below it, then grows, up to the cap when jammed.",
     ["inputs", "histories", "configurations"], "all arrival orders and departures, all states of a link or of two adjacent cells within the bounds, all outcomes of random rounding and random exit order, also after a change of capacity",
     "Network tests run one demand; mixed queues, blocked exits with both classes, labels and densities above critical are never compared with the model.",
     ["src/multiclass.cpp", "src/multiclass.h"], ["MNM_Dlink_Ctm_Multiclass::evolve", "MNM_Dlink_Ctm_Multiclass::move_last_cell", "MNM_Dlink_Ctm_Multiclass::get_link_supply", "MNM_Dlink_Ctm_Multiclass::Ctm_Cell_Multiclass::update_perceived_density", "MNM_Dlink_Lq_Multiclass::evolve", "MNM_Dlink_Lq_Multiclass::update_perceived_density", "MNM_Dlink_Pq_Multiclass::evolve", "MNM_Dlink_Ctm_Multiclass::get_link_flow_car", "MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_truck"],
     "Symbolic arrivals, departures, states and rounding for seven two-class link parameterisations; compared with the model's equations.")
prop("C16", "Two-class junctions and trip ends move and count each vehicle once",
     "A car/truck junction moves vehicles only to the link each wants next, first come first served per turn, within the outgoing supply (a truck counting as its passenger-car equivalent, up to one vehicle of rounding), everyone when supply suffices; an origin node loads waiting vehicles in order within the supply and a destination node takes every arrival. Origins release per class and destination the scaled demand rounded to whole vehicles with the right class, driver type and label. Entries and departures are recorded by class once each, and created, finished and en-route counts and travel times balance per class.",
     ["inputs", "histories", "configurations"], "all class mixes, turns, queue lengths, supplies, demands, adaptive and label ratios and random draws within the bounds",
     "Network tests look at totals of one seeded run; scarce supply shared by cars and trucks, per-class ratios, labels and per-class accounting are not compared with anything.",
     ["src/multiclass.cpp"], ["MNM_Dnode_Inout_Multiclass::prepare_supplyANDdemand", "MNM_Dnode_Inout_Multiclass::move_vehicle", "MNM_Dnode_Inout_Multiclass::record_cumulative_curve", "MNM_DMOND_Multiclass::evolve", "MNM_DMDND_Multiclass::evolve", "MNM_Origin_Multiclass::release_one_interval", "MNM_Origin_Multiclass::release_one_interval_biclass", "MNM_Veh_Factory_Multiclass::make_veh_multiclass", "MNM_Veh_Factory_Multiclass::remove_finished_veh"],
     "Symbolic queues, classes, turns, supplies, demands and draws; compared with the individual vehicles.")
prop("C17", "A network loading conserves all vehicles until everyone has arrived",
     "For every demand, routing type and link model, after every loading interval of a simulation built from input files: the vehicles released so far equal the demand of the assignment intervals started (rounded to whole vehicles), created equals finished plus en route, each vehicle en route is on exactly one link or waiting at its origin, each link's volume equals the vehicles on it and the difference of its cumulative curves, and at every junction what leaves the incoming links enters the outgoing ones, per class for cars and trucks. Loading covers all assignment intervals, or the requested number if larger, and otherwise ends only when everyone has arrived. A network is accepted exactly when its counts match the configuration, origins only have outgoing and destinations only incoming links, and every destination can be reached.",
     ["inputs", "histories", "configurations"], "all demands, random draws, routing types, link models, flow scalars and starting intervals within the bounds",
     "Integration tests run two networks with one demand each and check totals or mere completion; conservation is not examined per interval, link and class.",
     ["src/dta.cpp", "src/multiclass.cpp"], ["MNM_Dta::load_once", "MNM_Dta::loading", "MNM_Dta::finished_loading", "MNM_Dta::hook_up_node_and_link", "MNM_Dta::is_ok", "MNM_Dta::check_origin_destination_connectivity", "MNM_Dta_Multiclass::initialize", "MNM_Dta_Multiclass::pre_loading"],
     "Whole simulations of a five-link network built by the real readers, with symbolic demand and random draws, for one and two classes.")

prop("C18", "Equilibrium route-flow updates keep the demand and move flow to better routes",
     "Initial route flows split the demand of every interval evenly. Every update of the user-equilibrium (method of successive averages with or without departure-time choice, gradient projection) keeps all route flows non-negative and the demand of the OD pair (of each interval when departure times are fixed) unchanged, lists every route once, and moves flow only towards the cheapest route: other routes and departures give up their share by the step size; equal routes exchange nothing. The demand handed to the loader is the sum of the route flows. Disutility charges travel time, early and late arrival; the equilibrium gap is the excess disutility of all travellers, never negative and zero exactly at equilibrium; link and route costs are those of the intervals in which links are reached. System-optimum marginal cost is free-flow time plus the time until the queue met after saturated inflow has cleared.",
     ["inputs"], "all route flows, costs, tolls, disutilities, congestion patterns and inflows within the bounds",
     "No test runs the equilibrium or system-optimum solvers at all.",
     ["src/due.cpp", "src/dso.cpp"], ["MNM_Due_Msa::init_path_flow", "MNM_Due_Msa::update_path_table", "MNM_Due_Msa::update_path_table_fixed_departure_time_choice", "MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice", "MNM_Due_Msa::get_best_route", "MNM_Due::update_demand_from_path_table", "MNM_Due::compute_merit_function", "MNM_Due::compute_merit_function_fixed_departure_time_choice", "MNM_Due::get_disutility", "MNM_Due::build_link_cost_map", "MNM_Due::update_path_table_cost", "MNM_Dso::get_link_marginal_cost", "MNM_Dso::build_link_cost_map"],
     "Symbolic route flows, tolls, disutilities and inflows on a two-route network read from files; compared with routes enumerated by hand and the defining formulas.")

prop("C19", "Recorded link statistics and emission totals describe what happened on the links",
     "With recording of n-interval averages, the loading-interval record of every link is its current volume and travel time (per class, each asked for its own class), and every n intervals the record is the average since the last record; the output files exist exactly as configured and list every interval in header order. Fuel, CO2, HC, CO and NOX totals grow by emission rate at the (clamped) speed times distance times combustion vehicles, with the truck factors of the speed class, and vehicle miles and hours by all vehicles; the electric ones are told apart by the label of their class; totals restart at the configured frequency; every vehicle seen on a registered link is one trip, whatever earlier vehicles were stored in its place.",
     ["inputs", "histories"], "all volumes, times and vehicle counts per interval within the bounds, for every averaging length, switch setting, speed class and vehicle placement",
     "Tests run a simulation with recording on and never look at the recorded numbers or emissions.",
     ["src/statistics.cpp", "src/emission.cpp", "src/multiclass.cpp"], ["MNM_Statistics_Lrn::update_record", "MNM_Statistics_Lrn_Multiclass::update_record", "MNM_Statistics::record_loading_interval_condition", "MNM_Statistics::record_record_interval_condition", "MNM_Statistics_Lrn::init_record_value", "MNM_Cumulative_Emission::update", "MNM_Cumulative_Emission_Multiclass::update", "MNM_Cumulative_Emission::calculate_fuel_rate"],
     "Symbolic volumes, travel times and vehicle counts fed to the recorders through stand-in links; compared with running averages and the published rate polynomials; file text compared for concrete values.")

prop("C20", "The Python interface reports links, routes and ratios as simulated",
     "Querying a loaded single-class simulation from Python gives, for every registered link or route and every valid interval or window, in the order asked: inflow equal to the vehicles entering in the window, travel times in seconds as the cumulative curves (or the fundamental diagram) give them, capped as documented, route times and costs as the sum over links each entered when the previous one is left, tolls included, and time-varying shortest routes whose listed links connect origin to destination, whose totals are those of the listed links, and that no other route beats. Dynamic assignment ratios, as records, matrix or file, state for each link, window, route and departure exactly the share of route flow entering. Lists with unknown or duplicate entries, missing curves, mismatched arrays and windows outside the loading are rejected. After generating covering routes every given link lies on a connected route of an OD pair.",
     ["inputs", "histories"], "all entry and exit times, windows, link times, costs, tolls, flows and registration orders within the bounds",
     "Tests of the interface check shapes and a few values of one network with one seeded demand.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/tdsp.cpp"], ["Dta::register_links", "Dta::register_paths", "Dta::get_link_inflow", "Dta::get_link_tt", "Dta::get_link_tt_robust", "Dta::get_path_tt", "Dta::get_registered_path_tt", "Dta::build_link_cost_map", "Dta::get_link_queue_dissipated_time", "Dta::get_dar_matrix", "Dta::get_complete_dar_matrix", "Dta::save_dar_matrix", "Dta::get_travel_stats", "Dta::generate_paths_to_cover_registered_links", "Tdsp::read_td_cost_py", "Tdsp::build_tdsp_tree", "Tdsp::extract_tdsp"],
     "The binding classes are compiled against a stand-in for pybind11's array types; symbolic entry times, flows, costs and windows; compared with the individual vehicles and with routes enumerated by hand.")

prop("C21", "The two-class Python interface reports cars and trucks as simulated",
     "Querying a loaded car/truck simulation from Python gives, per class and in the order asked, for every registered link or route and every valid interval or window: inflow equal to the vehicles of the class entering in the window, travel times, free-flow times and averages in seconds and speeds in mph as the class's cumulative curves give them, capped as documented, route times and costs as the sum over links each entered when the previous one is left with the tolls of the class, least-cost routes that no other route beats, waiting times, queues and en-route counts per vehicle and interval as recorded, and total vehicles and vehicle hours of all released vehicles. Dynamic assignment ratios, as records, matrix or file, state for each link, window, route and departure exactly the share of the class's route flow entering. Lists with unknown or duplicate entries, missing curves, mismatched arrays and windows outside the loading are rejected. After generating covering routes every given link lies on a connected route of an OD pair.",
     ["inputs", "histories"], "all entry and exit times, windows, link times, tolls, flows, recorded counts and registration orders within the bounds",
     "Tests of the interface check shapes and a few values of one network with one seeded demand.",
     ["macposts/_ext/mcdta.cpp", "src/multiclass.cpp"], ["Mcdta::register_links", "Mcdta::get_car_link_tt", "Mcdta::get_truck_link_tt", "Mcdta::get_car_link_tt_robust", "Mcdta::get_truck_link_tt_robust", "Mcdta::get_car_link_speed", "Mcdta::get_truck_link_speed", "Mcdta::get_link_car_inflow", "Mcdta::get_link_truck_inflow", "Mcdta::get_path_tt_car", "Mcdta::get_path_tt_truck", "Mcdta::get_registered_path_tt_car", "Mcdta::get_registered_path_tt_truck", "Mcdta::build_link_cost_map", "Mcdta::get_link_queue_dissipated_time", "Mcdta::get_lowest_cost_path", "Mcdta::get_car_dar_matrix", "Mcdta::get_truck_dar_matrix", "Mcdta::get_complete_car_dar_matrix", "Mcdta::get_complete_truck_dar_matrix", "Mcdta::save_car_dar_matrix", "Mcdta::save_truck_dar_matrix", "Mcdta::get_travel_stats", "Mcdta::generate_paths_to_cover_registered_links", "Mcdta::generate_paths_to_cover_links", "MNM_DTA_GRADIENT::get_travel_time_car", "MNM_DTA_GRADIENT::get_travel_time_truck"],
     "The binding class is compiled against a stand-in for pybind11's array types; symbolic entry times, flows, tolls and windows per class; compared with the individual vehicles and routes.")

prop("C22", "Saved route tables and curve dumps reproduce what is in memory",
     "Writing a route table to disk and reading it back yields the same routes under the same origin-destination pairs, in the same order per pair, with the same links and with the same flow in every buffer column; the accompanying travel time and disutility files have one line per route, in the order of the route table, with the recorded values. Dumping cumulative curves writes every record of every installed curve once, under its link and direction, and nothing for links without curves. Length, free-flow time and current travel time of a route are the sums over its links.",
     ["inputs"], "all flows, times, disutilities, counts, link lengths and speeds within the bounds",
     "Tests never write a route table or read one they wrote; they load fixed files.",
     ["src/path.cpp", "src/io.cpp", "src/dlink.cpp"], ["MNM::save_path_table", "MNM_IO::load_path_table", "MNM_IO::dump_cumulative_curve", "MNM_Path::node_vec_to_string", "MNM_Path::buffer_to_string", "MNM_Path::time_vec_to_string", "MNM_Path::disutility_vec_to_string", "MNM_Path::get_path_length", "MNM_Path::get_path_fftt", "MNM_Path::get_path_tt", "MNM_Cumulative_Curve::to_string"],
     "Symbolic flows and times are written by the real writers (numerals stand for solver variables) and read back by the real readers; equality is decided for all values.")

prop("C23", "Buses, stops and walks carry each passenger once and within capacity",
     "In a multimodal simulation read from files, every car, truck, bus and park-and-ride car of the demand is released once, is at every moment at the origin or on exactly one link of its route, and arrives; link volumes and per-class curves agree with the vehicles on the links (buses are not trucks in the curves). Every passenger - from the demand or created by one park-and-ride car reaching its lot - is at every moment in exactly one place, moves along its route only, spends the walking time on each walk, boards only a stopped bus of its route with free capacity, and alights where its route leaves the bus; riders who stay on remain on board, a bus never holds more than its capacity, boarding and alighting per step stay within their rates, and the dwell lasts at least the minimum. Passenger curves, en-route, queue and finished counts, total times and lot occupancy state exactly that.",
     ["inputs", "histories"], "all demands, capacities, boarding and alighting rates, dwell times, passengers on board and waiting, and random draws within the bounds",
     "The test network runs one multimodal loading with one seed and looks at totals only.",
     ["src/multimodal.cpp"], ["MNM_Dta_Multimodal::load_once", "MNM_Busstop_Virtual::hold_bus", "MNM_Busstop_Virtual::receive_bus", "MNM_Busstop_Virtual::release_bus", "MNM_Veh_Multimodal::board_and_alight", "MNM_Walking_Link::evolve", "MNM_Bus_Link::evolve", "MNM_Parking_Lot::evolve", "MNM_Passenger_Factory::remove_finished_passenger", "MNM_Origin_Multimodal::release_one_interval", "MNM_Origin_Multimodal::release_one_interval_biclass", "MNM_Origin_Multimodal::release_one_interval_passenger", "MNM_Destination_Multimodal::receive_passenger", "MNM_Dlink_Pq_Multimodal::evolve", "MNM_Dlink_Ctm_Multimodal::evolve", "MNM_IO_Multimodal::build_walkinglink_factory", "MNM_IO_Multimodal::build_buslink_factory"],
     "One bus at one stop with symbolic capacity, rates, dwell and riders, step by step; and whole days of a small network read from files with every mix of demand, compared step by step with a ledger of where everyone is.")
