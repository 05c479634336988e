P = "python/src/"
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=[P + f for f in files], mech=[(a, P + b) for a, b in mech], note=note, observe=list(observe)))


prop("C01", "The mesh of a line follows its polyline exactly",
     "A line built from any list of node positions and any number of divisions per segment has one mesh node at each division point of each segment, "
     "in order from the first to the last given position, and cell vectors and lengths equal to the differences of consecutive nodes. "
     "A line built from a length runs straight along the third axis with equal cells.",
     ["inputs", "configurations"], "all real node coordinates in any direction, all division counts per segment within the bound",
     "the tests use a handful of meshes, almost all straight and uniform", ["mtl.py"],
     [("mesh construction", "mtl.py:MTL.__init__")],
     "all real coordinates; up to 3 segments and 6 cells quick, 5 segments and 12 cells thorough", ["line.u, line.du, line.du_norm"])
prop("C02", "The default time step never exceeds the stability limit",
     "The time step of a newly built line is the shortest cell divided by the fastest propagation velocity of the line, so that the explicit scheme is stable by default, "
     "and a bundle or network of lines uses the smallest of the steps of its members. "
     "The reported phase velocities are the inverse square roots of the eigenvalues of inductance times capacitance.",
     ["inputs", "configurations"], "all positive definite inductance and capacitance values and all cell lengths within the bound",
     "tests compare a few lossless lines; the limit must hold for every mesh and every parameter set", ["mtl.py", "mtln.py"],
     [("default step", "mtl.py:MTL.get_max_timestep"), ("velocities", "mtl.py:MTL.get_phase_velocities"), ("common step", "mtln.py:MTLN.add_bundle")],
     "scalar lines fully symbolic; matrices of up to 3 conductors by eigenvalue certificates; up to 4 cells", ["line.dt, network.dt"])
prop("C03", "Everything in a run advances with the time step in force",
     "Whatever the order in which the step is chosen (before or after building, adding sources, probes, terminations, dispersive elements, bundles or networks), a run advances every "
     "field, terminal, network, dispersive element, source and probe with the one step in force, for exactly as many steps as fit in the final time. "
     "Sources are evaluated at the true time of each step and voltages and currents are recorded at their own staggered times.",
     ["histories", "inputs", "configurations"], "all positive time steps, final times, and orders of the configuration calls within the bound",
     "tests nearly always keep the default step from construction", ["mtl.py", "mtln.py", "networks.py", "dispersive.py", "probes.py"],
     [("run preparation", "mtl.py:MTL.run_until"), ("run preparation", "mtln.py:MTLN.run_until"), ("network terms", "networks.py:Network.compute_v_terms")],
     "symbolic steps and final times up to 3 steps; line, bundle and network", ["line.v, line.i, probe.t, probe.val"])
prop("C04", "Inner nodes and cells obey the discretised telegrapher equations",
     "In every step, for every inner node the change of charge plus the leakage equals the net current entering its dual cell, and for every cell the change of flux plus the resistive drop equals the "
     "voltage difference plus the incident field, with centred time averages and the full capacitance, inductance, resistance and conductance matrices. "
     "This holds for lines and bundles, uniform and non-uniform meshes, any state, any fields.",
     ["inputs", "histories", "configurations"], "all states, all parameter values, all field functions, all steps and times within the size bound",
     "system tests compare a few waveforms with tolerances; they never vary G, full R matrices, non-uniform cells or arbitrary states", ["mtl.py"],
     [("coefficients", "mtl.py:update_lr_terms, update_cg_terms"), ("updates", "mtl.py:advance_voltage, advance_current")],
     "fully symbolic coefficients up to 2 conductors; concrete full matrices with symbolic state up to 3 conductors (4 thorough), 1-4 cells, 1-2 steps", ["line.v, line.i"])
prop("C05", "The ends of a single line are Thevenin equivalents",
     "At each end of a stand-alone line the time-averaged voltage equals the time-averaged source voltage minus the terminal impedance times the current drawn by the line including the terminal half cell "
     "(its capacitance, conductance and incident field). "
     "It holds for every impedance including zero, for each conductor separately, for all accepted ways of giving the impedances and for sources at either end.",
     ["inputs", "histories", "configurations"], "all states, impedances, sources, fields and steps within the size bound",
     "tests use matched or a few resistive ends on uniform meshes", ["mtl.py"],
     [("terminal coefficients", "mtl.py:MTL.compute_terminal_terms"), ("terminal updates", "mtl.py:MTL.advance_left_terminal, advance_right_terminal"), ("impedances", "mtl.py:MTL.init_Zt"), ("sources", "mtl.py:MTL.add_voltage_source")],
     "up to 3 conductors, 3 cells, 3 steps", ["line.v at the first and last node"])
prop("C11", "A dispersive connector adds exactly its impedance to one cell",
     "A lumped element given by a constant, a proportional term and pole-residue pairs adds to the cell it sits on, for its conductor only, the voltage drop obtained by exact convolution of its "
     "impulse response with the piecewise linear current, in every step and from the first one. "
     "Elements on different cells or conductors keep separate histories, and a line keeps the law of its elements when it becomes part of a bundle.",
     ["inputs", "histories", "configurations"], "all states, positions, conductors, model coefficients and currents within the bounds on poles and steps",
     "tests check a few frequency responses with loose tolerances on single elements", ["dispersive.py", "mtl.py"],
     [("recursion coefficients", "dispersive.py:DispersiveConnector.add_dispersive_connector"), ("history", "dispersive.py:Dispersive.update_phi, update_q3_phi_term")],
     "up to 2 real poles or 1 complex pair, 2 conductors, 3 cells, 3 steps", ["line.v, line.i"])
prop("C12", "Transfer impedances couple exactly the stated conductors and directions",
     "A transfer impedance between a conductor of one level and conductors of the adjacent level adds, in each of the stated directions and nowhere else, the voltage per unit length obtained by convolution of "
     "the transfer impedance with the driving current, with the sign that opposes the shield's own drop, on every cell. "
     "A connector's transfer impedance at an end replaces it on the end cell only; an empty one changes nothing.",
     ["inputs", "histories", "configurations"], "all states, levels, conductors, directions and coefficients within the bounds on poles and steps",
     "tests only exercise resistive/inductive transfer impedances, inwards, and end-cell poles", ["dispersive.py", "mtl.py"],
     [("coupling", "dispersive.py:TransferImpedance"), ("update", "mtl.py:MTLD.advance_current")],
     "up to 3 levels, 4 conductors, 1 real pole or complex pair, 3 cells, 2 steps", ["bundle.v, bundle.i"])
prop("C13", "Lumped resistances and conductances act in full and only where placed",
     "Setting a resistance at a point or over a region of a line or bundle makes the series resistance of that conductor, over exactly the cells between the nodes nearest to the region's ends (for a point: the cell after its node, "
     "or the last cell), equal to the given total, spread evenly per unit length. Adding a conductance adds the given total shunt conductance of that conductor over the nodes of the region, spread evenly over the length that belongs to them. "
     "No other cell, node, conductor or coupling changes.",
     ["inputs", "configurations", "histories"], "all regions, points, conductors, resistance and conductance values, states and position formats within the size bound",
     "the only tests of these calls use names that no longer exist", ["mtl.py"],
     [("resistance", "mtl.py:set_resistance_in_region, set_resistance_at_point"), ("conductance", "mtl.py:add_conductance_in_region, add_conductance_at_point")],
     "lines of 1-2 conductors and a 3-conductor bundle, 2-4 cells, every pair of nodes and any position nearest to them; one step from an arbitrary state")
prop("C14", "A localized longitudinal source drives exactly the stretch it spans",
     "A longitudinal field source between two positions of a bundle drives, on its conductor only, every cell with the source's field over the part of the cell that lies between both positions, in full inside, fractionally at both ends and nowhere else, "
     "evaluated half a step before and after each current update. Sources on the same cells add up, and a source of plane-wave type between two nodes is shared equally by the cells between them.",
     ["inputs", "configurations", "histories"], "all positions along straight and bent lines, all source functions, conductors and states within the size bound",
     "one test exercises a source, between nodes", ["mtl.py", "utils.py"],
     [("distribution over cells", "mtl.py:MTLD.add_localized_longitudinal_field"), ("combination of time functions", "utils.py:add_t_functions, multiply")],
     "up to 3 cells, 2 conductors, straight, reversed and cornered lines, both ends anywhere; one step")
prop("C15", "External fields act through their line integrals at the right places and times",
     "An incident field given as a function of position and time drives every cell of the exposed conductors with the difference of its component along the cell between the conductor and the reference, at the middle of the cell, and every node, ends and terminations included, "
     "with the integral of the field from the reference to the conductor. In a bundle only the conductors of the outermost level are exposed; a field restricted to a region acts on the cells and nodes of that region only.",
     ["inputs", "configurations", "histories"], "all polynomial fields up to degree two in position and time, displacements, line directions, regions and states within the size bound",
     "tests use two wave shapes on straight horizontal wires", ["mtl.py", "mtln.py", "networks.py"],
     [("field to sources", "mtl.py:add_external_field"), ("longitudinal projection", "mtl.py:Field.compute_eL_at_segment"), ("terminations", "networks.py:Network.update_fields")],
     "symbolic field coefficients; lines and bundles along z, oblique, cornered; up to 3 cells, 2 exposed conductors; two steps")
prop("C16", "Probes record every step faithfully and nothing else",
     "A voltage probe records, for every step of a run and every conductor, the voltage at the mesh node nearest to its position; a current probe records the current of the cell that follows this node (the last cell at the far end), with its time half a step later. "
     "Frames are in order, one per step, and the last run's frames replace earlier ones without changing records taken out before; positions beyond the line are rejected and positions on it accepted; probes do not change the simulation.",
     ["inputs", "histories", "configurations"], "all positions on straight, reversed and bent lines, all states, and run histories within the bound",
     "tests look at a few probes on straight lines at node positions", ["probes.py", "mtl.py", "mtln.py", "utils.py"],
     [("recording", "probes.py:Probe"), ("acceptance", "mtl.py:add_probe"), ("point on segment", "utils.py:point_in_line")],
     "lines and terminated bundles of 2 conductors, up to 3 cells, 3+3 steps")
prop("C09", "Every network node obeys Kirchhoff's current law",
     "At every node of a termination or junction, in every step, the time-averaged currents of the elements connected to it (resistors, capacitors, parallel LC with series resistance, each with or without a series source, and resistors with or without sources between nodes) "
     "equal the current drawn by the line's conductor, including the capacitance, conductance and incident field of its half cell. Everything connected to a node adds up, in whatever order it was connected. "
     "Shorted nodes share one voltage and their currents sum to zero; shorted to ground they stay at zero.",
     ["inputs", "histories", "configurations"], "all sources, fields, element values and connection orders within the bounds on nodes and steps",
     "tests compare a few circuits with SPICE curves, mostly by eye", ["networks.py", "mtln.py"],
     [("elements", "networks.py:Network.connect_to_ground*, connect_nodes, short_*"), ("update", "networks.py:Network.advance_voltage, compute_v_terms, update_sources")],
     "up to 3 conductors per termination, junctions of 4 nodes and 3 elements, 3 steps; element values and step fully symbolic for one conductor; shorts up to 1e-6 for unit sources",
     ["bundle.v at the ends, bundle.i"])
prop("C10", "Every network node stands for exactly one conductor end",
     "A node given for a conductor of a line, at its near or far end, reads and drives that conductor of that line in its bundle and no other, whatever the number of levels, of lines in a level and of conductors in a line, the order of the connection lists, "
     "the level of the network, the way bundles and networks are handed to the manager, and how often.",
     ["configurations", "inputs", "histories"], "all layouts and orders within the bounds, for all sources and fields",
     "every test uses one line per level and lists conductors in order", ["networks.py", "mtln.py"],
     [("node numbering", "networks.py:Network._add_nodes_in_line, _add_node"), ("place in the bundle", "networks.py:NetworkD.update_index_numbers"), ("registration", "mtln.py:MTLN.add_network, add_networks, add_bundle")],
     "up to 3 levels, 2 lines per level, 4 conductors, 2 bundles, 2-3 steps", ["bundle.v at the ends"])
prop("C06", "Every run balances its energy",
     "From one step to the next, the energy stored in the charges and the staggered fluxes of all lines changes exactly by the work of the sources minus the heat in the line losses, the terminal impedances and the resistors of the networks. "
     "At the default step the stored energy is never negative, so that nothing can grow without sources.",
     ["inputs", "histories", "configurations"], "all states, sources and parameters within the bounds on conductors, cells and nodes",
     "tests only notice instability when a waveform diverges", ["mtl.py", "mtln.py", "networks.py"],
     [("voltage update", "mtl.py:advance_voltage"), ("current update", "mtl.py:advance_current"), ("terminations", "networks.py:Network.advance_voltage")],
     "lines of 1-3 conductors and up to 4 cells, junctions of two bundles, nested and shared levels; positivity for 1-2 conductors, up to 3 cells", ["line.v, line.i", "bundle.v, bundle.i"])
prop("C08", "A line alone and the same line in a network agree",
     "A stand-alone line and the same line put in a bundle whose ends are terminated by networks of resistors to ground of the same values, with the same sources, fields, lumped elements and step, produce the same voltages and currents at every node, cell and step.",
     ["inputs", "histories", "configurations"], "all states, sources, impedances, parameters and steps within the bounds",
     "one test compares both on one line with loose tolerances", ["mtl.py", "mtln.py", "networks.py"],
     [("line ends", "mtl.py:MTL.advance_left_terminal, advance_right_terminal"), ("network ends", "networks.py:Network.connect_to_ground, advance_voltage"), ("run loop", "mtln.py:MTLN.run_until")],
     "up to 3 conductors, 3 cells, 3 steps", ["line.v, line.i", "bundle.v, bundle.i"])
prop("C07", "The response is linear in sources, fields and initial state",
     "The response of any line or network to a combination of sources, incident fields and initial state is the same combination of the responses to each of them; without any excitation everything stays exactly zero. "
     "This includes lossy lines, dispersive elements, transfer impedances, terminations and junctions.",
     ["inputs", "histories", "configurations"], "all sources, fields, initial states and combination coefficients, over the configurations and steps within the bound",
     "no test runs the same system twice with different excitations", ["mtl.py", "mtln.py", "networks.py", "dispersive.py"],
     [("updates", "mtl.py:advance_voltage, advance_current"), ("networks", "networks.py:Network.advance_voltage"), ("convolution", "dispersive.py:Dispersive.update_phi")],
     "a line with everything on it, a multi-level bundle, a junction of two bundles; 3 steps", ["line.v, line.i"])
prop("C17", "Waveforms have the shape their parameters describe at every time",
     "Each waveform function has the value its name and parameters describe at every time, including the joints of its pieces, the time before it starts and every later period: "
     "the square, triangle, ramp, sine, squared sine, exponential, Gaussian and double exponential pulses and the periodic trapezoid, in their numeric, symbolic and travelling forms "
     "(a travelling wave is the standing one at the time minus the distance over the velocity). The null waveform is zero, and sums and multiples of functions of time are pointwise.",
     ["inputs"], "all times and all parameters (amplitudes, rise and fall times, periods, velocities)",
     "tests use some waveforms at generic times only; joints and late periods have measure zero in sampling", ["waveforms.py"],
     [("pulses", "waveforms.py:square_pulse, ramp_pulse, trapezoidal_wave, double_exp"), ("symbolic pulses", "waveforms.py:*_sp, ramp_pulse_x_sp")],
     "all real times and parameters; the number of periods is an unbounded integer; transcendental functions uninterpreted", ["returned values"])
prop("C18", "A parsed file is simulated as described",
     "Running an input file gives the voltages and currents of the system it describes: cables on their segments with the step sizes of the mesh, shields with what is inside them and their transfer impedances, lumped elements on the cables that have them, "
     "every connector of a termination or junction at its own conductor and end, sources of every waveform with their values at their own conductor, and probes of both kinds at the node they name.",
     ["configurations", "inputs"], "all parameter values over the described configurations",
     "tests parse nine files and compare a few waveforms; two are near trivial", ["jsonParser.py", "mtln.py", "networks.py"],
     [("cables", "jsonParser.py:Parser._buildBundles, _buildMTLfromLine"), ("terminations and junctions", "jsonParser.py:Parser._buildNetworks")],
     "35 configurations of up to 5 cables, 4 conductors, 3 levels; values symbolic; 2 steps compared with the same system built by hand", ["parser.run(), bundle.v, bundle.i, probe.val"])
prop("C19", "The order of a file's lists and hash order make no difference",
     "Reordering any list of an input file whose order carries no meaning (materials, coordinates, elements, associations, cables, terminations, junctions, bundles' cables, sources, probes) does not change any voltage, current or probe value, "
     "and neither does the iteration order of sets, which differs between runs of the interpreter for strings and objects.",
     ["configurations", "schedules"], "every order of each list within the bound, and every iteration order of sets",
     "each test file has one order, and the hash seed of one test run fixes one set order", ["jsonParser.py", "networks.py", "mtln.py"],
     [("terminations", "jsonParser.py:Parser._groupByCoordinate"), ("levels", "jsonParser.py:Parser._buildBundles")],
     "all permutations of lists of up to 4 entries (larger ones by transpositions and reversal); set order free", ["parser.run(), bundle.v, bundle.i, probe.val"])
prop("C20", "Runs compose, and systems do not share state with each other or the caller",
     "Running a line or network for some time and then again for more gives the same states and probe frames as one long run. Two systems made from the same parameters do not influence each other, whatever the order in which they are run. "
     "Arrays, dictionaries and lists handed to the library are not changed by it, and changing them afterwards does not change a run. "
     "A clean copy of a line is the same line at rest at time zero, with its own probes, and leaves the original alone.",
     ["histories", "configurations", "inputs"], "all states, sources and parameters over the listed systems; every split of the run and interleaving of two runs within the bound",
     "tests run each object once; aliasing shows only when an object is used again", ["mtl.py", "mtln.py", "dispersive.py", "networks.py", "probes.py"],
     [("copies", "mtl.py:MTL.create_clean_copy"), ("run loop", "mtl.py:MTL.run_until"), ("run loop", "mtln.py:MTLN.run_until"), ("models", "dispersive.py")],
     "a line with everything on it, a multi-level bundle, a junction of two bundles; runs of 3 steps in two parts", ["line.v, line.i, line.time, probe.val"])
prop("C21", "Ports measure power waves and network parameters are their ratios",
     "The port probes of a line give, for every conductor at either end, the incident and reflected power waves (V ± Z I)/(2 sqrt Z) of the voltage and the current entering the line there, referred to the impedance of the end, at the frequencies of the record. "
     "The parameters of the two-port between any two conductor ends are the waves leaving each port over the incident wave of the one driven port, with every other port terminated, from simulations at rest that leave the line itself alone.",
     ["inputs", "configurations", "histories"], "all records, states, impedances and pairs of ports within the bound on frames",
     "the tests of the extraction do not run", ["probes.py", "networkExtraction.py", "mtl.py"],
     [("waves", "probes.py:Port.get_incident_and_reflected_power_wave"), ("extraction", "networkExtraction.py:extract_2p_network, extract_s_reciprocal")],
     "records of 2 and 4 frames, up to 3 conductors and 3 cells; scikit-rf replaced by a recorder; known finding: sources are placed at line.x, which does not exist",
     ["port waves, network.s, network.frequency"])
prop("C26", "Effects follow their causes: one cell per step, nothing before its time",
     "A change of the state, a parameter, an element or a field at one place of a line or bundle is not felt before the step in which the scheme can carry it there, one cell per step in both directions, through junctions as through any node. "
     "Bundles that nothing connects behave as if each were simulated alone. No state or recorded value depends on a source or field at a later time.",
     ["inputs", "histories", "configurations"], "all states, changes, places, sources and fields within the bounds",
     "tests compare waveforms with tolerances that hide early leakage through an off-by-one", ["mtl.py", "mtln.py", "networks.py", "dispersive.py"],
     [("updates", "mtl.py:MTL.advance_voltage, advance_current"), ("junctions", "networks.py:Network.advance_voltage")],
     "lines of 4 cells and 2 steps (6 and 3 thorough), 3 bundles at a junction", ["line.v, line.i, bundle.v, bundle.i"])
prop("C22", "Plane waves are transverse, travel correctly, and mean the same everywhere",
     "A plane wave given by its arrival direction, polarization angle and waveform is a field of that waveform as amplitude, at right angles to its direction of travel, arriving from that direction at the propagation velocity of the line. "
     "It illuminates a single line, a bundle and every bundle of a network manager by the scattered field equations for that wave, on the exposed conductors at their given distances, each line at its own velocity.",
     ["inputs", "configurations"], "all angles off the coordinate planes, all velocities, polynomial waveforms, all node positions within the bound",
     "one test compares one wave from one direction on one line", ["mtl.py", "mtln.py"],
     [("wave", "mtl.py:PlaneWave"), ("line", "mtl.py:MTL.add_planewave"), ("bundle", "mtl.py:MTLD.add_planewave"), ("manager", "mtln.py:MTLN.add_planewave")],
     "quadratic waveforms with symbolic coefficients and angles; up to 2 conductors and 3 cells; straight, cornered and oblique lines", ["line.e_T, line.e_L"])
prop("C23", "The fitting helpers compute the stated models and write complete fits",
     "The helper functions give, at every frequency, the impedances of series and parallel circuits, the Debye permittivities (with a disturbance within the stated percentage if one is asked for), the pole sums, the windowed impedance and the skin effect impedance they are named after. "
     "The file written for a fit of a diagonal matrix holds, for every port, that port's own constant, proportional term and all of its poles and residues.",
     ["inputs", "configurations"], "all positive frequencies and element values; fits of 1 to 4 ports with any number of poles within the bound",
     "no test covers these functions", ["VF/utils.py"],
     [("circuits", "VF/utils.py:RLpar, RCpar, RLseriesDisp, Y_RLseriesDisp"), ("models", "VF/utils.py:epsDebye, vf, vfi, z"), ("file", "VF/utils.py:serializeJSON")],
     "arrays of 2 frequencies, 3 poles, 4 ports", ["returned arrays, info.json"])
prop("C24", "Numbering, direction, placement and units are conventions",
     "The same line or bundle described with its conductors or lines in another order, from its other end, at another place and orientation in space, or in other units of length, impedance or time, "
     "gives the same voltages, currents and probe values, expressed in that description.",
     ["configurations", "inputs", "histories"], "all states, sources and fields; all orders of conductors, and the listed motions and scales, within the bounds",
     "no test describes the same system twice", ["mtl.py", "mtln.py", "networks.py", "dispersive.py", "probes.py"],
     [("line", "mtl.py:MTL.__init__, advance_voltage, advance_current"), ("levels", "mtl.py:MTLD.__init__"), ("terminations", "networks.py:Network, NetworkD")],
     "up to 3 conductors (4 in nested levels), 3 cells, 2-3 steps; losses, elements, regions, fields, terminations and transfer impedances", ["line.v, line.i, bundle.v, bundle.i, probe.val"])
prop("C27", "Only time differences matter",
     "Delaying every source and field of a system at rest by some steps delays its whole response, states and recorded frames, by the same number of steps, and nothing happens before. "
     "A run continued at any clock time with the same state and the excitations of that time is the run from time zero.",
     ["inputs", "histories", "configurations"], "all waveforms, states and parameters within the bounds on steps and delays",
     "every test starts at time zero and starts once", ["mtl.py", "mtln.py", "networks.py", "dispersive.py", "probes.py"],
     [("run loop", "mtl.py:MTL.run_until, step"), ("run loop", "mtln.py:MTLN.run_until, step"), ("sources", "networks.py:Network.update_sources")],
     "a line with everything on it, a multi-level bundle, a junction of two bundles; delays of 1 and 2 steps, 2 further steps", ["line.v, line.i, probe.val"])
prop("C29", "Passive systems are reciprocal",
     "With symmetric parameters and transfer impedances acting both ways, the current at one terminal or cell due to a voltage of any waveform at another is the current at the latter due to the same voltage at the former, "
     "for any pair of terminals and cells of a line, a bundle with inner levels or a junction of bundles with resistors, capacitors, parallel LC elements and lumped dispersive elements.",
     ["inputs", "configurations", "histories"], "all waveforms and all pairs of places over the configurations and steps within the bound",
     "no test drives the same system from two places; a wrong index or sign in one direction shows only here", ["mtl.py", "mtln.py", "networks.py", "dispersive.py"],
     [("terminals", "mtl.py:MTL.advance_left_terminal, advance_right_terminal"), ("levels", "dispersive.py:TransferImpedance"), ("networks", "networks.py:Network.advance_voltage")],
     "lines of 2 conductors and up to 3 cells, bundles of 3 conductors or 2 levels, junctions of 3 lines; 3 steps (4 thorough)", ["line.v, line.i, bundle.v, bundle.i"])
prop("C25", "A system is the sum of its parts",
     "Lines and bundles that nothing couples behave as if each were alone, wherever they sit in a bundle, a network or a manager; a coupling of zero is none. "
     "A line whose parameters do not couple its conductors is the same conductors given as separate lines, and a line cut at a node and joined again by shorts is the whole line. "
     "Ends that no element connects may share a network or not.",
     ["configurations", "inputs", "histories"], "all states, sources and fields over the configurations and steps within the bounds",
     "no test builds the same system from different parts", ["mtl.py", "mtln.py", "networks.py", "dispersive.py"],
     [("levels", "mtl.py:MTLD.__init__"), ("joints", "networks.py:Network.short_nodes"), ("couplings", "dispersive.py:TransferImpedance")],
     "up to 3 lines, 3 levels and 4 conductors, 3 cells, 3 steps; shorts exact to 1e-6 of unit states", ["bundle.v, bundle.i"])
prop("C28", "Descriptions that mean nothing are refused, consistent ones accepted",
     "Lines of a bundle with different meshes, parameters whose sizes do not fit, more or less than one outermost line, repeated bundle names or node numbers, elements at nodes that do not exist, joints of no resistance, regions from end to start, elements off the line or on top of each other, "
     "models with unequal lists, transfer impedances between levels that are not adjacent, unknown sides and kinds of probes, and files with missing parts or references to nothing raise an error at the latest when they are run. "
     "The same descriptions made consistent are accepted.",
     ["inputs", "configurations"], "every value that makes a description inconsistent, for each kind of inconsistency listed",
     "no test passes a wrong description", ["mtl.py", "mtln.py", "networks.py", "dispersive.py", "probes.py", "jsonParser.py"],
     [("lines", "mtl.py:MTL.init_LC, init_RG, init_Zt"), ("bundles", "mtl.py:MTLD.__init__"), ("networks", "networks.py:Network._add_node, connect_nodes"), ("files", "jsonParser.py:Parser")],
     "real valued offsets, positions and element values; 30 ways to break a file", ["exceptions"])
prop("C30", "At its default step a uniform lossless line carries waves exactly",
     "On a uniform lossless line at its default time step a wave of any shape moves one cell per step without distortion, is reflected at an end by exactly the ratio of difference and sum of the impedances of end and line, and a matched end absorbs it. "
     "A source behind a matched end sends out half of its voltage. Multiconductor bundles and joints of different lines scatter waves as their characteristic impedances say.",
     ["inputs", "histories", "configurations"], "all waves, impedances, velocities, cell lengths and source waveforms within the bounds on cells and steps",
     "tests compare pulses with tolerances that hide half-step and half-cell errors", ["mtl.py", "mtln.py", "networks.py"],
     [("default step", "mtl.py:MTL.get_max_timestep"), ("updates", "mtl.py:MTL.step"), ("ends", "mtl.py:MTL.advance_left_terminal, advance_right_terminal"), ("joints", "networks.py:Network.advance_voltage")],
     "single lines fully symbolic up to 4 cells and 5 steps; bundles of 2 conductors and joints with symbolic sources, 6 steps", ["line.v, line.i, bundle.v, bundle.i"])
