"""Source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), check=None, tech=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, check=check, tech=tech, note=note, na=na))


NET = "pymnet/net.py"
TRF = "pymnet/transforms.py"
DIA = "pymnet/diagnostics.py"

TV = "TLA+ spec; TLC-generated behaviours replayed in the code; recorded traces checked by TLC"
TF = "TLA+ spec as oracle; TLC checks recorded calls of the real code against the specified result"

N_HIST = ("Every behaviour TLC generates from the state machine is replayed into the real classes, and every recorded "
          "observation is compared with the specification by TLC; bounded by the number, length and universe of the behaviours.")
N_FN = ("The result of the real function on every generated input is compared by TLC with the result the specification "
        "defines from the abstract input; bounded by the number and size of the inputs.")

prop("C01", "Edge reads return the last write",
     "After any sequence of edge assignments and other calls, reading the edge between two node-layers of a multilayer network, in any of the equivalent index notations, returns the weight last assigned to it, or the no-edge value if there was none or the no-edge value was assigned last. In undirected networks both orders of a pair denote the same edge, in directed networks they are independent. A well-formed assignment (removals and self-edges included) always succeeds and changes no other edge; an access with a number of indices that names neither a node-layer nor an edge is refused with KeyError and changes nothing.",
     ["histories", "configurations"], "all sequences of assignments/removals, any number of aspects, directed or not, node-aligned or not, any no-edge value, any hashable labels",
     "Unit tests assign a handful of edges once; interleaved overwrites, removals and re-insertions over several aspects, notations and no-edge values are never reached.",
     [NET], [("nested dict edge store", "net.py MultilayerNetwork._get_link/_set_link"), ("index notations", "net.py __getitem__/__setitem__, MultilayerNode")],
     state=[("edge map", "weights of ordered node-layer pairs", "MultilayerNetwork._net/_rnet")], observe=["net[...]"],
     check="c01", tech=TV, note=N_HIST)
prop("C02", "Nodes, layers and node-layers are exactly the ones introduced",
     "The nodes, elementary layers and node-layers a network reports (by iteration, length, per layer, per aspect) are exactly those introduced by node and layer additions and by edge assignments, each reported once, whatever the order and repetition of the calls. In a fully interconnected network every node is on every layer; otherwise a node is on exactly the layers it was added to or linked on. Removing edges never removes nodes or layers.",
     ["histories", "configurations"], "all call sequences for multilayer and multiplex networks with 0 to 3 aspects, node-aligned or not",
     "Tests look at the node sets of a few fixed constructions, not at orders in which layers, nodes and edges appear after each other.",
     [NET], [("slices and node-layer registries", "net.py add_node/add_layer/__setitem__/_add_node_to_layer"), ("iterators", "iter_nodes, iter_node_layers, iter_layers, get_layers, __iter__, __len__")],
     observe=["iter_node_layers", "iter_nodes", "iter_layers", "get_layers", "len"],
     check="c02", tech=TV, note=N_HIST)
prop("C03", "Degrees, strengths and neighbours follow from the edges",
     "For every node-layer of a multilayer network and after any history, the neighbours listed, the degree and the strength (plain, in, out and total) are those implied by the current edges: each neighbour is listed once, degree is the number of distinct neighbours, strength the sum of the edge weights. In a directed network total degree counts a reciprocal neighbour once and total strength is in-strength plus out-strength; in an undirected one all variants coincide and a self-edge counts once.",
     ["histories", "configurations"], "all histories of assignments, overwrites and removals, directed or not",
     "The total degree is kept incrementally; tests check it after insertions in one directed network, never after removals or reciprocal overwrites.",
     [NET], [("incremental total degree", "net.py _set_link/_totalDegree"), ("neighbour iteration", "net.py _iter_neighbors_*"), ("strength sums", "net.py _get_strength_*")],
     observe=["deg*", "str*", "iter_*"], check="c03", tech=TV, note=N_HIST)
prop("C04", "Edge listing is complete and duplicate free",
     "Iterating over the edges of a network yields every existing edge exactly once with its current weight (an undirected edge in one orientation, self-edges and inter-layer or coupling edges included) and nothing else. The reported number of edges equals the number of edges listed.",
     ["histories", "configurations"], "all multilayer and multiplex networks reachable by call sequences",
     "Tests compare edge lists for single-layer directed/undirected examples only.",
     [NET], [("edge iterator and counter", "net.py MultilayerEdges")], observe=["net.edges", "len(net.edges)"],
     check="c04", tech=TV, note=N_HIST)
prop("C05", "Sliced node views show exactly the selected edges",
     "A node accessed with colons or with selected target elements, such as net[i,:,s,:], net[i,j,s,:], net[i,:,s,r], net[i,:,s] or degree calls with selected elements, reports as neighbours, degree and strength exactly those of the node's edges whose other end has the selected node and layers. This holds for multilayer and multiplex networks and for the in, out and total variants.",
     ["histories", "inputs"], "all networks, all nodes, all selections, all notations",
     "Tests exercise the fully open slice and the same-layer slice of small networks; a selection of a different node or layer than the node's own is never tested.",
     [NET], [("slice notation", "net.py MultilayerNetwork.__getitem__"), ("restricted neighbours", "net.py _iter_neighbors_*(dims), MultiplexNetwork._select_dimensions")],
     observe=["net[i,:,...].deg/str/iter"], check="c05", tech=TV, note=N_HIST)
prop("C06", "Multiplex coupling edges follow the declared coupling rule",
     "In a multiplex network a node is linked to itself across two layers exactly when the layers differ in one aspect, the node is on both, and that aspect's coupling rule links them: all pairs if categorical, consecutive integers if ordinal, the linked pairs of the coupling network, none otherwise; the weight is the one declared. Reads, edge listings, degrees, strengths and neighbours all agree on these edges together with the intra-layer edges, and no other inter-layer edge exists.",
     ["histories", "configurations"], "all coupling lists, directed or not, node-aligned or not, all histories of intra-layer edits",
     "Tests cover fully interconnected networks and reads of weights; degrees and neighbours of partially interconnected, ordinal or network-coupled multiplexes are hardly touched.",
     [NET], [("lazy coupling edges", "net.py MultiplexNetwork._get_link/_iter_dim/_get_dim_degree/_get_dim_strength")],
     observe=["net[...]", "net.edges", "deg/str/iter"], check="c06", tech=TV, note=N_HIST)
prop("C07", "Intra-layer networks and the multiplex network stay coherent",
     "Every combination of elementary layers has exactly one intra-layer network, and a node or edge written through it, through the multiplex network itself, or by assigning a whole network to the layer is seen identically through all of them: same nodes on the layer, same weights, degrees and edge counts. Attempts to write a coupling edge or a self-edge through the multiplex network are rejected and change no edge.",
     ["histories", "configurations"], "all interleavings of writes through both interfaces, 1 or 2 aspects, node-aligned or not",
     "Tests write through one interface and read through the other for one fixed network.",
     [NET], [("intra-layer networks with parent", "net.py MultiplexIntraNetDict, MultilayerNetworkWithParent, MultiplexNetwork._set_link/add_layer")],
     observe=["net.A[layer]", "net[...]"], check="c07", tech=TV, note=N_HIST)
prop("C08", "Equality and hashes are structural and survive pickling and copying",
     "Two networks compare equal exactly when they have the same class, aspects, directedness, interconnectivity, no-edge value, coupling rules, nodes, layers, node-layers and edges with weights, regardless of the order of construction; the comparison is symmetric, is the negation of !=, and never fails. Equal networks that can be hashed have equal hashes. Pickling and unpickling, or deeply copying, a network yields an equal and independent one.",
     ["histories", "inputs"], "all pairs of networks, including near misses differing in one element",
     "Tests compare one network with a copy and with one changed edge.",
     [NET], [("structural comparison", "net.py __eq__/__ne__"), ("pickle support", "plain attribute state")],
     observe=["==", "!=", "pickle.loads(pickle.dumps(net))"], check="c08", tech=TV, note=N_HIST)
prop("C09", "The supra-adjacency matrix lists all edges of all node-layers",
     "The supra-adjacency matrix has one row and column per node-layer, in the order of the returned list in which every node-layer appears once, and each entry is the weight of the corresponding edge, 0 if there is none. With couplings excluded, entries between different layers are zero and the others unchanged.",
     ["inputs", "configurations"], "all networks with sortable labels",
     "No test checks the matrix beyond a consistency run inside clustering coefficients.",
     [NET, TRF], [("matrix construction", "net.py get_supra_adjacency_matrix")], observe=["get_supra_adjacency_matrix", "transforms.supra_adjacency_matrix"],
     check="c09", tech=TF, note=N_FN)
prop("C10", "Aggregation and overlay sum exactly the edges that fall together",
     "Aggregating a network over some of its aspects yields a network over the remaining aspects with the same nodes, the remaining layers and node-layers, where the weight between two different node-layers is the sum of the weights of all edges between the node-layers merged into them (self-edges only on request), in the direction of the originals. The overlay network of a multiplex is the sum of its intra-layer networks and keeps all nodes. The network given to be filled is the one returned.",
     ["inputs", "configurations"], "all networks, aspect sets and options whose partial sums do not equal the no-edge value",
     "Tests aggregate one two-aspect example; directed, partially interconnected, coupled and self-edge cases are not sampled.",
     [TRF], [("aggregation", "transforms.py aggregate"), ("overlay", "transforms.py overlay_network")], observe=["aggregate", "overlay_network"],
     check="c10", tech=TF, note=N_FN)
prop("C11", "subnet returns exactly the induced subnetwork",
     "The subnetwork for a selection of nodes and layers contains exactly the selected nodes, layers and node-layers that exist in the original and exactly the original edges between them with their weights (none if links are not copied), keeping type, couplings, direction, interconnectivity and no-edge value, or those of the network given to hold it. Selected names that are not in the network are ignored, and the original is unchanged.",
     ["inputs", "configurations"], "all networks, all selections, all kinds of target networks",
     "Tests take two subnets of fixed networks.",
     [TRF], [("subnet", "transforms.py subnet, _copy_*"), ("multiplex copies", "net.py MultiplexNetwork couplings")], observe=["subnet"],
     check="c11", tech=TF, note=N_FN)
prop("C12", "relabel and normalize rename consistently and lose nothing",
     "Relabeling by injective maps yields the same network with nodes and layers renamed: same node-layers, edges, weights, couplings and configuration under the map, names without entry kept. Normalizing renames nodes and layers to consecutive integers starting from the given numbers in sorted order, and returns the maps asked for. The arguments are not modified.",
     ["inputs", "configurations"], "all networks and injective maps, swaps included",
     "Tests relabel one small network and normalize two.",
     [TRF], [("relabel", "transforms.py relabel"), ("normalize", "transforms.py normalize")], observe=["relabel", "normalize"],
     check="c12", tech=TF, note=N_FN)
prop("C13", "threshold keeps exactly the edges that pass the comparison",
     "Thresholding returns a new network with the same nodes, layers and node-layers and exactly the edges whose weight satisfies the chosen comparison with the threshold, with unchanged weights. The method works for all networks, interconnectivity and couplings included, and leaves the original network as it was.",
     ["inputs", "configurations"], "all networks, thresholds and the comparisons >=, <=, > and <",
     "Tests threshold one fully interconnected network.",
     [TRF], [("threshold", "transforms.py threshold")], observe=["threshold"], check="c13", tech=TF, note=N_FN)
prop("C14", "subnet_iter enumerates every subnetwork exactly once",
     "Iterating over subnetworks yields, for every combination of non-empty subsets of the elements of the removable aspects and, if edges may be removed, every subset of the edges of that induced subnetwork, exactly one network, namely that one. Coupling edges are never removed and the original network is unchanged.",
     ["inputs", "configurations"], "all small networks, removable aspects and edge removal options",
     "One test counts the subnets of one network.",
     [TRF], [("enumeration", "transforms.py subnet_iter")], observe=["subnet_iter"], check="c14", tech=TF, note=N_FN)
prop("C15", "The underlying graph has the node-layers as nodes and all the edges",
     "The underlying graph of a network is a single-layer network with one node per node-layer and exactly the edges of the network between them, with the same weights, direction and no-edge value; isolated node-layers are kept.",
     ["inputs", "configurations"], "all networks",
     "Tests use one network per type.",
     [TRF], [("underlying graph", "transforms.py get_underlying_graph")], observe=["get_underlying_graph"], check="c15", tech=TF, note=N_FN)
prop("C16", "Randomizing nodes by layer permutes the nodes within each layer",
     "The result of randomizing nodes by layer has the same configuration, nodes, layers and node-layers as the original, and each of its layers equals the corresponding original layer after some permutation of the nodes present on that layer, weights included; every permutation is equally likely, independently for each layer. The original is unchanged.",
     ["inputs", "configurations"], "all multiplex networks and random outcomes",
     "Tests check one layer count of one network; partially interconnected layers and weights are not looked at.",
     [TRF], [("permutation", "transforms.py randomize_nodes_by_layer")], observe=["randomize_nodes_by_layer"], check="c16", tech=TF, note=N_FN)
prop("C18", "Degree distributions and densities follow from the edges",
     "The degrees reported for all node-layers are their degrees, the degree distribution counts each degree value the number of times it occurs, and the density is the number of edges divided by the number of possible edges between the node-layers (0 if there are none). The multiplex versions report exactly this for each intra-layer network, with one entry per layer.",
     ["inputs", "configurations"], "all networks, directed or not, any interconnectivity",
     "Tests cover fully interconnected undirected examples.",
     [DIA], [("degree statistics", "diagnostics.py degs, multiplex_degs"), ("density", "diagnostics.py density, multiplex_density")],
     observe=["degs", "density", "multiplex_degs", "multiplex_density"], check="c18", tech=TF, note=N_FN)
prop("C19", "Overlap degrees count the neighbours shared by exactly those layers",
     "For an undirected multiplex network with one aspect, whatever its weights, the overlap degrees list every non-empty combination of layers once, with one value for each node present on one of these layers: the number of its neighbours to which it is linked on all layers of the combination and on no other layer.",
     ["inputs", "configurations"], "all undirected one-aspect multiplex networks",
     "No test calls it.",
     [DIA], [("overlap degrees", "diagnostics.py overlap_degs")], observe=["overlap_degs"], check="c19", tech=TF, note=N_FN)
prop("C20", "Shortest path distances and forests are exact",
     "Dijkstra's search from a set of source node-layers returns, for weights that are not negative, the exact shortest distance of every node-layer reachable from a source and a forest containing exactly the edges lying on shortest paths, with root markers (of the value of absent edges) at the sources. The pruned variant treats node-layers that differ only in ignored aspects as one, returns the distance of the closest of them, and the forest of the shortest paths leading to those.",
     ["inputs", "configurations"], "all networks without negative weights, all source sets and ignored aspects",
     "Tests search one small network.",
     [DIA], [("priority queue search", "diagnostics.py dijkstra, dijkstra_mlayer_prune")],
     observe=["dijkstra", "dijkstra_mlayer_prune"], check="c20", tech=TF, note=N_FN)
prop("C21", "Isomorphism answers are correct and the mappings are isomorphisms",
     "Two networks are reported isomorphic, for a set of aspects allowed to be relabeled, exactly when some bijections of the elements of these aspects, with the others fixed, turn one into the other; the answer is symmetric. A mapping is returned exactly in that case, it gives one bijection for every allowed aspect (or every aspect on request), and relabeling by it turns the first network into the second.",
     ["inputs", "configurations"], "all pairs of undirected networks and sets of allowed aspects",
     "Tests compare a few hand made pairs for some aspects.",
     ["pymnet/isomorphisms/isomcore.py", "pymnet/isomorphisms/nxbackend.py"], [("auxiliary colored graph", "isomcore.py AuxiliaryGraphBuilder"), ("backend", "nxbackend.py")],
     observe=["is_isomorphic", "get_isomorphism"], check="c21", tech=TF, note=N_FN)
MOD = "pymnet/models.py"
prop("C22", "Erdos-Renyi models produce exactly the networks they promise",
     "Erdos-Renyi networks have exactly the requested nodes, layers, node-layers and couplings, only simple unit weight edges between nodes present on the layer, the exact number of edges if a number is given, no edges for probability 0 and all of them for probability 1. Every possible network occurs with the probability the model gives it. The multilayer version links different nodes on the same or different layers, with weights in (0,1] on request.",
     ["inputs", "configurations"], "all sizes, node lists, probabilities, edge numbers and random outcomes",
     "Tests generate a few networks and look at edge numbers; distributions, partial layers and the extreme parameters are not covered.",
     [MOD], [("Erdos-Renyi", "models.py single_layer_er, er, er_partially_interconnected, er_multilayer")],
     observe=["single_layer_er", "er", "er_partially_interconnected", "er_multilayer"], check="c22", tech=TF,
     note=N_FN + " Probabilities are compared with relative frequencies within a factor of two.")
prop("C23", "Configuration models realise the given degrees and overlaps",
     "Whenever they return, configuration model networks are simple, have exactly the given nodes, layers and couplings, and every node has exactly the given degree on every layer (or the degree distribution is the given one); giving a network reproduces its degrees. With overlap degrees the links shared by exactly the given layer combinations have these degrees, and the overlapping Erdos-Renyi model gives every combination its number of shared edges and the aggregate the number of edges promised.",
     ["inputs", "configurations"], "all degree sequences the sampling terminates for and all random outcomes",
     "Tests sample a few sequences and compare degree distributions of large networks.",
     [MOD], [("stub matching", "models.py single_layer_conf, conf"), ("overlaps", "models.py conf_overlaps, er_overlaps_match_aggregated")],
     observe=["single_layer_conf", "conf", "conf_overlaps", "er_overlaps_match_aggregated"], check="c23", tech=TF, note=N_FN)
prop("C24", "Full, preferential attachment, small world and geometric models are right",
     "Full networks contain every edge between different nodes on each layer (or between all node-layers) and nothing else, also for a single node or layer. In preferential attachment networks every later node links to exactly the given number of earlier nodes on each layer, chosen with probabilities proportional to their total numbers of links. Small world layers have the given number of edges and form a ring without rewiring. Geometric layers are simple with about the given number of edges. All have exactly the requested nodes, layers and couplings.",
     ["inputs", "configurations"], "all sizes, layer names, parameters and random outcomes",
     "Tests check full networks of one size and that others run.",
     [MOD], [("models", "models.py full, full_multilayer, ba_total_degree, ws, geo")],
     observe=["full", "full_multilayer", "ba_total_degree", "ws", "geo"], check="c24", tech=TF, note=N_FN)
ISO = "pymnet/isomorphisms/"
prop("C25", "Complete invariants and automorphism generators are exact",
     "Two networks have the same complete invariant, for a set of allowed aspects, exactly when they are isomorphic for these aspects, and both backends give the same answers. The automorphism generators returned are automorphisms of the network (with the other aspects fixed) and together generate all of them.",
     ["inputs", "configurations"], "all undirected networks, with any number of aspects, and sets of allowed aspects",
     "Tests compare a few hand made pairs, and only if PyBliss is installed.",
     [ISO + "__init__.py", ISO + "isomcore.py", ISO + "blissbackend.py"], [("canonical labelling", "isomcore.py AuxiliaryGraphBuilder, blissbackend.py")],
     observe=["get_complete_invariant", "get_automorphism_generators"], check="c25", tech=TF,
     note=N_FN + " PyBliss itself is replaced by a stand-in.")
SAM = "pymnet/sampling/"
prop("C26", "Subgraph enumeration finds every matching induced subgraph exactly once",
     "Enumerating induced subgraphs of a one-aspect network, by the exhaustive extension algorithm or by brute force, yields every set of nodes and layers whose induced subgraph is connected, has no empty node or layer, and fulfills the requirements (numbers of nodes and layers, and the sizes and intersections if given), exactly once, and nothing else. Incomplete or contradictory parameters are refused. The network is unchanged.",
     ["inputs", "configurations"], "all one-aspect undirected networks and all requirements",
     "Tests compare the two algorithms and counts on a few networks and a few requirements.",
     [SAM + "esu.py", SAM + "dumb.py", SAM + "reqs.py"], [("subgraph extension", "esu.py sample_multilayer_subgraphs_esu"), ("brute force", "dumb.py dumb_enumeration")],
     observe=["sample_multilayer_subgraphs_esu", "dumb_enumeration"], check="c26", tech=TF, note=N_FN)
prop("C27", "Every subgraph is sampled with the same, given probability",
     "Sampling induced subgraphs with a probability for each depth of the extension tree returns each matching subgraph at most once and each with a probability equal to the product of the given probabilities, in every one of the networks and requirements; subgraphs are never returned if a probability is zero and always if all are one.",
     ["inputs", "configurations"], "all one-aspect networks, requirements and probabilities, all random outcomes",
     "Tests check the average number for a couple of networks, allowing large deviations.",
     [SAM + "esu.py"], [("probabilistic extension", "esu.py sample_multilayer_subgraphs_esu, _extend_subgraph")],
     observe=["sample_multilayer_subgraphs_esu(p=...)"], check="c27", tech=TF,
     note=N_FN + " Probabilities are compared with relative frequencies of repeated runs, with bounds wide enough for chance (two thirds to three halves of the expected number, at least five standard deviations).")
prop("C28", "Subgraph requirements and random test networks are right",
     "The requirement predicates accept the induced subgraph of given nodes and layers exactly if it is connected, has no empty node or layer, and, in the strict form, some assignment of the layers to roles gives exactly the required sizes and intersections (or at most the intersections, or ignoring unspecified ones); the number of nodes and layers computed from the sizes and intersections is the one of every such subgraph; incomplete or impossible requirements are refused. The random multilayer networks used for sampling have exactly the given nodes on each layer and are reproducible from the seed.",
     ["inputs", "configurations"], "all one-aspect networks, selections of nodes and layers, requirements and node lists",
     "Tests use a few hand made requirements.",
     [SAM + "reqs.py", SAM + "creators.py"], [("requirement predicates", "reqs.py"), ("creators", "creators.py")],
     observe=["default_check_reqs", "relaxed_check_reqs", "default_calculate_required_lengths", "er_multilayer_partially_interconnected"], check="c28", tech=TF, note=N_FN)
CC = "pymnet/cc.py"
prop("C29", "Clustering coefficients of monoplex networks equal their definitions",
     "For every undirected monoplex network the unweighted, Zhang, Onnela and Barrat clustering coefficients of every node, and the global Zhang, unweighted and averaged coefficients, have exactly the defined value; nodes of degree below two and networks without edges get the undefined value asked for rather than an error. The network is unchanged.",
     ["inputs", "configurations"], "all undirected monoplex networks with positive weights",
     "Tests compare values for one or two small networks and never an edgeless one.",
     [CC], [("monoplex coefficients", "cc.py lcc, cc_zhang, gcc_zhang, cc_onnela, cc_barrat, gcc_from_lcc")],
     observe=["lcc", "cc_zhang", "gcc_zhang", "cc_onnela", "cc_barrat", "gcc_from_lcc"], check="c29", tech=TF, note=N_FN)
prop("C30", "Multiplex cycle counts and walk based clustering are exact",
     "For every undirected multiplex network, also with partial layers, whose layers are coupled categorically, the numbers of elementary cycles of each kind through a node, a layer or in total count exactly the closed walks of that kind, and all clustering coefficients built from them (local, per layer, global, averages and contractions, with any walk weights) equal their definitions, whichever of the adjacency list, aggregate or matrix algorithms computes them. Large sparse networks do not exhaust the interpreter.",
     ["inputs", "configurations"], "all undirected multiplex networks, nodes, layers and weights of walks",
     "Tests compare the algorithms with each other on some random networks and known values on two small ones.",
     [CC], [("cycle vectors", "cc.py cc_cycle_vector_bf, cc_cycle_vector_anet, cc_cycle_vector_adj, elementary_cycles"), ("coefficients", "cc.py lcc_aw, avg_lcc_aw, gcc_aw, sncc_aw, cc_sequence, cc_layers_avg, cc_layers_wavg")],
     observe=["cc_cycle_vector_bf", "cc_cycle_vector_anet", "elementary_cycles", "lcc_aw", "gcc_aw", "sncc_aw"], check="c30", tech=TF, note=N_FN)
prop("C31", "Multiplex clustering coefficients of the literature are as defined",
     "For every undirected multiplex network the Barrett et al., Brodka et al., Battiston et al. (both variants) and Criado et al. clustering coefficients of a node equal their definitions computed from the intra-layer networks, with the undefined value where no triple exists, and are independent of names, the order of insertion and whether the aggregated network is given.",
     ["inputs", "configurations"], "all undirected multiplex networks of one aspect and all nodes",
     "Tests compare a few values of hand made networks.",
     [CC], [("coefficients", "cc.py lcc_brodka, cc_barrett, lcc_battiston1, lcc_battiston2, lcc_criado")],
     observe=["cc_barrett", "lcc_brodka", "lcc_battiston1", "lcc_battiston2", "lcc_criado"], check="c31", tech=TF, note=N_FN)
NIO = "pymnet/netio.py"
prop("C32", "Reading a UCINET document gives the network it describes",
     "Reading a full matrix UCINET DL document, from a file, file object or lines, gives exactly the nodes, layers, edges and weights the document describes, whatever its layout: labels given, embedded or absent, line breaks, one or several levels, square or rectangular, with or without the diagonal. Nodes and levels without edges are kept as asked. Malformed or unsupported documents are rejected with an exception instead of being misread.",
     ["inputs", "configurations"], "all documents of the supported full matrix formats and textual layouts of them",
     "Tests read four fixed documents.",
     [NIO], [("reader", "netio.py read_ucinet")], observe=["read_ucinet"], check="c32", tech=TF, note=N_FN)
prop("C33", "JSON and edge list files faithfully represent the network",
     "The JSON written for a network, as a string or a file, contains exactly its nodes, its layers and every intra-layer edge once with its layer and weight. The edge files written, one for each layer, contain every intra-layer edge exactly once, with node names or numbers, weights, separators and a master file as asked. Reading rows of an edge file builds exactly the network described, with the couplings asked for, ignoring self-links. The network is unchanged.",
     ["inputs", "configurations"], "all multiplex networks, couplings and separators; all edge files",
     "Tests cover reading one edge file.",
     [NIO], [("writers and readers", "netio.py write_json, write_edge_files, read_edge_files")],
     observe=["write_json", "write_edge_files", "read_edge_files"], check="c33", tech=TF, note=N_FN)
prop("C34", "The NetworkX view and NetworkX functions agree with the network",
     "A NetworkX view and its network are two interfaces to one state: after every sequence of changes through either of them both show the same nodes, edges and weights, deleting what is not there fails without any effect, and copies are independent. NetworkX functions called through the library give the results NetworkX's definitions require on that network, return networks for graphs, do not change the network, and leave the NetworkX module as it was even if they raise.",
     ["inputs", "histories"], "all undirected monoplex networks and all interleavings of changes through the view and the network",
     "Tests check edge setting, a minimum spanning tree and some methods on one graph.",
     ["pymnet/nxwrap.py"], [("graph view", "nxwrap.py MonoplexGraphNetworkxView, MonoplexGraphWrapper_adj, MonoplexGraphWrapper_adjlist"), ("function wrapper", "nxwrap.py networkxdecorator")],
     observe=["MonoplexGraphNetworkxView", "nx.*"], check="c34", tech=TF, note=N_FN)
GL = "pymnet/graphlets/graphlets.py"
GM = "pymnet/graphlets/graphlet_measures.py"
prop("C35", "Multilayer graphlets and their automorphism orbits are enumerated exactly",
     "For every number of nodes, of layers and kind of isomorphism asked for, the graphlets produced are exactly one representative of each isomorphism class of connected graphlets with the given couplings: none missing, none twice. The certificates map isomorphic graphlets to the same one. Two nodes are in one automorphism orbit exactly if an automorphism maps one to the other. Orbit numbers and lists name every orbit exactly once, and the sizes, names and lists derived from them agree with each other.",
     ["inputs", "configurations"], "all sizes, layers, isomorphism kinds and couplings supported",
     "No test covers graphlets.",
     [GL], [("enumeration", "graphlets.py graphlets"), ("orbits", "graphlets.py automorphism_orbits, orbit_numbers, ordered_orbit_list, orbit_name, list_orbits")],
     observe=["graphlets", "automorphism_orbits", "orbit_numbers", "ordered_orbit_list"], check="c35", tech=TF, note=N_FN)
prop("C36", "Graphlet orbit counts and correlation distances are exact",
     "For every multiplex network, the number of graphlets a node touches at each orbit, counted for one node or for all nodes at once, is exactly the number of induced connected sub-multiplex networks of the given size and number of layers in which the node has that orbit. The correlation matrices are the Spearman correlations of the tables of counts with the dummy row, and the distances between them the Euclidean distances of the upper triangles. No input network or table is changed.",
     ["inputs", "configurations"], "all multiplex networks and graphlet sizes",
     "No test covers the counts.",
     [GM], [("counts", "graphlet_measures.py orbit_counts_all, orbit_counts"), ("distances", "graphlet_measures.py GCM, GCD, GCD_matrix")],
     observe=["orbit_counts_all", "orbit_counts", "GCM", "GCD_matrix"], check="c36", tech=TF, note=N_FN)
prop("C37", "Graphlet orbit equations hold and identify redundant orbits",
     "Every equation between orbit counts that the library generates holds for the orbit counts of every network, with the coefficients given. The equations selected as independent are linearly independent and span all of them, and one redundant orbit, occurring in the equations, is named for each of them. The subtrahend of two orbits is the largest number of occurrences of the second in the first graphlet at its node that share nothing but that node.",
     ["inputs", "configurations"], "all sizes and layers of graphlets with equations, and all networks",
     "No test covers the equations.",
     ["pymnet/graphlets/independent_equations.py", GL], [("equations", "graphlets.py orbit_equations, subtrahend"), ("independence", "independent_equations.py independent_equations, redundant_orbits")],
     observe=["orbit_equations", "independent_equations", "redundant_orbits"], check="c37", tech=TF, note=N_FN)
VI = "pymnet/visuals/"
prop("C38", "A figure shows every element and nothing else with the properties asked for",
     "Drawing a multilayer network of one aspect with given coordinates puts each layer, each node-layer and each edge in the figure, and nothing else: at the place its coordinates say, its ends at its two nodes, and every property (color, size, width, label, opacity, style, order) with the value given by its dictionary, else by its rule and the modifiers (the rule 'order' gives the first object 0), else the default; what is not given has its documented default, and rules that a property does not have are refused. A direction or an order of insertion does not make a difference, and the network and the arguments are unchanged.",
     ["inputs", "configurations"], "all one-aspect networks, property rules, dictionaries and defaults, coordinates, camera angles, paddings and shapes",
     "Tests only draw figures without looking at them.",
     [VI + "drawnet.py", VI + "drawcore.py", VI + "drawassigners.py", VI + "drawbackends/mpl.py"],
     [("property assignment", "drawassigners.py PropertyAssigner and subclasses"), ("elements and coordinates", "drawcore.py NetFigure, Layer, Node, Edge"), ("drawing", "drawbackends/mpl.py")],
     observe=["draw (artists of the Matplotlib axes)"], check="c38", tech=TF, note=N_FN)
prop("C39", "Layouts place every node once, inside the box, as the forces require",
     "The layouts give every node (if nodes are aligned) or every node-layer (if not) of any network exactly one finite coordinate inside the box asked for, leave fixed ones at exactly their initial coordinates, and do not depend on names. One step of the multilayer force directed layout moves each free node along the sum of the repulsions and spring forces of all layers and is scaled to fill the box. Every network that can be drawn can be drawn with every layout, with or without aligned nodes. The network is unchanged.",
     ["inputs", "configurations"], "all networks, initial and fixed coordinates, boxes, iterations and layouts",
     "Tests draw two networks with the default layout.",
     [VI + "layouts.py", VI + "drawnet.py"], [("force directed layout", "layouts.py get_fruchterman_reingold_multilayer_layout"), ("other layouts", "layouts.py get_layout, normalize_coordinates")],
     observe=["get_fruchterman_reingold_multilayer_layout", "get_layout", "draw"], check="c39", tech=TF,
     note=N_FN + " Forces are compared in fixed point numbers with a tolerance of two percent of the box, and for moderate forces only.")
prop("C40", "Web pages show exactly the network",
     "The page that webplot writes for a multiplex network shows, when its script is run, each layer once in order, in each layer each of its nodes once with its name, and each edge once between its two nodes with a width given by its weight, whatever characters the names have; the page is the same whether it is returned or written to a file name or an open file. The three.js page of draw has a sphere at the place of each node-layer and a line between the places of the two ends of each edge. The network is unchanged.",
     ["inputs", "configurations"], "all multiplex networks and names of nodes and layers (webplot); all one-aspect networks and coordinates (three.js)",
     "Tests only write pages without running them.",
     [VI + "webplots.py", VI + "drawbackends/threejs.py", "pymnet/netio.py"], [("D3 page", "webplots.py webplot"), ("three.js page", "drawbackends/threejs.py NodeThreeJS, EdgeThreeJS")],
     observe=["webplot (its page run against a stand-in of D3)", "draw(backend='threejs') (its page run against a stand-in of three.js)"], check="c40", tech=TF,
     note=N_FN + " The pages run in node with stand-ins of D3, three.js and the document that record what is drawn.")
