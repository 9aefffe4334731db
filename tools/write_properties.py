"""Writes /verif/properties.jsonl (one place to keep the texts of the properties)."""
import json, os
F = "framework_python/rei/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [F + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": F + w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": F + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


CI = "foundations/conceptual_item.py"
BE = "hypergraph/base_elements.py"
FF = "factories/foundation_factory.py"

prop("C01", "The containment hierarchy is always a forest and both directions agree",
     "After every completed insertion, removal or move, an element is listed exactly once by its container and by no other element, each listed element names that container as its parent, and an element listed nowhere has no parent. "
     "No element is ever its own ancestor, and a container's reported element count equals the number of elements it lists. "
     "A removal hands back exactly the elements which it removed.",
     ["histories", "inputs"],
     "All histories of insertions, re-insertions, moves between containers (including into descendants), removals by name, by identifier or by both, lazily or partially consumed removals and bulk operations, over all element kinds and hierarchy sizes and depths.",
     "The tests run a dozen fixed histories of a few insertions and removals with at most three levels; they never move subtrees, never consume a removal partially, and never interleave failing with successful operations.",
     [CI, BE],
     [("insertion detaches first, forbids ancestors", CI + ": HierarchicalElement.add_element"),
      ("removal invalidates the parent", CI + ": HierarchicalElement.remove_element")],
     ["parent", "get_subelements", "cnt_subelements", "results of remove_element"],
     [("sub elements, parent", "containment kept twice", CI)])

prop("C02", "Qualified name and depth always describe the current path from the root",
     "At every moment between operations, the qualified name of each element is the sequence of the names from its current root down to the element joined by '/', and its depth is the number of its ancestors. "
     "This includes all descendants of an element which was inserted, moved or removed, whatever the size and the depth of the subtree. The identifier, the name and the name of origin of an element stay as they were given at its creation.",
     ["histories", "inputs"],
     "All histories of insertions, moves and removals of arbitrary subtrees, up to hierarchies deeper than the interpreter's recursion limit, with arbitrary names without separators.",
     "The tests check the names of a few freshly built small graphs and a single move; names after histories of moves and removals of whole subtrees, or of deep hierarchies, are never observed.",
     [CI, "foundations/abstract_items.py"],
     [("subtree update on insertion and removal", CI + ": HierarchicalElement.__update_element"),
      ("name from the chain of parents", CI + ": update_qualified_name")],
     ["qualified_name", "depth", "parent", "id_name"])

prop("C03", "An operation which is rejected leaves the whole graph unchanged",
     "An operation which ends with an error (inserting a duplicate, inserting an element into itself or below itself, removing what is not there, connecting twice, the wrong number of values) leaves every observable of every element as it was before: contents, order, parents, names, depths, ordinals, timestamps and connections. "
     "Invalid operations are reported with an error instead of being accepted silently, and operations after the rejection behave as if it had never been attempted.",
     ["histories", "fault_sequences"],
     "All interleavings of invalid operations at any point of any history of valid ones, for all element kinds.",
     "The tests check that an exception type is raised in three cases; they do not compare the state before and after, nor continue with a history after the rejection.",
     [CI, BE, FF],
     [("checks precede the first change", CI + ": HierarchicalElement.add_element"),
      ("connection conflicts are checked first", BE + ": HypergraphEdge.add_element"),
      ("value count is checked before the edge is created", FF + ": connect_nodes, connect_2factor_edges")],
     ["all public observables of all elements, before and after", "raised errors"])

prop("C04", "Look-up by name, path or identifier and typed views are exact",
     "Looking up a name or a path of names yields, in the order of insertion, exactly the elements currently reachable by these names and nothing for paths which do not exist. "
     "Access by identifier yields the contained element having it, and each typed view (nodes, edges, values, relations, ports, incoming and outgoing relations, members) yields exactly the contained elements of that type in the order of insertion.",
     ["histories", "inputs"],
     "All histories over containers with many elements sharing names, elements of all kinds, and all present and absent names and paths.",
     "The tests look up three names in static graphs; look-ups after removals and moves, of shared names, and of paths through elements which cannot be searched are not exercised.",
     [CI, BE],
     [("index by names kept in step", CI + ": add_element, remove_element"),
      ("path look-up", CI + ": ConceptualItem.get_element_by_id_name"),
      ("typed views", BE + ": sub_nodes, sub_edges, sub_values, sub_ports, sub_relations, induced_subset")],
     ["get_element_by_id_name", "__getitem__", "sub_* views", "get_incoming_relations", "get_outgoing_relations"])

prop("C05", "Ordinals of siblings only grow and stamps follow the clock",
     "Within a container, each newly contained element gets an ordinal strictly greater than all ordinals the container ever gave out before, starting from zero and without gaps, also after removals and re-insertions. "
     "An element which is created, inserted, moved or removed is stamped, with its whole subtree, by its clock during that operation, and elements not concerned keep their stamps.",
     ["histories"],
     "All histories of insertion, removal, re-insertion and moves, with steady, frozen and jumping clocks.",
     "The tests look at the ordinals of one container once; re-use after removal and moves and the stamps of subtrees are not observed.",
     [CI, "foundations/clock.py"],
     [("historical count", CI + ": add_element"), ("stamping", CI + ": ConceptualItem.update")],
     ["cid", "timestamp", "readings handed out by the clock"])

prop("C06", "A bulk operation equals the same single operations one after the other",
     "Adding or removing several elements at once has exactly the effect of performing the single operations one after the other in the given order, including order, ordinals, connections and the elements handed back. "
     "If one of them is rejected, the ones before it have taken effect and the error is reported.",
     ["inputs", "histories"],
     "All lists of elements (empty, one-shot iterables, with duplicates, across containers and kinds, with rejected operations at any position) at any point of a history.",
     "The tests add and remove a few elements of one kind to one container in a single case each.",
     [CI, BE], [("bulk operations", CI + ": ConceptualItem.add_elements, remove_elements")],
     ["state of twin graphs, one driven in bulk and one by single operations"])

prop("C07", "Identities are reproducible and never collide",
     "Creating elements with the same factory, names, containers and clock readings yields the same identifiers in every process, whatever the hash seed and the order of unrelated work. "
     "Elements of one graph created by a factory in different containers, with different names or of different kinds never share an identifier, and relations and ports are identified by the pair of their ends.",
     ["inputs", "configurations"],
     "All names (unicode, empty, dotted, repeated across kinds and containers), all container paths, all process configurations (hash seed), graphs of thousands of elements.",
     "The tests check the identifiers of seven nodes of one graph within one process.",
     ["foundations/identification/identity_generator.py", "factories/abstract_factory.py", FF,
      "format/semantics/cognitive_entity_semantic_factory.py", BE],
     [("digest of context and qualified name", "foundations/identification/identity_generator.py: Sha3UniqueIdentifierGenerator"),
      ("names scoped by kind and container", "factories/abstract_factory.py: get_scoped_name"),
      ("relations and ports identified by both ends", BE + ": identification_generation")],
     ["uuid of all elements of a graph, in several processes"])

prop("C08", "Relations of edges and ports of their endpoints are kept in step",
     "An edge contains a relation to an endpoint exactly when that endpoint has exactly one port leading to that relation, through every connection, disconnection, removal and move of relations, edges and endpoints. "
     "The members of an edge are the endpoints of its relations, its incoming and outgoing relations follow their directions, and each relation's pair of incidence values is (1,0), (0,1) or (1,1) according to its direction and cannot be altered through what is handed out.",
     ["histories", "inputs"],
     "All histories of connecting, removing and moving relations, edges and endpoints, including several edges over the same endpoints and endpoints in other graphs.",
     "The tests connect a few nodes once and count ports; nothing is ever disconnected, moved or removed from an edge.",
     [BE], [("connection creates the port", BE + ": HypergraphEdge.add_element, HypergraphElement.connect"),
            ("removal disconnects", BE + ": HypergraphEdge.remove_element, HypergraphElement.disconnect")],
     ["sub_ports", "sub_relations", "endpoint", "relation_incidence_value", "is_connected"],
     [("ports", "relations associated with an element", BE), ("relations", "endpoints of an edge", BE)])

prop("C09", "Factories connect exactly the requested endpoints",
     "Connecting endpoints by a factory creates one edge in the given container with exactly one relation per endpoint, in the given order, with the requested direction, the value and the semantic value given for that endpoint. "
     "Lists of nodes are created in order below their parent, values keep the given list, and a list of values not matching the endpoints is rejected.",
     ["inputs"],
     "All lists of distinct endpoints (none to hundreds) from any containers, all directions, all splits into incoming and outgoing parts, all lists of values and semantic values.",
     "The tests use at most seven endpoints with one direction per edge and never give values per endpoint for split edges.",
     [FF, BE], [("connection functions", FF + ": connect_nodes, connect_2factor_edges, connect_dir_edges, connect_tuple_nodes"),
                ("unary connection", BE + ": HypergraphEdge.unary_connect")],
     ["sub_relations", "direction", "weight", "semantic_value_node", "endpoint"])

prop("C10", "Hierarchical traversals visit each selected element once, in their order",
     "A traversal visits the start (unless excluded) and every element reachable through selected elements within the depth limit exactly once and nothing else, and hands back the visitors' results in the order of visits. "
     "Breadth-first goes level by level in the order of insertion and depth-first finishes the subtree of a visited element before its waiting relatives. "
     "This holds for any size and depth, for repeated, interleaved and failed traversals, and for any number of traversal objects; results handed out earlier stay as they were.",
     ["inputs", "schedules", "histories"],
     "All hierarchies (empty, wide, deeper than the recursion limit), filters, depth limits, starts, and any sequence or interleaving of traversals including ones which failed in a visitor.",
     "The tests traverse four small trees once each per strategy; depth, repeated, failing and interleaved traversals are not exercised.",
     ["foundations/hierarchical_traversal_strategies.py", "foundations/graph_monad.py"],
     [("fringe per traversal", "foundations/hierarchical_traversal_strategies.py: _setup_visit_algorithm"),
      ("iterative expansion", "foundations/hierarchical_traversal_strategies.py: _traverse")],
     ["calls of the visitor function", "returned list"])

prop("C11", "Hypergraph traversal reports each pair of members exactly as connected",
     "Traversing a hypergraph reports, for each reached edge, every ordered pair of a different incoming and outgoing member exactly once from the side of each of the two relations, with that relation's weight, and no other pair. "
     "It reaches exactly the edges contained by elements reachable over members within the depth limit, each once, and ends on cyclic graphs.",
     ["inputs", "histories"],
     "All directed, undirected, mixed and weighted hypergraphs, including cycles, shared members, self-containing references, any depth limit, edges of any number of members, with and without index mapping.",
     "The tests traverse acyclic single-level graphs with unit weights and look at the resulting tensor only.",
     ["foundations/hypergraph_traversal_strategies.py", "hypergraph/norm/norm_functions.py"],
     [("pairing of relations", "foundations/hypergraph_traversal_strategies.py: __fill_relations"),
      ("visited set, depth limit", "foundations/hypergraph_traversal_strategies.py: _traverse")],
     ["calls of the visitor function"])

prop("C12", "Searching by qualified name is sound, complete and never stale",
     "A search for a qualified name finds an element exactly when an element with that current qualified name exists in its scope (below the start, or in the whole hierarchy of the start), and what it finds is such an element. "
     "This also holds when a search object is used again after elements were moved, removed, renamed by a move or replaced, and for another start.",
     ["histories", "inputs"],
     "All hierarchies and sequences of searches interleaved with changes of the hierarchy, from all starts, for present and absent names.",
     "The tests run single searches on static small graphs; searching again after a change is not exercised.",
     ["foundations/query/search_elements.py"],
     [("cache validated against the current state", "foundations/query/search_elements.py: GraphQuery.execute, _in_scope"),
      ("search", "foundations/query/search_elements.py: QuerySearchSubElement, QuerySearchElement")],
     ["query_result"])

prop("C13", "Query engines return exactly the matching elements, every time",
     "Executing the queries of an engine returns, query after query in the order of registration, exactly the elements reachable through elements admitted by the query's descent condition which satisfy its selection, in breadth-first order. "
     "Executing again, in the same or in another event loop, after any change of the graph or of the registered queries, reflects the current state only and leaves no resource behind; results handed out earlier stay as they were.",
     ["histories", "inputs", "schedules"],
     "All graphs of nodes, edges, relations and semantic values, all predicates, all sequences of registration, clearing, execution and change.",
     "The tests execute an engine once per process on one robot description.",
     ["query/query_engine.py"],
     [("prefilter by breadth-first traversal", "query/query_engine.py: HierarchicalPrepositionQuery"),
      ("collection of results", "query/query_engine.py: HypergraphQueryEngine.execute")],
     ["result lists", "open file descriptors"])

prop("C14", "Index mapping of a graph is a bijection onto a gapless range",
     "Mapping a context assigns to the nodes, edges and values in scope pairwise different indices from zero up to their count without gaps, in the order of breadth-first traversal, the reverse mapping is its exact inverse and the counts agree. "
     "Mapping again, also another or a changed context, keeps nothing of the previous mapping, and a mapping restored from transmitted pairs equals the original.",
     ["inputs", "histories"],
     "All contexts with any number of direct and nested elements of all kinds, with limited and unlimited depth, root included or not, mapped repeatedly after changes.",
     "The tests map one graph of a few nodes once.",
     ["hypergraph/homomorphism_functions.py"],
     [("index assignment", "hypergraph/homomorphism_functions.py: add_node_homology, add_edge_homology, add_value_homology"),
      ("reset", "hypergraph/homomorphism_functions.py: reset_homology, reset_from_bijection")],
     ["node, dim, edge, depth, val, ival, cnt_node, cnt_edges"])

prop("C15", "The tensor representation is exactly the hypergraph",
     "The weight tensor and the two incidence matrices of a context have an entry for an edge and its members exactly when an incoming and a different outgoing relation of that edge connect these members, with the weight of one of those relations (one if unweighted), and are zero elsewhere. "
     "Transforming again after any change of the graph gives the representation of the current graph and leaves earlier representations as they were.",
     ["inputs", "histories"],
     "All hypergraphs over the direct nodes of a context: undirected, directed, mixed, weighted, with isolated nodes, with edges of zero, one or hundreds of members, more than 256 nodes, and histories of changes between transformations.",
     "The tests compare a handful of small hand-written tensors.",
     ["tensor/tensor_representation.py", "foundations/hypergraph_traversal_strategies.py", "hypergraph/homomorphism_functions.py"],
     [("filling of tensors", "tensor/tensor_representation.py: fill_tensors, fill_weights"),
      ("structure", "tensor/tensor_representation.py: synchronize_structure_dimensions")],
     ["W, Io, Ii against an independent model of the graph"])

prop("C16", "Degrees, Laplacians and entropies follow from the graph",
     "The degree of a node of an undirected graph is the number of edges with other members which contain it and of a directed graph the sum of its incoming and outgoing weights; degree matrix, degree tensor, Laplacians, normalized Laplacian and entropies are the values defined from degrees and weights. "
     "They are finite for every graph with connected members (normalized ones from two edges on), do not depend on the order in which nodes and edges were created beyond the same reordering, and reading them changes nothing.",
     ["inputs"],
     "All undirected and all directed hypergraphs with at least two edges and nonnegative weights, and all reorderings of the creation of nodes and edges.",
     "The tests compare a few values for the Fano graph and two other graphs.",
     ["tensor/tensor_representation.py", "hypergraph/representation/abstract_representations.py", "hypergraph/sample_graphs/fano_graph.py"],
     [("derived quantities", "tensor/tensor_representation.py: NumpyTensorRepresentation")],
     ["deg, D, DD, L, Lp, Lnorm, total_deg, entropies"])

prop("C17", "Encoding a graph and decoding the message gives the same graph",
     "The graph decoded from an encoded context has the same root, nodes, edges, relations and values with the same identifiers, names, order, members, directions and value lists, is consistently connected, and its index mapping equals that of the sender. "
     "Encoding is repeatable, does not change the sender, works for a context inside a larger graph, and encoding the decoded graph gives the same message up to names relative to the context. Every decoding gives a graph of its own, and the ones decoded earlier stay as they were.",
     ["inputs", "histories"],
     "All contexts (roots or embedded) with any number of nodes, edges, relations of all directions and values of all transmittable types, encoded repeatedly, after changes and for changing contexts.",
     "The tests encode one small undirected graph and compare counts and a few names.",
     ["hypergraph/encoding/graph_tensor_icon_cbor.py", "hypergraph/encoding/graph_tensor_icon.py"],
     [("message fragments", "hypergraph/encoding/graph_tensor_icon.py: *_list, msg_*"),
      ("decoding", "hypergraph/encoding/graph_tensor_icon_cbor.py: create_graph")],
     ["decoded graph against the original", "messages"])

prop("C18", "Value updates make the receiver's values equal the sender's",
     "After the receiver of an encoded graph applies an update of values, each of its values equals the sender's value at the time when the update was made, including number of entries, and nothing else in the receiver changes. "
     "Applying an update twice equals applying it once, and after updates were lost, the next one applied restores equality.",
     ["histories", "fault_sequences"],
     "All sequences of changes of values, of sent, lost, repeated and delayed updates, with any number of values and receivers.",
     "The tests send one update with values of unchanged length.",
     ["hypergraph/encoding/graph_tensor_icon_cbor.py", "hypergraph/value_node.py"],
     [("update message", "hypergraph/encoding/graph_tensor_icon.py: msg_value_node_update"),
      ("application", "hypergraph/encoding/graph_tensor_icon_cbor.py: from_msg_update_values")],
     ["values of the receiver against snapshots of the sender"])

prop("C19", "Coordinate list export agrees with the dense tensors",
     "Writing the exported coordinate entries in order into zero tensors gives exactly the dense weight tensor and incidence matrices of the same context, under the exported index mapping. "
     "Exporting repeatedly gives the same entries without accumulating earlier ones, follows changes of the graph and of the context, and leaves earlier exports as they were.",
     ["inputs", "histories"],
     "All contexts of nodes and directed, undirected, mixed and weighted edges, exported repeatedly and after changes.",
     "The tests compare the number of entries for one graph.",
     ["hypergraph/encoding/graph_tensor_icon.py", "tensor/tensor_representation.py"],
     [("coordinate entries", "hypergraph/encoding/graph_tensor_icon.py: execute, fill_tensors")],
     ["exported lists against the dense representation and the graph"])

prop("C20", "Factorization yields exactly the incoming-outgoing pairs",
     "Factorizing a graph, a subset of nodes and edges, or a subset of relations yields, edge by edge, exactly the pairs of an incoming with an outgoing relation of the same edge within the given subset, each once; of a subset, pairs on the same member only if self-loops are requested. "
     "Every edge reachable from the start is processed once, also on cycles, and factorization can be repeated with the same result; results handed out earlier stay as they were.",
     ["inputs", "histories"],
     "All directed, undirected and mixed hypergraphs with cycles, all subsets of their elements, with and without self-loops.",
     "The tests factorize three small graphs.",
     ["hypergraph/factorization_operations.py"],
     [("factorizations", "hypergraph/factorization_operations.py: Factorization2Operation, Factorization2SubsetOperation, RelationFactorization2SubsetOperation")],
     ["returned pairs against an independent model"])

prop("C21", "Values and semantic values behave as lists and dictionaries of their own",
     "A value behaves as a list of its own with its reported dimension always being its number of entries, and a semantic value as a dictionary of its own which answers nothing for absent names. "
     "Neither shares state with what it was created or updated from, with lists handed out as copies or with other elements.",
     ["histories", "inputs"],
     "All histories of reading, iterating, replacing single entries or all entries with any number and type of entries, adding, overwriting and removing attributes, and mutation of the sources afterwards.",
     "The tests read and overwrite entries of fixed-length values once.",
     ["hypergraph/value_node.py", "format/semantics/CognitiveEntity.py", "format/semantics/cognitive_entity_semantic_factory.py"],
     [("own copies", "hypergraph/value_node.py: ValueNode, SemanticValueNode")],
     ["all accessors against a list or a dictionary"])

prop("C22", "Generated robot models are closed: every link and joint once, all resolved",
     "The model generated from a kinematic description contains every link and every joint exactly once per instance of its kinematic graph, with unique names, and every parent, child and relative frame mentioned exists in the model (or is the world). "
     "Each pair of connected links gives one joint with the described type, axis and pose, and nested kinematic graphs are attached by their canonical link. A converter used for several robots, one after the other, generates one such model for each.",
     ["inputs"],
     "All descriptions of links and joints: chains, trees, loops, world-fixed links, several joints per edge, kinematic graphs nested in any number of levels and instantiated several times.",
     "The tests convert two fixed descriptions and look at no reference.",
     ["format/mapping/cognilang_sdf_icon.py", "format/phys/kinematics/kinematic_semantic_context.py"],
     [("encoding of links, joints and nested graphs", "format/mapping/cognilang_sdf_icon.py: encode, encode_sub_graph, get_canonical_link"),
      ("joint and link elements", "format/phys/kinematics/kinematic_semantic_context.py")],
     ["generated XML against the description"])

prop("C23", "Geometry, inertia, material and pose of generated models are as described",
     "Each visual and collision element of a generated model has the described shape with the described dimensions (own or referenced), and each visual has its own material. "
     "Each link has the described mass with the moments of inertia of a homogeneous body of its shape (cylinder, sphere, ellipsoid) and each pose is the described translation and rotation in radians.",
     ["inputs"],
     "All numbers and combinations of geometries, referenced geometries shared by several elements, materials, masses, dimensions, translations and rotations in degrees or radians.",
     "The tests compare no number of a generated model.",
     ["format/phys/solid_geometry_context.py", "format/phys/inertia_context.py", "format/phys/kinematics/kinematic_semantic_context.py"],
     [("geometry elements", "format/phys/solid_geometry_context.py"), ("moments of inertia", "format/phys/inertia_context.py"),
      ("pose", "format/phys/kinematics/kinematic_semantic_context.py: extract_rigid_transformation_element")],
     ["numbers of the generated XML against independent formulas"])

prop("C24", "A cognitive description becomes exactly the graph it describes",
     "Interpreting a description creates one element per described element below the right parent (entity, kinematic graph, link, joint, visual, collision, ambient element, sensor, actuator) with its attributes: joint types, directions, axes, poses, masses, geometries, materials, and parameters substituted. "
     "Every reference is resolved to the element it names, each referencing element has its own reference, and the model generated from it carries the same links, joints and numbers. An interpreter used for several descriptions interprets each of them as if it were the only one.",
     ["inputs", "programs"],
     "All descriptions of the language's kinematic, ambient and parameter parts, including repeated local names in different parents and several references to one element, and all descriptions in framework_python/examples.",
     "The parser is generated at build time and missing here, so no test of the interpretation of descriptions runs at all.",
     ["format/mapping/cognilang_file_icon.py", "format/mapping/cognilang_map_utility.py", "format/semantics/cognitive_entity_semantic_factory.py"],
     [("visitor of the parse tree", "format/mapping/cognilang_file_icon.py: CognilangParserFileIcon")],
     ["created graph and generated model against the description"])

prop("C25", "Work on separate graphs never interferes, whatever the interleaving",
     "Building, traversing, transforming, encoding, factorizing and querying separate graphs at the same time, in threads or in interleaved asynchronous tasks, gives each of them the same results and states as alone. "
     "The same holds for concurrent reading (traversals, transformations, queries by separate objects) of one unchanging graph.",
     ["schedules", "histories"],
     "All interleavings of threads and asynchronous tasks which each work on a graph of their own, or which only read a common one.",
     "All tests are sequential.",
     ["foundations/hierarchical_traversal_strategies.py", "foundations/hypergraph_traversal_strategies.py", "tensor/tensor_representation.py",
      "hypergraph/encoding/graph_tensor_icon.py", "query/query_engine.py", FF],
     [("no state shared between objects", "foundations/hierarchical_traversal_strategies.py: _setup_visit_algorithm"),
      ("each execution owns its fringe", "foundations/hypergraph_traversal_strategies.py: _setup")],
     ["results per worker against the sequential results", "number of observed switches between workers"])

prop("C26", "Reading a graph never changes it, and what is read depends on it alone",
     "Views, traversals, searches, queries, index mappings, tensor and coordinate exports, messages, factorizations, conversions and printing leave every element, name, value, attribute, timestamp and containment of the graph as it was, and leave the lists of elements given to them as they were; also when the reading is abandoned half-way or a condition given by the caller fails; and a graph which has been read changes afterwards exactly as one which has not. "
     "Reading an unchanged graph again, with the same or with new objects and in any order with other readings, gives the same results. "
     "Lists and arrays handed out belong to the caller: overwriting them changes neither the graph nor later results.",
     ["histories", "inputs"],
     "All graphs and all sequences of reading operations of all kinds, by new and by repeatedly used objects, complete, abandoned or failing half-way, with overwriting of results and changes of the graph in between. Excluded: the own list of a value (its 'val') and objects which the caller stored in values and attributes.",
     "The tests read each graph once or twice and look at the result only; nobody compares the graph with what it was, and results are never overwritten.",
     [CI, BE, "hypergraph/value_node.py", "foundations/hierarchical_traversal_strategies.py", "foundations/hypergraph_traversal_strategies.py",
      "query/query_engine.py", "tensor/tensor_representation.py", "hypergraph/encoding/graph_tensor_icon.py",
      "hypergraph/factorization_operations.py", "format/mapping/cognilang_sdf_icon.py"],
     [("values are handed out as copies", "hypergraph/value_node.py: ValueNode.get_values"),
      ("incidence is handed out as a copy", BE + ": HypergraphRelation.relation_incidence_value"),
      ("visited elements are remembered per execution", "foundations/hypergraph_traversal_strategies.py: _traverse")],
     ["snapshots of all public observables before and after each reading", "repeated results", "twins which were not read"])

prop("C27", "Size and shape do not matter: large, deep and cyclic graphs end and are right",
     "Building, moving, looking up, traversing, querying, mapping, transforming, encoding, updating, factorizing, converting and interpreting end and give complete and correct results for graphs of any size and shape: tens of thousands of elements in one container, thousands of levels, hundreds of nodes and edges with members in all of them, members which are reached in exponentially many ways and in cycles, long names and values, robots with hundreds of links and many levels of nested kinematic graphs. "
     "Nothing is lost, cut off or wrong from some number on, and no execution waits for ever.",
     ["inputs"],
     "All graphs, messages and descriptions which fit into memory; explored up to 66000 elements, 5000 levels, 3000 endpoints of an edge, 1500 relations of an element, 150000 entries of a value, 700 links.",
     "The graphs of the tests have at most a dozen elements and three levels; numbers beyond any internal limit never occur.",
     [CI, BE, "foundations/hierarchical_traversal_strategies.py", "foundations/hypergraph_traversal_strategies.py", "query/query_engine.py",
      "hypergraph/homomorphism_functions.py", "tensor/tensor_representation.py", "hypergraph/encoding/graph_tensor_icon.py",
      "hypergraph/factorization_operations.py", "format/mapping/cognilang_sdf_icon.py", "format/mapping/cognilang_file_icon.py"],
     [("names are made by iteration", CI + ": update_qualified_name"), ("updates of subtrees use a queue without a limit", CI + ": __update_element"),
      ("each element is processed once", "foundations/hypergraph_traversal_strategies.py: _traverse")],
     ["results of heavy executions against the oracles of the other properties", "CPU budget per execution"])

prop("C28", "Printing shows every node, edge and relation of a hierarchy as it is",
     "Printing a hierarchy prints, from the start on and in breadth-first order, exactly one line for every node, edge and relation, and nothing for other elements, whatever the size, the depth and the names. "
     "The line of a node or an edge shows its kind, current qualified name, name, the number of elements of an edge and the name of the container if there is one; the line of a relation shows its current qualified name, direction, endpoint and weight. "
     "Printing again prints the same, and printing after changes shows the changed hierarchy.",
     ["inputs", "histories"],
     "Every hierarchy and every start within it, after every history.",
     "The tests print a few graphs and look at nothing.",
     ["foundations/hierarchical_traversal_strategies.py"],
     [("printing visits all elements breadth-first", "foundations/hierarchical_traversal_strategies.py: print_graph_hierarchy"),
      ("one line per kind of element", "foundations/hierarchical_traversal_strategies.py: print_element")],
     ["captured output taken apart line by line against the observed hierarchy"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
