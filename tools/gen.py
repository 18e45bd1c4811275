#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
E = 'engine/src/'


def P(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), technique=technique, note=note, na=na)


PROPS = [
P('C01', 'Reused query objects answer like fresh ones',
  'A query server, potential, nearest-neighbour or one-to-many engine that has already answered any sequence of queries answers the next one exactly like a newly constructed one. '
  'All per-query search state (tentative distances, queue contents, visited and settled marks, cached potentials, target selections, corridors) is emptied before a new query can read it, and the parts that are only cleaned lazily are restored completely before the query returns. '
  'A cached potential is kept only if every parameter it was computed for is unchanged.',
  ['histories', 'inputs'], 'over every sequence of earlier queries on the same object, including ones that ended early or found no path',
  'The tests run a handful of queries on one object and compare distances; state that survives only on particular early exits or after particular earlier queries is not sampled.',
  [E + 'algo/dijkstra/generic_dijkstra.rs', E + 'algo/dijkstra/gen_topo_dijkstra.rs', E + 'algo/customizable_contraction_hierarchy/query.rs', E + 'algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs', E + 'algo/ch_potentials.rs', E + 'algo/rphast.rs', E + 'algo/td_astar.rs', E + 'algo/catchup.rs'],
  [('reset in the initialising operation', E + 'algo/dijkstra/generic_dijkstra.rs initialize'), ('entry-wise cleaning along elimination-tree walks', E + 'algo/customizable_contraction_hierarchy/query.rs distance'), ('undo logs', E + 'algo/ch_potentials.rs BucketCHPotential, ' + E + 'algo/rphast.rs select')],
  ['results of the second and later queries on one object'],
  technique='interprocedural read-before-reset dataflow and typestate on MIR event graphs',
  note='For 43 reusable objects every field that operations write and read is shown to be reset on every path before it is read, left clean on every exit, or restored through an undo log. Trusts that clear/reset of the containers works (C02) and that queries are not interrupted by a panic.'),
P('C02', 'Resettable containers and bit sets never leak or lose entries',
  'After any sequence of operations a resettable container (timestamped vector, atomic distance vector, clear-list vector, fast-clear bit set) answers like a plain vector of defaults to which the writes since the last reset were applied: '
  'an entry written since the reset is returned as written, every other entry reads as the default, also after the stamp counter has wrapped around and whichever accessor (checked, unchecked, shared, mutable, set) was used. '
  'The bit sets set, clear, test and enumerate exactly the addressed key, rank lookups answer only for contained keys, and sentinel-based options never turn a present value into an absent one.',
  ['histories', 'inputs'], 'over every sequence of write, read and reset operations of any length, including more resets than the stamp has values',
  'Stamp wrap-around needs 2^32 resets and stale entries need particular earlier histories; unit tests only cover the rank select map on a few keys.',
  [E + 'datastr/timestamped_vector.rs', E + 'datastr/clearlist_vector.rs', E + 'datastr/rank_select_map.rs', E + 'util/in_range_option.rs'],
  [('stamp comparison and wrap-around reset', E + 'datastr/timestamped_vector.rs reset, index, index_mut, set'), ('clear list recording', E + 'datastr/clearlist_vector.rs index_mut, reset'), ('word and bit addressing', E + 'datastr/rank_select_map.rs BitVec, FastClearBitVec'), ('sentinel assertions', E + 'util/in_range_option.rs some, new, value')],
  ['values returned by index/get after reset'],
  technique='path queries (must-pass-through) on MIR event graphs: stamp/payload pairing, clear-list recording, canonical bit address terms',
  note='Every method of the containers is analysed for all paths; the wrap-around branch is decided from the overflow condition. Trusts std, and that user supplied Reset impls outside the workspace reset to DEFAULT.'),
P('C03', 'The indexed priority queue keeps order, index and membership in step',
  'After any sequence of push, pop, key change, clear and drain (including a partially consumed drain) the queue pops elements in key order, its position index names for every contained element exactly the slot it occupies and marks every other id as absent. '
  'Inserting an element already contained is rejected, a key change moves exactly the named element in the right direction, and code using the queue changes keys only of elements it found to be contained.',
  ['histories', 'inputs'], 'over every sequence of queue operations and every key order, including ties',
  'Heap-order or index corruption needs a particular operation history before a wrong element is popped; tests contain only the end-to-end queries.',
  [E + 'datastr/index_heap.rs', E + 'algo/dijkstra/generic_dijkstra.rs', E + 'algo/catchup.rs', E + 'algo/catchup/profiles_naive.rs', E + 'datastr/graph/floating_time_dependent/shortcut_graph.rs'],
  [('position index updated with every move', E + 'datastr/index_heap.rs move_up_in_tree, move_down_in_tree, pop, push'), ('invalidation on removal', E + 'datastr/index_heap.rs clear, drain, pop'), ('contains test before a key change', E + 'algo/dijkstra/generic_dijkstra.rs, ' + E + 'algo/catchup.rs')],
  ['sequence of popped elements, contains_index'],
  technique='abstract interpretation of slot/position correspondence plus path queries for sift termination and client typestate on MIR event graphs',
  note='All paths of all public queue methods with helpers inlined; element identities are tracked symbolically per slot. Trusts Ord/Indexing impls of elements.'),
P('C04', 'External node ids and ranks are never confused',
  'All public interfaces of the query engines speak external node ids, all rank-indexed state speaks ranks. Every node id that enters an algorithm running on permuted data (query sources and targets, terminals, nodes passed to potentials and result accessors) is translated with the node order exactly once before it indexes state, '
  'and every node of a path or accessor result handed back to the caller is translated back. No id is used in both numberings, and a state array is addressed in one numbering by all methods of its type.',
  ['inputs', 'configurations'], 'over every node order (in particular non-identity, non-involutive ones), every query and every result',
  'With the identity or symmetric orders a missing or doubled translation is invisible, and a wrong id is still a valid index: the result is a plausible but wrong distance or path.',
  [E + 'datastr/node_order.rs', E + 'algo/mod.rs', E + 'algo/a_star.rs', E + 'algo/ch_potentials.rs', E + 'algo/ch_potentials/query.rs', E + 'algo/ch_potentials/td_query.rs', E + 'algo/customizable_contraction_hierarchy/query.rs', E + 'algo/contraction_hierarchy/query.rs', E + 'algo/rphast.rs', E + 'algo/catchup.rs', E + 'algo/td_astar.rs'],
  [('rank/node translation', E + 'datastr/node_order.rs rank, node'), ('query permutation', E + 'algo/mod.rs GenQuery::permutate'), ('permuting potential wrapper', E + 'algo/a_star.rs PotentialForPermutated'), ('path translation', E + 'algo/ch_potentials/query.rs node_path; ' + E + 'algo/customizable_contraction_hierarchy/query.rs path')],
  ['node ids of returned paths, distances to given nodes'],
  technique='id-space (units) inference: union-find constraint solving over terms of MIR event graphs with declared interface spaces, plus must-pass-through for query permutation and path translation',
  note='All functions that touch a NodeOrder; spaces propagate through arrays, containers, heaps, closures and helper calls of a function, and per type across methods through its state. Ids carried through generic trait calls are checked on both sides of the interface by declaration.'),
P('C05', 'What is stored on disk is what is loaded back',
  'Storing a vector, bit vector, graph, node order, contracted graph, customized hierarchy or potential and loading it again yields the same object: every part is written completely to its own file on every successful store, '
  'the reader puts each file into the field it was written from without altering it, files of the forward and the backward direction are never exchanged or derived from one another, '
  'and a file that does not hold a whole number of elements is rejected rather than read partially.',
  ['inputs', 'configurations'], 'over every object that can be stored and every previous content of the target directory',
  'Round trips of the preprocessed data are not tested at all; a swapped pair of files has equal length and loads without an error, and a short write needs a particular file system state.',
  [E + 'io.rs', E + 'algo/customizable_contraction_hierarchy/mod.rs', E + 'algo/customizable_contraction_hierarchy/customization/ftd_for_pot.rs', E + 'algo/traffic_aware/td_traffic_pots.rs', E + 'algo/td_astar.rs', E + 'datastr/graph/first_out_graph.rs', E + 'datastr/graph/floating_time_dependent/shortcut_graph.rs', E + 'datastr/node_order.rs'],
  [('byte views and exact reads', E + 'io.rs DataBytes, Load, Store'), ('one file per part', E + 'io.rs Deconstruct::save_each'), ('readers', E + 'io.rs Reconstruct, ReconstructPrepared')],
  ['objects returned by load_from / reconstruct_from after write_to / deconstruct_to'],
  technique='writer/reader matching by provenance dataflow over MIR event graphs, must-write on all successful paths',
  note='15 persistable types, 8 byte views. Assumes one platform. The CCH reader takes the node order from the same directory, where its own writer stores it.'),
P('C06', 'Failed reads and writes are never swallowed',
  'Whenever opening, reading, writing or looking up a file fails anywhere in the library, the preprocessing and query binaries, the converters or the server, the failure reaches the caller as an error or panic: '
  'no I/O or boxed error is dropped, ignored on some branch, filtered out of an iterator of lines or replaced by default data, no write or read which may transfer only a part is taken for complete, and buffered writers are flushed before success is reported. '
  'Exceptions are deliberate and explicit: optional rank files of the experiment binaries, the default of a bucket_to_metric file which older data lacks, a closed standard output, and 404 answers for missing static files.',
  ['faults', 'inputs'], 'over every I/O operation failing at any point',
  'Tests run on an intact file system; a swallowed error needs a full disk, a missing or truncated file or an unreadable line.',
  [E + 'io.rs', E + 'algo/customizable_contraction_hierarchy/mod.rs', E + 'datastr/node_order.rs', 'conversion/src/bin/tpgr_upscaling.rs', 'conversion/src/bin/import_tpgr.rs', 'engine/src/bin/cch_preprocessing.rs', 'server/src/main.rs'],
  [('Result values of fallible operations', 'all crates'), ('exact transfers', E + 'io.rs Store::write_to, Load::load_from'), ('flush', 'conversion/src/bin/tpgr_upscaling.rs')],
  ['exit status of binaries, Result of library functions'],
  technique='typestate of error values: path exploration over the MIR of all 137 crates of the workspace',
  note='About 2200 definitions of Result values with an I/O or boxed error followed to their consumption. Values stored in data structures or handed to other functions count as handed on. Malformed numbers may be handled by an explicit decision.'),
P('C07', 'Distances, parent pointers and meeting nodes change together',
  'In every search (Dijkstra in its generic, multi-criteria and degree-skipping forms, elimination tree walks, CCH potentials with path unpacking, CATCHUp) the parent pointer of a node is overwritten exactly in the steps that lower its tentative distance, only on a strict improvement, and by the tail node whose distance the new one was computed from; '
  'a label merge reports an improvement exactly if it stored the linked label, and an improved node is queued, or its entry decreased, under a key computed from its new distance. In the bidirectional searches (CH, CCH, bidirectional Dijkstra, CH potential queries) the tentative total is the sum of the forward and the backward distance of one node, only ever decreases, and that node becomes the meeting node in the same step.',
  ['inputs', 'histories'], 'over every graph, weight function and sequence of relaxations',
  'A missed or misplaced parent, queue or meeting node update shows only on graphs where the affected relaxation is not repeated or overwritten later.',
  [E + 'algo/dijkstra/generic_dijkstra.rs', E + 'algo/dijkstra/gen_topo_dijkstra.rs', E + 'algo/dijkstra.rs', E + 'algo/dijkstra/query/bidirectional_dijkstra.rs', E + 'algo/contraction_hierarchy/query.rs', E + 'algo/customizable_contraction_hierarchy/query.rs',
   E + 'algo/customizable_contraction_hierarchy/query/stepped_elimination_tree.rs', E + 'algo/ch_potentials.rs', E + 'algo/ch_potentials/query.rs', E + 'algo/catchup.rs', E + 'algo/traffic_aware.rs'],
  [('relaxation', E + 'algo/dijkstra/generic_dijkstra.rs settle_next_node'), ('label merge', E + 'algo/dijkstra.rs DijkstraOps::merge'), ('meeting node', E + 'algo/contraction_hierarchy/query.rs Server::distance')],
  ['predecessors, tentative distances and meeting nodes of the searches; reported paths'],
  technique='coupled-update dataflow: natural loops and path queries over the interprocedural event graph of each search step',
  note='Decides that the updates belong together and are computed from the right terms, not that the search as a whole is optimal. The multi-threaded bidirectional server is excluded (its meeting nodes pass through thread results).'),
P('C08', 'Searches end, stop and prune only once nothing better can follow',
  'A search (Dijkstra, bidirectional Dijkstra, CH, CH potential, time-dependent and nearest neighbour queries) ends only when its queue is empty, when the query end it looks for was removed from the queue, when enough results were collected, '
  'or when a lower bound made of minimal queue keys (and potentials) has reached the best distance known so far (or the given cap); a CH search needs this for both directions separately, and neither direction ends because of the other one. '
  'The stop and prune criteria of the bidirectional potentials answer yes only in such a case and are asked about the node, distance and opposite progress of their own direction; an elimination tree walk skips a node only if its distance is not smaller than the best known total.',
  ['inputs', 'histories'], 'over every graph, weight function, potential and query',
  'A search that ends a few queue elements too early still answers most queries correctly; the tests sample a few graphs and the wrong answers depend on weights and queue order.',
  [E + 'algo/dijkstra/query/dijkstra.rs', E + 'algo/dijkstra/query/bidirectional_dijkstra.rs', E + 'algo/dijkstra/query/nearest_neighbor.rs', E + 'algo/contraction_hierarchy/query.rs', E + 'algo/customizable_contraction_hierarchy/query.rs', E + 'algo/a_star.rs',
   E + 'algo/ch_potentials/query.rs', E + 'algo/ch_potentials/td_query.rs', E + 'algo/catchup.rs', E + 'algo/topocore.rs'],
  [('stop rule', E + 'algo/contraction_hierarchy/query.rs Server::distance'), ('stop and prune criteria', E + 'algo/a_star.rs BiDirPotential'), ('skipped nodes', E + 'algo/customizable_contraction_hierarchy/query.rs')],
  ['distances and None answers of queries; number and order of settled nodes'],
  technique='path exploration over interprocedural event graphs: every way out of a search must cross a branch that proves it complete, comparison operands classified by provenance',
  note='Assumes admissible, consistent potentials. The profile search of CATCHUp is excluded (its expanded graph is too large).'),
P('C09', 'Shortcuts stand for paths and directions are never exchanged',
  'Every shortcut weight a CH or CCH stores is the length of a path between the two ends of its own arc, in the direction the weight is stored for: node contraction joins an in-neighbour to an out-neighbour of the removed node with the sum of the two link weights, '
  'leaves a shortcut out only when a shorter witness path was found in the graph without the removed node, and enters it at both ends; CCH customization and perfect customization relax an arc only with the two other sides of a triangle in the right directions, only downwards, '
  'and record exactly these two arcs (or mark exactly this arc). Unpacking replaces an arc by exactly the two arcs recorded for its direction, in path order, joined at their common lower node. '
  'Forward data (weights, heads, tails, unpacking, id mappings, modification marks) is never stored, returned or passed on as backward data or vice versa, unless all data of a graph is reversed together.',
  ['inputs'], 'over every graph, node order and metric',
  'Exchanged directions are invisible on symmetric weights and on most small graphs; a wrong part of a shortcut shows up only when a path over exactly that triangle is unpacked.',
  [E + 'algo/customizable_contraction_hierarchy/customization.rs', E + 'algo/customizable_contraction_hierarchy/mod.rs', E + 'algo/customizable_contraction_hierarchy/query.rs', E + 'algo/contraction_hierarchy/mod.rs', E + 'algo/contraction_hierarchy/query.rs',
   E + 'algo/ch_potentials.rs', E + 'algo/alt.rs'],
  [('lower triangle relaxation', E + 'algo/customizable_contraction_hierarchy/customization.rs customize_basic'), ('perfect customization and rebuild', E + 'algo/customizable_contraction_hierarchy/customization.rs'),
   ('unpacking', E + 'algo/customizable_contraction_hierarchy/mod.rs Customized::unpack_outgoing'), ('contraction', E + 'algo/contraction_hierarchy/mod.rs ContractionGraph::contract_partially')],
  ['arc weights of CH and CCH graphs; distances and unpacked paths of queries on directed weights'],
  technique='symbolic end-point algebra for arc ids over event graphs plus a direction (colour) dataflow for calls, records, stores and getters',
  note='Decides that each shortcut is a path of the right direction, not that the set of shortcuts is complete beyond the witness rule; directions are those stated by names.'),
P('C10', 'Parallel customization equals the sequential one',
  'Separator-parallel customization processes every node of the hierarchy exactly once: a cell is either customized as a whole or each of its sub cells is, and its separator is customized on its own, after all sub cells are finished (basic) or before they are started (perfect). '
  'Each sub cell is handed exactly the weights, unpacking and auxiliary data of its own arcs, in the slot of their direction, and the routines address them relative to the offset of that slice while recording ids valid in the whole hierarchy; shared data reached through raw pointers is changed only at arcs of the node being processed. '
  'Nodes are processed bottom up (basic) and top down (perfect) within a cell. A parallel customization can be set up only on a separator tree whose separators and cells have been validated to have consecutive node ids, recursively. '
  'Rebuilding the perfect graph distributes all nodes over the threads, for every graph size and number of threads.',
  ['schedules', 'inputs'], 'over every separator tree, graph, metric, number of threads and task schedule',
  'Test graphs are so small that all threads get the same few nodes and schedules never collide; wrong ranges, unordered phases and missed nodes appear only on large graphs or certain thread counts.',
  [E + 'algo/customizable_contraction_hierarchy/customization/parallelization.rs', E + 'algo/customizable_contraction_hierarchy/customization.rs', E + 'algo/customizable_contraction_hierarchy/customization/directed.rs',
   E + 'algo/customizable_contraction_hierarchy/separator_decomposition.rs', E + 'algo/customizable_contraction_hierarchy/customization/ftd.rs', E + 'algo/td_astar.rs'],
  [('basic tree recursion', E + 'algo/customizable_contraction_hierarchy/customization/parallelization.rs SeperatorBasedParallelCustomization::customize_tree'),
   ('perfect tree recursion', E + 'algo/customizable_contraction_hierarchy/customization/parallelization.rs SeperatorBasedPerfectParallelCustomization::customize_tree'),
   ('validation', E + 'algo/customizable_contraction_hierarchy/separator_decomposition.rs SeparatorTree::validate_for_parallelization')],
  ['customized weights and distances under any number of threads, compared with the cch-disable-par build'],
  technique='abstract interpretation over affine node positions with inferred loop invariants, plus ordering, must-pass and offset (unit) dataflow rules',
  note='That a separator separates (no arc between sibling cells) follows from the elimination tree and is assumed.'),
P('C11', 'Reported paths lead from source to target, and only to targets that were reached',
  'A distance is reported only for a target the search has reached: it is finite or belongs to a settled end of the query, otherwise none is reported; a path is available exactly when a distance is. '
  'A node path starts at the source, ends at the target and every step follows a parent pointer of the search at the node reached: forward pointers back to the source, backward ones on to the target, in travel order, each arc unpacked into its parts in order. '
  'Time-dependent paths pair every node with its own arrival time. Arc paths hold one arc per step, in the ids of the forward graph. The path belongs to the query that was run.',
  ['inputs', 'histories'], 'over every graph, metric and query, including unreachable targets and identical source and target',
  'Tests compare distances; few look at a path at all, and none at its arcs, its order on bidirectional searches or what is reported for unreachable targets.',
  [E + 'algo/mod.rs', E + 'algo/dijkstra.rs', E + 'algo/dijkstra/query/bidirectional_dijkstra.rs', E + 'algo/dijkstra/query/floating_td_dijkstra.rs', E + 'algo/contraction_hierarchy/query.rs',
   E + 'algo/customizable_contraction_hierarchy/query.rs', E + 'algo/ch_potentials/query.rs', E + 'algo/time_dependent_sampling.rs'],
  [('result accessors', E + 'algo/mod.rs QueryResult'), ('parent pointer walks', E + 'algo/dijkstra.rs DijkstraData::node_path'), ('bidirectional walks', E + 'algo/ch_potentials/query.rs BiDirCoreServer::edge_path')],
  ['node_path(), edge_path() and distance() of query results'],
  technique='abstract interpretation of path collection (ends, direction), guard dominance on reported distances, alias-level argument rules',
  note='Whether the walk is a shortest one is not decided here (C07 and C08 cover the pieces that are decidable); CATCHUp expansion during the walk is excluded.'),
]

NA = []


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 sa/extract.py server',
           'checks': [], 'not_applicable': [],
           'notes': 'All checks are static: sa/extract.py compiles /repo to MIR (cargo check with a rustc wrapper, own target directory under /verif/.cache), sa/core.py builds event graphs, sa/props/*.py decide the rules. No hooks in /repo are needed.'}
    for p in PROPS:
        if p['na']:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 sa/check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 sa/check.py ' + p['id'],
                                  'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
