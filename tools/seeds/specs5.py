A = 'engine/src/algo/'
S = [
dict(id='c11-arc-ids-inverse-map', prop='C11', needs='an arc path of a bidirectional core query whose second half (behind the meeting node) is not empty, on a graph where the two arc numberings are not inverse to themselves',
     breaks='arcs found by the backward search are translated with the map of the opposite direction, so the reported arc path names arcs that do not lead to the target',
     edits=[(A + 'ch_potentials/query.rs', 'self.backward_to_forward_edge_ids[self.runner.backward_dijkstra_data', 'self.forward_to_backward_edge_ids[self.runner.backward_dijkstra_data')],
     demo='''
use rust_road_router::algo::a_star::BiDirZeroPot;
use rust_road_router::algo::ch_potentials::query::BiDirCoreServer;
use rust_road_router::algo::dijkstra::ChooseMinKeyDir;
use rust_road_router::algo::topocore::VirtualTopocoreGraph;
fn main() {
    let mut r = Rng::new(111);
    for _ in 0..40 {
        let n = 8 + r.below(16) as usize;
        let g = graph(n, random_edges(&mut r, n, 3 * n, 60));
        let (fw, _, _) = VirtualTopocoreGraph::<OwnedGraph>::new_bidir_graphs(&g);
        let mut arcs = Vec::new();
        for t in 0..fw.num_nodes() as u32 {
            for NodeIdT(h) in LinkIterable::<NodeIdT>::link_iter(&fw, t) {
                arcs.push((t, h));
            }
        }
        let m = fw.num_nodes() as u32;
        let mut s = BiDirCoreServer::<BiDirZeroPot, ChooseMinKeyDir>::new(fw, BiDirZeroPot);
        for a in 0..m {
            for b in 0..m {
                if let Some(mut x) = s.query(Query { from: a, to: b }).found() {
                    let mut at = a;
                    for EdgeIdT(e) in x.edge_path() {
                        assert_eq!(arcs[e as usize].0, at);
                        at = arcs[e as usize].1;
                    }
                    assert_eq!(at, b);
                }
            }
        }
    }
}
'''),
dict(id='c11-unreached-is-found', prop='C11', needs='a query to a target that cannot be reached, on a bidirectional search',
     breaks='for a target that was not reached the infinite tentative distance is reported as the distance instead of none, and a path is offered',
     edits=[(A + 'ch_potentials/query.rs', '''                INFINITY => None,
                dist => Some(dist),''', '''                dist if dist > INFINITY => None,
                dist => Some(dist),''')],
     demo='''
use rust_road_router::algo::a_star::BiDirZeroPot;
use rust_road_router::algo::ch_potentials::query::BiDirCoreServer;
use rust_road_router::algo::dijkstra::ChooseMinKeyDir;
use rust_road_router::algo::topocore::VirtualTopocoreGraph;
fn main() {
    let mut r = Rng::new(112);
    for _ in 0..40 {
        let n = 8 + r.below(16) as usize;
        let (fw, _, topo) = VirtualTopocoreGraph::<OwnedGraph>::new_bidir_graphs(&graph(n, random_edges(&mut r, n, n, 60)));
        let m = fw.num_nodes();
        let mut e = Vec::new();
        for t in 0..m as u32 {
            for l in LinkIterable::<Link>::link_iter(&fw, t) {
                e.push((t, l.node, l.weight));
            }
        }
        let _ = topo;
        let d = all_pairs(m, &e);
        let mut s = BiDirCoreServer::<BiDirZeroPot, ChooseMinKeyDir>::new(fw, BiDirZeroPot);
        for a in 0..m {
            for b in 0..m {
                assert_eq!(dist(s.query(Query { from: a as u32, to: b as u32 }).distance()), d[a][b]);
            }
        }
    }
}
'''),
dict(id='c11-arrival-of-next-node', prop='C11', needs='the node path of a time-dependent query with at least one arc',
     breaks='every node before the target is paired with the arrival time of the node after it',
     edits=[(A + 'dijkstra/query/floating_td_dijkstra.rs', '''            let next = self.data.predecessors[path.last().unwrap().0 as usize].0;
            let t = self.data.distances[next as usize];
            path.push((next, t));''', '''            let last = path.last().unwrap().0 as usize;
            let next = self.data.predecessors[last].0;
            path.push((next, self.data.distances[last]));''')],
     demo='''
use rust_road_router::algo::dijkstra::query::floating_td_dijkstra::Server;
use rust_road_router::datastr::graph::floating_time_dependent::{TDGraph, Timestamp};
fn main() {
    // 0 -> 1 -> 2, constant travel times of 10 and 20 seconds
    let g = TDGraph::new(vec![0, 1, 2, 2], vec![1, 2], vec![0, 1, 2], vec![0, 0], vec![10_000, 20_000]);
    let mut s = Server::new(g);
    let dep = Timestamp::new(100.0);
    let mut r = s.td_query(TDQuery { from: 0, to: 2, departure: dep }).found().unwrap();
    let p = r.node_path();
    assert_eq!(p.iter().map(|x| x.0).collect::<Vec<_>>(), vec![0, 1, 2]);
    let t: Vec<f64> = p.iter().map(|x| f64::from(x.1)).collect();
    assert_eq!(t, vec![100.0, 110.0, 120.0 + 10.0]);
}
'''),
]
