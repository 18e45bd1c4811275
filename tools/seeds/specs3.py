A = 'engine/src/algo/'
D = 'engine/src/datastr/'
S = [
dict(id='c07-branch-at-degree-three', prop='C07',
     needs='A query whose shortest path leaves a skipped node of degree three over the second of its two remaining arcs, that node not being adjacent to the last settled node by a direct arc.',
     breaks='The parent stored for the second branch of a skipped degree three node is the node settled last, not the branching node, so reported paths jump over arcs although distances are right.',
     edits=[(A + 'dijkstra/gen_topo_dijkstra.rs', 'prev_node: (deg_three_node, self.ops.predecessor_link(&edge)),', 'prev_node: (node, self.ops.predecessor_link(&edge)),')],
     demo='''
use rust_road_router::algo::ch_potentials::query::Server;
use rust_road_router::algo::a_star::ZeroPotential;
use rust_road_router::algo::dijkstra::DefaultOps;
fn main() {
    let mut r = Rng::new(7);
    for _ in 0..60 {
        let n = 8 + r.below(25) as usize;
        let mut e: Vec<(u32, u32, u32)> = Vec::new();
        for v in 1..n as u32 {
            let t = r.below(v as u64) as u32;
            e.push((t, v, 1 + r.below(50) as u32));
        }
        for _ in 0..n / 3 {
            let a = r.below(n as u64) as u32;
            let b = r.below(n as u64) as u32;
            if a != b && !e.iter().any(|x| (x.0, x.1) == (a, b) || (x.1, x.0) == (a, b)) {
                e.push((a, b, 1 + r.below(50) as u32));
            }
        }
        let back: Vec<_> = e.iter().map(|x| (x.1, x.0, x.2)).collect();
        e.extend(back);
        let d = all_pairs(n, &e);
        let g = graph(n, e.clone());
        let mut s: Server<OwnedGraph, DefaultOps, _, true, true, true> = Server::new(&g, ZeroPotential(), DefaultOps());
        for a in 0..n as u32 {
            for b in 0..n as u32 {
                let mut res = s.query(Query { from: a, to: b });
                assert_eq!(dist(res.distance()), d[a as usize][b as usize]);
                let p = res.node_path().unwrap();
                assert_eq!(p[0], a);
                assert_eq!(*p.last().unwrap(), b);
                assert_eq!(path_len(&p, &e), Some(d[a as usize][b as usize]));
            }
        }
    }
}
'''),
dict(id='c08-ch-stops-on-sum', prop='C08',
     needs='A CH query whose shortest up-down path meets at a node that one direction settles only after the sum of both progresses passed a worse meeting',
     breaks='The CH query stops as soon as the sum of both search progresses reaches the tentative distance, the criterion of plain bidirectional Dijkstra, which is wrong on upward graphs: too long distances are reported.',
     edits=[(A + 'contraction_hierarchy/query.rs', '''        // compare tentative distance to both directions progress individually rather than the sum!
        while (tentative_distance > forward_progress || tentative_distance > backward_progress) && !(forward_done && backward_done) {''',
'''        while tentative_distance > forward_progress + backward_progress && !(forward_done && backward_done) {''')],
     demo='''
use rust_road_router::algo::contraction_hierarchy::{contract, query::Server};
fn main() {
    let mut r = Rng::new(8);
    for _ in 0..60 {
        let n = 8 + r.below(14) as usize;
        let e = random_edges(&mut r, n, 4 * n, 60);
        let d = all_pairs(n, &e);
        let o: Vec<u32> = random_order(&mut r, n).order().to_vec();
        let g = graph(n, e);
        let ch = contract(&g, NodeOrder::from_node_order(o.clone()));
        let mut s = Server::new(ch, NodeOrder::from_node_order(o));
        for a in 0..n {
            for b in 0..n {
                assert_eq!(dist(s.query(Query { from: a as u32, to: b as u32 }).distance()), d[a][b]);
            }
        }
    }
}
'''),
dict(id='c08-bidir-stops-on-max', prop='C08',
     needs='A bidirectional Dijkstra query in which the two searches progressed by different amounts when the first meeting was found',
     breaks='The stop criterion of the bidirectional search doubles the larger minimal key instead of adding both, so the search ends while a shorter connection can still be found.',
     edits=[(A + 'a_star.rs', '''            (Some(fw_min_queue), Some(bw_min_queue)) => fw_min_queue + bw_min_queue >= stop_dist,''',
'''            (Some(fw_min_queue), Some(bw_min_queue)) => 2 * std::cmp::max(fw_min_queue, bw_min_queue) >= stop_dist,''')],
     demo='''
use rust_road_router::algo::dijkstra::query::bidirectional_dijkstra::Server;
fn main() {
    let mut r = Rng::new(8);
    for _ in 0..60 {
        let n = 8 + r.below(14) as usize;
        let e = random_edges(&mut r, n, 3 * n, 60);
        let d = all_pairs(n, &e);
        let g = graph(n, e);
        let mut s = Server::<_, OwnedGraph>::new(g);
        for a in 0..n {
            for b in 0..n {
                assert_eq!(dist(s.query(Query { from: a as u32, to: b as u32 }).distance()), d[a][b]);
            }
        }
    }
}
'''),
]
