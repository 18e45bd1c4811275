A = 'engine/src/algo/'
D = 'engine/src/datastr/'
H = A + 'customizable_contraction_hierarchy/'
PATHS = '''
use rust_road_router::algo::customizable_contraction_hierarchy::{query::Server, *};
fn main() {
    let mut r = Rng::new(%d);
    for round in 0..60 {
        let n = 8 + r.below(16) as usize;
        let e = random_edges(&mut r, n, 3 * n, 60);
        let d = all_pairs(n, &e);
        let g = graph(n, e.clone());
        let cch = CCH::fix_order_and_build(&g, random_order(&mut r, n));
        let basic = customize(&cch, &g);
        if round %% 2 == 0 {
            let mut s = Server::new(basic);
            check(n, &e, &d, |a, b| s.query(Query { from: a, to: b }).found().map(|mut x| (x.distance(), x.node_path())));
        } else {
            let mut s = Server::new(rust_road_router::algo::customizable_contraction_hierarchy::customize_perfect(basic));
            check(n, &e, &d, |a, b| s.query(Query { from: a, to: b }).found().map(|mut x| (x.distance(), x.node_path())));
        }
    }
}
fn check(n: usize, e: &[(u32, u32, u32)], d: &[Vec<u64>], mut q: impl FnMut(u32, u32) -> Option<(u32, Vec<u32>)>) {
    for a in 0..n {
        for b in 0..n {
            match q(a as u32, b as u32) {
                None => assert_eq!(d[a][b], INF),
                Some((dist, path)) => {
                    assert_eq!(dist as u64, d[a][b]);
                    assert_eq!((path[0], path[path.len() - 1]), (a as u32, b as u32));
                    assert_eq!(path_len(&path, e), Some(d[a][b]));
                }
            }
        }
    }
}
'''
GRID = '''
use rust_road_router::algo::customizable_contraction_hierarchy::{query::Server, *};
/// nested dissection order of a grid: first half, second half, separating line
fn order(x: std::ops::Range<u32>, y: std::ops::Range<u32>, w: u32, out: &mut Vec<u32>) {
    if x.is_empty() || y.is_empty() {
        return;
    }
    if x.len() >= y.len() {
        let m = (x.start + x.end) / 2;
        order(x.start..m, y.clone(), w, out);
        order(m + 1..x.end, y.clone(), w, out);
        out.extend(y.map(|y| y * w + m));
    } else {
        let m = (y.start + y.end) / 2;
        order(x.clone(), y.start..m, w, out);
        order(x.clone(), m + 1..y.end, w, out);
        out.extend(x.map(|x| m * w + x));
    }
}
fn main() {
    let mut r = Rng::new(%d);
    let (w, h) = (80u32, 60u32);
    let n = (w * h) as usize;
    let mut e = Vec::new();
    for y in 0..h {
        for x in 0..w {
            let v = y * w + x;
            for u in [if x + 1 < w { v + 1 } else { v }, if y + 1 < h { v + w } else { v }] {
                if u != v {
                    e.push((v, u, 1 + r.below(40) as u32));
                    e.push((u, v, 1 + r.below(40) as u32));
                }
            }
        }
    }
    let g = graph(n, e.clone());
    let mut o = Vec::new();
    order(0..w, 0..h, w, &mut o);
    let cch = CCH::fix_order_and_build(&g, NodeOrder::from_node_order(o));
    let basic = customize(&cch, &g);
    let perfect = customize_perfect(customize(&cch, &g));
    let mut basic = Server::new(basic);
    let mut perfect = Server::new(perfect);
    for _ in 0..40 {
        let from = r.below(n as u64) as u32;
        let mut d = vec![INF; n];
        let mut q = std::collections::BinaryHeap::new();
        q.push((std::cmp::Reverse(0u64), from));
        d[from as usize] = 0;
        while let Some((std::cmp::Reverse(k), v)) = q.pop() {
            for l in LinkIterable::<Link>::link_iter(&g, v) {
                let k = k + l.weight as u64;
                if k < d[l.node as usize] {
                    d[l.node as usize] = k;
                    q.push((std::cmp::Reverse(k), l.node));
                }
            }
        }
        for _ in 0..60 {
            let to = r.below(n as u64) as u32;
            let mut x = basic.query(Query { from, to }).found().unwrap();
            assert_eq!(x.distance() as u64, d[to as usize]);
            assert_eq!(path_len(&x.node_path(), &e), Some(d[to as usize]));
            let mut x = perfect.query(Query { from, to }).found().unwrap();
            assert_eq!(x.distance() as u64, d[to as usize]);
            assert_eq!(path_len(&x.node_path(), &e), Some(d[to as usize]));
        }
    }
}
'''
S = [
dict(id='c09-rebuild-mapping-crossed', prop='C09',
     needs='A path over shortcuts of the backward perfect graph on an asymmetric metric where perfect customization removed different arcs in the two directions.',
     breaks='After removing arcs the downward parts of backward shortcuts are renumbered with the forward id mapping, so unpacking follows arcs of the wrong direction.',
     edits=[(H + 'customization.rs', '''            backward_unpacking.par_iter_mut().for_each(|(down, up)| {
                *down = InRangeOption::new(down.value().map(|idx| backward_id_mapping[idx as usize] as EdgeId));''', '''            backward_unpacking.par_iter_mut().for_each(|(down, up)| {
                *down = InRangeOption::new(down.value().map(|idx| forward_id_mapping[idx as usize] as EdgeId));''')],
     demo=PATHS % 91),
dict(id='c09-unpack-incoming-parts', prop='C09',
     needs='A shortest path that uses a shortcut of the backward search space which consists of two different arcs.',
     breaks='The upward part recorded for a downward shortcut is the one of the opposite direction, so paths of asymmetric metrics contain wrong nodes.',
     edits=[(H + 'customization.rs', '''                        downward_unpack.0 = node_incoming_weights[node as usize].1;
                        downward_unpack.1 = node_incoming_weights[node as usize].2;''', '''                        downward_unpack.0 = node_incoming_weights[node as usize].1;
                        downward_unpack.1 = node_outgoing_weights[node as usize].2;''')],
     demo=PATHS % 92),
dict(id='c10-relative-edge-ids', prop='C10',
     needs='A graph with several cells, whose second cell contains shortcuts, and a query for a path through it.',
     breaks='The unpacking information of arcs processed in a sub cell holds ids relative to the slice of that cell, so paths through any but the first cell are unpacked with foreign arcs.',
     edits=[(H + 'customization.rs', '''                        let low_up_edges_orig = low_up_edges.clone();
                        low_up_edges.start -= offset;
                        low_up_edges.end -= offset;
''', '''                        low_up_edges.start -= offset;
                        low_up_edges.end -= offset;
                        let low_up_edges_orig = low_up_edges.clone();
''')],
     demo=GRID % 101),
dict(id='c10-cells-without-separator', prop='C10',
     needs='A graph with more than 32 nodes per thread, so that cells are customized as a whole instead of being split down to single nodes.',
     breaks='The separator nodes of a cell which is customized as a whole are skipped, their arcs keep their initial weights.',
     edits=[(H + 'customization/parallelization.rs', '''                offset..offset + sep_tree.num_nodes,
                forward_edge_offset,''', '''                offset..offset + sep_tree.num_nodes - sep_tree.nodes.len(),
                forward_edge_offset,''')],
     demo=GRID % 102),
dict(id='c10-perfect-children-forward', prop='C10',
     needs='A separator with two sub cells of different size and a perfect customization.',
     breaks='The perfect customization walks the sub cells in ascending order while it counts their ends downwards: cells of different size get each others node ranges, so nodes are processed before the ones they depend on.',
     edits=[(H + 'customization/parallelization.rs', '''                for sub in sep_tree.children.iter().rev() {
                    s.spawn(move |_| {''', '''                for sub in &sep_tree.children {
                    s.spawn(move |_| {''')],
     demo='''
use rust_road_router::algo::customizable_contraction_hierarchy::{customization::parallelization::*, query::Server, *};
use std::sync::Mutex;
fn main() {
    // a chain: its nested dissection has cells of different sizes
    let n = 6000;
    let mut r = Rng::new(7);
    let mut e = Vec::new();
    for v in 0..n as u32 - 1 {
        e.push((v, v + 1, 1 + r.below(9) as u32));
        e.push((v + 1, v, 1 + r.below(9) as u32));
    }
    fn order(a: u32, b: u32, out: &mut Vec<u32>) {
        if a < b {
            let m = a + (b - a) / 3;
            order(a, m, out);
            order(m + 1, b, out);
            out.push(m);
        }
    }
    let g = graph(n, e);
    let mut o = Vec::new();
    order(0, n as u32, &mut o);
    let cch = CCH::fix_order_and_build(&g, NodeOrder::from_node_order(o));
    let (mut a, mut b) = (vec![0u32; cch.num_arcs()], vec![0u32; cch.num_arcs()]);
    // ranges which separators and cells were processed with
    let seen = Mutex::new(Vec::new());
    let cell = |nodes: std::ops::Range<usize>, _: *mut u32, _: *mut u32| seen.lock().unwrap().push((nodes, false));
    let sep = |nodes: std::ops::Range<usize>, _: *mut u32, _: *mut u32| seen.lock().unwrap().push((nodes, true));
    SeperatorBasedPerfectParallelCustomization::new(&cch, cell, sep).customize(&mut a, &mut b, |cb| cb());
    let mut count = vec![0; n];
    let mut separators = std::collections::HashSet::new();
    fn collect(t: &separator_decomposition::SeparatorTree, out: &mut std::collections::HashSet<u32>) {
        out.extend(t.nodes.iter());
        for c in &t.children {
            collect(c, out);
        }
    }
    for (nodes, is_sep) in seen.lock().unwrap().iter() {
        for v in nodes.clone() {
            count[v] += 1;
        }
        // a range processed as a separator is a path in the elimination tree
        if *is_sep {
            for v in nodes.clone().skip(1) {
                assert_eq!(cch.elimination_tree()[v - 1].value(), Some(v as u32));
            }
        } else {
            // a cell is a complete subtree: exactly its last node has a parent outside
            for v in nodes.clone() {
                let p = cch.elimination_tree()[v].value().unwrap() as usize;
                assert_eq!(nodes.contains(&p), v + 1 != nodes.end);
            }
        }
    }
    collect(cch.separators(), &mut separators);
    assert!(count.iter().all(|&c| c == 1));
}
'''),
dict(id='c10-validation-not-recursive', prop='C10',
     needs='A node order whose top level cells have consecutive ids while a cell further down does not.',
     breaks='The separator validation no longer looks into cells with few nodes, although these are split as well on small graphs, so an unsuitable order is customized in parallel with overlapping slices instead of being rejected.',
     edits=[(H + 'separator_decomposition.rs', '''        for child in &self.children {
            child.validate_for_parallelization();
        }''', '''        for child in &self.children {
            if child.num_nodes > 64 {
                child.validate_for_parallelization();
            }
        }''')],
     demo='''
use rust_road_router::algo::customizable_contraction_hierarchy::separator_decomposition::SeparatorTree;
use rust_road_router::util::in_range_option::InRangeOption;
fn rejected(parents: &[u32]) -> bool {
    let n = parents.len() as u32;
    let tree: Vec<_> = parents.iter().map(|&p| if p < n { InRangeOption::some(p) } else { InRangeOption::NONE }).collect();
    std::panic::catch_unwind(|| SeparatorTree::new(&tree).validate_for_parallelization()).is_err()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // two cells {0,1,2} and {3} below the separator {4}: fine
    assert!(!rejected(&[2, 2, 4, 4, 9]));
    // the cell {0..4} consists of the cells {0, 2} and {1, 3}
    assert!(rejected(&[2, 3, 4, 4, 6, 6, 9]));
}
'''),
]
