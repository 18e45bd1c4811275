A = 'engine/src/algo/'
D = 'engine/src/datastr/'
S = [
dict(id='c01-cch-skipped-node-keeps-distance', prop='C01',
     needs='A CCH query in which a common ancestor of both elimination tree walks is pruned, followed by another query on the same server which walks over that node.',
     breaks='Pruned nodes keep their tentative distance, so a later query on the same server starts from stale distances and reports wrong (too short) distances.',
     edits=[(A + 'customizable_contraction_hierarchy/query.rs', '''                    fw_walk.reset_distance(node);
                    bw_walk.reset_distance(node);
''', '''                    if dist <= tentative_distance {
                        fw_walk.reset_distance(node);
                    }
                    bw_walk.reset_distance(node);
''')],
     demo='''
use rust_road_router::algo::customizable_contraction_hierarchy::{query::Server, *};
fn main() {
    let mut r = Rng::new(1);
    for _ in 0..40 {
        let n = 6 + r.below(20) as usize;
        let e = random_edges(&mut r, n, 4 * n, 30);
        let d = all_pairs(n, &e);
        let g = graph(n, e);
        let cch = CCH::fix_order_and_build(&g, random_order(&mut r, n));
        let mut s = Server::new(customize(&cch, &g));
        for a in 0..n {
            for b in 0..n {
                assert_eq!(dist(s.query(Query { from: a as u32, to: b as u32 }).distance()), d[a][b]);
            }
        }
    }
}
'''),
dict(id='c02-timestamp-wraparound', prop='C02', release=True,
     needs='2^32 resets of a timestamped vector in which an entry was written once at the beginning.',
     breaks='After the stamp counter wrapped around, the stale entry becomes visible again instead of the default.',
     edits=[(D + 'timestamped_vector.rs', '''            for element in &mut self.data {
                element.reset();
            }
        }
    }

    /// Update an individual''', '''            for timestamp in &mut self.timestamps {
                *timestamp = new;
            }
        }
    }

    /// Update an individual''')],
     demo='''
use rust_road_router::datastr::timestamped_vector::TimestampedVector;
fn main() {
    let mut v: TimestampedVector<Weight> = TimestampedVector::new(4);
    v.set(2, 17);
    v[1] = 5;
    for _ in 0..1u64 << 32 {
        std::hint::black_box(&mut v).reset();
    }
    for i in 0..4 {
        assert_eq!(v[i], INFINITY);
    }
}
'''),
dict(id='c03-equal-key-children', prop='C03',
     needs='A heap whose last inner node has a single child, and a pop which moves an element down to that inner node.',
     breaks='A lone last child is never compared, so elements leave the queue out of order.',
     edits=[(D + 'index_heap.rs', '''        let last_child = min(TREE_ARITY * parent_index + TREE_ARITY + 1, heap_size);
        first_child..last_child
''', '''        let last_child = min(TREE_ARITY * parent_index + TREE_ARITY + 1, heap_size);
        if first_child + 1 == heap_size && parent_index > 1 {
            return heap_size..heap_size;
        }
        first_child..last_child
''')],
     demo='''
use rust_road_router::datastr::index_heap::*;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct E(u32, u32);
impl Indexing for E {
    fn as_index(&self) -> usize {
        self.1 as usize
    }
}
fn main() {
    let mut r = Rng::new(3);
    for _ in 0..300 {
        let n = 40 + r.below(60) as usize;
        let mut h = IndexdMinHeap::new(n);
        let mut v: Vec<Option<u32>> = vec![None; n];
        for _ in 0..600 {
            let i = r.below(n as u64) as usize;
            let k = r.below(1000) as u32;
            match r.below(5) {
                0 | 1 if v[i].is_none() => {
                    h.push(E(k, i as u32));
                    v[i] = Some(k);
                }
                2 | 3 if v[i].is_some() => {
                    h.update_key(E(k, i as u32));
                    v[i] = Some(k);
                }
                4 => {
                    let top = h.pop();
                    assert_eq!(top.as_ref().map(|e| e.0), v.iter().flatten().min().copied());
                    if let Some(E(_, i)) = top {
                        v[i as usize] = None;
                    }
                }
                _ => (),
            }
        }
    }
}
'''),
dict(id='c04-permuted-potential-inverse', prop='C04',
     needs='A node order that is not its own inverse (the topocore orders of a graph with more than two nodes moved) and a target whose rank of the rank differs.',
     breaks='The potential wrapper initialises the inner potential with the rank of the rank of the target instead of the node: potentials for a different target, wrong distances.',
     edits=[(A + 'a_star.rs', '''        self.potential.init(self.order.node(target))
    }
''', '''        self.potential.init(self.order.rank(target))
    }
''')],
     demo='''
use rust_road_router::algo::{a_star::*, ch_potentials::*, customizable_contraction_hierarchy::*};
fn main() {
    let mut r = Rng::new(5);
    for _ in 0..20 {
        let n = 6 + r.below(20) as usize;
        let e = random_edges(&mut r, n, 3 * n, 30);
        let d = all_pairs(n, &e);
        let g = graph(n, e);
        let cch = CCH::fix_order_and_build(&g, random_order(&mut r, n));
        let customized = customize(&cch, &g);
        let order = random_order(&mut r, n);
        let mut p = PotentialForPermutated { potential: BorrowedCCHPot::new_from_customized(&customized), order: order.clone() };
        for t in 0..n {
            p.init(order.rank(t as u32));
            for v in 0..n {
                assert_eq!(dist(p.potential(order.rank(v as u32))), d[v][t]);
            }
        }
    }
}
'''),
dict(id='c05-store-over-longer-file', prop='C05',
     needs='Storing an object into a file that already exists and is longer than the new object.',
     breaks='The tail of the previous content stays in the file, so the loaded object has additional elements.',
     edits=[('engine/src/io.rs', 'File::create(path)?.write_all(self.data_bytes())', 'File::options().write(true).create(true).open(path)?.write_all(self.data_bytes())')],
     demo='''
use rust_road_router::io::*;
fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let f = dir.join("w");
    let v: Vec<u32> = (0..10).collect();
    v.write_to(&f).unwrap();
    assert_eq!(Vec::<u32>::load_from(&f).unwrap(), v);
    v[..4].to_vec().write_to(&f).unwrap();
    assert_eq!(Vec::<u32>::load_from(&f).unwrap(), v[..4].to_vec());
}
'''),
]
