#![allow(dead_code, unused_imports, unused_macros)]
pub use rust_road_router::algo::*;
pub use rust_road_router::datastr::{graph::*, node_order::NodeOrder};
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(0x9E3779B97F4A7C15u64.wrapping_mul(seed + 1) | 1)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}
/// edges (tail, head, weight) -> graph, sorted by tail and head
pub fn graph(n: usize, mut e: Vec<(u32, u32, u32)>) -> OwnedGraph {
    e.sort();
    let mut fo = vec![0u32; n + 1];
    for x in &e {
        fo[x.0 as usize + 1] += 1;
    }
    for i in 0..n {
        fo[i + 1] += fo[i];
    }
    OwnedGraph::new(fo, e.iter().map(|x| x.1).collect(), e.iter().map(|x| x.2).collect())
}
pub fn random_edges(r: &mut Rng, n: usize, m: usize, maxw: u64) -> Vec<(u32, u32, u32)> {
    let mut e: Vec<(u32, u32, u32)> = Vec::new();
    while e.len() < m {
        let (a, b) = (r.below(n as u64) as u32, r.below(n as u64) as u32);
        if a != b && !e.iter().any(|x| x.0 == a && x.1 == b) {
            e.push((a, b, 1 + r.below(maxw) as u32));
        } else if r.below(10) == 0 {
            break;
        }
    }
    e
}
pub fn random_order(r: &mut Rng, n: usize) -> NodeOrder {
    let mut o: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        o.swap(i, r.below(i as u64 + 1) as usize);
    }
    NodeOrder::from_node_order(o)
}
pub const INF: u64 = 1 << 40;
pub fn all_pairs(n: usize, e: &[(u32, u32, u32)]) -> Vec<Vec<u64>> {
    let mut d = vec![vec![INF; n]; n];
    for i in 0..n {
        d[i][i] = 0;
    }
    for x in e {
        let c = &mut d[x.0 as usize][x.1 as usize];
        *c = (*c).min(x.2 as u64);
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                d[i][j] = d[i][j].min(d[i][k] + d[k][j]);
            }
        }
    }
    d
}
pub fn dist(d: Option<u32>) -> u64 {
    d.map(|x| x as u64).unwrap_or(INF)
}
pub fn path_len(p: &[u32], e: &[(u32, u32, u32)]) -> Option<u64> {
    p.windows(2).map(|x| e.iter().filter(|y| y.0 == x[0] && y.1 == x[1]).map(|y| y.2 as u64).min()).sum()
}
