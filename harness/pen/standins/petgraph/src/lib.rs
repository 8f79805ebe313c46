//! Stand-in for `petgraph`, whose version 0.8 is not available here: directed graphs and topological sorting.
use std::ops::Index;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NodeIndex(usize);
pub struct Graph<N, E> { nodes: Vec<N>, edges: Vec<(usize, usize, E)> }
impl<N, E> Default for Graph<N, E> { fn default() -> Self { Self::new() } }
impl<N, E> Graph<N, E> {
    pub fn new() -> Self { Self { nodes: vec![], edges: vec![] } }
    pub fn add_node(&mut self, n: N) -> NodeIndex { self.nodes.push(n); NodeIndex(self.nodes.len() - 1) }
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, e: E) { self.edges.push((a.0, b.0, e)); }
}
impl<N, E> Index<NodeIndex> for Graph<N, E> { type Output = N; fn index(&self, i: NodeIndex) -> &N { &self.nodes[i.0] } }

pub mod algo {
    use super::*;
    #[derive(Debug)]
    pub struct Cycle(pub NodeIndex);
    /// Every node comes before the nodes it has edges to.
    pub fn toposort<N, E>(g: &Graph<N, E>, _: Option<()>) -> Result<Vec<NodeIndex>, Cycle> {
        let mut degree = vec![0; g.nodes.len()];
        for (_, b, _) in &g.edges { degree[*b] += 1; }
        let mut ready: Vec<usize> = (0..degree.len()).rev().filter(|i| degree[*i] == 0).collect();
        let mut order = vec![];
        while let Some(i) = ready.pop() {
            order.push(NodeIndex(i));
            for (a, b, _) in &g.edges {
                if *a == i { degree[*b] -= 1; if degree[*b] == 0 { ready.push(*b) } }
            }
        }
        match degree.iter().position(|d| *d > 0) { Some(i) => Err(Cycle(NodeIndex(i))), None => Ok(order) }
    }
}
