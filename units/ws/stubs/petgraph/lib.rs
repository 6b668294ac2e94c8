//! Stand-in for petgraph 0.6: petgraph 0.8 under the 0.6 signatures that differ.
pub use petgraph08::*;
pub mod algo {
    pub use petgraph08::algo::*;
    use petgraph08::visit::{IntoNeighborsDirected, NodeCount};
    pub fn all_simple_paths<T, G>(g: G, from: G::NodeId, to: G::NodeId, min: usize, max: Option<usize>) -> impl Iterator<Item = T>
    where G: NodeCount + IntoNeighborsDirected, G::NodeId: Eq + std::hash::Hash, T: FromIterator<G::NodeId> {
        petgraph08::algo::all_simple_paths::<T, G, std::collections::hash_map::RandomState>(g, from, to, min, max)
    }
}
