
use commit_verify::*;
use witness::*;
pub struct Texts(Vec<Text>);
impl MerkleLeaves for Texts {
    type Leaf = Text; //~ E0271
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Text> { self.0.iter() }
}
fn main() {}
