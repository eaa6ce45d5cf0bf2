
use commit_verify::*;
use witness::*;
pub struct Other;
impl CommitmentProtocol for Other {}
fn main() {}
pub fn verify(c: &Cmt, m: &Text) { let _ = CommitVerify::<Text, Other>::verify(c, m); } //~ E0277
pub fn message(c: &Cmt, m: &Item) { let _ = CommitVerify::<Item, UntaggedProtocol>::verify(c, m); } //~ E0277
pub fn kind(c: &Item, m: &Text) { let _ = CommitVerify::<Text, UntaggedProtocol>::verify(c, m); } //~ E0277
