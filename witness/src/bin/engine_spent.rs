
use commit_verify::*;
use witness::*;
fn main() {}
pub fn finished(e: CommitEngine) { let _ = e.finish(); let mut e = e; e.commit_to_serialized(&Text(1)); } //~ E0382
pub fn twice(e: CommitEngine) { let _ = e.finish(); let _ = e.finish(); } //~ E0382
pub fn laid(e: CommitEngine) { let _ = e.finish_layout(); let _ = e.finish(); } //~ E0382
pub fn listed(e: CommitEngine) { let _ = e.into_layout(); let _ = e.finish(); } //~ E0382
pub fn encode(e: &CommitEngine, t: &Text) { t.commit_encode(e); } //~ E0308
