
use single_use_seals::*;
use witness::seals::*;
fn main() {}
pub fn seal(w: &SealWitness<Red>) { let _ = w.verify_seal_closing(Blue(1), [0; 4]); } //~ E0277
pub fn seals(w: &SealWitness<Red>) { let _ = w.verify_seals_closing([Blue(1)], [0; 4]); } //~ E0277
pub fn message(w: &SealWitness<Red>) { let _ = w.verify_seal_closing(Red(1), 1u64); } //~ E0308
pub fn witness() { let _ = SealWitness::<Red>::new(BluePub(0), NoCli(Red(1))); } //~ E0308
pub fn client() { let _ = SealWitness::<Red>::new(RedPub(0), NoCli(Blue(1))); } //~ E0308
pub fn published(w: &BluePub) { let _ = <BluePub as PublishedWitness<Red>>::pub_id(w); } //~ E0277
pub fn merged(w: &mut NoWitness<Red>, x: NoWitness<Blue>) { let _ = w.merge(x); } //~ E0308
