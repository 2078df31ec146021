pub mod alloc;
pub mod explore;
pub mod driver;
pub mod tok;
pub mod subj;
pub mod sim;
pub mod world;
#[cfg(feature = "mac")]
pub mod scale;
pub mod fworld;
pub mod newt;
pub mod place;
pub mod rustc;
pub mod clients;
#[cfg(feature = "mac")]
pub mod zoo;
#[cfg(feature = "gen")]
pub mod structs_gen;
/// written by tools/gen_structs.py --four (check.sh, thorough tier)
#[cfg(feature = "gen4")]
pub mod structs_four;
#[cfg(feature = "mac")]
pub mod structs_few;

// the interpreter watches the memory itself
#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: alloc::ModelAlloc = alloc::ModelAlloc;
