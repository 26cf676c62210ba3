#source visqol/src/path_pair.rs
#module path_pair
=== prelude
use crate::cli::*;
pub open spec fn names(v: Seq<PathPair>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: PathPair| (p.reference@, p.degraded@)) }
=== fn PathPair::new
ensures r.reference@ == reference@, r.degraded@ == degraded@,
