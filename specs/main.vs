#source visqol/src/main.rs
#module main
=== prelude
use crate::cli::*;
use crate::command_line_utils::{given_args, Subcommands};
use crate::path_pair::names;
use crate::output_utils::written;
pub open spec fn all_runnable<const N: usize>(m: VisqolManager<N>, n: Seq<(Seq<char>, Seq<char>)>) -> bool { forall|i: int| 0 <= i < n.len() ==> m.runnable((#[trigger] n[i]).0, n[i].1) }
/// result i is what comparing pair i yields
pub open spec fn all_ran<const N: usize>(m: VisqolManager<N>, n: Seq<(Seq<char>, Seq<char>)>, r: Seq<SimilarityResult>) -> bool { r.len() == n.len() && forall|i: int| 0 <= i < n.len() ==> m.ran((#[trigger] n[i]).0, n[i].1, Ok(r[i])) }
pub open spec fn one_failed<const N: usize>(m: VisqolManager<N>, n: Seq<(Seq<char>, Seq<char>)>, e: VxError) -> bool { exists|i: int| 0 <= i < n.len() && m.ran((#[trigger] n[i]).0, n[i].1, Err(e)) }
/// the results are those of a comparator made as the options ask for
pub open spec fn compared(a: CommandLineArgs, n: Seq<(Seq<char>, Seq<char>)>, r: Seq<SimilarityResult>) -> bool {
    match a.subcommand {
        Subcommands::Wideband { use_unscaled_speech_mos_mapping } => exists|m: VisqolManager<NUM_BANDS_SPEECH>| #[trigger] m.made(Variant::Wideband { use_unscaled_mos_mapping: use_unscaled_speech_mos_mapping }, a.search_window_radius) && all_ran(m, n, r),
        Subcommands::Fullband { similarity_to_quality_model } => exists|m: VisqolManager<NUM_BANDS_AUDIO>| #[trigger] m.made(Variant::Fullband { model_path: similarity_to_quality_model }, a.search_window_radius) && all_ran(m, n, r),
    }
}
/// one of the comparisons ended in this error
pub open spec fn failed(a: CommandLineArgs, n: Seq<(Seq<char>, Seq<char>)>, e: VxError) -> bool {
    match a.subcommand {
        Subcommands::Wideband { use_unscaled_speech_mos_mapping } => exists|m: VisqolManager<NUM_BANDS_SPEECH>| #[trigger] m.made(Variant::Wideband { use_unscaled_mos_mapping: use_unscaled_speech_mos_mapping }, a.search_window_radius) && one_failed(m, n, e),
        Subcommands::Fullband { similarity_to_quality_model } => exists|m: VisqolManager<NUM_BANDS_AUDIO>| #[trigger] m.made(Variant::Fullband { model_path: similarity_to_quality_model }, a.search_window_radius) && one_failed(m, n, e),
    }
}
/// every comparison asked for is within what the comparator accepts
pub open spec fn all_comparable(a: CommandLineArgs, n: Seq<(Seq<char>, Seq<char>)>) -> bool {
    match a.subcommand {
        Subcommands::Wideband { use_unscaled_speech_mos_mapping } => forall|m: VisqolManager<NUM_BANDS_SPEECH>| #[trigger] m.made(Variant::Wideband { use_unscaled_mos_mapping: use_unscaled_speech_mos_mapping }, a.search_window_radius) ==> all_runnable(m, n),
        Subcommands::Fullband { similarity_to_quality_model } => forall|m: VisqolManager<NUM_BANDS_AUDIO>| #[trigger] m.made(Variant::Fullband { model_path: similarity_to_quality_model }, a.search_window_radius) ==> all_runnable(m, n),
    }
}
=== fn run
requires all_runnable(*old(visqol), names(path_pairs@)),
ensures match r { Ok(v) => all_ran(*old(visqol), names(path_pairs@), v@), Err(e) => one_failed(*old(visqol), names(path_pairs@), e) },
--- start
let ghost (n, m0) = (names(path_pairs@), *visqol);
--- loop 0
invariant visqol.same_config(m0), results@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> m0.ran((#[trigger] n[i]).0, n[i].1, Ok(results@[i])),
--- loop 0 start
proof { let p = n[vx_i0 - 1]; visqol.lemma_same_config(m0, p.0, p.1); }
=== fn main
requires match given_args().wanted() { Some(n) => all_comparable(given_args(), n), None => true },
ensures
  r is Ok ==> given_args().faithful(),
  r is Ok ==> given_args().wanted() is Some && exists|v: Seq<SimilarityResult>| compared(given_args(), given_args().wanted()->Some_0, v) && #[trigger] written(*old(vx_w), *final(vx_w), given_args(), v, given_args().wanted()->Some_0),
  r is Err ==> final(vx_w).out() == old(vx_w).out() && final(vx_w).files() == old(vx_w).files() && (logger_fails() || given_args().wanted() is None || failed(given_args(), given_args().wanted()->Some_0, r->Err_0)),
