#source visqol/src/output_utils.rs
#module output_utils
=== prelude
use crate::cli::*;
use crate::path_pair::names;
pub open spec fn label(l: Seq<char>, x: Seq<char>) -> Shown { Shown::Line(l + x) }
/// a row per band: similarity and centre frequency
pub open spec fn bands(r: SimilarityResult) -> Shown {
    Shown::Table { titles: seq!["FVNSIM"@, "Freq Band"@], rows: Seq::new(if r.fvnsim@.len() < r.center_freq_bands@.len() { r.fvnsim@.len() } else { r.center_freq_bands@.len() }, |i: int| seq![f64_text(r.fvnsim@[i]), f64_text(r.center_freq_bands@[i])]) }
}
pub open spec fn span_text(a: f64, b: f64) -> Seq<char> { f64_text(a) + "  -   "@ + f64_text(b) }
/// a row per patch: number, similarity, and both time spans
pub open spec fn patches(r: SimilarityResult) -> Shown {
    Shown::Table { titles: seq!["Patch Idx"@, "Similarity"@, "Ref Patch: Start - End"@, "Deg Patch: Start - End"@],
        rows: Seq::new(r.patch_sims@.len(), |i: int| seq![int_text(i), f64_text(r.patch_sims@[i].similarity), span_text(r.patch_sims@[i].ref_patch_start_time, r.patch_sims@[i].ref_patch_end_time), span_text(r.patch_sims@[i].deg_patch_start_time, r.patch_sims@[i].deg_patch_end_time)]) }
}
/// what the console shows of one comparison
pub open spec fn report(verbose: bool, r: SimilarityResult, n: (Seq<char>, Seq<char>)) -> Seq<Shown> {
    let score = Shown::Line("MOS-LQO:\t\t"@ + f64_text(r.moslqo));
    if verbose { seq![Shown::Line("Reference Filepath:\t "@ + n.0), Shown::Line("Degraded Filepath:\t "@ + n.1), score, bands(r), patches(r)] } else { seq![score] }
}
pub open spec fn reports(verbose: bool, r: Seq<SimilarityResult>, n: Seq<(Seq<char>, Seq<char>)>, k: nat) -> Seq<Shown> decreases k { if k == 0 { Seq::empty() } else { reports(verbose, r, n, (k - 1) as nat) + report(verbose, r[k - 1], n[k - 1]) } }
pub open spec fn csv_cells(r: SimilarityResult, n: (Seq<char>, Seq<char>)) -> Seq<Seq<char>> { seq![n.0, n.1, csv_f64(r.moslqo)] }
/// tables with the same cells are the same
pub proof fn lemma_same_table(t: Shown)
    ensures t matches Shown::Table { titles, rows } ==> forall|u: Seq<Seq<char>>, v: Seq<Seq<Seq<char>>>| u =~= titles && v.len() == rows.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] =~= rows[i]) ==> #[trigger] shown_table(u, v) == t
{
    if let Shown::Table { titles, rows } = t {
        assert forall|u: Seq<Seq<char>>, v: Seq<Seq<Seq<char>>>| u =~= titles && v.len() == rows.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] =~= rows[i]) implies #[trigger] shown_table(u, v) == t by { assert(v =~= rows); }
    }
}
/// the results file: a header and a row per comparison
pub open spec fn csv_head() -> Seq<u8> { csv_row(44, seq!["reference"@, "degraded"@, "moslqo"@]) }
pub open spec fn csv_text(r: Seq<SimilarityResult>, n: Seq<(Seq<char>, Seq<char>)>, k: nat) -> Seq<u8> decreases k { if k == 0 { csv_head() } else { csv_text(r, n, (k - 1) as nat) + csv_row(44, csv_cells(r[k - 1], n[k - 1])) } }
/// the debug records of all comparisons
pub open spec fn json_text(r: Seq<SimilarityResult>, k: nat) -> Seq<char> decreases k { if k == 0 { Seq::empty() } else { (json_text(r, (k - 1) as nat) + json_of(r[k - 1])).push('\n') } }
pub open spec fn with_json(f: Map<Seq<char>, Seq<u8>>, p: Option<String>, r: Seq<SimilarityResult>) -> Map<Seq<char>, Seq<u8>> { match p { Some(p) => f.insert(p@, content(f, p@) + utf8(json_text(r, r.len()))), None => f } }
pub open spec fn with_csv(f: Map<Seq<char>, Seq<u8>>, p: Option<String>, r: Seq<SimilarityResult>, n: Seq<(Seq<char>, Seq<char>)>) -> Map<Seq<char>, Seq<u8>> { match p { Some(p) => f.insert(p@, csv_text(r, n, r.len())), None => f } }
/// everything the program shows and writes about its comparisons
pub open spec fn written(before: VxWorld, after: VxWorld, args: CommandLineArgs, r: Seq<SimilarityResult>, n: Seq<(Seq<char>, Seq<char>)>) -> bool {
    after.out() == before.out() + seq![Shown::Line("ViSQOL conformance version: "@ + build_constant("CARGO_PKG_VERSION"@))] + reports(args.verbose, r, n, r.len())
    && after.files() == with_csv(with_json(before.files(), args.output_debug, r), args.results_csv, r, n)
}
=== fn write_results
requires results@.len() == file_pairs@.len(),
ensures written(*old(vx_w), *final(vx_w), *args, results@, names(file_pairs@)),
--- start
let ghost (n, w0) = (names(file_pairs@), *vx_w);
--- loop 0
invariant vx_w.files() == with_csv(with_json(w0.files(), args.output_debug, results@), args.results_csv, results@, n),
  vx_w.out() =~= w0.out() + seq![Shown::Line("ViSQOL conformance version: "@ + build_constant("CARGO_PKG_VERSION"@))] + reports(args.verbose, results@, n, vx_i0 as nat),
=== fn write_to_console
ensures final(vx_w).out() =~= old(vx_w).out() + report(args.verbose, *result, (file_pair.reference@, file_pair.degraded@)), final(vx_w).files() == old(vx_w).files(),
=== fn write_debug_json
ensures final(vx_w).out() == old(vx_w).out(), final(vx_w).files() =~= old(vx_w).files().insert(json_output_path@, content(old(vx_w).files(), json_output_path@) + utf8(json_text(results@, results@.len()))),
--- start
proof { reveal_strlit("\n"); }
--- loop 0
invariant json_output@ =~= json_text(results@, vx_i0 as nat),
=== fn write_results_to_csv
requires results@.len() == file_pairs@.len(),
ensures final(vx_w).out() == old(vx_w).out(), final(vx_w).files() =~= old(vx_w).files().insert(csv_output_path@, csv_text(results@, names(file_pairs@), results@.len())),
--- start
let ghost (n, f0) = (names(file_pairs@), vx_w.files());
proof { assert(Seq::<u8>::empty() + csv_head() =~= csv_head()); let h = seq!["reference"@, "degraded"@, "moslqo"@]; assert(Seq::<Seq<char>>::empty().push(h[0]).push(h[1]).push(h[2]) =~= h); }
--- loop 0 start
proof { assert(content(vx_w.files(), csv_output_path@) == csv_text(results@, n, (vx_i0 - 1) as nat)); assert(n[vx_i0 - 1] == (file_pairs@[vx_i0 - 1].reference@, file_pairs@[vx_i0 - 1].degraded@)); }
--- loop 0 end
proof { let (i, r) = (vx_i0 - 1, csv_cells(results@[vx_i0 - 1], n[vx_i0 - 1])); assert(Seq::<Seq<char>>::empty().push(r[0]).push(r[1]).push(r[2]) =~= r); }
--- loop 0
invariant writer.at() == csv_output_path@, writer.sep() == 44, vx_w.out() == old(vx_w).out(), vx_w.files() =~= f0.insert(csv_output_path@, csv_text(results@, n, vx_i0 as nat)),
=== fn write_fvnsim_table
ensures final(vx_w).out() =~= old(vx_w).out().push(bands(*result)), final(vx_w).files() == old(vx_w).files(),
--- start
proof { lemma_same_table(bands(*result)); }
--- loop 0
invariant vx_w.out() == old(vx_w).out(), vx_w.files() == old(vx_w).files(), table.rows().len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] table.rows()[i] =~= seq![f64_text(result.fvnsim@[i]), f64_text(result.center_freq_bands@[i])],
=== fn write_patch_similarity
ensures final(vx_w).out() =~= old(vx_w).out().push(patches(*result)), final(vx_w).files() == old(vx_w).files(),
--- start
proof { lemma_same_table(patches(*result)); }
--- loop 0
invariant vx_w.out() == old(vx_w).out(), vx_w.files() == old(vx_w).files(), table.rows().len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] table.rows()[i] =~= seq![int_text(i), f64_text(result.patch_sims@[i].similarity), span_text(result.patch_sims@[i].ref_patch_start_time, result.patch_sims@[i].ref_patch_end_time), span_text(result.patch_sims@[i].deg_patch_start_time, result.patch_sims@[i].deg_patch_end_time)],
=== fn get_default_table_format
ensures true,
