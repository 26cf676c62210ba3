#source visqol/src/command_line_utils.rs
#module command_line_utils
=== prelude
use crate::cli::*;
use crate::path_pair::names;
/// the batch file is read with its first line as header, fields separated by commas
pub open spec fn batch(path: Seq<char>) -> Result<Seq<Result<Seq<Seq<char>>, VxError>>, VxError> { csv_file(path, ReaderBuilder { headers: true, sep: 44, uneven: false, remark: None }) }
/// every row names two files
pub open spec fn rows_ok(v: Seq<Result<Seq<Seq<char>>, VxError>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Ok && v[i]->Ok_0.len() >= 2 }
pub open spec fn rows_of(v: Seq<Result<Seq<Seq<char>>, VxError>>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i]->Ok_0[0], v[i]->Ok_0[1])) }
/// the pairs a batch file lists, in order; none when it cannot be read
pub open spec fn listed(path: Seq<char>) -> Option<Seq<(Seq<char>, Seq<char>)>> { match batch(path) { Ok(v) => if rows_ok(v) { Some(rows_of(v)) } else { None }, Err(e) => None } }
impl CommandLineArgs {
    /// either both recordings or a batch file (enforced by the option parser)
    pub open spec fn sound(self) -> bool { self.reference_file.is_some() == self.degraded_file.is_some() && self.batch_input_csv.is_some() == self.reference_file.is_none() }
    /// the options carry what was typed after them, and their documented defaults
    pub open spec fn faithful(self) -> bool {
        text_of(self.reference_file) == typed_text("reference_file"@) && text_of(self.degraded_file) == typed_text("degraded_file"@) && text_of(self.batch_input_csv) == typed_text("batch_input_csv"@)
        && text_of(self.results_csv) == typed_text("results_csv"@) && text_of(self.output_debug) == typed_text("output_debug"@) && self.verbose == typed_flag("verbose"@)
        && self.search_window_radius == match typed_text("search_window_radius"@) { Some(t) => number(t), None => 60 }
        && match self.subcommand {
            Subcommands::Wideband { use_unscaled_speech_mos_mapping } => typed_command() == "wideband"@ && use_unscaled_speech_mos_mapping == typed_flag("use_unscaled_speech_mos_mapping"@),
            Subcommands::Fullband { similarity_to_quality_model } => typed_command() == "fullband"@ && similarity_to_quality_model@ == match typed_text("similarity_to_quality_model"@) { Some(t) => t, None => "./model/libsvm_nu_svr_model.txt"@ },
        }
    }
    /// the pairs asked for
    pub open spec fn wanted(self) -> Option<Seq<(Seq<char>, Seq<char>)>> {
        if self.reference_file.is_some() { Some(seq![(self.reference_file->Some_0@, self.degraded_file->Some_0@)]) } else { listed(self.batch_input_csv->Some_0@) }
    }
    #[verifier::external_body]
    pub fn parse() -> (r: CommandLineArgs) ensures r == given_args(), r.vx_rules(), r.vx_typed() { unimplemented!() }
}
pub open spec fn text_of(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
/// the options the program was started with
pub uninterp spec fn given_args() -> CommandLineArgs;
=== fn build_file_pair_paths
requires args.sound(),
ensures r is Ok == args.wanted().is_some(), r is Ok ==> names(r->Ok_0@) =~= args.wanted()->Some_0,
=== fn read_files_to_compare
--- attr
#[verifier::allow_complex_invariants]
--- spec
ensures r is Ok == listed(batch_input_path@).is_some(), r is Ok ==> names(r->Ok_0@) =~= listed(batch_input_path@)->Some_0,
--- start
proof { reveal_strlit("reference"); reveal_strlit("degraded"); assert("reference"@.len() == 9 && "degraded"@.len() == 8); }
let ghost v = batch(batch_input_path@)->Ok_0;
--- loop 0 start
proof {
  let (k, h) = (file_paths@.len() as int, Some(&header));
  assert(k < v.len() ==> v.skip(k)[0] == v[k] && v.skip(k).skip(1) =~= v.skip(k + 1));
  assert(named(h, 0, "reference"@, 0) && named(h, 1, "degraded"@, 1) && !named(h, 1, "reference"@, 0) && !named(h, 0, "degraded"@, 1));
}
--- loop 0
invariant file_paths@.len() <= v.len(), batch(batch_input_path@) is Ok, reader.rest() == v.skip(file_paths@.len() as int),
  header@.len() == 2, header@[0] == "reference"@, header@[1] == "degraded"@,
  forall|i: int| 0 <= i < file_paths@.len() ==> (#[trigger] v[i]) is Ok && v[i]->Ok_0.len() >= 2 && file_paths@[i].reference@ == v[i]->Ok_0[0] && file_paths@[i].degraded@ == v[i]->Ok_0[1],
ensures file_paths@.len() == v.len(),
decreases reader.rest().len(),
