#source visqol-rs/src/wav_reader.rs
#module wav_reader
=== prelude
use crate::visqol_error::VisqolError;
/// mathematical view of a decoded file
pub struct Wav { pub channels: u16, pub rate: u32, pub samples: Seq<i16> }
impl View for WavFile { type V = Wav; open spec fn view(&self) -> Wav { Wav { channels: self.num_channels, rate: self.sample_rate, samples: self.samples@ } } }
pub open spec fn as_i16s(s: Seq<i32>) -> Seq<i16> { s.map_values(|x: i32| x as i16) }
/// what opening a path yields: an error if the file cannot be opened, is not
/// 16 bit or has an unreadable sample, otherwise all of its samples
pub open spec fn wav_of(path: Seq<char>) -> Result<Wav, VxError> {
    match wav_open(path) {
        Err(e) => Err(VxError::Hound(e)),
        Ok(rd) => if rd.wspec().bits_per_sample != 16 { Err(VxError::Visqol(VisqolError::InvalidBitsPerSample { bits_per_sample: rd.wspec().bits_per_sample })) }
            else { match rd.wsamples() { Err(e) => Err(VxError::Hound(e)), Ok(s) => Ok(Wav { channels: rd.wspec().channels, rate: rd.wspec().sample_rate, samples: as_i16s(s) }) } },
    }
}
/// hound refuses files without channels and files whose last frame is incomplete
pub axiom fn ax_wav(path: Seq<char>) ensures wav_of(path).is_ok() ==> wav_of(path)->Ok_0.channels > 0 && wav_of(path)->Ok_0.samples.len() % (wav_of(path)->Ok_0.channels as nat) == 0;
=== fn WavFile::open
ensures match wav_of(file_path@) { Ok(w) => r.is_ok() && r->Ok_0@ == w, Err(e) => r.is_err() && r->Err_0 == e },
--- loop 0
invariant vx_c0@ == as_i16s(samples@.subrange(0, vx_i0 as int)),
--- loop 0 end
proof { assert(as_i16s(samples@.subrange(0, vx_i0 as int)) =~= as_i16s(samples@.subrange(0, vx_i0 - 1)).push(samples@[vx_i0 - 1] as i16)); }
--- loop 0 after
proof { assert(samples@.subrange(0, vx_i0 as int) =~= samples@); }
