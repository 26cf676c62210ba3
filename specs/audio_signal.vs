#source visqol-rs/src/audio_signal.rs
#module audio_signal
=== prelude
pub open spec fn duration_of(n: int, rate: u32) -> f64 { fdiv(i2f(n), i2f(rate as int)) }
=== fn AudioSignal::new
ensures r.data_matrix@ == data_matrix@, r.sample_rate == sample_rate,
=== fn AudioSignal::get_duration
ensures r == duration_of(self.data_matrix@.len() as int, self.sample_rate),
=== fn AudioSignal::len
ensures r == self.data_matrix@.len(), r <= isize::MAX,
=== fn AudioSignal::is_empty
ensures r == (self.data_matrix@.len() == 0),
