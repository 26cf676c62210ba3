#source visqol-rs/src/visqol_error.rs
#module visqol_error
