#source visqol-rs/src/variant.rs
#module variant
