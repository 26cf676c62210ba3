#source visqol-rs/src/constants.rs
#module constants
