pub mod build;
pub mod config;
pub mod errors;
pub mod json;
pub mod model;
pub mod smooth;
pub mod state;
pub mod symmetry;
pub mod time;
pub mod tle;
pub mod total;
