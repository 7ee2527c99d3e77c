//! Bounded exhaustive exploration of ethnum against a reference model.
pub mod alpha;
pub mod api;
pub mod float;
pub mod run;
pub mod text;
pub mod z;
pub use ethnum::{AsI256, AsU256, I256, U256};
pub use run::{Val, pair, show1, show2, space, Env, Space, L};
pub use z::{zdiv_trunc, Int, Z};
pub mod tok;
