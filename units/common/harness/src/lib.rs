#![allow(unexpected_cfgs)]
pub mod table;
pub mod time;
pub mod types;
pub mod scalars;
pub mod ops;
pub mod api;
