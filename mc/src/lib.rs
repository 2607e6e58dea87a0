#![feature(alloc_error_hook)]
pub mod archive;
pub mod cli;
pub mod backends;
pub mod corpus;
pub mod fault;
pub mod world;
pub mod batch;
pub mod enumr;
pub mod num;
pub mod oracle;
pub mod props;
pub mod report;
pub mod run;
pub mod simd;
pub mod wasm;
