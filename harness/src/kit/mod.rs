pub mod bfs;
pub mod doc;
pub mod gen;
pub mod idl;
pub mod json;
pub mod order;
pub mod run;
pub mod sys;
pub mod spec;
