use crate::kit::run::Ctx;

pub struct Prop {
    pub id: &'static str,
    pub shards: u64,
    pub run: fn(&mut Ctx),
}

mod fam;
mod iofam;
mod assembly;
mod json;
mod lines;
mod plain;
mod describe;
mod cli;
mod faults;
mod rdf;
mod reuse;
mod selectors;
mod smithy;
pub mod ids;
mod actions;
mod builder;
mod collections;
pub mod merging;

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", shards: 8, run: ids::grammar },
        Prop { id: "C02", shards: 4, run: ids::equality },
        Prop { id: "C03", shards: 8, run: collections::run },
        Prop { id: "C04", shards: 4, run: merging::metadata },
        Prop { id: "C05", shards: 8, run: merging::shapes },
        Prop { id: "C06", shards: 8, run: merging::apply },
        Prop { id: "C07", shards: 8, run: merging::order },
        Prop { id: "C08", shards: 4, run: merging::complete },
        Prop { id: "C09", shards: 8, run: builder::resolution },
        Prop { id: "C10", shards: 8, run: builder::content },
        Prop { id: "C11", shards: 8, run: json::roundtrip },
        Prop { id: "C12", shards: 8, run: json::conform },
        Prop { id: "C13", shards: 8, run: json::total },
        Prop { id: "C14", shards: 8, run: smithy::parse },
        Prop { id: "C15", shards: 8, run: smithy::written_back },
        Prop { id: "C16", shards: 8, run: smithy::layouts },
        Prop { id: "C17", shards: 8, run: smithy::damaged },
        Prop { id: "C18", shards: 8, run: lines::canonical },
        Prop { id: "C19", shards: 8, run: assembly::paths },
        Prop { id: "C20", shards: 8, run: assembly::discovery },
        Prop { id: "C21", shards: 8, run: actions::type_refs },
        Prop { id: "C22", shards: 8, run: actions::lint },
        Prop { id: "C23", shards: 4, run: actions::runner },
        Prop { id: "C24", shards: 4, run: actions::walk },
        Prop { id: "C25", shards: 8, run: rdf::urns },
        Prop { id: "C26", shards: 8, run: rdf::graph },
        Prop { id: "C27", shards: 8, run: selectors::text },
        Prop { id: "C28", shards: 4, run: selectors::by_type },
        Prop { id: "C29", shards: 8, run: describe::graphml },
        Prop { id: "C30", shards: 8, run: describe::plant_uml },
        Prop { id: "C31", shards: 8, run: describe::documentation },
        Prop { id: "C32", shards: 8, run: faults::run },
        Prop { id: "C33", shards: 8, run: cli::run },
        Prop { id: "C35", shards: 8, run: reuse::equality },
        Prop { id: "C36", shards: 8, run: reuse::reuse },
        Prop { id: "C37", shards: 8, run: plain::run },
        Prop { id: "C34", shards: 4, run: selectors::builders },
    ]
}

pub fn helper(_a: &[String]) {}
