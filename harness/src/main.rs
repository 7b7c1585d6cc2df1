//! Property-based checks for relaxng-rust. See /verif/DESIGN.md.
#![allow(clippy::too_many_arguments, dead_code)]

mod ast;
mod budget;
mod doc;
mod fault;
mod dt;
mod dtgen;
mod oracle;
mod props;
mod rnc;
mod rng;
mod runner;
mod schemagen;
mod split;
mod sut;
mod tape;
mod ucd;

use std::path::Path;

#[global_allocator]
static ALLOC: budget::Counting = budget::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| -> &'static runner::Prop {
        props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        })
    };
    let code = match &a[1..] {
        ["check", id] => runner::check(find(id)),
        ["worker", id, shard, cases, seed, tier, dir] => runner::worker(
            find(id),
            shard.parse().unwrap(),
            cases.parse().unwrap(),
            seed.parse().unwrap(),
            *tier == "thorough",
            Path::new(dir),
        ),
        ["one", id, spec, out] => {
            let tape = if *spec == "fixed" {
                None
            } else {
                Some(runner::tape_from_str(&std::fs::read_to_string(spec).unwrap()))
            };
            runner::one(find(id), tape, Path::new(out))
        }
        ["replay", file] => runner::replay(props::PROPS, Path::new(file)),
        ["list"] => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        ["deep", case, n] => {
            props::c09::deep(case.parse().unwrap(), n.parse().unwrap());
            0
        }
        // try <schema file> <document text...>: verdicts of the library, for experiments
        ["try", schema, docs @ ..] => {
            let text = std::fs::read_to_string(schema).unwrap();
            let syn = if schema.ends_with(".rng") { sut::Syn::Rng } else { sut::Syn::Rnc };
            match sut::compile(vec![(format!("main.{}", syn.ext()), text)], syn) {
                Err(e) => println!("schema error: {} {e:?}", sut::variant(&e)),
                Ok(s) => {
                    for d in docs {
                        println!("{d:?}: {}", sut::validate(&s, d).short());
                        if let Some(g) = sut::first_diag(&s, d) {
                            println!("{}", g.rendered);
                        }
                    }
                }
            }
            0
        }
        // leak <schema file> <doc>: memory kept after compiling, validating and dropping everything
        ["leak", schema, doc] => {
            let text = std::fs::read_to_string(schema).unwrap();
            let syn = if schema.ends_with(".rng") { sut::Syn::Rng } else { sut::Syn::Rnc };
            for _ in 0..3 {
                let f = vec![(format!("main.{}", syn.ext()), text.clone())];
                let a = budget::live();
                let s = sut::compile(f, syn);
                let b = budget::live();
                if let Ok(s) = &s {
                    println!("{}", sut::validate(s, doc).short());
                }
                let c = budget::live();
                drop(s);
                println!("compiled {} validated {} dropped {}", b - a, c - a, budget::live() - a);
            }
            0
        }
        _ => {
            eprintln!("usage: rngverif check <ID> | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}
