//! The text the printers produce for given expressions.
use crate::util::*;
use crate::{ast, hooks, num};
use doodle::FormatModule;
use serde_json::{Value as J, json};
use std::io::{BufRead, Write};

pub fn main(args: &[String]) {
    let rep = Report::new();
    let m = FormatModule::new();
    let input = std::io::BufReader::new(std::fs::File::open(opt(args, "--in").unwrap()).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(opt(args, "--out").unwrap()).unwrap());
    for line in input.lines() {
        let j: J = serde_json::from_str(&line.unwrap()).unwrap();
        let text = guard(|| {
            if j["num"] == true {
                hooks::show_num_expr(&num::tree(&j["e"]))
            } else {
                hooks::show_expr(&m, &ast::expr(&j["e"]))
            }
        });
        rep.count("texts", 1);
        match text {
            Ok(t) => writeln!(out, "{}", json!(t)).unwrap(),
            Err(e) => {
                rep.mismatch(json!({"kind": "panic", "e": j["e"], "message": e}));
                writeln!(out, "null").unwrap();
            }
        }
    }
    rep.finish();
}
