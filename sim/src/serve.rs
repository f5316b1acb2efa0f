//! Answers questions of the page simulator (page/main.mjs) over stdin and
//! stdout: cases from seeds, and what the native library says about a text.
use crate::common::budget;
use crate::fw::{self, Prop};
use crate::jobj;
use crate::json::J;
use crate::rt;
use crate::sut::{self, Mode, Out};
use std::io::{BufRead, Write};

fn reference(t: &str) -> J {
    rt::reset_run(budget(t.len()));
    let o = sut::on_thread(1, || sut::Session::new().submit_fmt(t, Mode::Script, false));
    let (e, _) = rt::edge_signature();
    let mut j = match o {
        Out::Tree(t, _) => jobj! {"tree": t},
        Out::Rejected(d) => jobj! {"diags": J::Arr(d.iter().map(|d| jobj! {
            "line": d.line, "col": d.col, "msg": d.msg.as_str(),
            "token": match &d.token { Some(t) => J::from(t.as_str()), None => J::Null },
            "quoted": match &d.token { Some(t) => J::from(format!("{t:?}")), None => J::Null },
        }).collect())},
        Out::Panic(m) => jobj! {"panic": m},
    };
    j.set("edges", J::from(format!("{e:016x}")));
    j
}

pub fn serve(all: &[Prop]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    // First uses in a process take other paths.
    sut::on_thread(1, || sut::once("print 1\n", Mode::Script));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return 2 };
        let Ok(j) = J::parse(&l) else { return 2 };
        let a = match j.s("q") {
            Ok("case") => {
                let (Ok(id), Ok(seed), Ok(i)) = (j.s("id"), j.s("seed"), j.i("i")) else { return 2 };
                let (Some(p), Ok(seed)) = (all.iter().find(|p| p.id == id), seed.parse()) else { return 2 };
                fw::make_case(p, seed, i as u64)
            }
            Ok("refs") => match j.strs("texts") {
                Ok(v) => J::Arr(v.iter().map(|t| reference(t)).collect()),
                Err(_) => return 2,
            },
            _ => return 2,
        };
        if out.write_all((a.text() + "\n").as_bytes()).and_then(|_| out.flush()).is_err() { return 2 }
    }
    0
}
