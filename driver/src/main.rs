#![feature(rustc_private)]
#![allow(dead_code, unused_variables)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod batch;
mod blocks;
mod astc;
mod pvrtc;
mod bptc;
mod crunch;
mod equal;
mod guard;
mod linear;
mod image;
mod python;
mod interp;
mod job;
mod intrin;
mod lower;
mod node;
mod report;
mod spec;
mod stage;
mod wide;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Plain;
impl Callbacks for Plain {}
struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(j) = std::env::var("JOB") {
            match j.as_str() {
                "blocks-panic" => blocks::simple_panic(tcx),
                "blocks-value" => blocks::simple_value(tcx),
                "blocks-footprint" => blocks::simple_footprint(tcx),
                "guards" => guard::guards(tcx),
                "bptc" => bptc::bptc(tcx),
                "pvrtc" => pvrtc::pvrtc(tcx),
                "crunch" => crunch::crunch(tcx, false),
                "unity" => crunch::crunch(tcx, true),
                "crunch-info" => crunch::info(tcx),
                "python" => python::python(tcx),
                "astc" => astc::astc(tcx, "all"),
                "astc-blocks" => astc::astc(tcx, "blocks"),
                "astc-special" => astc::astc(tcx, "special"),
                "image-wide" => wide::wide(tcx),
                "image-guard" => image::simple_images(tcx, "guard"),
                "image-bounds" => image::simple_images(tcx, "bounds"),
                "image-placement" => image::simple_images(tcx, "placement"),
                _ => println!("@OB\tjob\t{j}\tundecided\tno such job"),
            }
            println!("@END");
        } else if std::env::var("PROBE").is_ok() {
            probe(tcx);
        } else {
            blocks::probe_simple(tcx);
        }
        Compilation::Stop
    }
}

fn probe(tcx: TyCtxt<'_>) {
    use interp::*;
    use node::*;
    let want = std::env::var("PROBE").unwrap_or_default();
    let mut found = None;
    for d in tcx.hir_body_owners() {
        if tcx.def_path_str(d.to_def_id()) == want {
            found = Some(d);
        }
    }
    let d = match found {
        Some(d) => d,
        None => {
            for d in tcx.hir_body_owners() {
                println!("{}", tcx.def_path_str(d.to_def_id()));
            }
            return;
        }
    };
    let t0 = std::time::Instant::now();
    let mut it = Interp::new(tcx);
    it.trace = std::env::var("TRACE").is_ok();
    let inst = rustc_middle::ty::Instance::mono(tcx, d.to_def_id());
    let id = it.lw.inst_id(inst);
    let nb: u32 = std::env::var("NB").ok().and_then(|x| x.parse().ok()).unwrap_or(16);
    let mut cells = vec![];
    for i in 0..nb {
        cells.push((i, 1u8, Val::Sc(input(&format!("d{i}"), 8))));
    }
    let len = sym("len", nb as i128, (1i128 << 47) - 1);
    let data = Alloc { size: len, cells, kind: AK::Exact, name: "data".into() };
    let mut cells = vec![];
    for i in 0..16u32 {
        cells.push((i * 4, 4u8, Val::Sc(input(&format!("old{i}"), 32))));
    }
    let olen = sym("olen", 16, (1i128 << 45) - 1);
    let out = Alloc { size: mulc(olen, 4), cells, kind: AK::Exact, name: "outbuf".into() };
    let mut st = State { frames: vec![], ext: vec![data.into(), out.into()], pc: vec![], refine: Default::default(), events: Default::default(), tag: 0 };
    let mut args = vec![
        V::Pair(Val::Ptr(Ptr { a: A::Ext(0), off: cst(0) }), Val::Sc(len)),
        V::Pair(Val::Ptr(Ptr { a: A::Ext(1), off: cst(0) }), Val::Sc(olen)),
    ];
    if let Ok(x) = std::env::var("ARG3") {
        args.push(sc(cst(x.parse().unwrap())));
    }
    if it.push_call(&mut st, id, args, None, 0, "entry".into()).is_err() {
        println!("cannot enter");
        return;
    }
    let done = it.run(st);
    println!("done states {} issues {} steps {} joins {} forks {} asserts {} nodes {} time {:?}", done.len(), it.issues.len(), it.steps, it.joins, it.forks, it.asserts_ok, g().kinds.len(), t0.elapsed());
    for i in &it.issues {
        println!("{i:?}");
    }
    let fin = it.join_done(done);
    println!("final {}", fin.len());
    if let Some(s) = fin.first() {
        for c in s.ext[1].cells.iter().take(3) {
            if let Val::Sc(n) = c.2 {
                let n = wrap(n, 32, false);
                for ch in 0..4 {
                    println!("  @{} ch{} {}", c.0, ch, show(slice(n, ch * 8, 8)));
                }
            }
        }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a compiler wrapper: analyse the named crate, compile the others
    if let Ok(c) = std::env::var("WRAP_CRATE") {
        args.remove(1);
        let named = args.windows(2).any(|a| a[0] == "--crate-name" && a[1] == c);
        if !named {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
            return;
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
