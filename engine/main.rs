// yamlint: a rustc driver that runs a path-partitioned abstract interpretation over the MIR of
// the crate being compiled, and prints per-entry-point abstract traces as JSON.
// It never executes the analysed program.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod interp;
mod json;
mod structure;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

pub struct Config {
    pub entries: Vec<String>,
    pub opaque: Vec<String>,
    pub out: String,
    pub max_paths: usize,
    pub structure: bool,
    pub dump: Option<String>,
    pub list: bool,
}

fn read_config() -> Option<Vec<Config>> {
    let p = std::env::var("YAMLINT_CONFIG").ok()?;
    let text = std::fs::read_to_string(&p).expect("config");
    let new = || Config { entries: vec![], opaque: vec![], out: String::new(), max_paths: 20000, structure: false, dump: None, list: false };
    let mut groups = vec![];
    let mut c = new();
    for line in text.lines() {
        let (k, v) = match line.split_once('\t') { Some(x) => x, None => continue };
        match k {
            "entry" => c.entries.push(v.to_string()),
            "opaque" => c.opaque.push(v.to_string()),
            "out" => c.out = v.to_string(),
            "max_paths" => c.max_paths = v.parse().unwrap(),
            "structure" => c.structure = true,
            "dump" => c.dump = Some(v.to_string()),
            "list" => c.list = true,
            "end" => groups.push(std::mem::replace(&mut c, new())),
            _ => {}
        }
    }
    if !c.out.is_empty() { groups.push(c); }
    Some(groups)
}

struct Cb { cfg: Option<Vec<Config>>, crate_name: String }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(cfg) = &self.cfg {
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            if name == self.crate_name {
                for c in cfg { interp::run(tcx, c); }
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode { rustc_driver::catch_with_exit_code(|| real_main()) }
fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    args.extend(["-Zmir-opt-level=0", "-Zub-checks=no", "-Coverflow-checks=on", "-Cdebug-assertions=off", "--cap-lints", "allow"].iter().map(|s| s.to_string()));
    let crate_name = std::env::var("YAMLINT_CRATE").unwrap_or_else(|_| "serde_yaml".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == crate_name);
    let mut cb = Cb { cfg: if is_target { read_config() } else { None }, crate_name };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
