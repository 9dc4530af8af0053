mod blobs;
mod codec;
mod conc;
mod filestore;
mod gen;
mod heap;
mod interp;
mod mirror;
mod op;
mod run;
mod sched;
mod store;
mod stored;
mod sys;
mod util;
mod vectors;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map(|x| x.parse().unwrap()).unwrap_or(d)
}

/// prints the events of one execution as they happen
fn tell(kind: &str, x: &str) {
    use std::io::Write;
    let mut o = std::io::stdout().lock();
    if kind == "begin" {
        writeln!(o, "begin {{{x}}}").unwrap();
    } else {
        writeln!(o, "end {x}").unwrap();
    }
    o.flush().unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        // many generated executions
        "many" => run::many(
            &arg("--profile").unwrap(),
            num("--seed", 1),
            num("--count", 1000),
            num("--seconds", 60),
            num("--sample", 100),
            &arg("--out").unwrap(),
        ),
        "chain" => {
            let e = run::chain(num("--n", 100) as usize, num("--seed", 1), &mut tell);
            println!("{}", run::short_line(&e, "chain", num("--seed", 1)));
        }
        "deep" => run::deep(num("--n", 1000) as usize),
        "vectors" => vectors::replay(&vectors::Args {
            kind: arg("--kind").unwrap(),
            file: arg("--file").unwrap(),
            universe: arg("--universe").unwrap(),
            seed: num("--seed", 1),
            reps: num("--reps", 2) as usize,
            eq: num("--eq", 0) == 1,
            det_only: num("--detonly", 0) == 1,
            att_only: num("--attonly", 0) == 1,
            out: arg("--out").unwrap(),
        }),
        // many executions of blob stores
        "stores" => filestore::many(
            &arg("--profile").unwrap(),
            num("--seed", 1),
            num("--count", 1000),
            num("--seconds", 60),
            num("--sample", 100),
            arg("--plans").map(|f| (f, num("--ps", 16))),
            &arg("--out").unwrap(),
        ),
        "giant" => println!("{}", filestore::giant()),
        "store" => {
            use std::io::Write;
            if let Some(p) = arg("--plan") {
                let j: serde_json::Value = serde_json::from_str(&p).unwrap();
                let ints = |x: &serde_json::Value| x.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<i64>>();
                let d = filestore::plan(&arg("--profile").unwrap(), num("--ps", 16), &ints(&j["ops"]), &ints(&j["ids"]), num("--traceseed", 1));
                println!("{}", d.line);
                return;
            }
            let d = filestore::generate(&arg("--profile").unwrap(), num("--traceseed", 1), &mut |e| {
                println!("{e}");
                std::io::stdout().flush().unwrap();
            });
            println!("{}", d.line);
        }
        // executions of one tree on one store, with its calls to the store
        "storeds" => stored::many(
            &arg("--profile").unwrap(),
            num("--seed", 1),
            num("--count", 1000),
            num("--seconds", 60),
            arg("--plans"),
            &arg("--out").unwrap(),
        ),
        "stored" => {
            let (p, s) = (arg("--profile").unwrap(), num("--traceseed", 1));
            let d = match arg("--plan") {
                Some(j) => stored::plan(&p, s, &serde_json::from_str(&j).unwrap(), &mut tell),
                None => stored::generate(&p, s, &mut tell),
            };
            println!("{}", d.line);
        }
        // executions with several threads
        "conc" => conc::many(
            "concshard",
            &arg("--what").unwrap(),
            num("--seed", 1),
            num("--count", 1000),
            num("--seconds", 60),
            num("--sample", 100),
            &arg("--out").unwrap(),
        ),
        "concshard" => conc::shard(
            &arg("--what").unwrap(),
            num("--seed", 1),
            num("--shard", 0),
            num("--shards", 1),
            num("--count", 1000),
            num("--seconds", 60),
            num("--sample", 100),
            &arg("--out").unwrap(),
        ),
        // executions whose use of memory is observed
        "heap" => conc::many(
            "heapshard",
            &arg("--what").unwrap(),
            num("--seed", 1),
            num("--count", 1000),
            num("--seconds", 60),
            num("--sample", 100),
            &arg("--out").unwrap(),
        ),
        "heapshard" => heap::shard(
            &arg("--what").unwrap(),
            num("--seed", 1),
            num("--shard", 0),
            num("--shards", 1),
            num("--count", 1000),
            num("--seconds", 60),
            num("--sample", 100),
            &arg("--out").unwrap(),
        ),
        "blobs" => blobs::many(num("--seed", 1), num("--count", 1000), num("--seconds", 60), &arg("--out").unwrap()),
        "blob" => {
            blobs::PRINT.store(true, std::sync::atomic::Ordering::Relaxed);
            println!("{}", blobs::generate(num("--traceseed", 1), &mut |_| {}));
        }
        "heaptrial" => {
            heap::init();
            for i in 0..20 {
                heap::trial(&arg("--what").unwrap(), run::trace_seed(0x5a5b, i), false);
            }
            println!("{}", heap::trial(&arg("--what").unwrap(), num("--traceseed", 1), true).line);
        }
        "conctrial" => {
            for l in conc::trial(&arg("--what").unwrap(), num("--traceseed", 1)).lines {
                println!("{l}");
            }
        }
        // one generated execution, event by event
        "one" => {
            run::generate(&arg("--profile").unwrap(), num("--traceseed", 1), &mut tell);
        }
        // the operations of a recorded line
        "replay" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(arg("--file").unwrap()).unwrap()).unwrap();
            let ops: Vec<op::Op> = j["ops"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| op::Op::parse(&serde_json::from_str(x.as_str().unwrap()).unwrap()))
                .collect();
            let e = run::execute(gen::Setup::parse(&j["setup"]), &ops, &mut |_, _| {});
            println!("{}", run::line(&e, j["profile"].as_str().unwrap_or(""), 0));
        }
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
}
