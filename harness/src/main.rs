use harness::engine::*;
use harness::props;
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::exit;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn need(args: &[String], name: &str) -> String {
    arg(args, name).unwrap_or_else(|| {
        eprintln!("missing {name}");
        exit(2)
    })
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// exit codes: 0 held, 10 violated, 2 usage or other error
fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    let find = || {
        let id = need(&args, "--prop");
        props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            exit(2)
        })
    };
    match cmd {
        "list" => {
            for p in props::all() {
                let modes: Vec<String> = p
                    .modes
                    .iter()
                    .map(|m| {
                        format!(
                            "{{\"name\":{},\"quick\":{},\"thorough\":{},\"profiles\":{}}}",
                            json_str(m.name), m.quick, m.thorough, json_str(m.profiles)
                        )
                    })
                    .collect();
                println!("{{\"id\":\"{}\",\"rule\":{},\"modes\":[{}]}}", p.id, json_str(p.rule), modes.join(","));
            }
        }
        "run" => run(find(), &args),
        // number of different hashes in the files
        "distinct" => {
            let mut v: Vec<u64> = Vec::new();
            for f in &args[2..] {
                let data = std::fs::read(f).unwrap();
                v.extend(data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        // decode one case of the plan and print its choices
        "emit" => {
            let p = find();
            let profile = need(&args, "--profile");
            let seed: u64 = need(&args, "--seed").parse().unwrap();
            let mode: u8 = need(&args, "--mode").parse().unwrap();
            let ord: u64 = need(&args, "--ord").parse().unwrap();
            let mut s = Src::random(header(mode, ord), case_seed(seed, p.id, &profile, mode, ord));
            (p.drive)(&mut s, &mut Cx::default(), Phase::Decode);
            println!("{}", hex(&s.buf));
        }
        // run one case from hex choices in a file
        "exec" => {
            let p = find();
            let buf = unhex(&fs::read_to_string(need(&args, "--file")).expect("read choices"));
            let mut s = Src::replay(buf);
            if args.iter().any(|a| a == "--show") {
                let o = (p.drive)(&mut s, &mut Cx::default(), Phase::Decode);
                println!("{}", clip(&o.shown, 20000));
                return;
            }
            let o = (p.drive)(&mut s, &mut Cx::default(), Phase::Run);
            if let Err(m) = o.result {
                println!("{}", clip(&m, 4000));
                exit(10);
            }
        }
        _ => {
            eprintln!("usage: harness list | run | emit | exec");
            exit(2)
        }
    }
}

fn run(p: &Prop, args: &[String]) {
    let profile = need(args, "--profile");
    let tier = need(args, "--tier");
    let seed: u64 = need(args, "--seed").parse().unwrap();
    let shard: u64 = need(args, "--shard").parse().unwrap();
    let shards: u64 = need(args, "--shards").parse().unwrap();
    let out = need(args, "--out");
    let journal = File::create(format!("{out}.journal")).expect("journal");
    let scale: f64 = arg(args, "--scale").map(|s| s.parse().unwrap()).unwrap_or(1.0);

    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut per_mode: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: Vec<u8> = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let mut notes: Vec<String> = Vec::new();
    let mut failure = None;
    let mut global = 0u64;
    'all: for (m, n) in plan(p, &profile, &tier) {
        let n = if n > 64 { (n as f64 * scale).ceil() as u64 } else { n };
        for ord in 0..n {
            global += 1;
            if (global - 1) % shards != shard {
                continue;
            }
            let _ = journal.write_all_at(format!("{:>3} {:>20}\n", m.code, ord).as_bytes(), 0);
            let mut s = Src::random(header(m.code, ord), case_seed(seed, p.id, &profile, m.code, ord));
            let mut cx = Cx::default();
            let o = (p.drive)(&mut s, &mut cx, Phase::Run);
            evals += 1;
            *per_mode.entry(m.name).or_insert(0) += 1;
            for (k, v) in cx.classes {
                *classes.entry(k).or_insert(0) += v;
            }
            for x in cx.notes {
                if notes.len() < 10 {
                    notes.push(x);
                }
            }
            if cx.nontrivial {
                nontrivial += 1;
                hashes.extend_from_slice(&fnv(o.shown.as_bytes()).to_le_bytes());
                if shard == 0 && o.shown.len() < 1500 && (samples.len() < 3 || (evals % 97 == 0 && samples.len() < 5)) {
                    samples.push(format!("[{}] {}", m.name, clip(&o.shown, 700)));
                }
            }
            if let Err(msg) = o.result {
                failure = Some((global, m, ord, s.buf.clone(), msg));
                break 'all;
            }
        }
    }
    let map = |x: &BTreeMap<&'static str, u64>| {
        x.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
    };
    let list = |x: &[String]| x.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    let fail = match &failure {
        None => "null".to_string(),
        Some((g, m, ord, buf, msg)) => format!(
            "{{\"global\":{g},\"mode\":{},\"ord\":{ord},\"choices\":\"{}\",\"message\":{}}}",
            json_str(m.name), hex(buf), json_str(&clip(msg, 4000))
        ),
    };
    fs::write(format!("{out}.hashes"), &hashes).expect("hashes");
    let mut f = File::create(&out).expect("out");
    writeln!(
        f,
        "{{\"evaluations\":{evals},\"nontrivial\":{nontrivial},\"classes\":{{{}}},\"modes\":{{{}}},\"samples\":[{}],\"notes\":[{}],\"failure\":{fail}}}",
        map(&classes), map(&per_mode), list(&samples), list(&notes)
    )
    .expect("out");
    exit(if failure.is_some() { 10 } else { 0 });
}
