//! mc: model checks of dbml-rs by exhaustive enumeration of documents. See /verif/DESIGN.md.
mod dump;
mod cost;
mod explore;
mod gen;
mod mirror;
mod oracle;
mod print;
mod props;
mod real;
mod refparse;
mod refsem;

use explore::*;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// how long one call may take; C24 has longer inputs
fn hang_s(prop: &str) -> u64 {
  if prop == "C24" {
    100
  } else {
    30
  }
}

fn root() -> PathBuf {
  std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or("/verif".into())
}
fn tier() -> &'static str {
  if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
    "thorough"
  } else {
    "quick"
  }
}

pub fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn replay_file(prop: &str, f: &Fail) -> PathBuf {
  let p = root().join(format!("evidence/{prop}.replay"));
  let _ = std::fs::create_dir_all(p.parent().unwrap());
  let ch: Vec<_> = f.choices.iter().map(|c| c.to_string()).collect();
  let text = format!(
    "property: {prop}\ntier: {}\nspace: {}\nchoices: {}\ndeviations: {}\nmessage: {}\nreplay with: /verif/check replay <this file>\n--- input\n{}",
    tier(),
    f.space,
    ch.join(","),
    f.dev,
    f.msg.replace('\n', " "),
    f.text
  );
  let _ = std::fs::write(&p, text);
  p
}

/// known_findings.txt: "known: property=<id> input=<hash of the input> <what fails>"
fn known(prop: &str) -> Vec<(String, String)> {
  let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
  text
    .lines()
    .filter_map(|l| {
      let r = l.strip_prefix("known: property=")?.strip_prefix(prop)?.strip_prefix(" input=")?;
      let (h, what) = r.split_once(' ')?;
      Some((h.to_string(), what.to_string()))
    })
    .collect()
}

fn global(n: usize, journal: Option<PathBuf>, max_s: u64) -> Global {
  let t0 = Instant::now();
  Global {
    seen: Seen::new(),
    t0,
    workers: (0..n).map(|_| Worker { since: AtomicU64::new(0), text: Mutex::new(String::new()) }).collect(),
    stop: AtomicBool::new(false),
    journal,
    deadline: t0 + Duration::from_secs(max_s),
  }
}

fn worker(prop: &str, dir: &Path) -> i32 {
  let t0 = Instant::now();
  let thorough = tier() == "thorough";
  let Some(spaces) = props::spaces(prop, thorough) else {
    eprintln!("no check for {prop} in this build");
    return 2;
  };
  std::panic::set_hook(Box::new(|i| {
    let s = i.to_string();
    if s.contains("ENGINE:") {
      eprintln!("{s}");
    }
  }));
  let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
  let kn = known(prop);
  let is_known = |t: &str| kn.iter().any(|k| k.0 == format!("{:016x}", hash(t)));
  let max_s = std::env::var("MC_MAX_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 7200 } else { 600 });
  let deadline = t0 + Duration::from_secs(max_s);
  let mut reports = vec![];
  let only = std::env::var("MC_SPACE").ok();
  for sp in &spaces {
    if only.as_ref().is_some_and(|o| *o != sp.name) {
      continue;
    }
    let g = global(n, Some(dir.to_path_buf()), deadline.saturating_duration_since(Instant::now()).as_secs());
    let done = AtomicBool::new(false);
    let r = std::thread::scope(|s| {
      s.spawn(|| {
        while !done.load(SeqCst) {
          std::thread::sleep(Duration::from_millis(20));
          let now = g.t0.elapsed().as_millis() as u64;
          for w in &g.workers {
            let since = w.since.load(SeqCst);
            if since > 0 && now > since + hang_s(prop) * 1000 {
              let text = w.text.lock().unwrap().clone();
              if w.since.load(SeqCst) != since {
                continue;
              }
              let f = Fail { space: sp.name.clone(), choices: vec![], dev: 0, text, msg: format!("does not return within {} s", hang_s(prop)) };
              let p = replay_file(prop, &f);
              println!("{}: {}", f.msg, jstr(&f.text));
              println!("VIOLATION property={prop} replay={}", p.display());
              std::process::exit(1);
            }
          }
        }
      });
      let r = explore(&g, sp, &is_known);
      done.store(true, SeqCst);
      r
    });
    println!(
      "{prop} {:<24} bound {} {:>9} executions {:>9} states {:>9} transitions {:>9} comparisons {:>3} outcomes {:.1} s{}",
      r.name,
      r.bound,
      r.executions,
      r.states,
      r.transitions,
      r.compared,
      r.outcomes.len(),
      r.wall,
      if r.complete { "" } else { " (capped)" }
    );
    if std::env::var("MC_V").is_ok() {
      println!("    {:?} {:?}", r.by_dev, r.outcomes);
      for (_, s) in &r.samples {
        println!("    {}", jstr(s));
      }
    }
    reports.push(r);
  }
  let mut fails: Vec<Fail> = vec![];
  let mut seen_known = std::collections::BTreeSet::new();
  for f in reports.iter().flat_map(|r| &r.fails) {
    match kn.iter().find(|k| k.0 == format!("{:016x}", hash(&f.text))) {
      Some(k) => {
        if seen_known.insert(k.0.clone()) {
          println!("KNOWN-FINDING: property={prop} {}", k.1);
        }
      }
      None => fails.push(f.clone()),
    }
  }
  evidence(prop, &reports, t0.elapsed().as_secs_f64(), fails.len());
  if let Some(f) = fails.first() {
    for f in fails.iter().take(5) {
      println!("[{}] dev {} {}\n    {}", f.space, f.dev, f.msg, jstr(&f.text));
    }
    let p = replay_file(prop, f);
    println!("VIOLATION property={prop} replay={}", p.display());
    return 1;
  }
  0
}

fn evidence(prop: &str, rs: &[Report], wall: f64, violations: usize) {
  let sum = |f: &dyn Fn(&Report) -> u64| rs.iter().map(f).sum::<u64>();
  let spaces: Vec<_> = rs
    .iter()
    .map(|r| {
      let o: Vec<_> = r.outcomes.iter().map(|(k, n)| format!("{}: {n}", jstr(k))).collect();
      let d: Vec<_> = r.by_dev.iter().map(|(k, n)| format!("\"{k}\": {n}")).collect();
      format!(
        "{{\"space\": {}, \"enumerates\": {}, \"deviation_bound\": {}, \"complete\": {}, \"executions\": {}, \"executions_by_deviations\": {{{}}}, \"distinct_inputs\": {}, \"transitions\": {}, \"implementation_calls\": {}, \"comparisons\": {}, \"outcomes\": {{{}}}, \"wall_s\": {:.2}}}",
        jstr(&r.name), jstr(&r.about), r.bound, r.complete, r.executions, d.join(", "), r.states, r.transitions, r.impl_calls, r.compared, o.join(", "), r.wall
      )
    })
    .collect();
  let samples: Vec<_> = rs.iter().flat_map(|r| r.samples.iter().map(|s| jstr(&s.1))).take(12).collect();
  let outcomes: std::collections::BTreeSet<_> = rs.iter().flat_map(|r| r.outcomes.keys()).collect();
  let complete = rs.iter().all(|r| r.complete);
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let text = format!(
    "{{\n  \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"executions\": {}, \"implementation_calls\": {}, \"distinct_outcomes\": {}, \"exhaustive\": {complete},\n    \"samples\": [{}],\n    \"spaces\": [\n      {}\n    ]\n  }},\n  \"assumptions\": [\"the reference model in mc/src states the intended behaviour; states are distinct inputs, transitions are explored choices, traces are implementation results compared with the model\", \"exhaustive within the bounds and alphabets of each space only; nothing is sampled, the seed is not used\"],\n  \"wall_s\": {wall:.2}, \"violations\": {violations}\n}}\n",
    jstr(prop), jstr(tier()), sum(&|r| r.states), sum(&|r| r.transitions), sum(&|r| r.compared), sum(&|r| r.executions), sum(&|r| r.impl_calls), outcomes.len(),
    samples.join(", "), spaces.join(",\n      ")
  );
  let p = root().join(format!("evidence/{prop}.json"));
  let _ = std::fs::create_dir_all(p.parent().unwrap());
  std::fs::write(p, text).expect("evidence");
}

/// Runs the worker in a child process, so that an abort is seen and traced to its input.
fn parent(prop: &str) -> i32 {
  let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
  let dir = base.join(format!("mc-{}-{}", prop, std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch directory");
  let me = std::env::current_exe().unwrap();
  let st = Command::new(&me).arg("worker").arg(prop).arg(&dir).status().expect("worker");
  let mut code = match (st.code(), st.signal()) {
    (Some(c), _) => c,
    (None, s) => {
      println!("the worker was ended by signal {s:?}");
      3
    }
  };
  if code != 0 && code != 1 {
    // which of the last inputs kills a fresh process?
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
      let b = std::fs::read(e.path()).unwrap_or_default();
      if b.len() < 4 {
        continue;
      }
      let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
      let Some(t) = b.get(4..4 + n) else { continue };
      let inp = dir.join("one");
      std::fs::write(&inp, t).unwrap();
      let o = Command::new(&me).arg("oneshot").arg(&inp).output().expect("oneshot");
      if o.status.signal().is_some() {
        let f = Fail {
          space: "-".into(),
          choices: vec![],
          dev: 0,
          text: String::from_utf8_lossy(t).into(),
          msg: format!("the process dies with signal {:?}", o.status.signal()),
        };
        let p = replay_file(prop, &f);
        println!("{}: {}", f.msg, jstr(&f.text));
        println!("VIOLATION property={prop} replay={}", p.display());
        code = 1;
        break;
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  code
}

fn replay(file: &str) -> i32 {
  let text = std::fs::read_to_string(file).expect("replay file");
  let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
  let (prop, space) = (get("property:"), get("space:"));
  std::env::set_var("VERIF_TIER", get("tier:"));
  let choices: Vec<u32> = get("choices:").split(',').filter_map(|s| s.parse().ok()).collect();
  let input = text.split_once("--- input\n").map(|x| x.1).unwrap_or("");
  println!("input:\n{input}\n");
  println!("unchecked: {}", real::unchecked(input).brief());
  println!("checked:   {}", real::checked(input).brief());
  println!("reference: {}", match oracle::expect(input) {
    None => "syntax error".into(),
    Some(v) => format!("{v:?}"),
  });
  let Some(sp) = props::spaces(&prop, tier() == "thorough").into_iter().flatten().find(|s| s.name == space) else {
    return 2;
  };
  let g = global(1, None, 3600);
  let mut seen = vec![];
  for _ in 0..2 {
    let mut cx = Cx::new(&g, 0);
    cx.replay = true;
    let mut ch = Ch::new(choices.clone());
    (sp.run)(&mut ch, &mut cx);
    seen.push(cx.fails);
  }
  if seen[0] != seen[1] {
    println!("the two replays differ");
  }
  for f in &seen[0] {
    println!("violation: {}\n  {}", f.1, jstr(&f.0));
  }
  !seen[0].is_empty() as i32
}

/// What is observed of one input, by both entry points, in this (fresh) process.
fn oneshot(file: &str) {
  let mut s = String::new();
  std::fs::File::open(file).expect("input").read_to_string(&mut s).expect("text");
  std::panic::set_hook(Box::new(|_| ()));
  let run = move || {
    let mut o = std::io::stdout().lock();
    for w in std::env::args().nth(3).unwrap_or("uc".into()).chars() {
      let r = if w == 'u' { real::unchecked(&s) } else { real::checked(&s) };
      let t = real::observe(&r);
      let _ = o.write_all(&(t.len() as u32).to_le_bytes());
      let _ = o.write_all(t.as_bytes());
    }
  };
  std::thread::Builder::new().stack_size(STACK).spawn(run).unwrap().join().unwrap();
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
    (Some("run"), Some(p)) => parent(p),
    (Some("worker"), Some(p)) => worker(p, Path::new(&a[3])),
    (Some("replay"), Some(f)) => replay(f),
    (Some("oneshot"), Some(f)) => {
      oneshot(f);
      0
    }
    (Some("model"), Some(f)) => {
      let s = std::fs::read_to_string(f).unwrap();
      println!("{:#?}\n{:#?}\nunchecked {}\nchecked {}", refparse::parse(&s), oracle::expect(&s), real::unchecked(&s).brief(), real::checked(&s).brief());
      0
    }
    _ => {
      eprintln!("usage: mc run <property> | mc replay <file>");
      2
    }
  };
  std::process::exit(code);
}
