//! Drives the generated-input search: parallel workers, crash and hang isolation, shrinking,
//! replay files and evidence.

use crate::alloc;
use crate::engine::*;
use crate::props::{find, Prop};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// A single case may take this long before it counts as hanging.
const HANG: Duration = Duration::from_secs(60);

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map_or(default, |v| v.parse().expect(name))
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if std::env::var("RSH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let prop = match args.get(2).and_then(|p| find(p)) {
        Some(p) => p,
        None => {
            eprintln!("usage: rsharness run|worker|one|replay PROPERTY ...");
            return 2;
        }
    };
    let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    match cmd {
        "run" => run(&prop, &args, thorough),
        "worker" => worker(&prop, &args, thorough),
        "one" => one(&prop, &args, thorough),
        "replay" => replay(&prop, &args),
        _ => 2,
    }
}

/// State that is kept per thread from its first use on (random number generator, panic machinery).
fn warm() {
    thread_local!(static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if DONE.replace(true) { return; }
    use redstone_ml::*;
    let _ = catch(|| {
        let _ = NdArray::<f32>::rand([2]);
        let _ = NdArray::<f64>::randn([2]);
        let _ = NdArray::<i32>::randint([2], 0, 5);
    });
    let _ = catch(|| panic!("{}", 1 + 1));
}

/// Runs one case, turning panics and allocator errors into failures.
fn execute(prop: &Prop, src: &mut Src) -> R {
    warm();
    let _ = alloc::take_error();
    let before = alloc::live();
    let case = prop.case;
    let r = match catch(|| case(src)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {m}")),
    };
    let err = alloc::take_error();
    if prop.memory && r.is_ok() {
        if let Some(e) = err {
            return Err(format!("memory error: {e}"));
        }
        let after = alloc::live();
        if after != before {
            return Err(format!("leak: {} blocks, {} bytes still allocated after everything was dropped",
                               after.0 - before.0, after.1 - before.1));
        }
    }
    r
}

fn hash(rec: &[u64]) -> u64 {
    rec.iter().fold(rec.len() as u64, |h, &v| mix(h ^ v))
}

// ---------------------------------------------------------------- worker

fn worker(prop: &Prop, args: &[String], thorough: bool) -> i32 {
    let seed = num(args, "--seed", 1);
    let start = num(args, "--start", 0);
    let step = num(args, "--step", 1);
    let end = num(args, "--end", 1);
    let millis = num(args, "--millis", 60_000);
    let out = PathBuf::from(arg(args, "--out").unwrap());
    let progress = fs::File::create(out.with_extension("progress")).unwrap();
    let began = Instant::now();

    let mut stats = Stats::default();
    let mut failure: Option<(u64, String, Vec<u64>)> = None;
    let mut interesting: Vec<u64> = vec![];
    let mut case = start;
    let mut done = 0u64;
    while case < end {
        if began.elapsed().as_millis() as u64 > millis {
            break;
        }
        let _ = progress.write_at(&case.to_le_bytes(), 0);
        let mut src = Src::random(seed, case);
        src.thorough = thorough;
        let r = execute(prop, &mut src);
        stats.evaluations += src.evals;
        done += 1;
        if src.nontrivial {
            stats.nontrivial.insert(hash(&src.rec));
            if interesting.len() < 40 {
                interesting.push(case);
            }
        }
        for t in src.tags.iter() {
            *stats.tags.entry(t.to_string()).or_insert(0) += 1;
        }
        if let Err(m) = r {
            failure = Some((case, m, src.rec.clone()));
            break;
        }
        case += step;
    }
    if start == 0 && failure.is_none() {
        for k in 0..4 {
            if let Some(&c) = interesting.get(k * 9 + 1) {
                let mut src = Src::random(seed, c);
                src.thorough = thorough;
                src.describe = true;
                let _ = progress.write_at(&c.to_le_bytes(), 0);
                let _ = execute(prop, &mut src);
                let mut s = src.notes.join("; ");
                if s.len() > 1500 {
                    s = s.chars().take(1500).collect::<String>() + " ...";
                }
                stats.samples.push(format!("case {c}: {s}"));
            }
        }
    }
    let mut f = fs::File::create(&out).unwrap();
    let mut text = String::new();
    text += &format!("done {done}\neval {}\n", stats.evaluations);
    for h in &stats.nontrivial {
        text += &format!("hash {h}\n");
    }
    for (t, n) in &stats.tags {
        text += &format!("tag {n} {t}\n");
    }
    for s in &stats.samples {
        text += &format!("sample {}\n", s.replace('\n', "\\n"));
    }
    if let Some((c, m, rec)) = failure {
        text += &format!("fail {c} {}\n", m.replace('\n', "\\n"));
        text += &format!("choices {}\n", join(&rec));
    }
    text += "end\n";
    f.write_all(text.as_bytes()).unwrap();
    0
}

fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

// ---------------------------------------------------------------- one case in its own process

/// `one PROP (--case N --seed S | --choices FILE) --out FILE [--log FILE]`:
/// exit 0 passed, 1 failed (message and choices in FILE).
fn one(prop: &Prop, args: &[String], thorough: bool) -> i32 {
    let out = arg(args, "--out").unwrap();
    let mut src = match arg(args, "--choices") {
        Some(f) => Src::replaying(parse(fs::read_to_string(f).unwrap().trim())),
        None => Src::random(num(args, "--seed", 1), num(args, "--case", 0)),
    };
    src.thorough = thorough;
    src.describe = arg(args, "--describe").is_some();
    src.aloud = src.describe;
    if let Some(l) = arg(args, "--log") {
        src.set_log(fs::File::create(l).unwrap());
    }
    let r = execute(prop, &mut src);
    let msg = r.err();
    let code = if msg.is_some() { 1 } else { 0 };
    let text = format!("{}\n{}\n{}\n", msg.unwrap_or_default().replace('\n', "\\n"), join(&src.rec), src.notes.join("\n"));
    fs::write(out, text).unwrap();
    code
}

fn parse(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}

enum Verdict {
    Pass,
    Fail(String, Vec<u64>, Vec<String>),
    /// died without reporting
    Died(String, Vec<u64>, Vec<String>),
}

struct Lab {
    exe: PathBuf,
    dir: PathBuf,
    prop: String,
    thorough: bool,
}

impl Lab {
    fn command(&self, sub: &str) -> Command {
        let mut c = Command::new(&self.exe);
        c.arg(sub).arg(&self.prop).arg("--tier").arg(if self.thorough { "thorough" } else { "quick" });
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c
    }

    fn wait(&self, child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        let mut pause = 200;
        loop {
            if let Some(s) = child.try_wait().unwrap() {
                return Some(s);
            }
            if t.elapsed() > limit {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 3 / 2).min(20_000);
        }
    }

    fn judge(&self, choices: Option<&[u64]>, seed: u64, case: u64, describe: bool, limit: Duration) -> Verdict {
        let out = self.dir.join("one.out");
        let log = self.dir.join("one.log");
        let _ = fs::remove_file(&out);
        let mut c = self.command("one");
        c.arg("--out").arg(&out).arg("--log").arg(&log);
        if describe {
            c.arg("--describe").arg("1");
            if let Ok(f) = fs::File::create(self.dir.join("one.err")) { c.stderr(f); }
        }
        match choices {
            Some(v) => {
                let f = self.dir.join("one.choices");
                fs::write(&f, join(v)).unwrap();
                c.arg("--choices").arg(f);
            }
            None => {
                c.arg("--seed").arg(seed.to_string()).arg("--case").arg(case.to_string());
            }
        }
        let mut child = c.spawn().unwrap();
        let status = self.wait(&mut child, limit);
        let logged = || {
            let mut b = vec![];
            if let Ok(mut f) = fs::File::open(&log) {
                let _ = f.read_to_end(&mut b);
            }
            b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect::<Vec<u64>>()
        };
        // what a described case said before it died
        let said = || -> Vec<String> {
            if !describe { return vec![]; }
            let b = fs::read(self.dir.join("one.err")).unwrap_or_default();
            let l: Vec<String> = String::from_utf8_lossy(&b).lines().map(|x| x.to_string()).collect();
            l[l.len().saturating_sub(60)..].to_vec()
        };
        match status {
            None => Verdict::Died(format!("no result after {} s", limit.as_secs()), logged(), said()),
            Some(s) if s.code() == Some(0) => Verdict::Pass,
            Some(s) if s.code() == Some(1) && out.exists() => {
                let t = fs::read_to_string(&out).unwrap();
                let mut l = t.lines();
                let m = l.next().unwrap_or("").to_string();
                let ch = parse(l.next().unwrap_or(""));
                Verdict::Fail(m, ch, l.map(|x| x.to_string()).collect())
            }
            Some(s) => Verdict::Died(format!("process died ({})", describe_exit(&s)), logged(), said()),
        }
    }

    /// Deletes, zeroes and lowers choices while the case keeps failing.
    fn shrink(&self, mut best: Vec<u64>, mut msg: String, died: bool) -> (Vec<u64>, String) {
        let began = Instant::now();
        let budget = Duration::from_secs(45);
        let limit = Duration::from_secs(if died { 10 } else { 20 });
        let runs = std::cell::Cell::new(0);
        let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
            if began.elapsed() > budget || runs.get() > 2500 || cand == *best {
                return false;
            }
            runs.set(runs.get() + 1);
            match self.judge(Some(&cand), 0, 0, false, limit) {
                Verdict::Pass => false,
                Verdict::Fail(m, rec, _) => {
                    if m.starts_with("unexpected panic: harness") || m.contains("generator made an invalid") {
                        return false;
                    }
                    let used = if rec.len() < cand.len() { rec } else { cand };
                    if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                        *best = used;
                        *msg = m;
                        true
                    } else {
                        false
                    }
                }
                Verdict::Died(m, ..) => {
                    if !died || m.starts_with("no result") {
                        return false;
                    }
                    *best = cand;
                    *msg = m;
                    true
                }
            }
        };
        loop {
            let before = best.clone();
            // delete blocks
            let mut size = best.len() / 2;
            while size >= 1 {
                let mut i = 0;
                while i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    if !attempt(cand, &mut best, &mut msg) {
                        i += size;
                    }
                }
                size /= 2;
            }
            // zero blocks, then lower single choices
            for size in [8usize, 4, 2, 1] {
                let mut i = 0;
                while i + size <= best.len() {
                    let mut cand = best.clone();
                    cand[i..i + size].fill(0);
                    attempt(cand, &mut best, &mut msg);
                    i += size;
                }
            }
            let mut i = 0;
            while i < best.len() {
                let (mut lo, mut hi) = (0u64, best[i]);
                while lo < hi && i < best.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.clone();
                    cand[i] = mid;
                    if attempt(cand, &mut best, &mut msg) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                i += 1;
            }
            if best == before || began.elapsed() > budget || runs.get() > 2500 {
                return (best, msg);
            }
        }
    }
}

fn describe_exit(s: &std::process::ExitStatus) -> String {
    match s.signal() {
        Some(11) => "segmentation fault".into(),
        Some(6) => "abort".into(),
        Some(n) => format!("signal {n}"),
        None => format!("exit code {}", s.code().unwrap_or(-1)),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

struct Found {
    message: String,
    choices: Vec<u64>,
    notes: Vec<String>,
    /// for failures that only show after a prefix of cases: (start, step, case)
    prefix: Option<(u64, u64, u64)>,
}

/// What became of one worker.
struct Slot {
    child: Child,
    out: PathBuf,
    start: u64,
    last: (u64, Instant),
    over: bool,
}

fn run(prop: &Prop, args: &[String], thorough: bool) -> i32 {
    let began = Instant::now();
    let seed = num(args, "--seed", 1);
    let jobs = num(args, "--jobs", 8).max(1);
    let budget = if thorough { prop.thorough } else { prop.quick };
    let cases = num(args, "--cases", budget.0);
    let secs = num(args, "--secs", budget.1);
    let evidence = arg(args, "--evidence");
    let root = PathBuf::from(arg(args, "--dir").unwrap_or_else(|| "/tmp".into()));
    let dir = root.join(format!("rsh-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let lab = Lab { exe: std::env::current_exe().unwrap(), dir: dir.clone(), prop: prop.id.into(), thorough };

    let mut stats = Stats::default();
    let mut done = 0u64;
    let mut found: Option<Found> = None;
    let mut oddities: Vec<String> = vec![];
    let mut slots: Vec<Slot> = vec![];
    let spawn = |start: u64, k: usize| -> Slot {
        let out = dir.join(format!("w{k}-{start}"));
        let left = (secs * 1000).saturating_sub(began.elapsed().as_millis() as u64);
        let child = lab.command("worker")
            .args(["--seed", &seed.to_string(), "--start", &start.to_string(), "--step", &jobs.to_string(),
                   "--end", &cases.to_string(), "--millis", &left.to_string()])
            .arg("--out").arg(&out).spawn().unwrap();
        Slot { child, out, start, last: (u64::MAX, Instant::now()), over: false }
    };
    for k in 0..jobs {
        slots.push(spawn(k, k as usize));
    }
    'watch: loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut running = false;
        for k in 0..slots.len() {
            if slots[k].over {
                continue;
            }
            running = true;
            let at = read_progress(&slots[k].out);
            if at != slots[k].last.0 {
                slots[k].last = (at, Instant::now());
            }
            let mut dead: Option<String> = None;
            let mut killed = false;
            match slots[k].child.try_wait().unwrap() {
                Some(s) => {
                    slots[k].over = true;
                    let text = fs::read_to_string(&slots[k].out).unwrap_or_default();
                    if s.success() && text.ends_with("end\n") {
                        if let Some(f) = absorb(&text, &mut stats, &mut done) {
                            found = Some(f);
                            break 'watch;
                        }
                    } else {
                        killed = s.signal() == Some(9);
                        dead = Some(describe_exit(&s));
                    }
                }
                None => {
                    if slots[k].last.1.elapsed() > HANG {
                        let _ = slots[k].child.kill();
                        let _ = slots[k].child.wait();
                        slots[k].over = true;
                        dead = Some(format!("no progress for {} s", HANG.as_secs()));
                    }
                }
            }
            if let Some(why) = dead {
                let case = read_progress(&slots[k].out);
                let start = slots[k].start;
                if case == u64::MAX {
                    oddities.push(format!("worker {k} {why} before its first case"));
                    continue;
                }
                done += (case - start) / jobs;
                let mut v = lab.judge(None, seed, case, false, HANG);
                if let Verdict::Died(m, ..) = &v {
                    if m.starts_with("no result") {
                        v = lab.judge(None, seed, case, false, HANG * 2);
                    }
                }
                match v {
                    Verdict::Pass => {
                        // alone it passes: does the sequence of cases die again?
                        let again = if killed || why.starts_with("no progress") { false } else { replay_prefix(&lab, seed, start, jobs, case) };
                        if again {
                            found = Some(Found { message: format!("{why} in case {case} after the preceding cases of the same process"),
                                                 choices: vec![], notes: vec![], prefix: Some((start, jobs, case)) });
                            break 'watch;
                        }
                        oddities.push(format!("worker {k} {why} at case {case}; not reproduced, search continued"));
                        if oddities.len() < 20 {
                            let s = spawn(case + jobs, k);
                            slots[k] = s;
                        }
                    }
                    Verdict::Fail(m, c, n) => {
                        found = Some(Found { message: m, choices: c, notes: n, prefix: None });
                        break 'watch;
                    }
                    Verdict::Died(m, c, _) => {
                        found = Some(Found { message: m, choices: c, notes: vec![], prefix: None });
                        break 'watch;
                    }
                }
            }
        }
        if !running {
            break;
        }
    }
    for s in slots.iter_mut() {
        if !s.over {
            let _ = s.child.kill();
            let _ = s.child.wait();
        }
    }

    let mut violation = 0;
    let mut code = 0;
    if let Some(mut f) = found {
        if f.prefix.is_none() {
            // confirm in isolation, then shrink
            match lab.judge(Some(&f.choices), 0, 0, false, HANG * 2) {
                Verdict::Pass => {
                    eprintln!("failure did not repeat in isolation: {}", f.message);
                }
                Verdict::Fail(m, _, _) => {
                    let (c, m) = lab.shrink(f.choices.clone(), m, false);
                    f.choices = c;
                    f.message = m;
                }
                Verdict::Died(m, ..) => {
                    if m.starts_with("no result") {
                        f.message = m;
                    } else {
                        let (c, m) = lab.shrink(f.choices.clone(), m, true);
                        f.choices = c;
                        f.message = m;
                    }
                }
            }
            match lab.judge(Some(&f.choices), 0, 0, true, HANG * 2) {
                Verdict::Fail(m, _, n) => { f.message = m; f.notes = n; }
                Verdict::Died(m, _, n) => { f.message = m; f.notes = n; }
                Verdict::Pass => {}
            }
        }
        violation = 1;
        code = 1;
        let dirp = arg(args, "--replays").unwrap_or_else(|| ".".into());
        let _ = fs::create_dir_all(&dirp);
        let path = Path::new(&dirp).join(format!("{}-{}-{}.json", prop.id, if thorough { "thorough" } else { "quick" }, seed));
        let pre = match f.prefix {
            Some((a, b, c)) => format!("\"prefix\": [{seed}, {a}, {b}, {c}],\n  "),
            None => String::new(),
        };
        let notes = f.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(",\n    ");
        let text = format!("{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"message\": {},\n  {pre}\"input\": [\n    {}\n  ],\n  \"choices\": [{}]\n}}\n",
                           prop.id, if thorough { "thorough" } else { "quick" }, esc(&f.message), notes, join(&f.choices));
        fs::write(&path, text).unwrap();
        println!("{}: {}", prop.id, f.message);
        for n in &f.notes {
            println!("    {n}");
        }
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    if let Some(e) = evidence {
        let tags: BTreeMap<_, _> = stats.tags.iter().collect();
        let mut samples = stats.samples.clone();
        samples.truncate(6);
        let text = format!(
            "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"cases\": {},\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"classes\": {{{}}},\n    \"oddities\": [{}],\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.1},\n  \"violations\": {}\n}}\n",
            prop.id, if thorough { "thorough" } else { "quick" }, seed, done, stats.evaluations, stats.nontrivial.len(), esc(prop.rule),
            tags.iter().map(|(t, n)| format!("{}: {}", esc(t), n)).collect::<Vec<_>>().join(", "),
            oddities.iter().map(|o| esc(o)).collect::<Vec<_>>().join(", "),
            samples.iter().map(|s| format!("\n      {}", esc(s))).collect::<Vec<_>>().join(","),
            prop.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
            began.elapsed().as_secs_f64(), violation);
        if let Some(p) = Path::new(&e).parent() {
            let _ = fs::create_dir_all(p);
        }
        fs::write(&e, text).unwrap();
    }
    for o in &oddities {
        eprintln!("note: {o}");
    }
    let _ = fs::remove_dir_all(&dir);
    println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", prop.id, done, stats.evaluations, stats.nontrivial.len(),
             began.elapsed().as_secs_f64());
    if code == 0 && (done == 0 || oddities.len() >= 20) {
        eprintln!("{}: the search could not run", prop.id);
        return 3;
    }
    code
}

fn replay_prefix(lab: &Lab, seed: u64, start: u64, step: u64, case: u64) -> bool {
    let out = lab.dir.join("prefix");
    let mut child = lab.command("worker")
        .args(["--seed", &seed.to_string(), "--start", &start.to_string(), "--step", &step.to_string(),
               "--end", &(case + 1).to_string(), "--millis", "600000"])
        .arg("--out").arg(&out).spawn().unwrap();
    match lab.wait(&mut child, Duration::from_secs(300)) {
        Some(s) => s.signal().map_or(false, |n| n != 9),
        None => false,
    }
}

fn read_progress(out: &Path) -> u64 {
    let mut b = [0u8; 8];
    match fs::File::open(out.with_extension("progress")) {
        Ok(mut f) => if f.read_exact(&mut b).is_ok() { u64::from_le_bytes(b) } else { u64::MAX },
        Err(_) => u64::MAX,
    }
}

fn absorb(text: &str, stats: &mut Stats, done: &mut u64) -> Option<Found> {
    let mut found: Option<Found> = None;
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "done" => *done += v.parse::<u64>().unwrap(),
            "eval" => stats.evaluations += v.parse::<u64>().unwrap(),
            "hash" => { stats.nontrivial.insert(v.parse().unwrap()); }
            "tag" => {
                let (n, t) = v.split_once(' ').unwrap();
                *stats.tags.entry(t.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
            }
            "sample" => stats.samples.push(v.to_string()),
            "fail" => {
                let (_, m) = v.split_once(' ').unwrap_or(("", v));
                found = Some(Found { message: m.to_string(), choices: vec![], notes: vec![], prefix: None });
            }
            "choices" => if let Some(f) = &mut found { f.choices = parse(v) },
            _ => {}
        }
    }
    found
}

// ---------------------------------------------------------------- replay

fn replay(prop: &Prop, args: &[String]) -> i32 {
    let file = arg(args, "--file").expect("--file");
    let text = fs::read_to_string(&file).unwrap();
    let list = |name: &str| -> Option<Vec<u64>> {
        let i = text.find(&format!("\"{name}\": ["))?;
        let rest = &text[i..];
        let a = rest.find('[')? + 1;
        let b = rest.find(']')?;
        Some(parse(&rest[a..b]))
    };
    let thorough = text.contains("\"tier\": \"thorough\"");
    let dir = std::env::temp_dir().join(format!("rsh-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let lab = Lab { exe: std::env::current_exe().unwrap(), dir: dir.clone(), prop: prop.id.into(), thorough };
    let failed = if let Some(p) = list("prefix") {
        replay_prefix(&lab, p[0], p[1], p[2], p[3])
    } else {
        match lab.judge(list("choices").as_deref(), 0, 0, true, HANG * 2) {
            Verdict::Pass => false,
            Verdict::Fail(m, _, n) => {
                println!("{m}");
                for l in n { println!("    {l}"); }
                true
            }
            Verdict::Died(m, _, n) => { println!("{m}"); for l in n { println!("    {l}"); } true }
        }
    };
    let _ = fs::remove_dir_all(&dir);
    if failed {
        println!("VIOLATION property={} replay={}", prop.id, file);
        1
    } else {
        println!("{}: the replayed case passes", prop.id);
        0
    }
}

#[allow(dead_code)]
fn unused(_: HashSet<u64>) {}
