//! Case runner: every case runs the real code on one input and compares with an oracle.
use std::collections::HashSet;
use std::io::{Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

pub struct Ctx {
    pub thorough: bool,
    /// long inputs (search after a failed obligation)
    pub deep: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub index: u64,
    pub start: Instant,
    pub budget: Duration,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub cur: std::fs::File,
    pub bins: PathBuf,
    pub tmp: PathBuf,
    pub rng: Rng,
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn show(t: &[u8]) -> String {
    if t.len() > 400 {
        format!("len {} start {:?} (fnv {:016x})", t.len(), String::from_utf8_lossy(&t[..60]), hash(t))
    } else {
        let s: String = t.iter().flat_map(|&c| std::ascii::escape_default(c)).map(|c| c as char).collect();
        format!("len {} b\"{}\"", t.len(), s)
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32) & 0xffff)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget
    }

    /// true if this shard is responsible for the next case
    pub fn mine(&mut self) -> bool {
        self.index += 1;
        self.index % self.nshards == self.shard
    }

    /// run one case; `what` names function and parameters, `input` is the input data
    pub fn case(&mut self, what: &str, input: &[u8], nontrivial: bool, f: impl FnOnce(&Ctx) -> Result<(), String>) {
        let _ = self.cur.seek(SeekFrom::Start(0));
        let msg = format!("{}\n{}\n", what, show(input));
        let _ = self.cur.write_all(msg.as_bytes());
        let _ = self.cur.set_len(msg.len() as u64);
        let me: &Ctx = self;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(me)));
        self.evals += 1;
        if nontrivial {
            let h = hash(input) ^ hash(what.as_bytes()).rotate_left(17);
            self.distinct.insert(h);
        }
        if self.samples.len() < 4 && self.evals % 97 == 5 {
            self.samples.push(format!("{} on {}", what, show(input)));
        }
        let err = match r {
            Ok(Ok(())) => return,
            // a long input that takes too long tells nothing
            Ok(Err(e)) if self.deep && e.contains("did not end within") => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".into()
                };
                format!("panicked: {}", m)
            }
        };
        let file = self.tmp.join("failing_input.bin");
        let _ = std::fs::write(&file, input);
        println!(
            "{{\"fail\":{{\"what\":{},\"input\":{},\"input_hex\":{},\"message\":{}}}}}",
            jstr(what),
            jstr(&show(input)),
            jstr(&input.iter().take(5000).map(|b| format!("{:02x}", b)).collect::<String>()),
            jstr(&err)
        );
        self.summary();
        std::process::exit(1);
    }

    pub fn summary(&self) {
        println!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}",
            self.evals,
            self.distinct.len(),
            self.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        );
    }

    /// run a tool of the repository; None on a timeout
    pub fn run(&self, bin: &str, args: &[&str], stdin: &[u8]) -> Result<(i32, Vec<u8>, String), String> {
        self.run_with(bin, args, stdin, &[], false)
    }

    /// with environment variables; `full`: standard output is a full device
    pub fn run_with(&self, bin: &str, args: &[&str], stdin: &[u8], env: &[(&str, String)], full: bool) -> Result<(i32, Vec<u8>, String), String> {
        use std::process::{Command, Stdio};
        let out = if full {
            Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("cannot start with /dev/full: {}", e))?)
        } else {
            Stdio::piped()
        };
        let mut c = Command::new(self.bins.join(bin))
            .args(args)
            .envs(env.iter().map(|(k, v)| (k.to_string(), v.clone())))
            .env("RUST_BACKTRACE", "0")
            .env_remove("RUST_LOG")
            .current_dir(&self.tmp)
            .stdin(Stdio::piped())
            .stdout(out)
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| format!("cannot start {}: {}", bin, e))?;
        let mut si = c.stdin.take().unwrap();
        let data = stdin.to_vec();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&data);
        });
        let so = c.stdout.take();
        let mut se = c.stderr.take().unwrap();
        let mut so = so;
        let (tx, rx) = std::sync::mpsc::channel();
        let tx2 = tx.clone();
        std::thread::spawn(move || {
            let mut v = Vec::new();
            let mut b = [0u8; 65536];
            // a tool that writes without end is stopped after 256 MB
            while let Some(so) = so.as_mut() {
                match std::io::Read::read(so, &mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => {
                        v.extend_from_slice(&b[..n]);
                        if v.len() > (256 << 20) {
                            break;
                        }
                    }
                }
            }
            let _ = tx.send((1, v));
        });
        std::thread::spawn(move || {
            let mut v = Vec::new();
            let _ = std::io::Read::read_to_end(&mut std::io::Read::take(&mut se, 1 << 20), &mut v);
            let _ = tx2.send((2, v));
        });
        let mut out = Vec::new();
        let mut err = Vec::new();
        let limit = Instant::now() + Duration::from_secs(20);
        for _ in 0..2 {
            let left = limit.saturating_duration_since(Instant::now());
            match rx.recv_timeout(left) {
                Ok((1, v)) => out = v,
                Ok((_, v)) => err = v,
                Err(_) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Err(format!("{} {:?} did not end within 20 s", bin, args));
                }
            }
        }
        // output is closed; give the process a moment to end
        loop {
            match c.try_wait() {
                Ok(Some(s)) => {
                    let _ = w.join();
                    let code = s.code().unwrap_or(-1);
                    return Ok((code, out, String::from_utf8_lossy(&err).into_owned()));
                }
                _ => {
                    if Instant::now() > limit {
                        let _ = c.kill();
                        let _ = c.wait();
                        return Err(format!("{} {:?} did not end within 20 s", bin, args));
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
        }
    }

    /// run a tool that has to succeed
    pub fn ok(&self, bin: &str, args: &[&str], stdin: &[u8]) -> Result<Vec<u8>, String> {
        let (c, o, e) = self.run(bin, args, stdin)?;
        if c != 0 {
            return Err(format!("{} {:?} exits with {}: {}", bin, args, c, e.trim().chars().take(400).collect::<String>()));
        }
        Ok(o)
    }

    /// like ok, but through one of: stdin/stdout, -i file, -o file, -i and -o
    pub fn ok_io(&self, bin: &str, args: &[&str], data: &[u8], mode: usize) -> Result<Vec<u8>, String> {
        let inf = self.tmp.join("in.bin");
        let outf = self.tmp.join("out.bin");
        let mut a: Vec<&str> = args.to_vec();
        if mode & 1 == 1 {
            std::fs::write(&inf, data).map_err(|e| e.to_string())?;
            a.push("--infilename");
            a.push(inf.to_str().unwrap());
        }
        if mode & 2 == 2 {
            // an existing longer file must be replaced
            std::fs::write(&outf, vec![b'#'; 50]).map_err(|e| e.to_string())?;
            a.push("--outfilename");
            a.push(outf.to_str().unwrap());
        }
        let o = self.ok(bin, &a, if mode & 1 == 1 { b"unrelated stdin" } else { data })?;
        if mode & 2 == 2 {
            return std::fs::read(&outf).map_err(|e| e.to_string());
        }
        Ok(o)
    }
}

/// value of key=... on the RESULT line
pub fn field(out: &[u8], key: &str) -> Result<String, String> {
    let s = String::from_utf8_lossy(out);
    let k = format!(" {}=", key);
    match s.find(&k) {
        None => Err(format!("no {}= in output {:?}", key, s)),
        Some(p) => Ok(s[p + k.len()..].split_whitespace().next().unwrap_or("").to_string()),
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(name: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let g = format!("{:?}", got);
    let w = format!("{:?}", want);
    Err(format!(
        "{}: got {} expected {}",
        name,
        g.chars().take(600).collect::<String>(),
        w.chars().take(600).collect::<String>()
    ))
}
