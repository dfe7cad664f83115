//! Streams that fail: no tool reports success unless it has read its whole input and delivered its whole output.
use crate::ctx::*;

/// (tool, arguments, takes an input, takes an output file, its output is the same on every run, texts)
struct Tool {
    bin: &'static str,
    args: Vec<String>,
    input: bool,
    out: bool,
    fixed: bool,
}

fn tool(bin: &'static str, args: &str, input: bool, out: bool, fixed: bool) -> Tool {
    Tool { bin, args: args.split_whitespace().map(|x| x.to_string()).collect(), input, out, fixed }
}

fn pick(c: &mut Ctx, t: &[u8], k: usize) -> Tool {
    let plain = !t.is_empty() && !t.contains(&0);
    let small = plain && t.len() < 3000;
    let n = 1 + c.rng.below(6);
    let words = ["fibonacci", "fibonacci-lyndon-factor", "tribonacci", "vtm", "thue-morse", "period-doubling", "kolakoski", "paper-folding", "quaternary-paper-folding", "binary-de-brujin", "power2"];
    let w = *c.rng.pick(&words);
    match k % 30 {
        0 => tool("reverse", "", true, true, true),
        1 => tool("reverse", "-p 9", true, true, true),
        2 => tool("mtf", "", true, true, true),
        3 => tool("rle", "", true, true, true),
        4 => tool("rle", "--onlyzero", true, true, true),
        5 => tool("rle", "--human", true, true, true),
        6 => tool("escape", "", true, true, true),
        7 => tool("escape", "-f 97 -t 98 -e 255", true, true, true),
        8 => tool("escape", "-p 7", true, true, true),
        9 if small => tool("bwt", "", true, true, true),
        10 if small => tool("bwt", "--no-dollar", true, true, true),
        11 if small && t.len() < 300 => tool("bwt", "--use-matrix", true, true, true),
        12 => tool("lyndonwords", &format!("-l {} -s {}", n, 1 + c.rng.below(3)), false, true, true),
        13 | 14 | 15 => tool("word", &format!("-n {} -k {}", w, 2 + n), false, true, true),
        16 | 17 => tool("randomstring", &format!("-a {} -p {}", c.rng.below(4), c.rng.below(60)), false, true, false),
        18 if small => tool("lyndonfactorization", "", true, true, false),
        19 if small => tool("count_z", "", true, true, false),
        20 if small => tool("count_lexparse", "", true, true, false),
        21 if small => tool("count_r", "", true, false, false),
        22 if small => tool("mus", "", true, false, false),
        23 => tool("count_sigma", "", true, false, false),
        24 if small => tool("entropy", "", true, false, false),
        26 if small => tool("entropy_kmer", &format!("--order {}", c.rng.below(4)), true, false, false),
        27 if small && t.len() < 60 => tool("is_stringattractor", "-a 0 1 3", true, false, true),
        28 if c.rng.below(16) == 0 => tool("generator_kmer", "", false, false, true),
        29 => tool("mtf", "", true, true, true),
        25 if c.rng.below(8) == 0 => tool("enumerate", &format!("2 {} {}", n, n + 1), false, false, true),
        _ => tool("count_runs", "", true, false, false),
    }
}

fn text(c: &mut Ctx, k: usize) -> Vec<u8> {
    let n = match c.rng.below(12) {
        0 => c.rng.below(3),
        1 => 200 + c.rng.below(200),
        2 => 1000 + c.rng.below(200),
        3 if k % 4 == 0 => 8190 + c.rng.below(5),
        4 if k % 16 == 0 => 70000,
        _ => 1 + c.rng.below(40),
    };
    let s = 1 + c.rng.below(4);
    let wide = c.rng.below(5) == 0;
    let mut v = vec![];
    while v.len() < n {
        let x = if wide { c.rng.below(256) as u8 } else { b"a0bc\n"[c.rng.below(s + 1)] };
        let r = if c.rng.below(3) == 0 { 1 + c.rng.below(n / 3 + 1) } else { 1 };
        v.extend(vec![x; r]);
    }
    v.truncate(n);
    v
}

/// the output of a tool: file, or standard output
fn run(c: &Ctx, t: &Tool, data: &[u8], mode: usize, env: &[(&str, String)]) -> Result<(i32, Vec<u8>), String> {
    let (inf, outf) = (c.tmp.join("in.bin"), c.tmp.join("out.bin"));
    let mut a: Vec<&str> = t.args.iter().map(|x| x.as_str()).collect();
    let from_file = t.input && mode & 1 == 1;
    let to_file = t.out && mode & 2 == 2;
    if from_file {
        std::fs::write(&inf, data).map_err(|e| e.to_string())?;
        a.push("--infilename");
        a.push(inf.to_str().unwrap());
    }
    if to_file {
        let _ = std::fs::remove_file(&outf);
        a.push("--outfilename");
        a.push(outf.to_str().unwrap());
    }
    let (rc, o, _) = c.run_with(t.bin, &a, if from_file { b"" } else { data }, env, false)?;
    if to_file {
        return Ok((rc, std::fs::read(&outf).unwrap_or_default()));
    }
    Ok((rc, o))
}

fn faulty(c: &Ctx, t: &Tool, data: &[u8], mode: usize, fault: usize, r: usize) -> Result<(), String> {
    let lib = c.bins.join("libvfault.so").to_str().unwrap().to_string();
    let mark = c.tmp.join("fault.mark");
    let (rc, want) = run(c, t, data, mode, &[])?;
    if rc != 0 {
        // the other properties are about that
        return Ok(());
    }
    let mut env = vec![("LD_PRELOAD", lib), ("VF_MARK", mark.to_str().unwrap().to_string())];
    let at;
    let what = match fault {
        0 => {
            at = if data.is_empty() { 0 } else { r % (data.len() + 1) };
            env.push(("VF_READ", at.to_string()));
            // an I/O error, an interrupted connection, no memory, a directory
            env.push(("VF_ERRNO", [5, 104, 12, 21][(r >> 20) % 4].to_string()));
            "the read at byte"
        }
        1 => {
            at = if want.is_empty() { 0 } else { r % want.len() };
            env.push(("VF_WRITE", at.to_string()));
            // a full device, a pipe that nobody reads, an I/O error, the file size limit
            env.push(("VF_ERRNO", [28, 32, 5, 27][(r >> 20) % 4].to_string()));
            "the write at byte"
        }
        2 => {
            at = if want.is_empty() { 0 } else { want.len() - 1 - (r % want.len().min(3)) };
            env.push(("VF_WRITE", at.to_string()));
            "the write at byte"
        }
        _ => {
            at = 1;
            env.push(("VF_SHORT", "1".to_string()));
            "transfers of bytes:"
        }
    };
    let _ = std::fs::remove_file(&mark);
    let (rc, got) = run(c, t, data, mode, &env)?;
    let fired = mark.exists();
    let _ = std::fs::remove_file(&mark);
    let io = format!("input from {}, output to {}", if t.input && mode & 1 == 1 { "a file" } else { "stdin" }, if t.out && mode & 2 == 2 { "a file" } else { "stdout" });
    if fired && rc == 0 {
        return Err(format!("{} {} fails ({}), but the tool ends with exit code 0 and {} of {} bytes of output", what, at, io, got.len(), want.len()));
    }
    if !fired && rc != 0 {
        return Err(format!("exit code {} although nothing failed ({} {}, {})", rc, what, at, io));
    }
    if !fired && t.fixed {
        return eq(&format!("output ({} {}, {})", what, at, io), &got, &want);
    }
    Ok(())
}

/// devices and files that refuse
fn refused(c: &Ctx, t: &Tool, data: &[u8], kind: usize) -> Result<(), String> {
    let (rc, want) = run(c, t, data, 0, &[])?;
    if rc != 0 {
        return Ok(());
    }
    let dir = c.tmp.to_str().unwrap().to_string();
    let nodir = c.tmp.join("no such directory").join("x").to_str().unwrap().to_string();
    let mut a: Vec<&str> = t.args.iter().map(|x| x.as_str()).collect();
    let mut full = false;
    let what = match kind {
        0 if !want.is_empty() => {
            full = true;
            "standard output is a full device"
        }
        1 if t.out && !want.is_empty() => {
            a.extend(["--outfilename", "/dev/full"]);
            "the output file is on a full device"
        }
        2 if t.out => {
            a.extend(["--outfilename", &nodir]);
            "the output file cannot be created"
        }
        3 if t.out => {
            a.extend(["--outfilename", &dir]);
            "the output file is a directory"
        }
        4 if t.input => {
            a.extend(["--infilename", &dir]);
            "the input file is a directory"
        }
        5 if t.input => {
            a.extend(["--infilename", &nodir]);
            "the input file does not exist"
        }
        _ => return Ok(()),
    };
    let (rc, o, _) = c.run_with(t.bin, &a, data, &[], full)?;
    if rc == 0 {
        return Err(format!("{}, but the tool ends with exit code 0 and {} bytes on standard output", what, o.len()));
    }
    Ok(())
}

pub fn p31(c: &mut Ctx) {
    let mut k = c.shard as usize;
    // every tool with every refusal
    for x in 0..30 {
        for kind in 0..6 {
            if !c.mine() {
                continue;
            }
            let data = b"abracadabra".to_vec();
            let t = pick(c, &data, x);
            c.case(&format!("tool {} {}", t.bin, t.args.join(" ")), &data, true, |c| refused(c, &t, &data, kind));
        }
    }
    for (bin, args) in [("generator_kmer", ""), ("enumerate", "2 3 4"), ("enumerate", "3 1 1")] {
        if c.mine() {
            let t = tool(bin, args, false, false, true);
            c.case(&format!("tool {} {}", bin, args), b"", true, |c| refused(c, &t, b"", 0));
        }
    }
    while c.time_left() {
        k += 1;
        let data = text(c, k);
        let t = pick(c, &data, k);
        let mode = c.rng.below(4);
        let r = c.rng.next() as usize;
        let fault = c.rng.below(4);
        let data = match (t.input, t.bin) {
            (false, _) => vec![],
            // beyond the buffer of its writer
            (_, "lyndonfactorization" | "count_z") if c.rng.below(3) == 0 && fault != 3 => {
                let n = if t.bin == "count_z" { 3000 } else { 9000 + c.rng.below(20000) };
                (0..n).map(|_| b"abcd"[c.rng.below(4)]).collect()
            }
            _ => data,
        };
        if fault == 3 && data.len() > 9000 {
            continue;
        }
        c.case(&format!("tool {} {}", t.bin, t.args.join(" ")), &data, data.len() > 1 || !t.input, |c| faulty(c, &t, &data, mode, fault, r));
    }
}
