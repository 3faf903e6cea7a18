//! C48: the progress display.
use crate::c_eng::*;
use crate::common::*;
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, OwnedFd};
use symbolic_regression::equation_search;

fn strip(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        if ch == '\u{1b}' {
            if it.peek() == Some(&'[') {
                it.next();
                while it.next().is_some_and(|c| !c.is_ascii_alphabetic()) {}
            }
        } else {
            out.push(ch);
        }
    }
    out
}

/// Columns a text takes (for the characters used here).
fn columns(s: &str) -> usize {
    s.chars().map(|c| if (c as u32) >= 0x1100 && c != '─' { 2 } else { 1 }).sum()
}

/// Reads a table back: (complexity, loss text, equation) per row.
fn read_table(t: &str, width: usize) -> Result<Vec<(String, String, String)>, String> {
    let plain = strip(t);
    let lines: Vec<&str> = plain.split('\n').collect();
    if let Some(l) = lines.iter().find(|l| columns(l) >= width) {
        return Err(format!("a line of {} columns: {l:?}", columns(l)));
    }
    let n = lines.len();
    if n < 3 || lines[0].is_empty() || lines[0] != lines[n - 1] || lines[0].chars().any(|c| c != '─') {
        return Err(format!("no table between two rules: {lines:?}"));
    }
    let Some(col) = lines[1].find("Equation") else { return Err(format!("heading {:?}", lines[1])) };
    let loss_col = lines[1].find("Loss").unwrap_or(0);
    if !lines[1].starts_with("Complexity") || loss_col < 10 || lines[1].trim_end().len() != col + 8 {
        return Err(format!("heading {:?}", lines[1]));
    }
    let mut rows: Vec<(String, String, String)> = Vec::new();
    let mut open = false;
    for l in &lines[2..n - 1] {
        if !l.is_char_boundary(col) || l.len() <= col {
            return Err(format!("a row without equation: {l:?}"));
        }
        let (left, eq) = l.split_at(col);
        if left.trim().is_empty() {
            if !open {
                return Err(format!("a continuation of nothing: {l:?}"));
            }
            rows.last_mut().unwrap().2.push_str(eq);
        } else {
            if open {
                return Err(format!("an equation announced to continue ends: {:?}", rows.last()));
            }
            let (cx, loss) = left.split_at(loss_col);
            rows.push((cx.trim().into(), loss.trim().into(), eq.into()));
        }
        let e = &mut rows.last_mut().unwrap().2;
        open = e.ends_with("...");
        if open {
            e.truncate(e.len() - 3);
        }
    }
    if open {
        return Err(format!("an equation announced to continue ends: {:?}", rows.last()));
    }
    Ok(rows)
}

fn check_table(t: &str, front: &[Member], width: usize) -> Result<(), String> {
    let rows = read_table(t, width.max(80))?;
    if rows.len() != front.len() {
        return Err(format!("{} rows for {} members", rows.len(), front.len()));
    }
    for (r, m) in rows.iter().zip(front) {
        let loss: f64 = r.1.parse().map_err(|_| format!("loss {:?}", r.1))?;
        if r.0 != m.complexity.to_string() || (loss - m.loss).abs() > 1.001e-3 * m.loss.abs() || r.2 != m.expr.to_string() {
            return Err(format!("row {r:?} for complexity {}, loss {}, {}", m.complexity, m.loss, m.expr));
        }
    }
    Ok(())
}

pub fn c48(rep: &Report) {
    rep.assume("variable names hold no control characters and do not end in dots");
    let o = quiet_options(ops(&[("cos", 1), ("add", 2)]));
    let ds = dataset(2, 3);
    let tagged = TaggedDataset::new(&ds, None);
    let add = op("add", 2);
    let sum = |k: usize| (1..k).fold(Tr::V(0), |t, i| Tr::O(add.arity, add.id, vec![t, Tr::V((i % 2) as u16)]));
    // Names made of every pattern of narrow and wide characters of one to four bytes.
    let letters = ['a', 'é', '漢', '😀'];
    let mut names: Vec<String> = Vec::new();
    for len in 1..=tier(3usize, 4) {
        for_each_tuple(letters.len(), len, |t| names.push(t.iter().map(|&i| letters[i]).collect()));
    }
    let mut work = Vec::new();
    for n in &names {
        for ansi in [false, true] {
            work.push((n.clone(), ansi));
        }
    }
    let widths: Vec<usize> = (0..4).chain(76..tier(110, 180)).chain([200, 333]).collect();
    par_for(rep, &work, |_, (name, ansi)| {
        for k in 1..=tier(40usize, 60) {
            let mut e = sum(k).expr(false);
            e.meta.variable_names = vec![name.clone(), "b".into()];
            let mut m = evaluated(1, 0, e, &tagged, &o);
            for &width in &widths {
                // One to three members of the same text: fronts need falling losses.
                for rows in 0..=2usize {
                    let mut hall = Hall::new(40);
                    let mut front = Vec::new();
                    for r in 0..rows {
                        m.complexity = [3, 17][r];
                        m.loss = [1.25e-3, 6.5e-300][r];
                        m.cost = m.loss;
                        hall.best_by_complexity[m.complexity] = Some(m.clone());
                        front.push(m.clone());
                    }
                    let r = catching(|| progress_table(&hall, width, usize::MAX, *ansi));
                    rep.state(1);
                    rep.valid(1);
                    let bad = match r {
                        Ok(t) => check_table(&t, &front, width).err(),
                        Err(p) => Some(format!("panic: {p}")),
                    };
                    if let Some(bad) = bad {
                        rep.violation("table", format!("{rows} rows, equation {:?}, width {width}, styles {ansi}: {bad}", m.expr.to_string()));
                        return;
                    }
                }
            }
        }
        rep.sample(|| format!("variable named {name:?}, sums of up to {} terms, {} widths", tier(40, 60), widths.len()));
    });
    // Whole searches, shown on a terminal.
    let cfgs = grid(tier(false, true), tier(2, 3));
    let mut jobs: Vec<(usize, u16)> = Vec::new();
    let chunk = cfgs.len().div_ceil(tier(8, 16));
    for from in (0..cfgs.len()).step_by(chunk) {
        for cols in tier(&[80u16, 132][..], &[20u16, 80, 100, 132, 400][..]) {
            jobs.push((from, *cols));
        }
    }
    par_for(rep, &jobs, |_, &(from, cols)| {
        let to = (from + chunk).min(cfgs.len());
        let (out, screen) = match on_terminal(&format!("{from} {to}"), cols) {
            Ok(x) => x,
            Err(e) => {
                rep.note("searches that could not be shown (no terminal)", (to - from) as u64);
                rep.text("terminal", e);
                return;
            }
        };
        let mut lines = out.lines();
        let mut parts = screen.split(MARK);
        parts.next();
        for i in from..to {
            let c = &cfgs[i];
            rep.trans(1);
            rep.valid(1);
            let want = plain_result(c);
            // The child prints the result with the progress shown; the screen holds what was shown meanwhile.
            let got = lines.next().unwrap_or("nothing: the search died");
            rep.check(got == digest(&want.0), || "result".into(), || format!("{} on a terminal of {cols} columns: showing progress changed the result ({got})", c.name));
            let (part, quiet) = parts.next().unwrap_or("").split_once(QUIET).unwrap_or_default();
            rep.check(quiet.is_empty(), || "quiet".into(), || format!("{}: with progress switched off the terminal shows {quiet:?}", c.name));
            let plain = screen_of(part, cols as usize);
            let bad = match plain.rfind("Hall of Fame:") {
                // On narrow terminals lines of the table wrap.
                Some(_) if cols < 80 => None,
                None => Some("no hall of fame was shown".to_string()),
                Some(p) => {
                    let table: Vec<&str> = plain[p..].lines().skip(1).map(|l| l.trim_end()).filter(|l| !l.is_empty()).collect();
                    let end = table.iter().skip(1).position(|l| l.starts_with('─')).map_or(table.len(), |k| k + 2);
                    check_table(&table[..end].join("\n"), &want.1, (cols as usize).max(80)).err()
                }
            };
            rep.check(bad.is_none(), || "screen".into(), || format!("{} on a terminal of {cols} columns: last shown: {}", c.name, bad.clone().unwrap_or_default()));
        }
    });
    rep.note("searches shown on a terminal", cfgs.len() as u64);
}

const MARK: &str = "@@search@@";
const QUIET: &str = "@@quiet@@";

/// What a terminal shows after receiving the text.
fn screen_of(s: &str, cols: usize) -> String {
    let mut rows: Vec<Vec<char>> = vec![Vec::new()];
    let (mut r, mut c) = (0usize, 0usize);
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\r' => c = 0,
            '\n' => r += 1,
            '\u{1b}' if it.peek() == Some(&'[') => {
                it.next();
                let mut num = String::new();
                let mut end = ' ';
                for x in it.by_ref() {
                    if x.is_ascii_alphabetic() {
                        end = x;
                        break;
                    }
                    num.push(x);
                }
                let n: usize = num.parse().unwrap_or(1);
                match end {
                    'A' => r = r.saturating_sub(n),
                    'B' => r += n,
                    'C' => c += n,
                    'D' => c = c.saturating_sub(n),
                    'G' => c = n.saturating_sub(1),
                    'K' if r < rows.len() => {
                        if n == 2 {
                            rows[r].clear();
                        } else {
                            rows[r].truncate(c);
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                if c >= cols {
                    c = 0;
                    r += 1;
                }
                while rows.len() <= r {
                    rows.push(Vec::new());
                }
                while rows[r].len() <= c {
                    rows[r].push(' ');
                }
                rows[r][c] = ch;
                c += 1;
            }
        }
        while rows.len() <= r {
            rows.push(Vec::new());
        }
    }
    rows.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
}

fn plain_result(c: &Cfg) -> (String, Vec<Member>) {
    let r = equation_search::<f64, B, D>(&c.ds, &single(c).o);
    (result_print(&r), r.hall_of_fame.pareto_front())
}

/// One population: the result does not depend on a schedule.
fn single(c: &Cfg) -> Cfg {
    let mut c = c.clone();
    c.o.populations = 1;
    c
}

fn digest(s: &str) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

/// Runs this program as a child whose standard error is a terminal of the given width.
fn on_terminal(job: &str, cols: u16) -> Result<(String, String), String> {
    let (mut master, mut slave) = (0i32, 0i32);
    let ws = libc::winsize { ws_row: 200, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
    // SAFETY: plain openpty with valid out pointers.
    let rc = unsafe { libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), std::ptr::null(), &ws) };
    if rc != 0 {
        return Err(format!("openpty: {}", std::io::Error::last_os_error()));
    }
    // SAFETY: both descriptors were just created and are owned here. The child gets no copy of the master.
    let (master, slave) = unsafe {
        libc::fcntl(master, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(slave, libc::F_SETFD, libc::FD_CLOEXEC);
        (OwnedFd::from_raw_fd(master), OwnedFd::from_raw_fd(slave))
    };
    let mut child = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .env("MC_TERMINAL", job)
        .env("TERM", "xterm")
        .env_remove("NO_COLOR")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(slave)
        .spawn()
        .map_err(|e| e.to_string())?;
    let reader = std::thread::spawn(move || {
        let mut f = std::fs::File::from(master);
        let (mut all, mut buf) = (Vec::new(), [0u8; 65536]);
        // Reading fails once the other end is closed.
        while let Ok(n) = f.read(&mut buf) {
            if n == 0 {
                break;
            }
            all.extend_from_slice(&buf[..n]);
        }
        String::from_utf8_lossy(&all).into_owned()
    });
    let mut out = String::new();
    child.stdout.take().unwrap().read_to_string(&mut out).map_err(|e| e.to_string())?;
    let _ = child.wait();
    Ok((out, reader.join().unwrap_or_default()))
}

/// The child: searches with progress shown.
pub fn child(job: &str) -> ! {
    let mut it = job.split(' ').map(|x| x.parse::<usize>().unwrap());
    let (from, to) = (it.next().unwrap(), it.next().unwrap());
    let cfgs = grid(tier(false, true), tier(2, 3));
    for c in &cfgs[from..to] {
        let mut c = single(c);
        c.o.progress = true;
        eprint!("{MARK}");
        let r = equation_search::<f64, B, D>(&c.ds, &c.o);
        eprint!("{QUIET}");
        c.o.progress = false;
        let _ = equation_search::<f64, B, D>(&c.ds, &c.o);
        println!("{}", digest(&result_print(&r)));
        let _ = std::io::stdout().flush();
    }
    std::process::exit(0);
}
