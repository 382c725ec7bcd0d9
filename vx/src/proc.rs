//! Child processes with framed requests, crash detection and a CPU-time watchdog.
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub const CPU_LIMIT_S: f64 = 20.0;

#[derive(Clone, Debug, PartialEq)]
pub enum Resp { Fields(Vec<Vec<u8>>), Crash(String), Hang }

impl Resp {
    pub fn s(&self, i: usize) -> String {
        match self { Resp::Fields(f) => f.get(i).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default(), _ => String::new() }
    }
    pub fn n(&self) -> usize { match self { Resp::Fields(f) => f.len(), _ => 0 } }
}

pub struct Worker { exe: PathBuf, child: Option<(Child, ChildStdin, Receiver<Option<Vec<Vec<u8>>>>)> }

fn cpu(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let t = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = t.split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

impl Worker {
    pub fn new(exe: &Path) -> Self { Worker { exe: exe.to_path_buf(), child: None } }
    fn start(&mut self) {
        let mut c = Command::new(&self.exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env("RUST_MIN_STACK", "8388608").spawn().unwrap_or_else(|e| crate::fatal(&format!("cannot start {}: {}", self.exe.display(), e)));
        let si = c.stdin.take().unwrap();
        let mut so = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut rd = || -> std::io::Result<Vec<Vec<u8>>> {
                let mut b = [0u8; 4];
                so.read_exact(&mut b)?;
                let n = u32::from_le_bytes(b);
                let mut v = vec![];
                for _ in 0..n {
                    so.read_exact(&mut b)?;
                    let mut d = vec![0u8; u32::from_le_bytes(b) as usize];
                    so.read_exact(&mut d)?;
                    v.push(d);
                }
                Ok(v)
            };
            loop {
                match rd() {
                    Ok(v) => { if tx.send(Some(v)).is_err() { return } }
                    Err(_) => { let _ = tx.send(None); return }
                }
            }
        });
        self.child = Some((c, si, rx));
    }
    pub fn raw(&mut self, frame: &[u8]) -> Resp {
        if self.child.is_none() {
            self.start();
        }
        let (c, si, rx) = self.child.as_mut().unwrap();
        let pid = c.id();
        let cpu0 = cpu(pid);
        let t0 = Instant::now();
        let sent = si.write_all(frame).and_then(|_| si.flush()).is_ok();
        loop {
            let r = if sent { rx.recv_timeout(Duration::from_secs(1)) } else { Ok(None) };
            match r {
                Ok(Some(v)) => return Resp::Fields(v),
                Ok(None) | Err(RecvTimeoutError::Disconnected) => {
                    let st = c.wait().map(|s| s.to_string()).unwrap_or_default();
                    self.child = None;
                    return Resp::Crash(st);
                }
                Err(RecvTimeoutError::Timeout) => {
                    if cpu(pid) - cpu0 > CPU_LIMIT_S {
                        let _ = c.kill();
                        let _ = c.wait();
                        self.child = None;
                        return Resp::Hang;
                    }
                    if t0.elapsed() > Duration::from_secs(400) {
                        crate::fatal("worker made no progress for 400 s (machine overloaded?)");
                    }
                }
            }
        }
    }
    pub fn call(&mut self, s: u32, r: u32, doc: &[u8]) -> Resp {
        let mut f = Vec::with_capacity(12 + doc.len());
        f.extend(s.to_le_bytes());
        f.extend(r.to_le_bytes());
        f.extend((doc.len() as u32).to_le_bytes());
        f.extend(doc);
        self.raw(&f)
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        if let Some((mut c, si, _)) = self.child.take() {
            drop(si);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
