//! A small in-process-tree Redis stand-in (RESP2, lists and hashes), run as a forked child so that
//! it adds no thread to the process under test.
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;

#[derive(Default)]
struct Db {
    lists: HashMap<Vec<u8>, VecDeque<Vec<u8>>>,
    hashes: HashMap<Vec<u8>, HashMap<Vec<u8>, Vec<u8>>>,
}

fn bulk(v: Option<&[u8]>) -> Vec<u8> {
    match v {
        Some(b) => {
            let mut o = format!("${}\r\n", b.len()).into_bytes();
            o.extend_from_slice(b);
            o.extend_from_slice(b"\r\n");
            o
        }
        None => b"$-1\r\n".to_vec(),
    }
}
fn int(n: i64) -> Vec<u8> {
    format!(":{n}\r\n").into_bytes()
}
fn arr(items: Vec<Vec<u8>>) -> Vec<u8> {
    let mut o = format!("*{}\r\n", items.len()).into_bytes();
    for i in items {
        o.extend(i);
    }
    o
}
fn num(a: &[u8]) -> i64 {
    std::str::from_utf8(a).ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

impl Db {
    fn range(&self, k: &[u8], a: i64, b: i64) -> Vec<Vec<u8>> {
        let Some(l) = self.lists.get(k) else { return vec![] };
        let n = l.len() as i64;
        let mut s = if a < 0 { n + a } else { a };
        let mut e = if b < 0 { n + b } else { b };
        if s < 0 {
            s = 0;
        }
        if e >= n {
            e = n - 1;
        }
        if s > e || s >= n {
            return vec![];
        }
        (s..=e).map(|i| l[i as usize].clone()).collect()
    }
    fn take(&mut self, k: &[u8], left: bool) -> Option<Vec<u8>> {
        let l = self.lists.get_mut(k)?;
        let r = if left { l.pop_front() } else { l.pop_back() };
        if l.is_empty() {
            self.lists.remove(k);
        }
        r
    }
    fn put(&mut self, k: &[u8], v: Vec<u8>, left: bool) -> i64 {
        let l = self.lists.entry(k.to_vec()).or_default();
        if left {
            l.push_front(v)
        } else {
            l.push_back(v)
        }
        l.len() as i64
    }
    fn exec(&mut self, c: &[Vec<u8>]) -> Vec<u8> {
        let cmd = String::from_utf8_lossy(&c[0]).to_uppercase();
        let left = |a: &[u8]| a.eq_ignore_ascii_case(b"LEFT");
        match cmd.as_str() {
            "PING" => b"+PONG\r\n".to_vec(),
            "LPUSH" | "RPUSH" => {
                let mut n = 0;
                for v in &c[2..] {
                    n = self.put(&c[1], v.clone(), cmd == "LPUSH");
                }
                int(n)
            }
            "LPOP" | "RPOP" => {
                if c.len() > 2 {
                    let mut v = vec![];
                    for _ in 0..num(&c[2]) {
                        if let Some(x) = self.take(&c[1], cmd == "LPOP") {
                            v.push(bulk(Some(&x)));
                        }
                    }
                    if v.is_empty() {
                        return b"*-1\r\n".to_vec();
                    }
                    return arr(v);
                }
                let x = self.take(&c[1], cmd == "LPOP");
                bulk(x.as_deref())
            }
            "LMOVE" => {
                let x = self.take(&c[1], left(&c[3]));
                if let Some(x) = &x {
                    self.put(&c[2], x.clone(), left(&c[4]));
                }
                bulk(x.as_deref())
            }
            "RPOPLPUSH" => {
                let x = self.take(&c[1], false);
                if let Some(x) = &x {
                    self.put(&c[2], x.clone(), true);
                }
                bulk(x.as_deref())
            }
            "LRANGE" => arr(self
                .range(&c[1], num(&c[2]), num(&c[3]))
                .iter()
                .map(|x| bulk(Some(x)))
                .collect()),
            "LINDEX" => {
                let i = num(&c[2]);
                let r = self.range(&c[1], i, i);
                bulk(r.first().map(|v| v.as_slice()))
            }
            "LLEN" => int(self.lists.get(&c[1]).map_or(0, |l| l.len() as i64)),
            "LREM" => {
                let n = num(&c[2]);
                let mut removed = 0;
                if let Some(l) = self.lists.get_mut(&c[1]) {
                    let lim = if n == 0 { i64::MAX } else { n.abs() };
                    let mut keep: VecDeque<Vec<u8>> = VecDeque::new();
                    if n >= 0 {
                        for x in l.drain(..) {
                            if removed < lim && x == c[3] {
                                removed += 1;
                            } else {
                                keep.push_back(x);
                            }
                        }
                    } else {
                        for x in l.drain(..).rev() {
                            if removed < lim && x == c[3] {
                                removed += 1;
                            } else {
                                keep.push_front(x);
                            }
                        }
                    }
                    *l = keep;
                    if l.is_empty() {
                        self.lists.remove(&c[1]);
                    }
                }
                int(removed)
            }
            "HSET" | "HMSET" => {
                let mut n = 0;
                for p in c[2..].chunks(2) {
                    if self
                        .hashes
                        .entry(c[1].clone())
                        .or_default()
                        .insert(p[0].clone(), p[1].clone())
                        .is_none()
                    {
                        n += 1;
                    }
                }
                if cmd == "HSET" {
                    int(n)
                } else {
                    b"+OK\r\n".to_vec()
                }
            }
            "HSETNX" => {
                let h = self.hashes.entry(c[1].clone()).or_default();
                let new = !h.contains_key(&c[2]);
                if new {
                    h.insert(c[2].clone(), c[3].clone());
                }
                int(new as i64)
            }
            "HMGET" => arr(c[2..]
                .iter()
                .map(|k| bulk(self.hashes.get(&c[1]).and_then(|h| h.get(k)).map(|v| v.as_slice())))
                .collect()),
            "HGETALL" => arr(self
                .hashes
                .get(&c[1])
                .into_iter()
                .flatten()
                .flat_map(|(k, v)| [bulk(Some(k)), bulk(Some(v))])
                .collect()),
            "LPUSHX" | "RPUSHX" => {
                if self.lists.contains_key(&c[1]) {
                    self.put(&c[1], c[2].clone(), cmd == "LPUSHX");
                }
                int(self.lists.get(&c[1]).map_or(0, |l| l.len() as i64))
            }
            "LTRIM" => {
                let keep: VecDeque<Vec<u8>> = self.range(&c[1], num(&c[2]), num(&c[3])).into_iter().map(|x| x.to_vec()).collect();
                self.lists.remove(&c[1]);
                if !keep.is_empty() {
                    self.lists.insert(c[1].clone(), keep);
                }
                b"+OK\r\n".to_vec()
            }
            "LPOS" => {
                let p = self.lists.get(&c[1]).and_then(|l| l.iter().position(|x| *x == c[2]));
                p.map_or(bulk(None), |p| int(p as i64))
            }
            "HGET" => bulk(self.hashes.get(&c[1]).and_then(|h| h.get(&c[2])).map(|v| v.as_slice())),
            "HEXISTS" => int(self.hashes.get(&c[1]).is_some_and(|h| h.contains_key(&c[2])) as i64),
            "HDEL" => {
                int(self.hashes.get_mut(&c[1]).is_some_and(|h| h.remove(&c[2]).is_some()) as i64)
            }
            "HLEN" => int(self.hashes.get(&c[1]).map_or(0, |h| h.len() as i64)),
            "DEL" => {
                let mut n = 0;
                for k in &c[1..] {
                    n += (self.lists.remove(k).is_some() || self.hashes.remove(k).is_some()) as i64;
                }
                int(n)
            }
            "EXISTS" => {
                int((self.lists.contains_key(&c[1]) || self.hashes.contains_key(&c[1])) as i64)
            }
            "CLIENT" | "SELECT" | "AUTH" | "HELLO" | "READONLY" | "WATCH" | "UNWATCH" => b"+OK\r\n".to_vec(),
            _ => b"-ERR unknown command\r\n".to_vec(),
        }
    }
}

fn parse(buf: &[u8]) -> Option<(Vec<Vec<u8>>, usize)> {
    fn line(b: &[u8], i: usize) -> Option<(&[u8], usize)> {
        let p = b[i..].windows(2).position(|w| w == b"\r\n")?;
        Some((&b[i..i + p], i + p + 2))
    }
    let (h, mut i) = line(buf, 0)?;
    if h.first() != Some(&b'*') {
        return Some((vec![h.to_vec()], i));
    }
    let n = num(&h[1..]);
    let mut out = vec![];
    for _ in 0..n {
        let (l, j) = line(buf, i)?;
        let len = num(&l[1..]) as usize;
        if buf.len() < j + len + 2 {
            return None;
        }
        out.push(buf[j..j + len].to_vec());
        i = j + len + 2;
    }
    Some((out, i))
}

struct Conn {
    s: TcpStream,
    buf: Vec<u8>,
    multi: Option<Vec<Vec<Vec<u8>>>>,
}

/// Data commands with index in [from, to) fail: with an error reply ("err"), by closing the
/// connection before ("drop") or after ("lost") they are carried out.
#[derive(Default)]
struct Deny {
    n: i64,
    from: i64,
    to: i64,
    hits: i64,
    mode: String,
}

fn serve(l: TcpListener) -> ! {
    let mut db = Db::default();
    let mut deny = Deny::default();
    let mut conns: Vec<Conn> = vec![];
    loop {
        let mut fds = vec![libc::pollfd { fd: l.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
        for c in &conns {
            fds.push(libc::pollfd { fd: c.s.as_raw_fd(), events: libc::POLLIN, revents: 0 });
        }
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, -1) };
        let mut dead = vec![];
        for (i, c) in conns.iter_mut().enumerate() {
            if fds[i + 1].revents == 0 {
                continue;
            }
            let mut b = [0u8; 65536];
            match c.s.read(&mut b) {
                Ok(0) | Err(_) => {
                    dead.push(i);
                    continue;
                }
                Ok(n) => c.buf.extend_from_slice(&b[..n]),
            }
            while let Some((cmd, used)) = parse(&c.buf) {
                c.buf.drain(..used);
                if cmd.is_empty() {
                    continue;
                }
                let name = String::from_utf8_lossy(&cmd[0]).to_uppercase();
                if name == "XDENY" {
                    deny = Deny { n: 0, from: num(&cmd[1]), to: num(&cmd[1]) + num(&cmd[2]), hits: 0, mode: String::from_utf8_lossy(&cmd[3]).into() };
                    let _ = c.s.write_all(b"+OK\r\n");
                    continue;
                }
                if name == "XHITS" {
                    let _ = c.s.write_all(&int(deny.hits));
                    deny = Deny::default();
                    continue;
                }
                let data = c.multi.is_none() && !["CLIENT", "SELECT", "AUTH", "HELLO", "READONLY", "PING", "MULTI", "WATCH", "UNWATCH", "DISCARD"].contains(&name.as_str())
                    || name == "EXEC";
                if data {
                    deny.n += 1;
                }
                let hit = data && deny.n > deny.from && deny.n <= deny.to;
                if hit {
                    deny.hits += 1;
                    if deny.mode != "lost" {
                        c.multi = None;
                        if deny.mode == "err" {
                            let _ = c.s.write_all(b"-ERR injected\r\n");
                            continue;
                        }
                        dead.push(i);
                        break;
                    }
                }
                let reply = match (name.as_str(), &mut c.multi) {
                    ("MULTI", m) => {
                        *m = Some(vec![]);
                        b"+OK\r\n".to_vec()
                    }
                    ("EXEC", m) => {
                        let q = m.take().unwrap_or_default();
                        arr(q.iter().map(|x| db.exec(x)).collect())
                    }
                    ("DISCARD", m) => {
                        *m = None;
                        b"+OK\r\n".to_vec()
                    }
                    (_, Some(q)) => {
                        q.push(cmd);
                        b"+QUEUED\r\n".to_vec()
                    }
                    (_, None) => db.exec(&cmd),
                };
                if hit || c.s.write_all(&reply).is_err() {
                    dead.push(i);
                    break;
                }
            }
        }
        for i in dead.into_iter().rev() {
            conns.remove(i);
        }
        if fds[0].revents != 0 {
            if let Ok((s, _)) = l.accept() {
                let _ = s.set_nodelay(true);
                conns.push(Conn { s, buf: vec![], multi: None });
            }
        }
    }
}

fn ask(port: u16, cmd: &[&str]) -> i64 {
    let mut o = format!("*{}\r\n", cmd.len());
    for c in cmd {
        o += &format!("${}\r\n{c}\r\n", c.len());
    }
    let mut s = TcpStream::connect(("127.0.0.1", port)).expect("connect");
    s.write_all(o.as_bytes()).unwrap();
    let mut b = [0u8; 64];
    let n = s.read(&mut b).unwrap_or(0);
    String::from_utf8_lossy(&b[..n]).trim_start_matches(':').trim().parse().unwrap_or(0)
}
pub fn deny(port: u16, from: i64, len: i64, mode: &str) {
    ask(port, &["XDENY", &from.to_string(), &len.to_string(), mode]);
}
/// How many commands failed; none do from now on.
pub fn hits(port: u16) -> i64 {
    ask(port, &["XHITS"])
}

/// Fork the server; returns its port. It dies with the calling process.
pub fn start() -> u16 {
    start_pid().1
}
pub fn start_pid() -> (i32, u16) {
    let l = TcpListener::bind("127.0.0.1:0").expect("bind");
    let port = l.local_addr().unwrap().port();
    let parent = unsafe { libc::getpid() };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != parent {
                libc::_exit(0);
            }
        }
        serve(l);
    }
    (pid, port)
}
